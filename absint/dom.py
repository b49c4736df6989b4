"""Numeric abstract domain.

A numeric abstract value is either a concrete Python number or a `Lin`: a
polynomial in normal form over *atoms* (Lin because atoms are usually plain
variables; products of atoms are interned as monomial atoms, so equal
polynomials have equal representations).  Which concrete numbers an atom may
take is described by the abstract state: interval facts on linear forms.

Bit operations on integers are reduced to linear forms over floor-shift atoms:
    V & (2^k-1) = V - 2^k * (V >> k)
and (V >> k) is 0 / -neg(V) when the bounds of V allow it.
"""
from fractions import Fraction
import math

INF = float("inf")


class Atom(object):
    __slots__ = ("id", "name", "isint", "lo", "hi", "defn", "when")

    def __init__(self, i, name, isint, lo, hi, defn):
        self.id = i
        self.name = name
        self.isint = isint
        self.lo = lo
        self.hi = hi
        self.defn = defn
        self.when = None

    @property
    def isbool(self):
        return self.isint and self.lo == 0 and self.hi == 1


ATOMS = []
_INTERN = {}
FORMS = {}  # intrinsic facts: form key -> (lo, hi)


def reset():
    del ATOMS[:]
    _INTERN.clear()
    FORMS.clear()


def fresh(name, isint=True, lo=-INF, hi=INF, defn=None):
    a = Atom(len(ATOMS), name, isint, lo, hi, defn)
    ATOMS.append(a)
    return a


def sym(name, isint=True, lo=-INF, hi=INF):
    return Lin(0, ((fresh(name, isint, lo, hi).id, 1),))


def _num(v):
    """Concrete number -> exact int/Fraction (None for inf/nan/complex)."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, Fraction)):
        return v
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return None
        if v == int(v):
            return int(v)
        return Fraction(v)
    return None


class Lin(object):
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        out = []
        for a, k in self.t:
            n = atom_name(a)
            out.append(("%s" % n) if k == 1 else ("-%s" % n if k == -1 else "%s*%s" % (k, n)))
        if self.c or not out:
            out.append(str(self.c))
        return " + ".join(out).replace("+ -", "- ")


def atom_name(i):
    a = ATOMS[i]
    if a.defn and a.defn[0] in ("shr", "neg", "round", "trunc", "abs", "ceil", "floor"):
        d = a.defn
        return "%s(%s)" % (d[0], ",".join(repr(x) for x in d[1:]))
    if a.defn and a.defn[0] == "mono":
        return "*".join(atom_name(x) for x in a.defn[1])
    return "%s#%d" % (a.name, i)


def isnum(v):
    return isinstance(v, (Lin, int, float, Fraction)) and not isinstance(v, bool)


def mk(c, terms):
    """terms: dict id->coef. Returns Lin or a concrete number."""
    t = tuple(sorted((a, k) for a, k in terms.items() if k != 0))
    if not t:
        return conc(c)
    return Lin(c, t)


def conc(c):
    if isinstance(c, Fraction):
        if c.denominator == 1:
            return int(c)
        return float(c) if Fraction(float(c)) == c else c
    return c


def tolin(v):
    """-> Lin (possibly with no terms) or None."""
    if isinstance(v, Lin):
        return v
    n = _num(v)
    if n is None:
        return None
    return Lin(n, ())


def _clean(k):
    if isinstance(k, Fraction) and k.denominator == 1:
        return int(k)
    return k


def lin_add(a, b, kb=1):
    d = dict(a.t)
    for i, k in b.t:
        s = _clean(d.get(i, 0) + k * kb)
        if s == 0:
            d.pop(i, None)
        else:
            d[i] = s
    return mk(_clean(a.c + b.c * kb), d)


def scale(a, k):
    k = _clean(k)
    if k == 0:
        return 0
    return mk(_clean(a.c * k), dict((i, _clean(c * k)) for i, c in a.t))


def add(a, b):
    if not isinstance(a, Lin) and not isinstance(b, Lin):
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            if isinstance(a, float) or isinstance(b, float):
                return float(a) + float(b)
            return conc(Fraction(a) + b)
        return a + b
    la, lb = tolin(a), tolin(b)
    if la is None or lb is None:
        return None if la is not None or lb is not None else None
    return lin_add(la, lb)


def neg(a):
    if isinstance(a, Lin):
        return scale(a, -1)
    return -a


def sub(a, b):
    if not isinstance(a, Lin) and not isinstance(b, Lin):
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            if isinstance(a, float) or isinstance(b, float):
                return float(a) - float(b)
            return conc(Fraction(a) - b)
        return a - b
    la, lb = tolin(a), tolin(b)
    if la is None or lb is None:
        return None
    return lin_add(la, lb, -1)


def mono_atoms(i):
    d = ATOMS[i].defn
    if d and d[0] == "mono":
        return d[1]
    return (i,)


def mono(ids):
    ids = list(ids)
    # squares of booleans collapse
    out = []
    for i in sorted(ids):
        if out and out[-1] == i and ATOMS[i].isbool:
            continue
        out.append(i)
    ids = tuple(out)
    if len(ids) == 1:
        return ids[0]
    key = ("mono", ids)
    if key in _INTERN:
        return _INTERN[key]
    isint = all(ATOMS[i].isint for i in ids)
    lo, hi = 1, 1
    for i in ids:
        lo, hi = imul((lo, hi), (ATOMS[i].lo, ATOMS[i].hi))
    if len(ids) == 2 and ids[0] == ids[1]:
        lo = max(lo, 0)
    a = fresh("mono", isint, lo, hi, key)
    _INTERN[key] = a.id
    return a.id


def mul(a, b):
    if not isinstance(a, Lin) and not isinstance(b, Lin):
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            if isinstance(a, float) or isinstance(b, float):
                return float(a) * float(b)
            return conc(Fraction(a) * b)
        return a * b
    la, lb = tolin(a), tolin(b)
    if la is None or lb is None:
        return None
    if not la.t:
        return scale(lb, la.c)
    if not lb.t:
        return scale(la, lb.c)
    if len(la.t) * len(lb.t) > 64:
        return opaque("mul", (la, lb), False)
    d = {}
    for i, k in la.t:
        for j, m in lb.t:
            x = mono(mono_atoms(i) + mono_atoms(j))
            d[x] = _clean(d.get(x, 0) + k * m)
    for i, k in la.t:
        d[i] = _clean(d.get(i, 0) + k * lb.c)
    for j, m in lb.t:
        d[j] = _clean(d.get(j, 0) + m * la.c)
    return mk(_clean(la.c * lb.c), d)


def div(a, b):
    if isinstance(b, Lin):
        la = tolin(a)
        if la is None:
            return None
        return opaque("div", (la, b), False)
    if not isinstance(a, Lin):
        if b == 0:
            return None
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            return conc(Fraction(a) / Fraction(b))
        return a / b
    n = _num(b)
    if n is None:
        return 0.0 if isinstance(b, float) and math.isinf(b) else None
    if n == 0:
        return None
    return scale(a, Fraction(1) / n)


def opaque(kind, args, isint, lo=-INF, hi=INF):
    key = (kind,) + tuple(args)
    if key in _INTERN:
        return Lin(0, ((_INTERN[key], 1),))
    a = fresh(kind, isint, lo, hi, key)
    _INTERN[key] = a.id
    return Lin(0, ((a.id, 1),))


def is_int_lin(v):
    if isinstance(v, bool):
        return True
    if isinstance(v, int):
        return True
    if isinstance(v, Lin):
        if not isinstance(v.c, int):
            return False
        return all(isinstance(k, int) and ATOMS[i].isint for i, k in v.t)
    if isinstance(v, float):
        return v == v and not math.isinf(v) and v == int(v)
    return False


def m0(a, b):
    """product with 0*inf = 0"""
    if a == 0 or b == 0:
        return 0
    return a * b


def imul(x, y):
    ps = [m0(x[0], y[0]), m0(x[0], y[1]), m0(x[1], y[0]), m0(x[1], y[1])]
    return min(ps), max(ps)


def formkey(lin):
    """Lin -> (key tuple, scale s, const c) with lin = s*form + c; form has
    coprime integer coefficients and a positive leading coefficient."""
    ks = [k for _, k in lin.t]
    den = 1
    for k in ks:
        if isinstance(k, Fraction):
            den = den * k.denominator // math.gcd(den, k.denominator)
    ik = [int(k * den) for k in ks]
    g = 0
    for k in ik:
        g = math.gcd(g, abs(k))
    if ik[0] < 0:
        g = -g
    key = tuple((lin.t[n][0], ik[n] // g) for n in range(len(ik)))
    s = Fraction(g, den)
    return key, _clean(s), lin.c


def _subst(key, i, val):
    c = 0
    d = {}
    for j, k in key:
        if j == i:
            c = k * val
        else:
            d[j] = k
    return mk(c, d)


def form_lin(key):
    return Lin(0, key)


class Infeasible(Exception):
    pass


class Facts(object):
    """Interval facts on linear forms; immutable (copy on change)."""
    __slots__ = ("d", "cache")

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self.cache = {}

    def copy(self):
        return Facts(dict(self.d))

    def atom_bounds(self, i):
        a = ATOMS[i]
        lo, hi = a.lo, a.hi
        f = self.d.get(((i, 1),))
        if f is not None:
            if f[0] > lo:
                lo = f[0]
            if f[1] < hi:
                hi = f[1]
        d = a.defn
        if d is not None:
            if d[0] == "shr":
                l, h = self.bounds(d[1], 2)
                n = 1 << d[2]
                if l != -INF:
                    lo = max(lo, math.floor(Fraction(l) / n) if not isinstance(l, float) else math.floor(l / n))
                if h != INF:
                    hi = min(hi, math.floor(Fraction(h) / n) if not isinstance(h, float) else math.floor(h / n))
            elif d[0] == "neg":
                l, h = self.bounds(d[1], 2)
                if l >= 0:
                    hi = min(hi, 0)
                if h < 0:
                    lo = max(lo, 1)
            elif d[0] == "abs":
                l, h = self.bounds(d[1], 2)
                hi = min(hi, max(abs(l), abs(h)))
                if l > 0:
                    lo = max(lo, l)
                if h < 0:
                    lo = max(lo, -h)
            elif d[0] in ("round", "ceil", "floor", "trunc"):
                l, h = self.bounds(d[1], 2)
                if l != -INF:
                    lo = max(lo, math.floor(l) if d[0] != "ceil" else math.ceil(l))
                if h != INF:
                    hi = min(hi, math.ceil(h) if d[0] != "floor" else math.floor(h))
            elif d[0] == "mono":
                x = (1, 1)
                for j in d[1]:
                    x = imul(x, self.atom_bounds(j))
                lo, hi = max(lo, x[0]), min(hi, x[1])
        return lo, hi

    def bounds(self, v, depth=0):
        if not isinstance(v, Lin):
            n = _num(v)
            if n is None:
                if isinstance(v, float) and math.isinf(v):
                    return v, v
                return -INF, INF
            return n, n
        if not v.t:
            return v.c, v.c
        key, s, c = formkey(v)
        r = self.cache.get((key, depth))
        if r is None:
            r = self.cache[(key, depth)] = self._form_bounds(key, depth)
        lo, hi = m0(r[0], s), m0(r[1], s)
        if s < 0:
            lo, hi = hi, lo
        return _clean2(lo + c), _clean2(hi + c)

    def _form_bounds(self, key, depth):
        lo = hi = 0
        for i, k in key:
            a, b = self.atom_bounds(i)
            if k < 0:
                a, b = b, a
            lo = lo + m0(a, k)
            hi = hi + m0(b, k)
        f = self.d.get(key)
        if f is not None:
            lo, hi = max(lo, f[0]), min(hi, f[1])
        f = FORMS.get(key)
        if f is not None:
            lo, hi = max(lo, f[0]), min(hi, f[1])
        if len(key) >= 2 and lo != hi:
            for i, k in key:
                a = ATOMS[i]
                if a.defn is not None and a.defn[0] == "abs":
                    w = self.unabs(a)
                    if w is not None:
                        r = add(Lin(0, tuple(x for x in key if x[0] != i)), scale(w, k))
                        if isinstance(r, Lin) and any(j == i for j, _ in r.t):
                            continue
                        r = self.bounds(r, depth)
                        return max(lo, r[0]), min(hi, r[1])
        if len(key) >= 2 and depth < 2 and lo != hi:
            for i, k in key:
                a = ATOMS[i]
                if a.isbool and (a.when is not None or (a.defn is not None and a.defn[0] == "neg")) \
                        and self.pinned(i) is None:
                    r = None
                    for val in (0, 1):
                        g = self.copy()
                        try:
                            g._set(((i, 1),), val, val)
                            b = g.bounds(_subst(key, i, val), depth + 1)
                        except Infeasible:
                            continue
                        r = b if r is None else (min(r[0], b[0]), max(r[1], b[1]))
                    if r is not None:
                        lo, hi = max(lo, r[0]), min(hi, r[1])
                    break
        if len(key) >= 2 and depth < 2 and (lo == -INF or hi == INF or hi - lo > 0):
            ids = set(i for i, _ in key)
            for fk, (fl, fh) in self.d.items():
                if len(fk) < 2 or fk == key:
                    continue
                # use when the fact removes at least two of the atoms
                fids = [i for i, _ in fk if i in ids]
                if len(fids) < 2:
                    continue
                kd = dict(key)
                i0 = fids[0]
                k0 = dict(fk)[i0]
                m = Fraction(kd[i0], k0)
                rest = dict(kd)
                for i, k in fk:
                    rest[i] = _clean(rest.get(i, 0) - m * k)
                rest = mk(0, rest)
                nrest = len(rest.t) if isinstance(rest, Lin) else 0
                if nrest >= len(key):
                    continue
                rl, rh = self.bounds(rest, depth + 1)
                a, b = m0(fl, m), m0(fh, m)
                if m < 0:
                    a, b = b, a
                lo = max(lo, a + rl)
                hi = min(hi, b + rh)
        return lo, hi

    def assume(self, lin, lo, hi):
        """Refine with lin in [lo,hi] (in place). Raises Infeasible."""
        if not isinstance(lin, Lin) or not lin.t:
            v = lin.c if isinstance(lin, Lin) else _num(lin)
            if v is None:
                return
            if v < lo or v > hi:
                raise Infeasible()
            return
        key, s, c = formkey(lin)
        # s*form + c in [lo,hi]
        a = (Fraction(lo - c) / s) if lo not in (INF, -INF) else (lo if s > 0 else -lo)
        b = (Fraction(hi - c) / s) if hi not in (INF, -INF) else (hi if s > 0 else -hi)
        if s < 0:
            a, b = b, a
        if all(ATOMS[i].isint for i, _ in key):
            if a not in (INF, -INF):
                a = math.ceil(a)
            if b not in (INF, -INF):
                b = math.floor(b)
        self._set(key, _clean2(a), _clean2(b))

    def _set(self, key, a, b, depth=0):
        cl, ch = self.bounds(form_lin(key), 2)
        nl, nh = max(a, cl), min(b, ch)
        if nl > nh:
            raise Infeasible()
        if nl == cl and nh == ch:
            old = self.d.get(key)
            if old is None and len(key) > 1 and (nl != -INF or nh != INF):
                pass
            else:
                return
        self.d[key] = (nl, nh)
        self.cache = {}
        if len(key) == 1:
            self._atom_refined(key[0][0], nl, nh, depth)
        elif depth < 3:
            for i, k in key:
                rl = rh = 0
                for j, m in key:
                    if j == i:
                        continue
                    x, y = self.atom_bounds(j)
                    if m < 0:
                        x, y = y, x
                    rl += m0(x, m)
                    rh += m0(y, m)
                # k*ai in [nl - rh, nh - rl]
                lo = nl - rh if rh != INF and nl != -INF else -INF
                hi = nh - rl if rl != -INF and nh != INF else INF
                if lo == -INF and hi == INF:
                    continue
                lo = Fraction(lo) / k if lo not in (INF, -INF) else (lo if k > 0 else -lo)
                hi = Fraction(hi) / k if hi not in (INF, -INF) else (hi if k > 0 else -hi)
                if k < 0:
                    lo, hi = hi, lo
                if ATOMS[i].isint:
                    if lo not in (INF, -INF):
                        lo = math.ceil(lo)
                    if hi not in (INF, -INF):
                        hi = math.floor(hi)
                al, ah = self.atom_bounds(i)
                if lo > al or hi < ah:
                    self._set(((i, 1),), _clean2(lo), _clean2(hi), depth + 1)
        # forms that mention a pinned atom keep their own bounds; bounds() copes.

    def _atom_refined(self, i, lo, hi, depth):
        if depth > 4:
            return
        a = ATOMS[i]
        d = a.defn
        if a.isbool and lo == hi and a.when is not None:
            for key, l, h in a.when[int(lo)]:
                self._set(key, l, h, depth + 1)
        if d is None:
            return
        if d[0] == "neg":
            if lo == 1:
                self.assume(d[1], -INF, -1)
            elif hi == 0:
                self.assume(d[1], 0, INF)
        elif d[0] == "shr":
            n = 1 << d[2]
            self.assume(d[1], lo * n if lo != -INF else -INF, hi * n + n - 1 if hi != INF else INF)
        elif d[0] == "abs":
            if hi != INF:
                self.assume(d[1], -hi, hi)
            if lo > 0:
                l, h = self.bounds(d[1])
                if l >= 0:
                    self.assume(d[1], lo, INF)
                elif h <= 0:
                    self.assume(d[1], -INF, -lo)

    def pinned(self, i):
        lo, hi = self.atom_bounds(i)
        if lo == hi:
            return _clean2(lo)
        return None

    def unabs(self, a):
        """|x| as x or -x when the sign is known."""
        x = a.defn[1]
        if not isinstance(x, Lin):
            return None
        lo, hi = self.bounds(x)
        return x if lo >= 0 else (scale(x, -1) if hi <= 0 else None)

    def simplify(self, v):
        """Substitute pinned atoms."""
        if not isinstance(v, Lin):
            return v
        hit = False
        c = v.c
        d = {}
        for i, k in v.t:
            p = self.pinned(i)
            if p is not None:
                c = c + k * p
                hit = True
            else:
                d[i] = k
        if not hit:
            if len(v.t) > 1:
                lo, hi = self.bounds(v)
                if lo == hi:
                    return conc(_clean2(lo))
            return v
        r = mk(_clean(c), d)
        if isinstance(r, Lin):
            lo, hi = self.bounds(r)
            if lo == hi:
                return conc(_clean2(lo))
        return r

    def bools_in(self, v):
        out = []
        for i, _ in v.t:
            a = ATOMS[i]
            if a.isbool and self.pinned(i) is None:
                out.append(i)
        return out


def _clean2(k):
    if isinstance(k, Fraction) and k.denominator == 1:
        return int(k)
    if isinstance(k, float) and not math.isinf(k) and k == int(k):
        return int(k)
    return k


# ---------------------------------------------------------------- bit ops

def centered(c, n):
    c = c % n
    if c > n // 2:
        c -= n
    return c


def shr(v, k, facts):
    """floor(v / 2^k) for an integer Lin."""
    if not isinstance(v, Lin):
        return int(v) >> k
    if k == 0:
        return v
    n = 1 << k
    out = {}
    rest = {}
    for i, c in v.t:
        if c % n == 0:
            out[i] = c // n
        else:
            q = centered(c, n)
            if (c - q) // n:
                out[i] = (c - q) // n
            rest[i] = q
    for cc in (v.c % n, centered(v.c, n)):
        r = mk(cc, rest)
        o = mk((v.c - cc) // n, out)
        if not isinstance(r, Lin):
            return add(o, int(r) >> k)
        lo, hi = facts.bounds(r)
        if lo >= 0 and hi < n:
            return o
        if lo >= -n and hi < 0:
            return sub(o, 1)
    # a coefficient n/2 stands for -n/2 just as well
    half = [i for i, c in rest.items() if abs(c) * 2 == n]
    if half and len(half) <= 3:
        for bits in range(1 << len(half)):
            alt = dict(rest)
            for j, i in enumerate(half):
                alt[i] = n // 2 if (bits >> j) & 1 else -(n // 2)
            for cc in (v.c % n, centered(v.c, n)):
                r = mk(cc, alt)
                lo, hi = facts.bounds(r)
                if lo >= 0 and hi < n:
                    return _exact_quot(v, r, n)
    # coefficients could also be represented non-centered (0..n-1)
    rest2 = dict((i, c % n) for i, c in rest.items())
    r2 = mk(v.c % n, rest2)
    lo, hi = facts.bounds(r2)
    if lo >= 0 and hi < n:
        return _exact_quot(v, r2, n)
    r = mk(v.c % n, rest)
    o = mk((v.c - v.c % n) // n, out)
    lo, hi = facts.bounds(r)
    rc = mk(centered(v.c, n), rest)
    lo2, hi2 = facts.bounds(rc)
    if lo >= -n and hi < n:
        return sub(o, negind(r))
    if lo2 >= -n and hi2 < n:
        return sub(_exact_quot(v, rc, n), negind(rc))
    if len(r.t) == 1 and r.c == 0 and r.t[0][1] == 1:
        d = ATOMS[r.t[0][0]].defn
        if d and d[0] == "shr":
            return add(o, shr(d[1], d[2] + k, facts))
    at = opaque("shr", (r, k), True)
    fk, s, c = formkey(sub(r, scale(at, n)))
    if s > 0:
        FORMS[fk] = ((0 - c) / Fraction(s), (n - 1 - c) / Fraction(s))
    else:
        FORMS[fk] = ((n - 1 - c) / Fraction(s), (0 - c) / Fraction(s))
    return add(o, at)


def _exact_quot(v, r, n):
    d = sub(v, r)
    if not isinstance(d, Lin):
        return int(d) // n
    return mk(d.c // n, dict((i, c // n) for i, c in d.t))


def negind(r):
    """boolean atom: r < 0"""
    if not isinstance(r, Lin):
        return 1 if r < 0 else 0
    while isinstance(r, Lin) and len(r.t) == 1 and r.c == 0 and r.t[0][1] == 1:
        d = ATOMS[r.t[0][0]].defn
        if d and d[0] == "shr":
            r = d[1]
        else:
            break
    return opaque("neg", (r,), True, 0, 1)


def mod2k(v, k, facts):
    if not isinstance(v, Lin):
        return int(v) & ((1 << k) - 1)
    n = 1 << k
    lo, hi = facts.bounds(v)
    if lo >= 0 and hi < n:
        return v
    return sub(v, scale(tolin(shr(v, k, facts)), n) if isinstance(shr(v, k, facts), Lin) else shr(v, k, facts) * n)


def runs(m):
    out = []
    i = 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def band_const(v, m, facts):
    if not isinstance(v, Lin):
        return int(v) & m
    if m >= 0:
        tot = 0
        for a, b in runs(m):
            part = mod2k(shr(v, a, facts), b - a, facts)
            tot = add(tot, mul(part, 1 << a))
        return tot
    # m negative: v & m = v - (v & ~m)
    return sub(v, band_const(v, ~m, facts))


def occupancy(v, facts):
    """Bit mask that a non-negative v may occupy, when v is a sum of terms on
    disjoint bit ranges; None when unknown."""
    if not isinstance(v, Lin):
        return int(v) if int(v) >= 0 else None
    mask = v.c if isinstance(v.c, int) and v.c >= 0 else None
    if mask is None:
        # fall back on bounds
        lo, hi = facts.bounds(v)
        if lo >= 0 and hi != INF:
            return (1 << int(hi).bit_length()) - 1
        return None
    ok = True
    for i, k in v.t:
        lo, hi = facts.atom_bounds(i)
        if not isinstance(k, int) or k <= 0 or lo < 0 or hi == INF:
            ok = False
            break
        tz = (k & -k).bit_length() - 1
        w = (int(hi) * (k >> tz)).bit_length()
        r = ((1 << w) - 1) << tz
        if mask & r:
            ok = False
            break
        mask |= r
    if ok:
        return mask
    if not all(isinstance(k, int) for _, k in v.t) or not isinstance(v.c, int):
        lo, hi = facts.bounds(v)
        return (1 << int(hi).bit_length()) - 1 if lo >= 0 and hi != INF else None
    # cut the sum into segments that provably do not carry into each other
    tzs = sorted(set((abs(k) & -abs(k)).bit_length() - 1 for _, k in v.t))
    mask = 0
    cur = v
    for k in tzs + [None]:
        if k is None:
            low, rest = cur, 0
        else:
            n = 1 << k
            low = tolin(mk(cur.c % n, dict((i, c) for i, c in cur.t if c % n)))
            rest = mk(cur.c - cur.c % n, dict((i, c) for i, c in cur.t if c % n == 0))
        lo, hi = facts.bounds(low)
        if lo < 0 or hi == INF or (k is not None and hi >= (1 << k)):
            if k is None:
                return None
            continue
        if hi > 0:
            z = None
            for c in ([low.c] + [c for _, c in low.t]) if isinstance(low, Lin) else [low]:
                if c:
                    y = (abs(c) & -abs(c)).bit_length() - 1
                    z = y if z is None else min(z, y)
            mask |= ((1 << int(hi).bit_length()) - 1) & ~((1 << (z or 0)) - 1)
        cur = tolin(rest)
    return mask


def band(a, b, facts):
    if not isinstance(b, Lin):
        return band_const(a, int(b), facts)
    if not isinstance(a, Lin):
        return band_const(b, int(a), facts)
    if a == b:
        return a
    oa, ob = occupancy(a, facts), occupancy(b, facts)
    if oa is not None and ob is not None and (oa & ob) == 0:
        return 0
    return opaque("and", tuple(sorted((a, b), key=repr)), True)


def bor(a, b, facts):
    if not isinstance(a, Lin) and not isinstance(b, Lin):
        return int(a) | int(b)
    if not isinstance(a, Lin) or not isinstance(b, Lin):
        v, m = (a, int(b)) if isinstance(a, Lin) else (b, int(a))
        return sub(add(v, m), band_const(v, m, facts))
    oa, ob = occupancy(a, facts), occupancy(b, facts)
    if oa is not None and ob is not None and (oa & ob) == 0:
        return add(a, b)
    if a == b:
        return a
    return opaque("or", tuple(sorted((a, b), key=repr)), True)


def bxor(a, b, facts):
    if not isinstance(a, Lin) and not isinstance(b, Lin):
        return int(a) ^ int(b)
    if not isinstance(a, Lin) or not isinstance(b, Lin):
        v, m = (a, int(b)) if isinstance(a, Lin) else (b, int(a))
        return sub(add(v, m), mul(band_const(v, m, facts), 2))
    oa, ob = occupancy(a, facts), occupancy(b, facts)
    if oa is not None and ob is not None and (oa & ob) == 0:
        return add(a, b)
    return opaque("xor", tuple(sorted((a, b), key=repr)), True)


def floordiv(a, b, facts):
    if not isinstance(a, Lin) and not isinstance(b, Lin):
        return a // b if b else None
    if isinstance(a, Lin) and isinstance(b, int) and b > 0 and is_int_lin(a):
        if b & (b - 1) == 0:
            return shr(a, b.bit_length() - 1, facts)
        lo, hi = facts.bounds(a)
        if lo >= 0 and hi < b:
            return 0
        l2 = lo // b if lo != -INF else -INF
        h2 = hi // b if hi != INF else INF
        return opaque("fdiv", (a, b), True, l2 if l2 == -INF else math.floor(l2), h2 if h2 == INF else math.floor(h2))
    return opaque("fdiv", (tolin(a), tolin(b)), is_int_lin(a) and is_int_lin(b)) \
        if tolin(a) is not None and tolin(b) is not None else None


def mod(a, b, facts):
    if not isinstance(a, Lin) and not isinstance(b, Lin):
        return a % b if b else None
    if isinstance(a, Lin) and isinstance(b, int) and b > 0 and is_int_lin(a):
        if b & (b - 1) == 0:
            return mod2k(a, b.bit_length() - 1, facts)
        lo, hi = facts.bounds(a)
        if lo >= 0 and hi < b:
            return a
        return opaque("mod", (a, b), True, 0, b - 1)
    if tolin(a) is None or tolin(b) is None:
        return None
    lo, hi = facts.bounds(b)
    isint = is_int_lin(a) and is_int_lin(b)
    if lo > 0:
        return opaque("mod", (tolin(a), tolin(b)), isint, 0, hi - 1 if isint and hi != INF else hi)
    return opaque("mod", (tolin(a), tolin(b)), isint)


def rnd(v, facts, kind="round"):
    if is_int_lin(v):
        return v if isinstance(v, Lin) else int(v)
    if not isinstance(v, Lin):
        if isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
            return None
        return {"round": round, "trunc": int, "ceil": math.ceil, "floor": math.floor}[kind](v)
    return opaque(kind, (v,), True)


def absv(v, facts):
    if not isinstance(v, Lin):
        return abs(v)
    lo, hi = facts.bounds(v)
    if lo >= 0:
        return v
    if hi <= 0:
        return neg(v)
    # canonical sign
    if v.t[0][1] < 0:
        v = neg(v)
    return opaque("abs", (v,), is_int_lin(v), 0, INF)


# ------------------------------------------------- corner-point evaluation

def direct_atoms(x, out):
    if isinstance(x, Lin):
        out.extend(j for j, _ in x.t)
    elif isinstance(x, tuple):
        for y in x:
            direct_atoms(y, out)


class NoValue(Exception):
    pass


def deps(v, out):
    """Base atoms (inputs) that v depends on, through definitions."""
    if isinstance(v, Lin):
        for i, _ in v.t:
            _deps_atom(i, out, set())
    return out


def _deps_atom(i, out, seen):
    if i in seen:
        return
    seen.add(i)
    a = ATOMS[i]
    if a.defn is None and a.when is None:
        out.add(i)
        return
    if a.defn is not None:
        if a.defn[0] == "mono":
            for j in a.defn[1]:
                _deps_atom(j, out, seen)
        else:
            for x in a.defn[1:]:
                _deps_any(x, out, seen)
    if a.when is not None:
        for side in a.when:
            for k, l, h in side:
                for j, _ in k:
                    _deps_atom(j, out, seen)


def _deps_any(x, out, seen):
    if isinstance(x, Lin):
        for j, _ in x.t:
            _deps_atom(j, out, seen)
    elif isinstance(x, tuple):
        for y in x:
            _deps_any(y, out, seen)


class Point(object):
    """Values of all atoms at one point of the input box."""

    def __init__(self, env):
        self.env = dict(env)
        self.busy = set()

    def atom(self, i):
        if i in self.env:
            return self.env[i]
        if i in self.busy:
            raise NoValue(i)
        self.busy.add(i)
        try:
            v = self._atom(i)
        finally:
            self.busy.discard(i)
        self.env[i] = v
        return v

    def _atom(self, i):
        a = ATOMS[i]
        d = a.defn
        if d is None and a.when is not None:
            ok = [self.holds(side) for side in a.when]
            if ok[0] and not ok[1]:
                return 0
            if ok[1] and not ok[0]:
                return 1
            raise NoValue(i)
        if d is None:
            raise NoValue(i)
        k = d[0]
        if k == "mono":
            r = 1
            for j in d[1]:
                r *= self.atom(j)
            return r
        xs = [self.lin(x) if isinstance(x, Lin) else x for x in d[1:]]
        if k == "shr":
            return math.floor(xs[0]) >> xs[1]
        if k == "neg":
            return 1 if xs[0] < 0 else 0
        if k == "abs":
            return abs(xs[0])
        if k == "and":
            return int(xs[0]) & int(xs[1])
        if k == "or":
            return int(xs[0]) | int(xs[1])
        if k == "xor":
            return int(xs[0]) ^ int(xs[1])
        if k == "fdiv":
            if xs[1] == 0:
                raise NoValue(i)
            return xs[0] // xs[1]
        if k == "mod":
            if xs[1] == 0:
                raise NoValue(i)
            return xs[0] % xs[1]
        if k == "mul":
            return xs[0] * xs[1]
        if k == "div":
            if xs[1] == 0:
                raise NoValue(i)
            return Fraction(xs[0]) / Fraction(xs[1])
        if k == "min":
            return min(xs)
        if k == "max":
            return max(xs)
        if k == "round":
            return round(xs[0])
        if k == "trunc" or k == "int":
            return math.trunc(xs[0])
        if k == "ceil":
            return math.ceil(xs[0])
        if k == "floor":
            return math.floor(xs[0])
        if k == "tab" and isinstance(xs[0], tuple):
            return xs[0][int(xs[1])]
        raise NoValue(i)

    def lin(self, v):
        if not isinstance(v, Lin):
            n = _num(v)
            if n is None:
                raise NoValue(v)
            return n
        r = v.c
        for i, k in v.t:
            r = r + k * self.atom(i)
        return r

    def holds(self, facts):
        for k, l, h in facts:
            x = self.lin(Lin(0, k))
            if x < l or x > h:
                return False
        return True


def points(ids, facts, n=160, seed=1):
    """Corner and interior points of the box of the given base atoms."""
    import random
    rnd_ = random.Random(seed)
    ids = sorted(ids)
    cand = []
    for i in ids:
        lo, hi = facts.atom_bounds(i)
        isint = ATOMS[i].isint
        if lo == -INF:
            lo = -1000 if hi == INF or hi > -1000 else hi - 1000
        if hi == INF:
            hi = 1000 if lo < 1000 else lo + 1000
        if isint:
            lo, hi = math.ceil(lo), math.floor(hi)
        c = [lo, hi]
        for x in (0, 1, -1, 2, 5, -5, 100, 127, -128, (lo + hi) // 2 if isint else (lo + hi) / 2):
            if lo <= x <= hi:
                c.append(x)
        cand.append((lo, hi, isint, c))
    for j in range(n):
        env = {}
        for i, (lo, hi, isint, c) in zip(ids, cand):
            if j < 40 or rnd_.random() < 0.35:
                env[i] = c[rnd_.randrange(len(c))]
            elif isint:
                env[i] = rnd_.randint(lo, hi)
            else:
                env[i] = Fraction(rnd_.randint(int(lo * 16), int(hi * 16)), 16)
        yield env


def differs(v, facts, extra=(), ne=()):
    """Is there a point satisfying the facts where the affine value v is not
    zero?  Returns the assignment, or None when none was found."""
    ids = set()
    deps(v, ids)
    for x in extra:
        deps(x, ids)
    for x in ne:
        deps(x, ids)
    for k in facts.d:
        seen = set()
        for j, _ in k:
            _deps_atom(j, ids, seen)
    if len(ids) > 400:
        return None
    allf = [(k, l, h) for k, (l, h) in facts.d.items()]
    for env in points(ids, facts):
        p = Point(env)
        try:
            if p.lin(v) == 0:
                continue
            if p.holds(allf) and all(p.lin(x) != 0 for x in ne):
                return dict((atom_name(i), env[i]) for i in deps(v, set()))
        except NoValue:
            continue
    return None
