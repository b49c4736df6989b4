"""C27: matrix algebra and the transformations that use it."""
import math
import random
from fractions import Fraction
from .util import *

LEVEL = "proof"
EXPLANATION = ("Abstract interpretation of EmbMatrix, EmbPattern.transform/translate and the encoder's matrix settings on matrices, points and parameters "
               "that are all symbolic; results are polynomials over them and are compared with the specification's polynomials (exact over the reals; "
               "float rounding is outside).")
MTX = "pyembroidery.EmbMatrix.EmbMatrix"


class FPoint(dom.Point):
    def _atom(self, i):
        d = dom.ATOMS[i].defn
        if d and isinstance(d[0], str) and d[0].startswith("math."):
            xs = [float(self.lin(x)) for x in d[1:]]
            try:
                return getattr(math, d[0][5:])(*xs)
            except (ValueError, OverflowError, ZeroDivisionError):
                raise dom.NoValue(i)
        if d and d[0] == "div":
            a, b = self.lin(d[1]), self.lin(d[2])
            if abs(b) < 1e-3:
                raise dom.NoValue(i)
            return a / b
        return dom.Point._atom(self, i)


def clear(v):
    """Multiply by the one denominator all quotients of v share; None if there are several."""
    v = dom.tolin(v)
    den = None
    terms = []
    for i, k in v.t:
        qs = [j for j in dom.mono_atoms(i) if dom.ATOMS[j].defn and dom.ATOMS[j].defn[0] == "div"]
        rest = [j for j in dom.mono_atoms(i) if j not in qs]
        if len(qs) > 1:
            return None
        for j in qs:
            d = dom.ATOMS[j].defn
            if den is not None and den != d[2]:
                return None
            den = d[2]
        terms.append((k, rest, dom.ATOMS[qs[0]].defn[1] if qs else None))
    if den is None:
        return v
    out = dom.mul(v.c, den)
    for k, rest, num in terms:
        x = k
        for j in rest:
            x = dom.mul(x, Lin(0, ((j, 1),)))
        out = dom.add(out, dom.mul(x, num if num is not None else den))
    return out


def prel(got, want, st):
    """As num_rel, for polynomials with quotients, sines and cosines; float coefficients are compared up to rounding."""
    if not dom.isnum(got) or not dom.isnum(want):
        return None
    d = dom.sub(got, want)
    r = _zero(d, st)
    if r is None and isinstance(d, Lin):
        c = clear(d)
        if c is not None and _zero(c, st) is True:
            return True
    if r is not None:
        return r if r is True else (False, "%r instead of %r" % (got, want))
    ids = set()
    for v in (got, want):
        dom.deps(v, ids)
    for k in st.facts.d:
        for j, _ in k:
            dom._deps_atom(j, ids, set())
    rnd = random.Random(7)
    allf = [(k, l, h) for k, (l, h) in st.facts.d.items()]
    seen = 0
    for n in range(300):
        env = {}
        for i in ids:
            a = dom.ATOMS[i]
            if a.defn is not None:
                continue
            top = 40 if n % 2 or not a.isint else 0xFFFFFFFF
            lo, hi = st.facts.bounds(Lin(0, ((i, 1),)))
            lo, hi = lo if lo > -INF else min(-top, hi), hi if hi < INF else max(top, lo)
            env[i] = rnd.choice((lo, 0, 1, 2)) if n % 3 == 0 and lo <= 0 and hi >= 2 else Fraction(rnd.randint(int(lo * 8), int(hi * 8)), 8)
            if a.isint:
                env[i] = int(env[i])
        p = FPoint(env)
        try:
            if not p.holds(allf):
                continue
            g, w = p.lin(got), p.lin(want)
            seen += 1
            if abs(g - w) > 1e-6 * (1 + abs(g) + abs(w)):
                return (False, "%r instead of %r (%s)" % (got, want, show_env(dict((k, v) for k, v in env.items() if k in ids))))
        except (dom.NoValue, OverflowError, ZeroDivisionError):
            continue
    return None


def _zero(d, st):
    if not isinstance(d, Lin):
        return abs(d) < 1e-9
    if all(abs(k) < 1e-9 for _, k in d.t) and abs(d.c) < 1e-9:
        return True
    d = st.facts.simplify(d)
    if not isinstance(d, Lin):
        return abs(d) < 1e-9
    return None


class Run(object):
    def __init__(self, ctx, I):
        self.ctx, self.I = ctx, I

    def s(self, n):
        return dom.sym(n, False)

    def affine(self, p):
        return [self.s(p + "a"), self.s(p + "b"), 0, self.s(p + "c"), self.s(p + "d"), 0, self.s(p + "e"), self.s(p + "f"), 1]

    def matrix(self, st, m, kind="list"):
        v = Tup(tuple(m)) if kind == "tuple" else list_of(st, m)
        r, s = new_obj(self.I, st, MTX, [v])
        return r, s

    def call(self, st, ref, name, args=()):
        if self.I.resolve(MTX).lookup(name) is None:
            raise Broken("EmbMatrix.%s not found" % name)
        return meth(self.I, st, ref, name, list(args))

    def point(self, st, ref, x, y):
        """[(x, y, state)]"""
        res, exc = self.call(st, ref, "point_in_matrix_space", [x, y])
        if exc:
            raise AnalysisError("raises %r" % (exc[0][1],))
        out = []
        for v, s in res:
            it = seq_items(v, s)
            if it is None or len(it) < 2:
                raise AnalysisError("point is %r" % (v,))
            out.append((it[0], it[1], s))
        return out

    def img(self, m, x, y):
        return (dom.add(dom.add(dom.mul(x, m[0]), dom.mul(y, m[3])), m[6]),
                dom.add(dom.add(dom.mul(x, m[1]), dom.mul(y, m[4])), m[7]))

    def rule(self, rule, inst, fn):
        where = "pyembroidery/EmbMatrix.py:EmbMatrix.%s" % inst.split()[0]
        try:
            rels = fn()
        except (AnalysisError, Budget) as e:
            return self.ctx.unknown(rule, inst, e)
        self.ctx.count("operations")
        judge(self.ctx, rule, inst, where, rels)

    def after(self, name, args, m, want, pre=()):
        """The image of a point under the matrix after calling name(args)."""
        def fn():
            st = self.I.base.fork()
            r, st = self.matrix(st, m)
            res, exc = self.call(st, r, name, args)
            if exc:
                return [("result", (False, "raises %r" % (exc[0][1],)))] if exc[0][1].definite else [("result", None)]
            rels = []
            for _, s in res:
                x, y = self.s("x"), self.s("y")
                for gx, gy, z in self.point(s, r, x, y):
                    wx, wy = want(x, y, z)
                    rels += [("x", prel(gx, wx, z)), ("y", prel(gy, wy, z))]
            return rels
        return fn


def run(ctx):
    I = load(ctx.root, merge=False)
    R = Run(ctx, I)
    if not isinstance(I.resolve(MTX), ClsV):
        raise Broken("EmbMatrix not found")
    s = R.s
    A = R.affine("A.")
    ang = dom.mul(s("theta"), math.pi * 2 / 360)
    sx, sy, tx, ty, px, py = (s(n) for n in ("sx", "sy", "tx", "ty", "px", "py"))

    def trig(st):
        out = []
        for f in ("cos", "sin"):
            out.append(I.models.ext_math(f, [ang], st, None)[0][0])
        return out

    def rot(x, y, st, cx=0, cy=0):
        c, t = trig(st)
        x, y = dom.sub(x, cx), dom.sub(y, cy)
        return (dom.add(dom.sub(dom.mul(x, c), dom.mul(y, t)), cx), dom.add(dom.add(dom.mul(x, t), dom.mul(y, c)), cy))

    def sca(x, y, kx, ky, cx=0, cy=0):
        return (dom.add(dom.mul(dom.sub(x, cx), kx), cx), dom.add(dom.mul(dom.sub(y, cy), ky), cy))

    # the steps that act before the existing transform, and those that act after it
    steps = [("translate", "", [tx, ty], lambda x, y, z: (dom.add(x, tx), dom.add(y, ty))),
             ("scale", "", [sx, sy], lambda x, y, z: sca(x, y, sx, sy)),
             ("scale", "uniform", [sx], lambda x, y, z: sca(x, y, sx, sx)),
             ("rotate", "", [s("theta")], lambda x, y, z: rot(x, y, z)),
             ("scale", "about a point", [sx, sy, px, py], lambda x, y, z: sca(x, y, sx, sy, px, py)),
             ("rotate", "about a point", [s("theta"), px, py], lambda x, y, z: rot(x, y, z, px, py))]
    theta = steps[3][2][0]
    ang = dom.mul(theta, math.pi * 2 / 360)
    steps[5] = ("rotate", "about a point", [theta, px, py], steps[5][3])
    for nm, how, args, f in steps:
        R.rule("post", ("post_%s %s" % (nm, how)).strip(), R.after("post_" + nm, args, A, lambda x, y, z, f=f: R.img(A, *f(x, y, z))))
        if how != "about a point":
            R.rule("pre", ("pre_%s %s" % (nm, how)).strip(),
                   R.after("pre_" + nm, args, A, lambda x, y, z, f=f: f(*(R.img(A, x, y) + (z,)))))
    R.rule("reset", "reset", R.after("reset", [], A, lambda x, y, z: (x, y)))

    def points():
        st = I.base.fork()
        r, st = R.matrix(st, A)
        x, y, c = s("x"), s("y"), s("cmd")
        rels = []
        for form, args in (("x, y", [x, y]), ("[x, y]", None), ("[x, y, command]", None)):
            z = st.fork()
            n = 2 if form != "[x, y, command]" else 3
            a = args or [list_of(z, (x, y, c)[:n])]
            res, exc = R.call(z, r, "point_in_matrix_space", a)
            if exc or not res:
                rels.append((form, (False, "raises %r" % (exc[0][1] if exc else "always",))))
            for v, q in res:
                it = seq_items(v, q)
                if it is None or len(it) != n:
                    rels.append((form, (False, "%d values" % len(it)) if it is not None else None))
                    continue
                wx, wy = R.img(A, x, y)
                rels += [(form + " x", prel(it[0], wx, q)), (form + " y", prel(it[1], wy, q))]
                if n == 3:
                    rels.append((form + " command", prel(it[2], c, q)))
                if args is None:
                    rels.append((form + " argument", same_items(q, a[0], (x, y, c)[:n])))
        return rels

    def same_items(q, ref, want):
        it = seq_items(ref, q)
        if it is None or len(it) != len(want):
            return None if it is None else (False, "length changed")
        for a, b in zip(it, want):
            r = prel(a, b, q)
            if r is not True:
                return r
        return True

    def apply():
        st = I.base.fork()
        r, st = R.matrix(st, A)
        x, y, c = s("x"), s("y"), s("cmd")
        v = list_of(st, (x, y, c))
        res, exc = R.call(st, r, "apply", [v])
        rels = []
        if exc or not res:
            return [("result", (False, "raises"))]
        for _, q in res:
            rels.append(("point", same_items(q, v, R.img(A, x, y) + (c,))))
        return rels

    R.rule("image", "point_in_matrix_space", points)
    R.rule("image", "apply", apply)
    B = R.affine("B.")

    def product():
        st = I.base.fork()
        a, st = R.matrix(st, A)
        b, st = R.matrix(st, B)
        res, exc = R.call(st, a, "__matmul__", [b])
        rels = [] if not exc and res else [("result", (False, "raises"))]
        x, y = s("x"), s("y")
        for v, q in res:
            for gx, gy, z in R.point(q, v, x, y):
                w = R.img(A, *R.img(B, x, y))
                rels += [("x", prel(gx, w[0], z)), ("y", prel(gy, w[1], z))]
            for nm, r, m in (("left", a, A), ("right", b, B)):
                for gx, gy, z in R.point(q, r, x, y):
                    w = R.img(m, x, y)
                    rels += [(nm + " operand", prel(gx, w[0], z)), (nm + " operand", prel(gy, w[1], z))]
        return rels

    def inplace():
        st = I.base.fork()
        a, st = R.matrix(st, A)
        b, st = R.matrix(st, B)
        res, exc = R.call(st, a, "__imatmul__", [b])
        rels = [] if not exc and res else [("result", (False, "raises"))]
        x, y = s("x"), s("y")
        for v, q in res:
            if v is None:
                return [("result", (False, "a @= b leaves None in a"))]
            for gx, gy, z in R.point(q, v, x, y):
                w = R.img(A, *R.img(B, x, y))
                rels += [("x", prel(gx, w[0], z)), ("y", prel(gy, w[1], z))]
        return rels

    R.rule("product", "__matmul__", product)
    R.rule("product", "__imatmul__", inplace)
    M = [s("m%d" % i) for i in range(9)]

    def general():
        """Products of full 3 x 3 matrices (what projective ones would need)"""
        st = I.base.fork()
        N = [s("n%d" % i) for i in range(9)]
        a, st = R.matrix(st, M)
        b, st = R.matrix(st, N)
        res, exc = R.call(st, a, "__matmul__", [b])
        rels = [] if not exc and res else [("result", (False, "raises"))]
        for v, q in res:
            g, e = R.call(q, v, "get_matrix", [])
            for w, z in g:
                it = seq_items(w, z)
                if it is None or len(it) != 9:
                    return [("entries", None)]
                for i in range(9):
                    want = 0
                    for k in range(3):
                        want = dom.add(want, dom.mul(N[i // 3 * 3 + k], M[k * 3 + i % 3]))
                    rels.append(("entry %d" % i, prel(it[i], want, z)))
        return rels

    R.rule("product", "__matmul__ entries", general)

    def inverse(m):
        def fn():
            st = I.base.fork()
            a, st = R.matrix(st, m)
            res, exc = R.call(st, a, "inverse", [])
            rels = [] if res else [("result", (False, "raises"))]
            for v, q in res:
                w, e = R.call(q, a, "get_matrix", [])
                for g, z in w:
                    it = seq_items(g, z)
                    if it is None or len(it) != 9:
                        return [("entries", None)]
                    for i in range(9):
                        got = 0
                        for k in range(3):
                            got = dom.add(got, dom.mul(it[i // 3 * 3 + k], m[k * 3 + i % 3]))
                        rels.append(("entry %d of the product with its inverse" % i, prel(got, 1 if i % 4 == 0 else 0, z)))
            return rels
        return fn

    R.rule("inverse", "inverse affine", inverse(A))
    R.rule("inverse", "inverse", inverse(M))

    def truth(st, v, want):
        if isinstance(v, bool):
            return True if v == want else (False, "%r instead of %r" % (v, want))
        return None

    def equality(ka, kb, change):
        def fn():
            st = I.base.fork()
            a, st = R.matrix(st, M, ka)
            N = list(M)
            if change is not None:
                N[change] = dom.add(N[change], 1)
            b, st = R.matrix(st, N, kb)
            rels = []
            for nm, want in (("__eq__", change is None), ("__ne__", change is not None)):
                res, exc = R.call(st, a, nm, [b])
                rels += [(nm, (False, "raises %r" % (e[1],))) for e in exc if e[1].definite]
                rels += [(nm, truth(q, v, want)) for v, q in res]
            return rels
        return fn

    for ka in ("list", "tuple"):
        for kb in ("list", "tuple"):
            R.rule("equality", "__eq__ same entries, %s and %s" % (ka, kb), equality(ka, kb, None))
    for i in range(9):
        R.rule("equality", "__eq__ entry %d differs" % i, equality("list", "list", i))

    def text(kind):
        def fn():
            st = I.base.fork()
            a, st = R.matrix(st, M, kind)
            res, exc = R.call(st, a, "__str__", [])
            return [("str", (False, "raises %r" % (e[1],))) for e in exc if e[1].definite] or [("str", True if res and not exc else None)]
        return fn

    for k in ("tuple", "list"):
        R.rule("text", "__str__ of a %s" % k, text(k))

    def fresh():
        st = I.base.fork()
        a, st = new_obj(I, st, MTX, [])
        b, st = new_obj(I, st, MTX, [])
        res, exc = R.call(st, a, "post_translate", [tx, ty])
        x, y = s("x"), s("y")
        rels = []
        for _, q in res:
            for gx, gy, z in R.point(q, b, x, y):
                rels += [("x", prel(gx, x, z)), ("y", prel(gy, y, z))]
        return rels

    R.rule("reset", "__init__ gives the identity", fresh)
    patterns(ctx, I, R, A)
    encoder(ctx, I, R, rot, sca, theta)


def patterns(ctx, I, R, A):
    s = R.s
    dx, dy = s("dx"), s("dy")

    def moved(name, args, want):
        """A list of arbitrary length: the generic entry is written once with the wanted values."""
        def fn():
            st = I.base.fork()
            p, st = new_obj(I, st, PAT)
            pts = []
            refs = []
            for i in range(3):
                x, y, c = s("x%d" % i), s("y%d" % i), dom.sym("c%d" % i, True, 0, INF)
                refs.append(list_of(st, (x, y, c)))
                pts.append((x, y, c))
            set_attr(st, p, "stitches", list_of(st, refs))
            a = args(st) if callable(args) else list(args)
            res, exc = meth(I, st, p, name, a)
            rels = [(name, (False, "raises %r" % (e[1],))) for e in exc if e[1].definite]
            if not res:
                rels.append((name, None))
            for _, q in res:
                o = elems(q, stitches_of(q, p))
                if o.star is not None:
                    return [(name, None)]
                if len(o.pre) != 3:
                    return [(name, (False, "%d entries instead of 3" % len(o.pre)))]
                for r, (x, y, c) in zip(o.pre, pts):
                    it = seq_items(r, q)
                    if it is None or len(it) != 3:
                        return [(name, None)]
                    w = want(x, y)
                    rels += [("x", prel(it[0], w[0], q)), ("y", prel(it[1], w[1], q)), ("command", prel(it[2], c, q))]
            return rels
        return fn

    def rule(inst, fn):
        try:
            judge(ctx, "pattern", inst, "pyembroidery/EmbPattern.py:EmbPattern.%s" % inst, fn())
            ctx.count("operations")
        except (AnalysisError, Budget) as e:
            ctx.unknown("pattern", inst, e)

    rule("translate", moved("translate", [dx, dy], lambda x, y: (dom.add(x, dx), dom.add(y, dy))))

    def mat(st):
        r, s2 = R.matrix(st, A)
        for k in ("heap", "facts", "frames", "ghost", "truth", "trace", "summ"):
            setattr(st, k, getattr(s2, k))
        return [r]
    rule("transform", moved("transform", mat, lambda x, y: R.img(A, x, y)))


def encoder(ctx, I, R, rot, sca, theta):
    """Settings and inline commands of the encoder move the stitches as the matrix operations say."""
    s = R.s
    C = I.constants("pyembroidery.EmbConstant")
    tx, ty, kx, ky = s("tx"), s("ty"), s("kx"), s("ky")
    x, y = s("x"), s("y")

    def encode(cmds, settings):
        """Positions of the STITCH commands of the encoded list: [([(x, y)], state)]"""
        st = I.base.fork()
        p, st = new_obj(I, st, PAT)
        set_attr(st, p, "stitches", list_of(st, [list_of(st, (a, b, c)) for a, b, c in cmds]))
        d = {"max_stitch": float("inf"), "max_jump": float("inf"), "thread_change_command": C["COLOR_CHANGE"]}
        d.update(settings)
        ref = st.alloc(DictO(d, None))
        res, exc = meth(I, st, p, "get_normalized_pattern", [ref])
        out = []
        for v, q in res:
            o = elems(q, stitches_of(q, v))
            if o.star is not None:
                raise AnalysisError("encoded list summarised")
            pts = []
            for r in o.pre:
                it = seq_items(r, q)
                c = it[2] if it else None
                if not isinstance(c, int):
                    raise AnalysisError("command %r" % (c,))
                if c & 0xFF == C["STITCH"]:
                    pts.append((it[0], it[1]))
            out.append((pts, q))
        if exc and exc[0][1].definite and not res:
            return None
        return out

    def rule(inst, cmds, settings, want):
        def fn():
            out = encode(cmds, settings)
            if out is None:
                return [("encoding", (False, "always raises"))]
            rels = []
            for pts, q in out:
                w = want(q)
                if len(pts) != len(w):
                    rels.append(("stitches", None))
                    continue
                for (a, b), (c, d) in zip(pts, w):
                    rels += [("x", prel(a, c, q)), ("y", prel(b, d, q))]
            return rels
        try:
            judge(ctx, "encoder", inst, "pyembroidery/EmbEncoder.py:Transcoder", fn())
            ctx.count("operations")
        except (AnalysisError, Budget) as e:
            ctx.unknown("encoder", inst, e)

    S = C["STITCH"]
    rule("translate setting", [(x, y, S)], {"translate": Tup((tx, ty))}, lambda q: [(dom.add(x, tx), dom.add(y, ty))])
    rule("scale setting", [(x, y, S)], {"scale": Tup((kx, ky))}, lambda q: [sca(x, y, kx, ky)])
    rule("uniform scale setting", [(x, y, S)], {"scale": kx}, lambda q: [sca(x, y, kx, kx)])
    rule("rotate setting", [(x, y, S)], {"rotate": theta}, lambda q: [rot(x, y, q)])
    rule("all three settings", [(x, y, S)], {"rotate": theta, "scale": Tup((kx, ky)), "translate": Tup((tx, ty))},
         lambda q: [(lambda p: (dom.add(p[0], tx), dom.add(p[1], ty)))(sca(*(rot(x, y, q) + (kx, ky))))])
    rule("no setting", [(x, y, S)], {}, lambda q: [(x, y)])
    rule("MATRIX_TRANSLATE", [(tx, ty, C["MATRIX_TRANSLATE"]), (x, y, S)], {}, lambda q: [(dom.add(x, tx), dom.add(y, ty))])
    rule("MATRIX_SCALE_ORIGIN", [(kx, ky, C["MATRIX_SCALE_ORIGIN"]), (x, y, S)], {}, lambda q: [sca(x, y, kx, ky)])
    rule("MATRIX_ROTATE_ORIGIN", [(theta, 0, C["MATRIX_ROTATE_ORIGIN"]), (x, y, S)], {}, lambda q: [rot(x, y, q)])
    u, v = s("u"), s("v")
    rule("MATRIX_SCALE", [(u, v, S), (kx, ky, C["MATRIX_SCALE"]), (x, y, S)], {}, lambda q: [(u, v), sca(x, y, kx, ky, u, v)])
    rule("MATRIX_ROTATE", [(u, v, S), (theta, 0, C["MATRIX_ROTATE"]), (x, y, S)], {}, lambda q: [(u, v), rot(x, y, q, u, v)])
    rule("MATRIX_SCALE after MATRIX_TRANSLATE", [(tx, ty, C["MATRIX_TRANSLATE"]), (u, v, S), (kx, ky, C["MATRIX_SCALE"]), (u, v, S)], {},
         lambda q: [(dom.add(u, tx), dom.add(v, ty))] * 2)
    rule("MATRIX_ROTATE after MATRIX_TRANSLATE", [(tx, ty, C["MATRIX_TRANSLATE"]), (u, v, S), (theta, 0, C["MATRIX_ROTATE"]), (u, v, S)], {},
         lambda q: [(dom.add(u, tx), dom.add(v, ty))] * 2)
    rule("MATRIX_RESET", [(tx, ty, C["MATRIX_TRANSLATE"]), (0, 0, C["MATRIX_RESET"]), (x, y, S)], {}, lambda q: [(x, y)])
