"""C23: thread identity, copies and colours."""
from .util import *
from absint.codec import witness

LEVEL = "proof"
EXPLANATION = ("Abstract interpretation of EmbThread's comparison, hash, copying and colour methods on threads whose colour is a symbolic number with "
               "symbolic bit fields and whose texts are symbolic or absent: each field's influence on equality, the hash's on equal threads, and the colour components are "
               "compared with the specification as affine expressions.")
TEXTS = ("description", "catalog_number", "details", "brand", "chart", "weight")
FIELDS = ("color",) + TEXTS


def rgb(tag="", alpha=True):
    r, g, b = (dom.sym(c + tag, True, 0, 255) for c in "rgb")
    c = dom.add(dom.add(dom.mul(r, 65536), dom.mul(g, 256)), b)
    a = dom.sym("a" + tag, True, 0, 255) if alpha else 0
    return dom.add(c, dom.mul(a, 1 << 24)) if alpha else c, (r, g, b), a


def thread(I, st, color, **texts):
    t, st = new_obj(I, st, THR)
    set_attr(st, t, "color", color)
    for k in TEXTS:
        set_attr(st, t, k, texts.get(k, None))
    return t, st


def text_of(v, env, st):
    """The text v stands for under an assignment of its unknowns, or None."""
    if isinstance(v, str):
        return v
    if not isinstance(v, SStr):
        return None
    out = ""
    for p in v.parts:
        if isinstance(p, str):
            out += p
            continue
        k = p.key
        if not (isinstance(k, tuple) and k and k[0] in ("fmt", "str")):
            return None
        x = k[-1]
        n = at(x, env)
        if n is None:
            return None
        out += (k[1] % n) if k[0] == "fmt" else str(n)
    return out


def at(x, env):
    """Value of an affine expression over named unknowns; None if it has others."""
    if isinstance(x, (int, float)):
        return x
    if not isinstance(x, Lin):
        return None
    s = x.c
    for a, c in x.t:
        if a not in env:
            return None
        s += c * env[a]
    return int(s) if s == int(s) else s


def atom(l):
    return l.t[0][0]


class Check(object):
    def __init__(self, ctx, I):
        self.ctx, self.I = ctx, I

    def attempt(self, rule, inst, fn):
        try:
            fn()
        except (AnalysisError, Budget, KeyError, AttributeError) as e:
            self.ctx.unknown(rule, inst, e)

    def truth(self, rule, inst, where, res, exc, want, what):
        """every result is the constant want"""
        vals = set()
        for v, s in res:
            if isinstance(v, MU):
                v = v.v
            vals.add(v if v is True or v is False else "?")
            if isinstance(v, Lin):
                l = s.facts.bounds(v)
                vals.discard("?")
                vals.add(bool(l[0]) if l[0] == l[1] else "?")
        definite = [e for e in exc if e[1].definite]
        if vals == {want} and not exc:
            self.ctx.ok(rule, inst)
        elif (not want) in vals and vals <= {not want, want} and (len(vals) == 1 or all(not s.trace for _, s in res)):
            self.ctx.bad(rule, inst, where, "%s gives %r" % (what, not want))
        elif definite and not res:
            self.ctx.bad(rule, inst, where, "%s raises %s" % (what, definite[0][1]))
        else:
            self.ctx.unknown(rule, inst, "results %r, exceptions %r" % (vals, [str(e[1]) for e in exc][:2]))

    def num(self, rule, inst, where, res, exc, want, what):
        if not res:
            d = [e for e in exc if e[1].definite]
            if d:
                return self.ctx.bad(rule, inst, where, "%s raises %s" % (what, d[0][1]))
            return self.ctx.unknown(rule, inst, "no result")
        judge(self.ctx, rule, inst, where, [(what, num_rel(v, want, s)) for v, s in res])


def run(ctx):
    I = load(ctx.root, merge=False)
    if not isinstance(I.resolve(THR), ClsV):
        raise Broken("EmbThread not found")
    k = Check(ctx, I)
    equality(k)
    hashing(k)
    copying(k)
    components(k)
    ctx.count("thread fields", len(FIELDS))


def equality(k):
    I, ctx = k.I, k.ctx

    def pair(ca, cb, ta, tb, inst, want):
        def go():
            for name, w in (("__eq__", want), ("__ne__", not want)):
                st = I.base.fork()
                a, st = thread(I, st, ca, **ta)
                b, st = thread(I, st, cb, **tb)
                res, exc = meth(I, st, a, name, [b])
                k.truth("equality", "%s %s" % (name, inst), "EmbThread." + name, res, exc, w, "%s of threads %s" % (name, inst))
        k.attempt("equality", inst, go)
    c, _, _ = rgb()
    full = dict((n, fresh_str(n, 1, INF, False)) for n in TEXTS)
    pair(c, c, {}, {}, "of the same colour without texts", True)
    pair(c, c, full, full, "with the same colour and texts", True)
    for n in TEXTS:
        x = fresh_str(n, 1, INF, False)
        for ta, tb, what in (({n: x}, {}, "where only the first has a %s" % n), ({}, {n: x}, "where only the second has a %s" % n),
                             ({n: "a"}, {n: "A"}, "whose %s differs in case" % n), ({n: "40"}, {n: "40 "}, "whose %s differs in a blank" % n),
                             ({n: "7"}, {n: "07"}, "whose %s differs in a leading zero" % n), ({n: ""}, {}, "where one %s is empty, the other absent" % n)):
            pair(c, c, ta, tb, what, False)
            pair(c, c, dict(full, **ta), dict(full, **dict({n: None}, **tb)) if n not in tb else dict(full, **tb), what + ", other texts the same", False) if n in ta else None
    # colours: only the visible bits count
    c0, (r, g, b), a0 = rgb("", False)
    x, y = dom.sym("alpha", True, 0, 255), dom.sym("beta", True, 0, 255)
    pair(dom.add(c0, dom.mul(x, 1 << 24)), dom.add(c0, dom.mul(y, 1 << 24)), {}, {}, "that differ only above the colour bits", True)
    # a colour that differs in one component
    for i, name in enumerate(("red", "green", "blue")):
        comp = [dom.sym(z, True, 0, 255) for z in ("p", "q", "s")]
        lo = dom.sym("u", True, 0, 127)
        other = list(comp)
        comp[i] = lo
        other[i] = dom.add(lo, dom.sym("d", True, 1, 128))
        mk = lambda v: dom.add(dom.add(dom.mul(v[0], 65536), dom.mul(v[1], 256)), v[2])
        pair(mk(comp), mk(other), {}, {}, "that differ in %s" % name, False)

    def others():
        for v, what in ((None, "None"), (Tup((1, 2)), "a tuple")):
            st = I.base.fork()
            a, st = thread(I, st, c)
            res, exc = meth(I, st, a, "__eq__", [v])
            k.truth("other", "thread == %s" % what, "EmbThread.__eq__", res, exc, False, "thread == %s" % what)
        st = I.base.fork()
        a, st = thread(I, st, dom.add(c0, dom.mul(x, 1 << 24)))
        res, exc = meth(I, st, a, "__eq__", [dom.add(c0, dom.mul(y, 1 << 24))])
        k.truth("other", "thread == its colour", "EmbThread.__eq__", res, exc, True, "thread == its colour number")
    k.attempt("other", "other objects", others)



def hashing(k):
    I = k.I

    def go():
        c0, _, _ = rgb("", False)
        x, y = dom.sym("alpha", True, 0, 255), dom.sym("beta", True, 0, 255)
        full = dict((n, fresh_str(n, 1, INF, False)) for n in TEXTS)
        for texts, what in (({}, "without texts"), (full, "with texts")):
            st = I.base.fork()
            a, st = thread(I, st, dom.add(c0, dom.mul(x, 1 << 24)), **texts)
            b, st = thread(I, st, dom.add(c0, dom.mul(y, 1 << 24)), **texts)
            r1, e1 = meth(I, st, a, "__hash__")
            for v, s in r1:
                r2, e2 = meth(I, s, b, "__hash__")
                k.num("hash", "equal threads %s that differ above the colour bits" % what, "EmbThread.__hash__", r2, e2, v, "hash of an equal thread")
    k.attempt("hash", "equal threads", go)


def copying(k):
    I, ctx = k.I, k.ctx
    c, _, _ = rgb()
    full = dict((n, fresh_str(n, 0, INF, False)) for n in TEXTS)
    want = dict(full, color=c)

    def compare(rule, inst, where, t, st, want):
        o = st[t]
        for n in sorted(want):
            v, w = o.attrs.get(n), want[n]
            if isinstance(v, MU):
                v = v.v
            if dom.isnum(w) and dom.isnum(v):
                r = num_rel(v, w, st)
            elif isinstance(v, (Unk, Choice)):
                r = None
            elif isinstance(v, SStr) and isinstance(w, SStr) and v != w and any(not isinstance(p, str) and isinstance(p.key, tuple) for p in v.parts):
                r = None
            else:
                r = True if (v is w or v == w) else (False, "%r instead of %r" % (v, w))
            judge(ctx, rule, "%s: %s" % (inst, n), where, [("%s of the thread" % n, r)])

    def copy_set():
        st = I.base.fork()
        a, st = thread(I, st, c, **full)
        b, st = thread(I, st, 77, **dict((n, "old") for n in TEXTS))
        for f, x in I.getattr(b, "set", st, None):
            for _, s in I.run(f, [a], {}, x)[0]:
                compare("copy", "t.set(thread)", "EmbThread.set", b, s, want)
                compare("copy", "t.set(thread), the original", "EmbThread.set", a, s, want)

    def copy_new():
        st = I.base.fork()
        a, st = thread(I, st, c, **full)
        for b, s in I.run(I.resolve(THR), [a], {}, st)[0]:
            compare("copy", "EmbThread(thread)", "EmbThread.__init__", b, s, want)
        # keyword arguments name the fields
        for b, s in I.run(I.resolve(THR), [c], dict(full), I.base.fork())[0]:
            compare("construct", "EmbThread(number, texts by name)", "EmbThread.__init__", b, s, want)
        for b, s in I.run(I.resolve(THR), [c] + [full[n] for n in TEXTS], {}, I.base.fork())[0]:
            compare("construct", "EmbThread(number, texts in order)", "EmbThread.__init__", b, s, want)

    def from_dict():
        for key, field in (("name", "description"), ("description", "description"), ("desc", "description"), ("brand", "brand"), ("manufacturer", "brand"),
                           ("color", "color"), ("rgb", "color"), ("id", "catalog_number"), ("catalog", "catalog_number")):
            val = c if field == "color" else fresh_str("value", 0, INF, False)
            st = I.base.fork()
            b, st = thread(I, st, c, **full)
            d = st.alloc(DictO({key: val}, None))
            for f, x in I.getattr(b, "set", st, None):
                for _, s in I.run(f, [d], {}, x)[0]:
                    compare("dict", "set({%r: ...})" % key, "EmbThread.set", b, s, dict(want, **{field: val}))
        comp = [dom.sym(z, True, 0, 255) for z in ("p", "q", "s")]
        num = dom.add(dom.add(dom.mul(comp[0], 65536), dom.mul(comp[1], 256)), comp[2])
        for mk, what in ((lambda s: Tup(tuple(comp)), "tuple"), (lambda s: list_of(s, comp), "list")):
            st = I.base.fork()
            b, st = thread(I, st, c, **full)
            d = st.alloc(DictO({"color": mk(st)}, None))
            for f, x in I.getattr(b, "set", st, None):
                for _, s in I.run(f, [d], {}, x)[0]:
                    compare("dict", "set({'color': %s})" % what, "EmbThread.set", b, s, dict(want, color=num))
    k.attempt("copy", "set", copy_set)
    k.attempt("copy", "construct", copy_new)
    k.attempt("dict", "set(dict)", from_dict)


def components(k):
    I, ctx = k.I, k.ctx
    c, (r, g, b), a = rgb()
    c0, (r0, g0, b0), _ = rgb("0", False)

    def get():
        for name, want in (("get_red", r), ("get_green", g), ("get_blue", b)):
            st = I.base.fork()
            t, st = thread(I, st, c)
            res, exc = meth(I, st, t, name)
            k.num("component", name, "EmbThread." + name, res, exc, want, name)
        st = I.base.fork()
        t, st = thread(I, st, c0)
        res, exc = meth(I, st, t, "get_opaque_color")
        k.num("component", "get_opaque_color", "EmbThread.get_opaque_color", res, exc, dom.add(c0, 0xFF000000), "get_opaque_color")

    def put():
        hi = [dom.sym(n, True, 0, 7) for n in ("h", "i", "j")]
        for args, what in (((r0, g0, b0), "in range"), (tuple(dom.add(x, dom.mul(h, 256)) for x, h in zip((r0, g0, b0), hi)), "above 255")):
            st = I.base.fork()
            t, st = thread(I, st, 0)
            for f, x in I.getattr(t, "set_color", st, None):
                res, exc = I.run(f, list(args), {}, x)
                k.num("component", "set_color, components %s" % what, "EmbThread.set_color", [(get_attr(s, t, "color"), s) for _, s in res], exc, c0,
                      "colour after set_color")

    def hexa():
        st = I.base.fork()
        t, st = thread(I, st, c)
        res, exc = meth(I, st, t, "hex_color")
        env0 = [dict(zip([atom(x) for x in (r, g, b, a)], v)) for v in ((0, 0, 0, 0), (1, 2, 3, 4), (16, 255, 7, 0), (255, 255, 255, 255), (171, 10, 160, 1))]
        for v, s in res:
            texts = [text_of(v, e, s) for e in env0]
            want = ["#%02x%02x%02x" % tuple(e[atom(x)] for x in (r, g, b)) for e in env0]
            if any(x is None for x in texts):
                ctx.unknown("component", "hex_color", "text %r" % (v,))
            elif texts != want:
                i = [i for i in range(len(want)) if texts[i] != want[i]][0]
                ctx.bad("component", "hex_color", "EmbThread.hex_color", "%s instead of %s" % (texts[i], want[i]))
            else:
                p = [q for q in v.parts if not isinstance(q, str)]
                exact = len(p) == 3 and all(q.key[0] == "fmt" and q.key[1] == "%02x" and same(q.key[-1], x) for q, x in zip(p, (r, g, b)))
                ctx.ok("component", "hex_color") if exact else ctx.unknown("component", "hex_color", "text %r only compared at samples" % (v,))
    k.attempt("component", "components", get)
    k.attempt("component", "set_color", put)
    k.attempt("component", "hex_color", hexa)
