"""Helpers shared by the checkers."""
from absint.harness import *
from .ctx import Broken, fork_map

PAT = "pyembroidery.EmbPattern.EmbPattern"
THR = "pyembroidery.EmbThread.EmbThread"


def meth(I, st, ref, name, args=(), kwargs=None):
    """Call a method; -> (results, exceptions)."""
    st = st.fork()
    fs = I.getattr(ref, name, st, None)
    res, exc = [], []
    for f, x in fs:
        r, e = I.run(f, list(args), kwargs or {}, x)
        res += r
        exc += e
    return res, exc


def const(I, name, mod="pyembroidery.EmbConstant"):
    v = I.constants(mod).get(name)
    if not isinstance(v, int):
        raise Broken("constant %s not found" % name)
    return v


def commands(I, mod="pyembroidery.EmbConstant"):
    """value -> name of the command constants that fit a byte"""
    out = {}
    for name, v in I.constants(mod).items():
        if isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= 255 and name.isupper():
            out.setdefault(v, name)
    return out


def num_rel(got, want, st):
    """True: provably equal; (False, text): differs for some admissible values
    (with witness); None: not decided."""
    if not dom.isnum(got) or not dom.isnum(want):
        if isinstance(got, (Unk, Choice)) or isinstance(want, (Unk, Choice)):
            return None
        return (False, "%r instead of %r" % (got, want)) if not same(got, want) else True
    d = dom.sub(got, want)
    lo, hi = st.facts.bounds(d)
    if lo == hi == 0:
        return True
    if lo > 0 or hi < 0:
        return (False, "%r instead of %r" % (got, want))
    if isinstance(d, Lin):
        w = dom.differs(d, st.facts)
        if w is not None:
            return (False, "%r instead of %r (%s)" % (got, want, show_env(w)))
    return None


def show_env(w):
    env = getattr(w, "env", w)
    try:
        items = sorted((dom.atom_name(i), v) for i, v in env.items())
    except Exception:
        return "witness"
    return ", ".join("%s=%s" % (n, v) for n, v in items[:6])


def judge(ctx, rule, inst, where, rels):
    """rels: list of (what, result of num_rel)."""
    for what, r in rels:
        if isinstance(r, tuple):
            ctx.bad(rule, inst, where, "%s: %s" % (what, r[1]))
            return False
    if any(r is None for _, r in rels):
        ctx.unknown(rule, inst, "not related by the domain: " + ", ".join(w for w, r in rels if r is None))
        return None
    ctx.ok(rule, inst)
    return True


def new_pattern(I, st, cmds=None, lo=0, label="src", xy=(False, -INF, INF), threads=None):
    """A pattern whose command list is arbitrary (>= lo entries)."""
    p, st = new_obj(I, st, PAT)
    if cmds is None:
        t = stitch_t(None, xy, label)
    else:
        t = stitch_t(cmds, xy, label)
    set_attr(st, p, "stitches", star_list(st, t, label + "-list", lo))
    return p, st


def stitches_of(st, p):
    r = get_attr(st, p, "stitches")
    if not isinstance(r, Ref):
        raise AnalysisError("stitches is %r" % (r,))
    return r


def elems(st, ref):
    o = st[ref]
    if isinstance(o, ListO):
        return o
    raise AnalysisError("not a list")


def seq_items(v, st):
    """Items of an exact list/tuple value, or None."""
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Ref) and isinstance(st[v], ListO) and st[v].star is None:
        return list(st[v].pre)
    return None
