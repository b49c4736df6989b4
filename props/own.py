"""Ownership of patterns, shared by C01 and C02: labelled source objects, effects on them, what a result shares."""
from .util import *


def labelled(st, ref, label):
    st[ref] = st[ref].rep(label=label)
    return ref


SRC = ("source pattern", "source list", "source entry", "source threads", "source thread", "source extras", "caller's settings")


def thread_template(I, label):
    st = I.base.fork()
    r, st = new_obj(I, st, THR)
    set_attr(st, r, "color", dom.sym("color", True, 0, 0xFFFFFF))
    for a in ("description", "catalog_number", "details", "brand", "chart", "weight"):
        set_attr(st, r, a, Choice((None, fresh_str(a, 0, INF, False))))
    labelled(st, r, label)
    return t_of(r, st, 0)


def source_pattern(I, st, cmds, own, lo=0):
    """An arbitrary pattern; own: its entries and list are the caller's (else only the threads are)."""
    p, st = new_obj(I, st, PAT)
    t = stitch_t(cmds, (False, -30000, 30000), "source entry" if own else "entry")
    set_attr(st, p, "stitches", star_list(st, t, "source list" if own else "list", lo))
    set_attr(st, p, "threadlist", star_list(st, thread_template(I, "source thread"), "source threads" if own else "threads"))
    ex = {"name": fresh_str("name", 0, INF, False)}
    set_attr(st, p, "extras", st.alloc(DictO(ex, None, label="source extras" if own else "extras")))
    if own:
        labelled(st, p, "source pattern")
    return p, st


class Effects(Monitor):
    events = 0

    def __init__(self, rep):
        self.rep = rep

    def on_mutate(self, I, st, oid, how, node):
        o = st.heap.get(oid)
        if not I.dry:
            self.events += 1
        l = getattr(o, "label", None)
        if l in SRC and not I.dry:
            self.rep(I, st, l, how, node)


def formats(I):
    """The dictionaries supported_formats yields."""
    st = I.base.fork()
    cls = I.resolve(PAT)
    out = []
    for f, x in I.getattr(cls, "supported_formats", st, None):
        res, exc = I.run(f, [], {}, x)
        for g, s in res:
            def each(w, z):
                o = z[w] if isinstance(w, Ref) else None
                if not isinstance(o, DictO):
                    raise AnalysisError("format entry %r" % (w,))
                out.append((dict(o.items), z))
                return [z]
            list(I.models.iterate(g, s, each, None, (None, frozenset())))
    return out


def strip(m, x, y):
    return ()


def nearest(mon, I, st, args):
    o = st[args[-1]] if isinstance(args[-1], Ref) else None
    n = o.length() if isinstance(o, ListO) else None
    n = st.facts.bounds(n)[1] if isinstance(n, Lin) else n
    return [(dom.sym("index", True, 0, (n or 2) - 1), st)]


def nothing(mon, I, st, args):
    return [(None, st)]


def filler(mon, I, st, args):
    """a thread of the list; the filler would be a fresh one"""
    st = st.fork()
    return [(t_value(thread_template(I, "source thread"), st, I, "thread"), st)]


STUBS = {"get_thread_or_filler": filler, "find_nearest_color_index": nearest, "draw_scaled": nothing, "plot": nothing, "line_for_point": nothing, "draw_text": nothing}


COARSE = ("point_in_matrix_space", "matrix_multiply", "inverse", "oriented", "towards", "angle_radians", "distance", "distance_squared")


def coarse(v, st):
    """Numbers in v become arbitrary ones."""
    if isinstance(v, (Lin, Fraction, float)):
        return dom.sym("c", False, -INF, INF)
    if isinstance(v, Tup):
        return Tup(tuple(coarse(x, st) for x in v.items))
    if isinstance(v, Ref) and isinstance(st[v], ListO) and st[v].star is None and not st[v].label:
        st[v] = st[v].rep(pre=tuple(coarse(x, st) for x in st[v].pre))
    return v


def numbers(st, n):
    return list_of(st, [dom.sym("c", False, -INF, INF) for _ in range(n)])


class Encode(Effects):
    """Arithmetic of points and matrices is interpreted, but the numbers are taken as arbitrary ones."""

    def on_call(self, I, st, fn, args, kwargs, node):
        f = fn.fn if isinstance(fn, BoundV) else fn
        if isinstance(f, FnV) and (f.name in COARSE or f.mod == "pyembroidery.EmbMatrix"):
            st = st.fork()
            plain = not any(reach(st, a) for a in args)
            if f.name == "matrix_multiply" and plain:
                return [(numbers(st, 9), st)]
            if f.name == "point_in_matrix_space" and plain:
                return [(numbers(st, 2), st)]
            a = list(args)
            if isinstance(fn, BoundV):
                a.insert(0, fn.self)
                o = st[fn.self] if isinstance(fn.self, Ref) else None
                if isinstance(o, InstO) and not isinstance(o.attrs.get("m", 0), (int, float)):
                    set_attr(st, fn.self, "m", numbers(st, 9))
            return [(coarse(v, s), s) for v, s in I.call_fn(f, a, kwargs, st, node)]
        return None


class Save(Effects):
    """Encoding replaced by a fresh pattern that shares the source's threads and metadata values."""
    cmds = None

    def on_call(self, I, st, fn, args, kwargs, node):
        f = fn.fn if isinstance(fn, BoundV) else fn
        if getattr(f, "name", None) == "get_normalized_pattern":
            p, st = source_pattern(I, st.fork(), self.cmds, False, 1)
            return [(p, st)]
        if getattr(f, "mod", None) == "pyembroidery.WriteHelper":
            return nothing(self, I, st, args)
        if getattr(f, "name", None) in STUBS:
            return STUBS[f.name](self, I, st, args)
        return None


def reach(st, v, out=None, seen=None):
    """Labels of the objects value v leads to, in state st."""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isinstance(v, MU):
        v = v.v
    if isinstance(v, Choice):
        for x in v.vals:
            reach(st, x, out, seen)
    elif isinstance(v, Tup):
        for x in v.items:
            reach(st, x, out, seen)
    elif isinstance(v, Ref):
        if v.oid in seen:
            return out
        seen.add(v.oid)
        o = st[v]
        if getattr(o, "label", None):
            out.add(o.label)
        if isinstance(o, ListO):
            for x in o.pre + o.suf:
                reach(st, x, out, seen)
            if o.star is not None:
                reach_t(st, o.star, out, seen)
        elif isinstance(o, DictO):
            for x in o.items.values():
                reach(st, x, out, seen)
            if o.star is not None:
                reach_t(st, o.star, out, seen)
        elif isinstance(o, InstO):
            for x in o.attrs.values():
                reach(st, x, out, seen)
    return out


def reach_t(st, t, out, seen):
    for o in t.objs:
        if o.label:
            out.add(o.label)
        for _, x in o.fields:
            if isinstance(x, T):
                reach_t(st, x, out, seen)
        if isinstance(o.extra, T):
            reach_t(st, o.extra, out, seen)
    for r in t.refs:
        reach(st, Ref(r), out, seen)


class Collect(object):
    """Effects seen, by (label, function, line)."""

    def __init__(self):
        self.seen = {}
        self.total = 0

    def __call__(self, I, st, label, how, node):
        q = I.stack[-1] if I.stack else ("?", None, "?")
        k = (label, q[0], how)
        self.seen.setdefault(k, "%s:%s" % (q[2], getattr(node, "lineno", "?")))
