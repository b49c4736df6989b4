"""Models of Python's builtin types, functions and the few external modules the
analysed package uses."""
import ast
import math
import struct as _struct
from fractions import Fraction

from . import dom
from .dom import Lin, ATOMS, INF, Infeasible
from .core import *
from .core import t_values

LIST_METHODS = frozenset("append extend insert pop remove index count sort reverse clear copy".split())
BA_METHODS = LIST_METHODS | frozenset("decode hex find startswith endswith join replace split strip".split())
SET_METHODS = frozenset("add discard remove pop clear update copy union intersection difference issubset "
                        "issuperset symmetric_difference".split())
DICT_METHODS = frozenset("get items keys values update setdefault pop clear copy popitem".split())
STREAM_METHODS = frozenset("read write seek tell close readline readlines flush truncate getvalue "
                           "writelines readinto seekable readable writable getbuffer fileno isatty".split())
MUTATORS = frozenset("append extend insert pop remove sort reverse clear add discard update setdefault "
                     "popitem".split())


def labels_of(v, st):
    if isinstance(v, Unk):
        return v.labels
    if isinstance(v, Ref):
        l = getattr(st[v], "label", None)
        return frozenset([l]) if l is not None else frozenset()
    if isinstance(v, Choice):
        out = frozenset()
        for x in v.vals:
            out |= labels_of(x, st)
        return out
    return frozenset()


import os as _os
PURE_PATH = frozenset("os.path." + x for x in ("basename", "dirname", "split", "splitext", "join", "normpath", "normcase", "isabs"))


class Models(object):
    def __init__(self, interp):
        self.I = interp
        self.stream_read = None      # hook (interp, st, ref, n, node) -> [(val, st)] | None
        self.index_hook = None       # hook (interp, st, ref, idx, length, node)

    # ------------------------------------------------------------ helpers
    def hashable_const(self, k):
        return is_const(k) or isinstance(k, (FnV, ClsV, ModV, BuiltinV, ExtV)) or \
            (isinstance(k, Tup) and all(self.hashable_const(x) for x in k.items))

    def ext_value(self, name):
        c = {"math.pi": math.pi, "math.e": math.e, "math.tau": math.tau, "math.inf": math.inf,
             "math.nan": math.nan, "os.path.sep": "/", "os.sep": "/", "os.SEEK_SET": 0, "os.SEEK_CUR": 1,
             "os.SEEK_END": 2, "io.SEEK_SET": 0, "io.SEEK_CUR": 1, "io.SEEK_END": 2}
        if name in c:
            return c[name]
        if name in ("builtins.open",):
            return BuiltinV("open")
        return ExtV(name)

    def seqview(self, v, st):
        """-> (pre, star template|None, suf, slen) or None"""
        if isinstance(v, Ref):
            o = st[v]
            if isinstance(o, ListO):
                return o.pre, o.star, o.suf, o.slen
            if isinstance(o, DictO) and o.star is None:
                return tuple(o.items), None, (), 0
            return None
        if isinstance(v, Tup):
            return v.items, None, (), 0
        if isinstance(v, str):
            return tuple(v), None, (), 0
        if isinstance(v, bytes):
            return tuple(v), None, (), 0
        if isinstance(v, BytesV):
            it = v.items()
            if it is not None:
                return it, None, (), 0
            return None
        if isinstance(v, RangeV):
            n = self.range_list(v)
            if n is not None:
                return tuple(n), None, (), 0
            return None
        if isinstance(v, GenExpV) and v.kind in ("items", "keys", "values"):
            o = st[v.args[0]]
            if isinstance(o, DictO) and o.star is None:
                if v.kind == "items":
                    return tuple(Tup(kv) for kv in o.items.items()), None, (), 0
                return tuple(o.items if v.kind == "keys" else o.items.values()), None, (), 0
            return None
        if isinstance(v, GenExpV) and v.kind == "zip":
            vs = [self.seqview(a, st) for a in v.args]
            if all(x is not None and x[1] is None for x in vs):
                return tuple(Tup(t) for t in zip(*[x[0] for x in vs])), None, (), 0
            return None
        if isinstance(v, GenExpV) and v.kind == "enumerate":
            x = self.seqview(v.args[0], st)
            if x is not None and x[1] is None:
                return tuple(Tup((dom.add(v.args[1], i), y)) for i, y in enumerate(x[0])), None, (), 0
            return None
        if isinstance(v, GenExpV) and v.kind == "reversed":
            x = self.seqview(v.args[0], st)
            if x is not None:
                return tuple(reversed(x[2])) + (tuple(reversed(x[0])) if x[1] is None else ()), x[1], \
                    tuple(reversed(x[0])) if x[1] is not None else (), x[3]
            return None
        return None

    def range_list(self, v):
        if all(isinstance(x, int) for x in (v.a, v.b, v.step)) and v.step != 0:
            r = range(v.a, v.b, v.step)
            if len(r) <= 4096:
                return list(r)
        return None

    def blen(self, v):
        if isinstance(v, bytes):
            return len(v)
        return v.blen()

    # ---------------------------------------------------------- iteration
    def iterate(self, it, st, body, node, live):
        I = self.I
        if isinstance(it, MU):
            it = it.v
        if isinstance(it, Choice):
            out = []
            for x in it.vals:
                out += self.iterate(x, st.fork(), body, node, live)
            return [s for _, s in I.merge_states([(None, s) for s in out])]
        if isinstance(it, RangeV):
            return self.iter_range(it, st, body, node, live)
        if isinstance(it, Ref):
            o = st[it]
            if isinstance(o, ListO):
                return self.iter_list(it, st, body, node, live)
            if isinstance(o, DictO):
                return self.iterate(GenExpV("keys", (it,)), st, body, node, live)
            if isinstance(o, StreamO):
                return self.loop_unknown(st, body, node, live, lambda s: [(fresh_str("line"), s)])
            if isinstance(o, InstO) and isinstance(o.cls, ClsV):
                f = o.cls.lookup("__iter__")
                if f is not None:
                    out = []
                    for v, s in I.call(BoundV(f, it), [], {}, st, node):
                        if v == it:
                            out += self.loop_unknown(s, body, node, live, lambda x: [(unk("iter"), x)])
                        else:
                            out += self.iterate(v, s, body, node, live)
                    return out
                if o.cls.known() and o.cls.lookup("__getitem__") is None and not o.open:
                    I.raise_(st, "TypeError", node, msg="%s is not iterable" % o.cls.name)
                    return []
            lab = labels_of(it, st)
            return self.loop_unknown(st, body, node, live, lambda s: [(unk("iter", lab), s)])
        if isinstance(it, GenV):
            return self.iter_gen(it, st, body, node, live)
        if isinstance(it, GenExpV):
            return self.iter_genexp(it, st, body, node, live)
        sv = self.seqview(it, st)
        if sv is not None and sv[1] is None:
            if len(sv[0]) <= 600:
                return self.unroll(sv[0], st, body)
            if isinstance(it, bytes):
                return self.loop_unknown(st, body, node, live,
                                         lambda s: [(dom.sym("byte", True, 0, 255), s)])
            t = T()
            for x in sv[0]:
                t = t_join(t, t_of(x, st, newid()))
            return self.loop_unknown(st, body, node, live, lambda s: t_values(t, s, I))
        if isinstance(it, BytesV):
            cur = [st]
            for p in it.parts:
                nxt = []
                for s in cur:
                    if isinstance(p, tuple):
                        nxt += self.unroll(p, s, body)
                    else:
                        nxt += self.loop_unknown(s, body, node, live,
                                                 lambda x: [(dom.sym("byte", True, 0, 255), x)], n=p.n)
                cur = nxt
            return cur
        if isinstance(it, SStr):
            return self.loop_unknown(st, body, node, live,
                                     lambda s: [(fresh_str("char", 1, 1), s)], n=it.clen())
        if isinstance(it, Unk) or isinstance(it, (ExtV,)):
            lab = labels_of(it, st)
            I.maybe_raise(st, "TypeError", node)
            return self.loop_unknown(st, body, node, live, lambda s: [(unk("iter", lab), s)])
        if it is None or dom.isnum(it) or isinstance(it, bool) or isinstance(it, (FnV, ClsV, ModV, BoundV)):
            I.raise_(st, "TypeError", node, msg="%r is not iterable" % (it,))
            return []
        return self.loop_unknown(st, body, node, live, lambda s: [(unk("iter"), s)])

    def unroll(self, items, st, body):
        I = self.I
        cur = [st]
        for x in items:
            nxt = []
            for s in cur:
                nxt += body(x, s)
            if len(nxt) > 1:
                nxt = [s for _, s in I.merge_states([(None, s) for s in nxt])]
            cur = nxt
            if not cur:
                break
        return cur

    def iter_range(self, r, st, body, node, live):
        I = self.I
        if isinstance(r.step, int) and r.step != 0 and not isinstance(r.a, Lin) and not isinstance(r.b, Lin):
            n = len(range(int(r.a), int(r.b), r.step))
            if n <= I.unroll:
                return self.unroll(range(int(r.a), int(r.b), r.step), st, body)
        step = r.step
        if not isinstance(step, int) or step == 0:
            if isinstance(step, Lin):
                lo, hi = st.facts.bounds(step)
                sgn = 1 if lo > 0 else (-1 if hi < 0 else 0)
                if not sgn:
                    return self.loop_unknown(st, body, node, live,
                                             lambda s: [(dom.sym("idx", True), s)])
            else:
                I.raise_(st, "ValueError", node, msg="range() step")
                return []
        else:
            sgn = 1 if step > 0 else -1
        out = []
        op = "<" if sgn > 0 else ">"
        for b, s in I.compare_num(op, r.a, r.b, st):
            if not b:
                out.append(s)
                continue
            # iteration variable starts as a named unknown equal to the start
            at = dom.fresh("phi", True)
            idx = Lin(0, ((at.id, 1),))
            cell = s.alloc(CellO("range", (idx,)))
            key = ("it", newid())
            s.ghost[key] = cell
            alo, ahi = s.facts.bounds(r.a)
            if alo == ahi:
                self.setfact(s, idx, alo, alo)
            else:
                # the start value is symbolic: keep idx equal to it by construction
                s[cell] = CellO("range", (r.a,))
                idx = r.a
            if step in (1, -1):
                d = dom.sub(idx, r.b)
                if isinstance(d, Lin):
                    self.force(s, d, -INF if sgn > 0 else 0, 0 if sgn > 0 else INF)

            def stepf(x, key=key, r=r, op=op):
                backs, exits = [], []
                i = x[x.ghost[key]].vals[0]
                for c, y in I.compare_num(op, i, r.b, x):
                    if not c:
                        exits.append(y)
                        continue
                    for z in body(y.facts.simplify(i), y):
                        z[z.ghost[key]] = CellO("range", (dom.add(i, r.step),))
                        backs.append(z)
                if len(backs) > 1:
                    backs = [q for _, q in I.merge_states([(None, q) for q in backs])]
                return backs, exits
            thr = [int(v) for v in (r.a, r.b) if isinstance(v, (int, float)) and v not in (INF, -INF)]
            if r.step not in (1, -1):
                thr = []
            I.thresholds.extend(thr)
            try:
                ex = I.fixpoint(s, stepf, live[0], live[1])
            finally:
                del I.thresholds[len(I.thresholds) - len(thr):]
            for x in ex:
                x.ghost.pop(key, None)
            out += ex
        return [s for _, s in I.merge_states([(None, s) for s in out])] if len(out) > 1 else out

    def setfact(self, st, lin, lo, hi):
        try:
            st.facts.assume(lin, lo, hi)
        except Infeasible:
            pass

    def loop_unknown(self, st, body, node, live, elem, n=None):
        """Loop of unknown (or symbolic) length."""
        I = self.I
        key = ("it", newid())
        k0 = 0
        if n is not None and not isinstance(n, Lin):
            if n <= I.unroll:
                cur = [st]
                for _ in range(int(n)):
                    nxt = []
                    for s in cur:
                        for v, y in elem(s):
                            nxt += body(v, y)
                    cur = [q for _, q in I.merge_states([(None, q) for q in nxt])] if len(nxt) > 1 else nxt
                return cur
        at = dom.fresh("phi", True)
        k = Lin(0, ((at.id, 1),))
        self.setfact(st, k, 0, 0)
        if n is not None:
            d = dom.sub(k, n)
            if isinstance(d, Lin):
                self.force(st, d, -INF, 0)
        cell = st.alloc(CellO("loop", (k,)))
        st.ghost[key] = cell

        def stepf(x):
            backs, exits = [], []
            i = x[x.ghost[key]].vals[0]
            if n is None:
                conts = [(True, x), (False, x.fork())]
            else:
                conts = I.compare_num("<", i, n, x)
            for c, y in conts:
                if not c:
                    exits.append(y)
                    continue
                for v, z in elem(y):
                    for w in body(v, z):
                        w[w.ghost[key]] = CellO("loop", (dom.add(i, 1),))
                        backs.append(w)
            if len(backs) > 1:
                backs = [q for _, q in I.merge_states([(None, q) for q in backs])]
            return backs, exits
        ex = I.fixpoint(st, stepf, live[0], live[1])
        for x in ex:
            x.ghost.pop(key, None)
        return [s for _, s in I.merge_states([(None, s) for s in ex])] if len(ex) > 1 else ex

    def force(self, st, lin, lo, hi):
        """Record lin in [lo,hi] as an explicit fact even when implied (so that
        joins can carry it over)."""
        key, sc, c = dom.formkey(lin)
        a = Fraction(lo - c) / sc if lo not in (INF, -INF) else (lo if sc > 0 else -lo)
        b = Fraction(hi - c) / sc if hi not in (INF, -INF) else (hi if sc > 0 else -hi)
        if sc < 0:
            a, b = b, a
        old = st.facts.d.get(key)
        if old is not None:
            a, b = max(a, old[0]), min(b, old[1])
        st.facts.d[key] = (dom._clean2(a), dom._clean2(b))
        st.facts.cache = {}

    def iter_list(self, ref, st, body, node, live):
        """Index-based iteration over the live list."""
        I = self.I
        o = st[ref]
        if o.star is None and len(o.pre) > 400:
            t = T()
            mark = newid()
            for x in o.pre:
                t = t_join(t, t_of(x, st, mark))
            return self.loop_unknown(st, body, node, live, lambda s: t_values(t, s, I), n=len(o.pre))
        cur = [(0, st)]
        ends = []
        # exact prefix: index based, re-reading the list each time
        starred = []
        while cur:
            nxt = []
            for i, s in cur:
                lo = s[ref]
                if i < len(lo.pre):
                    nxt += [(i + 1, x) for x in body(lo.pre[i], s)]
                elif lo.star is None:
                    ends.append(s)
                else:
                    starred.append((i, s))
            if len(nxt) > 1:
                by = {}
                for i, s in nxt:
                    by.setdefault(i, []).append((None, s))
                nxt = [(i, s) for i, ss in by.items() for _, s in I.merge_states(ss)]
            cur = nxt
            if any(i > 3000 for i, _ in cur):
                raise AnalysisErr("list grows while iterated")
        for i, s in starred:
            ends += self.iter_star(ref, i, s, body, node, live)
        return [s for _, s in I.merge_states([(None, s) for s in ends])] if len(ends) > 1 else ends

    def iter_star(self, ref, i0, st, body, node, live):
        I = self.I
        key = ("it", newid())
        o = st[ref]
        mat = o.star.mat
        at = dom.fresh("phi", True)
        k = Lin(0, ((at.id, 1),))
        n = o.slen
        self.setfact(st, k, 0, 0)
        if isinstance(n, Lin):
            d = dom.sub(k, n)
            if isinstance(d, Lin):
                self.force(st, d, -INF, 0)
        I.loop_node = node
        extra = tuple(mat.init(I, st)) if mat is not None else ()
        cell = st.alloc(CellO("star", (k,) + extra))
        st.ghost[key] = cell

        def stepf(x):
            backs, exits = [], []
            cv = x[x.ghost[key]].vals
            k = cv[0]
            lo = x[ref]
            if lo.star is None:
                # contents became exact in the loop: give up precision
                return [], [x]
            for c, y in I.compare_num("<", k, lo.slen, x):
                if not c:
                    if lo.slen is n and isinstance(dom.sub(k, n), Lin):
                        self.force(y, dom.sub(k, n), -INF, 0)     # the position never passes the end
                    exits.append(y)
                    continue
                t = lo.star
                if t.mat is not None:
                    I.loop_node = node
                    vals = t.mat.step(I, y, cv[1:])
                else:
                    vals = [(v, cv[1:], z) for v, z in t_values(t, y, I)]
                for v, ex2, z in vals:
                    for w in body(v, z):
                        if t.mat is not None and hasattr(t.mat, "done"):
                            I.loop_node = node
                            t.mat.done(I, w, ex2)
                        w[w.ghost[key]] = CellO("star", (dom.add(k, 1),) + tuple(ex2))
                        backs.append(w)
            if len(backs) > 1:
                backs = [q for _, q in I.merge_states([(None, q) for q in backs])]
            return backs, exits
        ex = I.fixpoint(st, stepf, live[0], live[1])
        out = []
        for x in ex:
            cv = x[x.ghost[key]].vals
            x.ghost.pop(key, None)
            if mat is not None and hasattr(mat, "finish"):
                for v, z in mat.finish(I, x, cv[1:]):
                    out += body(v, z)
                continue
            out.append(x)
        out = [s for _, s in I.merge_states([(None, s) for s in out])] if len(out) > 1 else out
        # suffix
        res = []
        for x in out:
            cur = [x]
            j = 0
            while True:
                nxt = []
                done = []
                for s in cur:
                    lo = s[ref]
                    if lo.star is not None and j < len(lo.suf):
                        nxt += body(lo.suf[j], s)
                    else:
                        done.append(s)
                res += done
                if not nxt:
                    break
                cur = nxt
                j += 1
                if j > 200:
                    res += cur
                    break
        return res

    def iter_gen(self, g, st, body, node, live=None):
        I = self.I
        consumer = st.frames
        cstack = list(I.stack)
        cyields = list(I.yields)
        cexc = list(I.exc)
        chandlers = list(I.handlers)
        cmod = I.mod

        def handler(v, x):
            gframes = x.frames
            sv = (I.stack, I.yields, I.exc, I.handlers, I.mod)
            x.frames = consumer
            I.stack, I.yields, I.exc, I.handlers, I.mod = list(cstack), list(cyields), list(cexc), \
                list(chandlers), cmod
            try:
                outs = body(v, x)
            finally:
                I.stack, I.yields, I.exc, I.handlers, I.mod = sv
            for o in outs:
                if live is not None and live[0] is not None:
                    I.prune(o, live[0], live[1])
                o.frames = gframes
            return outs
        save = I.yields
        I.yields = list(cyields) + [handler]
        try:
            res = I.run_body(g.fn, Ref(g.frame), st, node)
        finally:
            I.yields = save
        return [s for _, s in res]

    def iter_genexp(self, it, st, body, node, live):
        I = self.I
        sv = self.seqview(it, st)
        if sv is not None and sv[1] is None and len(sv[0]) <= 600 and it.kind not in ("enumerate", "zip"):
            return self.unroll(sv[0], st, body)
        if it.kind == "enumerate":
            src, start = it.args
            x = self.seqview(src, st)
            if x is not None and x[1] is None and not (isinstance(src, Ref) and isinstance(st[src], ListO)):
                if len(x[0]) <= 600:
                    return self.unroll([Tup((dom.add(start, i), y)) for i, y in enumerate(x[0])], st, body)
            key = ("enum", newid())
            at = dom.fresh("phi", True)
            k = Lin(0, ((at.id, 1),))
            if not isinstance(start, Lin):
                self.setfact(st, k, start, start)
                first = k
            else:
                first = start
            st.ghost[key] = first

            def b2(v, x):
                i = x.ghost[key]
                outs = body(Tup((x.facts.simplify(i), v)), x)
                for o in outs:
                    o.ghost[key] = dom.add(i, 1)
                return outs
            outs = self.iterate(src, st, b2, node, live)
            for o in outs:
                o.ghost.pop(key, None)
            return outs
        if it.kind == "zip":
            vs = [self.seqview(a, st) for a in it.args]
            if all(x is not None and x[1] is None for x in vs):
                return self.unroll([Tup(t) for t in zip(*[x[0] for x in vs])], st, body)
            if not it.args:
                return [st]

            def el(s):
                items = []
                for a in it.args:
                    items.append(self.any_elem(a, s))
                return [(Tup(items), s)]
            return self.loop_unknown(st, body, node, live, el)
        if it.kind in ("items", "keys", "values"):
            o = st[it.args[0]]
            if isinstance(o, DictO):
                cur = [st]
                items = list(o.items.items())
                pick = {"items": lambda k, v: Tup((k, v)), "keys": lambda k, v: k,
                        "values": lambda k, v: v}[it.kind]
                cur = self.unroll([pick(k, v) for k, v in items], st, body)
                if o.star is not None:
                    def el(s, o=o):
                        kk = fresh_str("key")
                        if it.kind == "keys":
                            return [(kk, s)]
                        return [((Tup((kk, v)) if it.kind == "items" else v), y)
                                for v, y in t_values(o.star, s, I, "dictval")]
                    out = []
                    for s in cur:
                        out += self.loop_unknown(s, body, node, live, el)
                    cur = out
                return cur
        if it.kind == "reversed":
            x = self.seqview(it.args[0], st)
            if x is not None and x[1] is not None:
                def el(s):
                    return [(self.any_elem(it.args[0], s), s)]
                return self.loop_unknown(st, body, node, live, el)
        if it.kind in ("map", "filter"):
            fnv, src = it.args[0], it.args[1]

            def b2(v, x):
                outs = []
                if it.kind == "map":
                    for r, y in I.call(fnv, [v], {}, x, node):
                        outs += body(r, y)
                else:
                    if fnv is None:
                        tests = [(v, x)]
                    else:
                        tests = I.call(fnv, [v], {}, x, node)
                    for r, y in tests:
                        for b, z in I.truth(r, y):
                            if b:
                                outs += body(v, z)
                            else:
                                outs.append(z)
                return outs
            return self.iterate(src, st, b2, node, live)
        if it.kind == "iter":
            return self.iterate(it.args[0], st, body, node, live)
        return self.loop_unknown(st, body, node, live, lambda s: [(unk("iter"), s)])

    def any_elem(self, v, st):
        I = self.I
        sv = self.seqview(v, st)
        if sv is not None:
            t = sv[1] if sv[1] is not None and sv[1].mat is None else T()
            mark = newid()
            for x in sv[0] + sv[2]:
                t = t_join(t, t_of(x, st, mark))
            if sv[1] is not None and sv[1].mat is not None:
                return sv[1].mat.any(I, st)
            return t_value(t, st, I)
        if isinstance(v, BytesV):
            return dom.sym("byte", True, 0, 255)
        if isinstance(v, SStr):
            return fresh_str("char", 1, 1)
        if isinstance(v, RangeV):
            s = dom.sym("idx", True)
            return s
        return unk("elem", labels_of(v, st))

    def seq_items(self, v, st, n, node):
        """-> [(items tuple | None, st)]"""
        I = self.I
        if isinstance(v, MU):
            v = v.v
        if isinstance(v, Choice):
            out = []
            for x in v.vals:
                out += self.seq_items(x, st.fork(), n, node)
            return out
        sv = self.seqview(v, st)
        if sv is not None:
            if sv[1] is None:
                return [(tuple(sv[0]), st)]
            if n is not None:
                # assume the length fits, raise otherwise
                ln = dom.add(len(sv[0]) + len(sv[2]), sv[3])
                out = []
                for b, s in I.compare_num("==", ln, n, st):
                    if b:
                        items = []
                        for i in range(n):
                            items.append(self.any_elem(v, s))
                        out.append((tuple(items), s))
                    else:
                        I.maybe_raise(s, "ValueError", node)
                return out
            return [(None, st)]
        if isinstance(v, (GenV,)):
            # run the generator collecting the yields
            acc = st.alloc(ListO("list", ()))
            key = ("acc", newid())
            st.ghost[key] = acc

            def body(x, s):
                s[acc] = I.list_append(s[acc], x)
                return [s]
            out = []
            for s in self.iterate(v, st, body, node, (None, frozenset())):
                s.ghost.pop(key, None)
                o = s[acc]
                out.append((o.pre if o.star is None else None, s))
            return out
        if isinstance(v, BytesV) and n is not None:
            out = []
            for b, s in I.compare_num("==", v.blen(), n, st):
                if b:
                    items = []
                    for i in range(n):
                        r = self.getitem(v, i, s, node)
                        if not r:
                            items = None
                            break
                        items.append(r[0][0])
                    out.append((tuple(items) if items is not None else None, s))
                else:
                    I.raise_(s, "ValueError", node, definite=False, msg="unpack length")
            return out
        if v is None or (dom.isnum(v) and not isinstance(v, Unk)) or isinstance(v, bool):
            I.raise_(st, "TypeError", node, msg="cannot unpack %r" % (v,))
            return []
        if isinstance(v, GenExpV):
            acc = st.alloc(ListO("list", ()))
            out = []
            for r, s in self.to_list(v, st, "list", node):
                o = s[r]
                out.append((o.pre if o.star is None else None, s))
            return out
        if isinstance(v, Ref) and isinstance(st[v], InstO) and isinstance(st[v].cls, ClsV) and \
                st[v].cls.lookup("__iter__") is not None:
            return [(None, st)]
        I.maybe_raise(st, "TypeError", node)
        I.maybe_raise(st, "ValueError", node)
        return [(None, st)]

    def to_list(self, v, st, kind, node):
        """list(v) etc -> [(Ref, st)]"""
        I = self.I
        if isinstance(v, MU):
            v = v.v
        if isinstance(v, Choice):
            out = []
            for x in v.vals:
                out += self.to_list(x, st.fork(), kind, node)
            return I.merge_states(out)
        sv = self.seqview(v, st)
        if sv is not None:
            pre, star, suf, slen = sv
            if kind == "set":
                return [(self.mkset(pre + suf, star, st), st)]
            return [(st.alloc(ListO(kind, pre, star, suf, slen)), st)]
        if isinstance(v, BytesV):
            pre, suf, slen = [], [], 0
            star = None
            for p in v.parts:
                if isinstance(p, tuple):
                    if star is None:
                        pre += p
                    else:
                        suf += p
                else:
                    star = T(num=(True, 0, 255))
                    slen = dom.add(dom.add(slen, p.n), len(suf))
                    suf = []
            return [(st.alloc(ListO(kind, pre, star, suf, slen)), st)]
        if isinstance(v, SStr):
            return [(st.alloc(ListO(kind, (), T(objs=(TObj("str", None, (), None),)), (), v.clen())), st)]
        if isinstance(v, Unk) or (isinstance(v, Ref) and isinstance(st[v], InstO) and st[v].cls and not (
                isinstance(st[v].cls, ClsV) and st[v].cls.lookup("__iter__"))):
            n = dom.opaque("len", (v,), True, 0, INF) if isinstance(v, Unk) else dom.sym("len", True, 0, INF)
            I.maybe_raise(st, "TypeError", node)
            return [(st.alloc(ListO(kind, (), T(unk_=labels_of(v, st)), (), n)), st)]
        if isinstance(v, RangeV):
            n = dom.sub(v.b, v.a)
            lo = st.facts.bounds(v.a)[0]
            hi = st.facts.bounds(v.b)[1]
            return [(st.alloc(ListO(kind, (), T(num=(True, lo, hi)), (), dom.sym("len", True, 0, INF))), st)]
        acc = st.alloc(ListO(kind, ()))
        key = ("acc", newid())
        st.ghost[key] = acc

        def body(x, s):
            s[acc] = I.list_append(s[acc], x)
            return [s]
        outs = self.iterate(v, st, body, node, (None, frozenset()))
        for s in outs:
            s.ghost.pop(key, None)
        return [(acc, s) for s in outs]

    def mkset(self, items, star, st, label=None):
        out, seen = [], set()
        for x in items:
            if is_const(x):
                k = x
                if k in seen:
                    continue
                seen.add(k)
            out.append(x)
        if star is None and all(is_const(x) for x in out):
            return st.alloc(ListO("set", out, label=label))
        t = star or T()
        if not (star is None):
            for x in out:
                t = t_join(t, t_of(x, st, newid()))
            return st.alloc(ListO("set", (), t, (), dom.sym("setlen", True, 0, INF), label=label))
        return st.alloc(ListO("set", out, label=label))

    # ----------------------------------------------------------- indexing
    def getitem(self, b, i, st, node):
        I = self.I
        if isinstance(b, MU):
            b = b.v
        if isinstance(i, MU):
            i = i.v
        if isinstance(b, Choice):
            out = []
            for x in b.vals:
                out += self.getitem(x, i, st.fork(), node)
            return I.merge_states(out)
        if isinstance(i, Choice):
            out = []
            for x in i.vals:
                out += self.getitem(b, x, st.fork(), node)
            return I.merge_states(out)
        if isinstance(i, bool):
            i = int(i)
        if isinstance(b, Ref):
            o = st[b]
            if isinstance(o, ListO):
                if o.kind == "set":
                    return I.raise_(st, "TypeError", node, msg="set is not subscriptable")
                return self.list_get(b, o, i, st, node)
            if isinstance(o, DictO):
                return self.dict_get(o, i, st, node)
            if isinstance(o, InstO) and isinstance(o.cls, ClsV):
                f = o.cls.lookup("__getitem__")
                if f is not None:
                    return I.call(BoundV(f, b), [i], {}, st, node)
                if o.cls.known() and not o.open:
                    return I.raise_(st, "TypeError", node, msg="%s is not subscriptable" % o.cls.name)
            I.maybe_raise(st, "IndexError", node)
            I.maybe_raise(st, "KeyError", node)
            return [(Unk(("item", b, i), labels_of(b, st)) if not isinstance(i, SliceV)
                     else unk("slice", labels_of(b, st)), st)]
        if isinstance(b, Tup) or isinstance(b, (str, bytes)):
            items = b.items if isinstance(b, Tup) else b
            if isinstance(i, SliceV):
                c = self.const_slice(i, st)
                if c is not None:
                    r = items[c]
                    return [(Tup(r) if isinstance(b, Tup) else r, st)]
                if isinstance(b, str):
                    return [(fresh_str("slice", 0, len(b)), st)]
                if isinstance(b, bytes):
                    return [(BytesV((BAtom(("slice", newid()), dom.sym("blen", True, 0, len(b))),)), st)]
                return [(unk("slice"), st)]
            if dom.isnum(i):
                return self.index_const(items, i, st, node)
            if isinstance(i, Unk):
                I.maybe_raise(st, "IndexError", node)
                if isinstance(b, bytes):
                    return [(dom.sym("byte", True, 0, 255), st)]
                if isinstance(b, str):
                    return [(fresh_str("char", 1, 1), st)]
                if 0 < len(items) <= 12:
                    return [(Choice(items) if len(items) > 1 else items[0], st)]
                return [(unk("item"), st)]
            return I.raise_(st, "TypeError", node, msg="indices must be integers")
        if isinstance(b, BytesV):
            return self.bytes_get(b, i, st, node)
        if isinstance(b, SStr):
            if isinstance(i, SliceV):
                lo = 0
                return [(fresh_str("slice", 0, st.facts.bounds(b.clen())[1]), st)]
            if b.parts and isinstance(b.parts[0], str) and isinstance(i, int) and 0 <= i < len(b.parts[0]):
                return [(b.parts[0][i], st)]
            I.maybe_raise(st, "IndexError", node)
            return [(fresh_str("char", 1, 1, key=("char", b, i) if not isinstance(i, Lin) else None), st)]
        if isinstance(b, RangeV):
            if isinstance(i, int) and i >= 0:
                return [(dom.add(b.a, dom.mul(b.step, i)), st)]
            return [(dom.sym("idx", True), st)]
        if isinstance(b, Unk):
            I.maybe_raise(st, "IndexError", node)
            I.maybe_raise(st, "KeyError", node)
            I.maybe_raise(st, "TypeError", node)
            if isinstance(i, SliceV):
                return [(unk("slice", b.labels), st)]
            return [(Unk(("item", b, i), b.labels), st)]
        if b is None:
            return I.raise_(st, "TypeError", node, msg="None is not subscriptable")
        if dom.isnum(b) or isinstance(b, bool):
            return I.raise_(st, "TypeError", node, msg="number is not subscriptable")
        I.maybe_raise(st, "TypeError", node)
        return [(unk("item"), st)]

    def const_slice(self, s, st):
        vals = []
        for x in (s.a, s.b, s.step):
            if isinstance(x, Lin):
                x = st.facts.simplify(x)
            if x is None or (isinstance(x, int) and not isinstance(x, bool)):
                vals.append(x)
            else:
                return None
        return slice(*vals)

    def index_const(self, items, i, st, node):
        """items: exact sequence, numeric index"""
        I = self.I
        i = st.facts.simplify(i) if isinstance(i, Lin) else i
        n = len(items)
        if isinstance(i, (float, Fraction)):
            return I.raise_(st, "TypeError", node, msg="float index")
        if isinstance(i, int):
            if -n <= i < n:
                return [(items[i], st)]
            return I.raise_(st, "IndexError", node, msg="index %d of %d" % (i, n))
        lo, hi = st.facts.bounds(i)
        out = []
        if n == 0 or lo >= n or hi < -n:
            return I.raise_(st, "IndexError", node, msg="index out of range")
        if lo < 0 and hi >= 0:
            # split on sign
            for b, s in I.compare_num("<", i, 0, st):
                out += self.index_const(items, i, s, node)
            return out
        if hi >= n or lo < -n:
            if I.catchable("IndexError"):
                bad = st.fork()
                okb = I.assume(bad, i, n, INF) if hi >= n else I.assume(bad, i, -INF, -n - 1)
                if okb:
                    I.raise_(bad, "IndexError", node, definite=False, msg="index may be out of range")
            if not I.assume(st, i, 0 if lo >= 0 else -n, n - 1 if hi >= 0 else -1):
                return []
            lo, hi = st.facts.bounds(i)
        lo, hi = int(max(lo, -n)), int(min(hi, n - 1))
        cand = [items[j] for j in range(lo, hi + 1)]
        if all(same(c, cand[0]) for c in cand):
            return [(cand[0], st)]
        if hi - lo < 4 or (st.facts.bools_in(i) and len(st.facts.bools_in(i)) == len(i.t) and hi - lo < 16):
            out = []
            for v, s in I.concretize(i, st):
                if isinstance(v, int):
                    out.append((items[v], s))
                else:
                    for j in range(lo, hi + 1):
                        s2 = s.fork()
                        if I.assume(s2, v, j, j):
                            out.append((items[j], s2))
            return I.merge_states(out)
        if isinstance(items, str):
            return [(fresh_str("char", 1, 1), st)]
        nums = [c for c in cand if dom.isnum(c)]
        if len(nums) == len(cand):
            ci = [c for c in cand if not isinstance(c, Lin)]
            if len(ci) == len(cand):
                return [(dom.opaque("tab", (tuple(cand), i), all(isinstance(c, int) for c in cand),
                                    min(cand), max(cand)), st)]
            los = [st.facts.bounds(c) for c in cand]
            return [(dom.sym("tab", all(dom.is_int_lin(c) for c in cand), min(x[0] for x in los),
                             max(x[1] for x in los)), st)]
        mark = newid()
        t = T()
        for c in cand:
            t = t_join(t, t_of(c, st, mark))
        if len(t.refs) > 12:
            # copy the shape of the objects
            t2 = T(t.consts, t.num, t.objs, frozenset(), t.unk)
            for r in t.refs:
                t2 = t_join(t2, t_of(Ref(r), st, 0))
            t = t2
        return [(t_value(t, st, I), st)]

    def list_get(self, ref, o, i, st, node):
        I = self.I
        if isinstance(i, SliceV):
            return self.list_slice(ref, o, i, st, node)
        if isinstance(i, Unk):
            I.maybe_raise(st, "IndexError", node)
            return [(self.any_elem(ref, st), st)]
        if not dom.isnum(i):
            return I.raise_(st, "TypeError", node, msg="list indices must be integers")
        i = st.facts.simplify(i) if isinstance(i, Lin) else i
        if isinstance(i, (float, Fraction)):
            return I.raise_(st, "TypeError", node, msg="float index")
        if self.index_hook is not None:
            self.index_hook(I, st, ref, o, i, node)
        if o.star is None:
            return self.index_const(o.pre, i, st, node)
        if isinstance(i, int):
            if 0 <= i < len(o.pre):
                return [(o.pre[i], st)]
            if i < 0 and -i <= len(o.suf):
                return [(o.suf[i], st)]
            need = i + 1 if i >= 0 else -i
            out = []
            for b, s in I.compare_num(">=", o.length(), need, st):
                if not b:
                    I.raise_(s, "IndexError", node, definite=False, msg="list may be too short")
                    continue
                if i < 0 and not o.suf and o.pre:
                    # element may come from the prefix when the star part is short
                    for b2, s2 in I.compare_num(">=", o.slen, -i, s):
                        if b2:
                            out.append((self.star_elem(o, s2), s2))
                        else:
                            for v, s3 in I.concretize(o.slen, s2):
                                if isinstance(v, int):
                                    k = i + v
                                    out.append((o.pre[k] if k < 0 else self.star_elem(o, s3), s3))
                                else:
                                    out.append((self.any_elem(ref, s3), s3))
                    continue
                if i >= 0 and o.suf:
                    out.append((self.any_elem(ref, s), s))
                    continue
                if i < 0 and o.suf:
                    out.append((self.any_elem(ref, s), s))
                    continue
                out.append((self.star_elem(o, s), s))
            return I.merge_states(out)
        # symbolic index: relative to the end?
        d = dom.sub(i, o.length())
        if not isinstance(d, Lin) and isinstance(d, int) and d < 0:
            return self.list_get(ref, o, d, st, node)
        lo, hi = st.facts.bounds(i)
        out = []
        if I.catchable("IndexError"):
            I.raise_(st.fork(), "IndexError", node, definite=False)
        if not o.pre and not o.suf:
            return [(self.star_elem(o, st), st)]
        return [(self.any_elem(ref, st), st)]

    def star_elem(self, o, st):
        if o.star.mat is not None:
            return o.star.mat.any(self.I, st)
        return t_value(o.star, st, self.I)

    def list_slice(self, ref, o, sl, st, node):
        I = self.I
        c = self.const_slice(sl, st)
        if o.star is None and c is not None:
            return [(st.alloc(ListO(o.kind, o.pre[c])), st)]
        a, b, step = sl.a, sl.b, sl.step
        if a is None and b is None and step is None:
            return [(st.alloc(ListO(o.kind, o.pre, o.star, o.suf, o.slen)), st)]
        star = o.star if o.star is not None else T()
        mark = newid()
        if star.mat is not None and not o.pre and not o.suf:
            if step is None and all(v is None or dom.isnum(v) for v in (a, b)) and o.label is not None:
                # remember which part of the list it is
                lo, hi = (0 if a is None else a), (o.slen if b is None else b)
                n = dom.sym("len", True, 0, INF)
                if st.facts.bounds(lo)[0] >= 0 and st.facts.bounds(hi)[0] >= 0 and st.facts.bounds(dom.sub(hi, lo))[0] >= 0 \
                        and st.facts.bounds(dom.sub(o.slen, hi))[0] >= 0:
                    n = dom.sub(hi, lo)
                return [(st.alloc(ListO(o.kind, (), star, (), n, ("part", o.label, lo, hi))), st)]
            n = dom.sym("len", True, 0, INF)
            st.facts.assume(dom.sub(o.slen, n), 0, INF) if isinstance(o.slen, Lin) else None
            return [(st.alloc(ListO(o.kind, (), star, (), n)), st)]
        if a is None and step is None and isinstance(b, int) and b < 0 and len(o.suf) >= -b:
            return [(st.alloc(ListO(o.kind, o.pre, o.star, o.suf[:b], o.slen)), st)]
        if isinstance(a, int) and 0 <= a <= len(o.pre) and b is None and step is None:
            return [(st.alloc(ListO(o.kind, o.pre[a:], o.star, o.suf, o.slen)), st)]
        for x in o.pre + o.suf:
            star = t_join(star, t_of(x, st, mark))
        n = dom.sym("len", True, 0, INF)
        if o.star is None and not (isinstance(a, Unk) or isinstance(b, Unk)) and step is None:
            self.setfact(st, n, 0, len(o.pre))
        return [(st.alloc(ListO(o.kind, (), star, (), n)), st)]

    def bytes_get(self, b, i, st, node):
        I = self.I
        if isinstance(i, SliceV):
            it = b.items()
            c = self.const_slice(i, st)
            if it is not None and c is not None:
                return [(BytesV((it[c],)).simp(), st)]
            n = dom.sym("blen", True, 0, INF)
            d = b.blen()
            if isinstance(d, Lin):
                self.setfact(st, dom.sub(d, n), 0, INF)
            else:
                self.setfact(st, n, 0, d)
            return [(BytesV((BAtom(("slice", newid()), n),)), st)]
        it = b.items()
        if it is not None and dom.isnum(i):
            return self.index_const(it, i, st, node)
        if isinstance(i, int):
            # walk the parts
            if i >= 0:
                k = i
                for p in b.parts:
                    if isinstance(p, tuple):
                        if k < len(p):
                            return [(p[k], st)]
                        k -= len(p)
                    else:
                        out = []
                        for r, s in I.compare_num(">", p.n, k, st):
                            if r:
                                out.append((dom.opaque("byte", (p.key, k), True, 0, 255), s))
                            elif len(b.parts) == 1:
                                I.raise_(s, "IndexError", node, definite=False, msg="short data")
                            else:
                                out.append((dom.sym("byte", True, 0, 255), s))
                        return out
                return I.raise_(st, "IndexError", node, msg="index out of range")
            return [(dom.sym("byte", True, 0, 255), st)]
        I.maybe_raise(st, "IndexError", node)
        return [(dom.sym("byte", True, 0, 255), st)]

    def dict_get(self, o, k, st, node, default=None, has_default=False):
        I = self.I
        if self.hashable_const(k):
            if k in o.items:
                v = o.items[k]
                if isinstance(v, MU):
                    v = v.v
                return [(v, st)]
            if o.star is None or k in o.gone:
                if has_default:
                    return [(default, st)]
                return I.raise_(st, "KeyError", node, msg="key %r" % (k,), definite=True)
            if has_default:
                if I.merge == "join":
                    v = t_value(o.star, st, I, "dictval")
                    return [(Choice([default, v]) if not same(default, v) else v, st)]
                s2 = st.fork()
                return [(default, s2)] + t_values(o.star, st, I, "dictval")
            I.maybe_raise(st, "KeyError", node)
            return t_values(o.star, st, I, "dictval")
        if isinstance(k, Ref) and isinstance(st[k], (ListO, DictO)):
            return I.raise_(st, "TypeError", node, msg="unhashable key")
        if isinstance(k, Lin):
            cs = I.concretize(k, st)
            if all(not isinstance(c, Lin) for c, _ in cs):
                out = []
                for c, s in cs:
                    out += self.dict_get(o, c, s, node, default, has_default)
                return I.merge_states(out)
            # symbolic integer key over exact dict
            lo, hi = st.facts.bounds(k)
            cand = [v for kk, v in o.items.items() if isinstance(kk, (int, float)) and lo <= kk <= hi]
        else:
            cand = list(o.items.values())
        t = o.star if o.star is not None else T()
        mark = newid()
        for v in cand:
            t = t_join(t, t_of(v, st, mark))
        if has_default:
            t = t_join(t, t_of(default, st, mark))
        else:
            I.maybe_raise(st, "KeyError", node)
            if o.star is None and not cand:
                return I.raise_(st, "KeyError", node, definite=not o.items, msg="no such key")
        if len(t.refs) > 12:
            t2 = T(t.consts, t.num, t.objs, frozenset(), t.unk)
            for r in t.refs:
                t2 = t_join(t2, t_of(Ref(r), st, 0))
            t = t2
        return [(t_value(t, st, I, "dictval"), st)]

    def setitem(self, b, i, v, st, node):
        """-> list of states"""
        I = self.I
        if isinstance(b, MU):
            b = b.v
        if isinstance(b, Choice):
            out = []
            for x in b.vals:
                out += self.setitem(x, i, v, st.fork(), node)
            return [s for _, s in I.merge_states([(None, s) for s in out])]
        if isinstance(b, Ref):
            o = st[b]
            if isinstance(o, InstO):
                if isinstance(o.cls, ClsV):
                    f = o.cls.lookup("__setitem__")
                    if f is not None:
                        return [s for _, s in I.call(BoundV(f, b), [i, v], {}, st, node)]
                    if o.cls.known() and not o.open:
                        return I.raise_(st, "TypeError", node, msg="%s does not support item assignment" % o.cls.name)
                return [st]
            if isinstance(o, ListO):
                I.mon.on_mutate(I, st, b.oid, "item assignment", node)
                i = st.facts.simplify(i) if isinstance(i, Lin) else i
                if isinstance(i, Choice):
                    out = []
                    for x in i.vals:
                        out += self.setitem(b, x, v, st.fork(), node)
                    return [s for _, s in I.merge_states([(None, s) for s in out])]
                if isinstance(i, SliceV):
                    star = o.star or T()
                    mark = newid()
                    for x in o.pre + o.suf:
                        star = t_join(star, t_of(x, st, mark))
                    sv = self.seqview(v, st)
                    if sv is not None:
                        for x in sv[0] + sv[2]:
                            star = t_join(star, t_of(x, st, mark))
                        if sv[1] is not None:
                            star = t_join(star, sv[1])
                        if o.star is None and sv[1] is None:
                            c = self.const_slice(i, st)
                            if c is not None:
                                l = list(o.pre)
                                l[c] = list(sv[0])
                                st[b] = o.rep(pre=l)
                                return [st]
                    else:
                        star = t_join(star, T(unk_=labels_of(v, st)))
                    st[b] = ListO(o.kind, (), star, (), dom.sym("len", True, 0, INF), o.label)
                    return [st]
                if isinstance(i, int):
                    n = len(o.pre)
                    if o.star is None and -n <= i < n:
                        l = list(o.pre)
                        l[i] = v
                        st[b] = o.rep(pre=l)
                        return [st]
                    if o.star is None:
                        return I.raise_(st, "IndexError", node, msg="assignment index out of range")
                    if 0 <= i < n:
                        l = list(o.pre)
                        l[i] = v
                        st[b] = o.rep(pre=l)
                        return [st]
                    if i < 0 and -i <= len(o.suf):
                        l = list(o.suf)
                        l[i] = v
                        st[b] = o.rep(suf=l)
                        return [st]
                # weak update
                I.maybe_raise(st, "IndexError", node)
                if o.star is None and isinstance(i, Lin):
                    lo, hi = st.facts.bounds(i)
                    if len(o.pre) <= 64 and hi - lo <= 4:
                        out = []
                        for c, s in I.concretize(i, st):
                            if isinstance(c, int):
                                out += self.setitem(b, c, v, s, node)
                            else:
                                out.append(self.weak_set(b, v, s))
                        return out
                return [self.weak_set(b, v, st)]
            if isinstance(o, DictO):
                I.mon.on_mutate(I, st, b.oid, "item assignment", node)
                if isinstance(i, Choice):
                    out = []
                    for x in i.vals:
                        out += self.setitem(b, x, v, st.fork(), node)
                    return [s for _, s in I.merge_states([(None, s) for s in out])]
                if self.hashable_const(i):
                    items = dict(o.items)
                    items[i] = v
                    st[b] = o.rep(items=items, gone=o.gone - frozenset([i]))
                    return [st]
                if isinstance(i, Ref) and isinstance(st[i], (ListO, DictO)):
                    return I.raise_(st, "TypeError", node, msg="unhashable key")
                t = t_of(v, st, newid())
                st[b] = o.rep(star=t if o.star is None else t_join(o.star, t), gone=frozenset())
                return [st]
            return [st]
        if isinstance(b, Unk):
            I.mon.on_mutate(I, st, b, "item assignment", node)
            return [st]
        if b is None or isinstance(b, (str, bytes, Tup, SStr, BytesV)) or dom.isnum(b):
            return I.raise_(st, "TypeError", node, msg="object does not support item assignment")
        return [st]

    def weak_set(self, b, v, st):
        o = st[b]
        star = o.star or T()
        mark = newid()
        for x in o.pre + o.suf + (v,):
            star = t_join(star, t_of(x, st, mark))
        st[b] = ListO(o.kind, (), star, (), o.length(), o.label)
        return st

    def delitem(self, b, i, st, node):
        I = self.I
        if isinstance(b, MU):
            b = b.v
        if isinstance(b, Ref):
            o = st[b]
            if isinstance(o, ListO):
                I.mon.on_mutate(I, st, b.oid, "del item", node)
                if o.star is None:
                    if isinstance(i, SliceV):
                        c = self.const_slice(i, st)
                        if c is not None:
                            l = list(o.pre)
                            del l[c]
                            st[b] = o.rep(pre=l)
                            return [st]
                    elif isinstance(i, int):
                        if -len(o.pre) <= i < len(o.pre):
                            l = list(o.pre)
                            del l[i]
                            st[b] = o.rep(pre=l)
                            return [st]
                        return I.raise_(st, "IndexError", node)
                star = o.star or T()
                mark = newid()
                for x in o.pre + o.suf:
                    star = t_join(star, t_of(x, st, mark))
                I.maybe_raise(st, "IndexError", node)
                st[b] = ListO(o.kind, (), star, (), dom.sub(o.length(), 1) if not isinstance(i, SliceV)
                              else dom.sym("len", True, 0, INF), o.label)
                return [st]
            if isinstance(o, DictO):
                I.mon.on_mutate(I, st, b.oid, "del item", node)
                if self.hashable_const(i) and i in o.items:
                    items = dict(o.items)
                    del items[i]
                    st[b] = o.rep(items=items, gone=o.gone | frozenset([i]))
                    return [st]
                if self.hashable_const(i) and o.star is None:
                    return I.raise_(st, "KeyError", node)
                I.maybe_raise(st, "KeyError", node)
                return [st]
            if isinstance(o, InstO) and isinstance(o.cls, ClsV):
                f = o.cls.lookup("__delitem__")
                if f is not None:
                    return [s for _, s in I.call(BoundV(f, b), [i], {}, st, node)]
        elif isinstance(b, Unk):
            I.mon.on_mutate(I, st, b, "del item", node)
        return [st]

    # ------------------------------------------------------------ contains
    def contains(self, c, item, st, node):
        I = self.I
        if isinstance(c, MU):
            c = c.v
        if isinstance(c, Choice):
            out = []
            for x in c.vals:
                out += self.contains(x, item, st.fork(), node)
            return I.bool_merge(out, st)
        if isinstance(item, Choice):
            out = []
            for x in item.vals:
                out += self.contains(c, x, st.fork(), node)
            return I.bool_merge(out, st)
        if isinstance(c, (str, bytes)) and is_const(item):
            try:
                return [(item in c, st)]
            except TypeError:
                return I.raise_(st, "TypeError", node)
        if isinstance(c, (SStr, str)) and isinstance(item, (SStr, str)):
            return I.truth(Unk(("in", item, c)), st)
        if isinstance(c, Ref) and isinstance(st[c], DictO):
            o = st[c]
            if self.hashable_const(item):
                if item in o.items:
                    return [(not isinstance(o.items[item], MU), st)] if not isinstance(o.items[item], MU) \
                        else I.fork_bool(st)
                if o.star is None or item in o.gone:
                    return [(False, st)]
                a, b = st.fork(), st
                oa = a[c]
                if I.merge != "join":
                    out = []
                    for v, s in t_values(o.star, a, I, "dictval"):
                        so = s[c]
                        items = dict(so.items)
                        items[item] = v
                        s[c] = so.rep(items=items)
                        out.append((True, s))
                else:
                    items = dict(oa.items)
                    items[item] = t_value(o.star, a, I, "dictval")
                    a[c] = oa.rep(items=items)
                    out = [(True, a)]
                b[c] = o.rep(gone=o.gone | frozenset([item]))
                return out + [(False, b)]
            if isinstance(item, Lin):
                cs = I.concretize(item, st)
                if all(not isinstance(x, Lin) for x, _ in cs):
                    out = []
                    for x, s in cs:
                        out += self.contains(c, x, s, node)
                    return I.bool_merge(out, st)
                if o.star is None and len(o.items) <= 24 and all(isinstance(k, (int, float)) for k in o.items):
                    return self.contains_seq(tuple(o.items), item, st)
            if o.star is None and not o.items:
                return [(False, st)]
            return I.fork_bool(st)
        if isinstance(c, RangeV) and dom.isnum(item):
            out = []
            if isinstance(c.step, int) and c.step == 1 and dom.is_int_lin(item):
                for b, s in I.compare_num(">=", item, c.a, st):
                    if not b:
                        out.append((False, s))
                    else:
                        out += I.compare_num("<", item, c.b, s)
                return out
            return I.fork_bool(st)
        sv = self.seqview(c, st)
        if sv is not None:
            if sv[1] is None:
                if len(sv[0]) <= 64 or is_const(item):
                    return self.contains_seq(sv[0], item, st)
            if not sv[0] and not sv[2] and sv[1] is not None and is_const(item) and sv[1].mat is None:
                t = sv[1]
                if t.num is None and t.unk is None and not t.objs and not t.refs and ckey(item) not in t.consts:
                    return [(False, st)]
            return I.fork_bool(st)
        if isinstance(c, Ref) and isinstance(st[c], InstO) and isinstance(st[c].cls, ClsV):
            f = st[c].cls.lookup("__contains__")
            if f is not None:
                out = []
                for v, s in I.call(BoundV(f, c), [item], {}, st, node):
                    out += I.truth(v, s)
                return out
        if c is None or (dom.isnum(c)):
            return I.raise_(st, "TypeError", node, msg="argument is not iterable")
        if isinstance(c, Unk):
            I.maybe_raise(st, "TypeError", node)
            if not isinstance(item, Lin):
                return I.truth(Unk(("in", item, c)), st)
        return I.fork_bool(st)

    def contains_seq(self, items, item, st):
        I = self.I
        out = []
        cur = [st]
        for x in items:
            nxt = []
            for s in cur:
                for b, s2 in I.eq(item, x, s):
                    if b:
                        out.append((True, s2))
                    else:
                        nxt.append(s2)
            cur = nxt
            if not cur:
                break
        out += [(False, s) for s in cur]
        return I.bool_merge(out, st) if len(out) > 2 else out

    # --------------------------------------------------------------- binop
    def strval(self, v):
        return isinstance(v, (str, SStr))

    def binop(self, t, a, b, st, e, aug):
        I = self.I
        if t == "Mod" and isinstance(a, (str, SStr)):
            return self.percent(a, b, st, e)
        if t == "Add":
            if self.strval(a) and self.strval(b):
                pa = (a,) if isinstance(a, str) else a.parts
                pb = (b,) if isinstance(b, str) else b.parts
                r = SStr(pa + pb)
                if len(r.parts) > 24:
                    return [(SStr(self.squash(r, st)), st)]
                return [(r.simp(), st)]
            if isinstance(a, (bytes, BytesV)) and isinstance(b, (bytes, BytesV)):
                pa = (tuple(a),) if isinstance(a, bytes) else a.parts
                pb = (tuple(b),) if isinstance(b, bytes) else b.parts
                return [(BytesV(pa + pb).simp(), st)]
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [(Tup(a.items + b.items), st)]
        if t == "Mult":
            if isinstance(b, (str, bytes, Tup)) or (isinstance(b, Ref) and isinstance(st[b], ListO)):
                if dom.isnum(a) or isinstance(a, Unk):
                    a, b = b, a
            if isinstance(a, Tup) and isinstance(b, int):
                return [(Tup(a.items * b), st)]
            if isinstance(a, (str, SStr)) and dom.isnum(b):
                if isinstance(b, int) and isinstance(a, SStr) and b <= 8:
                    return [(SStr(a.parts * max(b, 0)).simp(), st)]
                return [(fresh_str("mul", ascii_=isinstance(a, str) and a.isascii()), st)]
            if isinstance(a, (bytes, BytesV)) and dom.isnum(b):
                if isinstance(b, int) and b <= 4096 and isinstance(a, BytesV):
                    return [(BytesV(a.parts * max(b, 0)).simp(), st)]
                n = dom.mul(self.blen(a), b)
                return [(BytesV((BAtom(("mul", newid()), n),)), st)]
            if isinstance(a, Ref) and isinstance(st[a], ListO):
                o = st[a]
                b = st.facts.simplify(b) if isinstance(b, Lin) else b
                if isinstance(b, int) and o.star is None and b * len(o.pre) <= 8192:
                    return [(st.alloc(ListO(o.kind, o.pre * max(b, 0))), st)]
                star = o.star or T()
                mark = newid()
                for x in o.pre + o.suf:
                    star = t_join(star, t_of(x, st, mark))
                n = dom.mul(o.length(), b) if dom.isnum(b) else None
                if n is None or st.facts.bounds(n)[0] < 0:
                    n = dom.sym("len", True, 0, INF)
                return [(st.alloc(ListO(o.kind, (), star, (), n)), st)]
        if isinstance(a, Ref) and isinstance(st[a], ListO):
            o = st[a]
            if t == "Add" and isinstance(b, Ref) and isinstance(st[b], ListO):
                if aug and o.kind != "set":
                    I.mon.on_mutate(I, st, a.oid, "+=", e)
                    return [(a, s) for s in self.list_extend(a, b, st, e)]
                p = st[b]
                return [(st.alloc(self.concat(o, p, st)), st)]
            if aug and t == "Add":
                I.mon.on_mutate(I, st, a.oid, "+=", e)
                return [(a, s) for s in self.list_extend(a, b, st, e)]
            if o.kind == "set" and t in ("BitOr", "BitAnd", "Sub", "BitXor"):
                return [(st.alloc(ListO("set", (), T(unk_=frozenset()), (), dom.sym("len", True, 0, INF))), st)]
        # instance operators
        names = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod",
                 "MatMult": "matmul", "Pow": "pow", "BitOr": "or", "BitAnd": "and", "BitXor": "xor",
                 "LShift": "lshift", "RShift": "rshift"}
        n = names.get(t)
        for x, y, pre in ((a, b, ("i", "") if aug else ("",)), (b, a, ("r",))):
            if isinstance(x, Ref) and isinstance(st[x], InstO) and isinstance(st[x].cls, ClsV):
                for p in pre:
                    f = st[x].cls.lookup("__%s%s__" % (p, n))
                    if f is not None:
                        return I.call(BoundV(f, x), [y], {}, st, e)
        for x in (a, b):
            if isinstance(x, Ref) and isinstance(st[x], InstO):
                if st[x].open or not (isinstance(st[x].cls, ClsV) and st[x].cls.known()):
                    return [(unk("op"), st)]
                if not isinstance(a, Unk) and not isinstance(b, Unk):
                    return I.raise_(st, "TypeError", e, msg="unsupported operand")
        if t == "Add" and ((self.strval(a) and (dom.isnum(b) or isinstance(b, (bytes, BytesV)) or b is None)) or
                           (self.strval(b) and (dom.isnum(a) or isinstance(a, (bytes, BytesV)) or a is None))):
            return I.raise_(st, "TypeError", e, msg="cannot concatenate")
        if t == "Add" and self.strval(a) and isinstance(b, Unk):
            I.maybe_raise(st, "TypeError", e)
            return [(SStr((a if isinstance(a, str) else SStr(a.parts).parts[0],) if isinstance(a, str) else a.parts).parts and
                     SStr(((a,) if isinstance(a, str) else a.parts) + fresh_str("unkstr", key=("u", b)).parts), st)]
        return None

    def squash(self, s, st):
        lo, hi = st.facts.bounds(s.clen())
        asc = all((p.isascii() if isinstance(p, str) else p.ascii) for p in s.parts)
        return fresh_str("cat", lo, hi, asc).parts

    def concat(self, o, p, st):
        if o.star is None:
            return ListO(o.kind, o.pre + p.pre, p.star, p.suf, p.slen)
        if p.star is None:
            return ListO(o.kind, o.pre, o.star, o.suf + p.pre, o.slen)
        star = t_join(o.star, p.star)
        mark = newid()
        for x in o.suf + p.pre:
            star = t_join(star, t_of(x, st, mark))
        n = dom.add(dom.add(o.slen, p.slen), len(o.suf) + len(p.pre))
        return ListO(o.kind, o.pre, star, p.suf, n)

    def list_extend(self, ref, v, st, node):
        """in place; -> list of states"""
        I = self.I
        out = []
        for r, s in self.to_list(v, st, "list", node):
            o, p = s[ref], s[r]
            c = self.concat(o, p, s)
            s[ref] = ListO(o.kind, c.pre, c.star, c.suf, c.slen, o.label)
            out.append(s)
        return out

    # --------------------------------------------------------- formatting
    def fmt_one(self, spec, v, st):
        """spec like %-16s -> parts or None"""
        import re
        m = re.match(r"%([-+ 0#]*)(\d+|\*)?(?:\.(\d+|\*))?([a-zA-Z%])$", spec)
        if not m:
            return fresh_str("fmt").parts
        flags, width, prec, conv = m.groups()
        width = int(width) if width and width != "*" else 0
        if is_const(v):
            try:
                return (spec % (v,),)
            except (TypeError, ValueError):
                return None
        if conv in "sr" and isinstance(v, SStr):
            c = v.clen()
            lo, hi = st.facts.bounds(c)
            if prec is not None:
                p = int(prec) if prec != "*" else INF
                return fresh_str("fmt", max(min(lo, p), width), max(min(hi, p), width),
                                 all(p2.isascii() if isinstance(p2, str) else p2.ascii for p2 in v.parts),
                                 key=("fmt", spec, v)).parts
            if width and lo < width:
                return fresh_str("fmt", max(lo, width), max(hi, width),
                                 all(p2.isascii() if isinstance(p2, str) else p2.ascii for p2 in v.parts),
                                 key=("fmt", spec, v)).parts
            return v.parts
        if dom.isnum(v) or isinstance(v, bool):
            if conv in "diuxXofFeEgGsrc":
                hi = INF
                if conv in "di" and isinstance(v, Lin):
                    a, b = st.facts.bounds(v)
                    if a != -INF and b != INF:
                        hi = max(len(str(int(a))), len(str(int(b))), width) + (1 if "+" in flags else 0)
                return fresh_str("fmt", max(1, width), hi, True, key=("fmt", spec, v)).parts
            return None
        if conv in "di" and (v is None or isinstance(v, (SStr, Tup))):
            return None
        if conv in "sr":
            return fresh_str("fmt", width, INF, False, key=("fmt", spec, v) if isinstance(v, Unk) else None).parts
        return fresh_str("fmt", width, INF, True).parts

    def percent(self, a, b, st, e):
        I = self.I
        import re
        if isinstance(a, SStr):
            I.maybe_raise(st, "TypeError", e)
            return [(fresh_str("fmt"), st)]
        items = list(b.items) if isinstance(b, Tup) else [b]
        if isinstance(b, Ref) and isinstance(st[b], DictO):
            return [(fresh_str("fmt"), st)]
        if isinstance(b, Unk) and False:
            return [(fresh_str("fmt"), st)]
        cur = [((), st)]
        pos = 0
        k = 0
        for m in re.finditer(r"%(?:[-+ 0#]*(?:\d+|\*)?(?:\.(?:\d+|\*))?[hlL]?[a-zA-Z]|%)", a):
            lit = a[pos:m.start()]
            pos = m.end()
            if m.group() == "%%":
                cur = [(p + (lit, "%"), s) for p, s in cur]
                continue
            if k >= len(items):
                if isinstance(b, Unk):
                    return [(fresh_str("fmt"), st)]
                return I.raise_(st, "TypeError", e, msg="not enough arguments for format string")
            v = items[k]
            k += 1
            nxt = []
            for p, s in cur:
                for w, s2 in ([(x, s.fork()) for x in v.vals] if isinstance(v, Choice) else [(v, s)]):
                    if isinstance(w, MU):
                        w = w.v
                    if isinstance(w, Lin):
                        w = s2.facts.simplify(w)
                    if isinstance(w, Ref) and isinstance(s2[w], InstO):
                        r = fresh_str("fmt").parts
                    else:
                        r = self.fmt_one(m.group(), w, s2)
                    if r is None:
                        I.raise_(s2, "TypeError", e, msg="format %s with %r" % (m.group(), w))
                        continue
                    nxt.append((p + (lit,) + tuple(r), s2))
            cur = nxt
        if k < len(items) and not isinstance(b, Unk):
            return I.raise_(st, "TypeError", e, msg="not all arguments converted")
        return [(SStr(p + (a[pos:],)).simp(), s) for p, s in cur]

    def to_str(self, v, st, node):
        I = self.I
        if isinstance(v, MU):
            v = v.v
        if isinstance(v, Lin):
            v = st.facts.simplify(v)
        if isinstance(v, Choice):
            out = []
            for x in v.vals:
                out += self.to_str(x, st.fork(), node)
            return I.merge_states(out)
        if isinstance(v, (str, SStr)):
            return [(v, st)]
        if is_const(v):
            return [(str(v), st)]
        if isinstance(v, Lin):
            hi = INF
            a, b = st.facts.bounds(v)
            if dom.is_int_lin(v) and a != -INF and b != INF:
                hi = max(len(str(int(a))), len(str(int(b))))
            return [(fresh_str("num", 1, hi, True, key=("str", v)), st)]
        if isinstance(v, Ref) and isinstance(st[v], InstO) and isinstance(st[v].cls, ClsV):
            for m in ("__str__", "__repr__"):
                f = st[v].cls.lookup(m)
                if f is not None:
                    return I.call(BoundV(f, v), [], {}, st, node)
        if isinstance(v, Unk):
            return [(fresh_str("str", key=("str", v)), st)]
        return [(fresh_str("str"), st)]

    def encode(self, v, enc, st):
        """text -> bytes value (utf8 like)"""
        e = enc.lower().replace("-", "").replace("_", "") if isinstance(enc, str) else None
        if isinstance(v, str):
            try:
                return v.encode(enc if isinstance(enc, str) else "utf8")
            except (UnicodeError, LookupError):
                return BytesV((BAtom(("enc", newid()), dom.sym("blen", True, 0, INF)),))
        parts = []
        for p in v.parts:
            if isinstance(p, str):
                try:
                    parts.append(tuple(p.encode(enc if isinstance(enc, str) else "utf8")))
                    continue
                except (UnicodeError, LookupError):
                    pass
                parts.append(BAtom(("enc", newid()), dom.sym("blen", True, 0, INF)))
            elif e in ("utf8", "ascii", "latin1", "cp1252", "iso88591", "utf8sig") and (
                    p.ascii or e in ("ascii", "latin1", "cp1252", "iso88591")):
                parts.append(BAtom(("enc", e, p.key), p.clen))
            elif e in ("utf8",):
                x = dom.opaque("utf8extra", (p.key,), True, 0, INF)
                parts.append(BAtom(("enc", e, p.key), dom.add(p.clen, x)))
            elif e in ("utf16be", "utf16le"):
                x = dom.mul(p.clen, 2)
                if not p.ascii:
                    x = dom.add(x, dom.mul(dom.opaque("utf16extra", (p.key,), True, 0, INF), 2))
                parts.append(BAtom(("enc", e, p.key), x))
            else:
                parts.append(BAtom(("enc", e, p.key), dom.opaque("enclen", (e, p.key), True, 0, INF)))
        return BytesV(parts).simp()

    # ------------------------------------------------------------ builtins
    def builtin(self, name, args, kwargs, st, e):
        I = self.I
        args = [a.v if isinstance(a, MU) else a for a in args]
        m = getattr(self, "b_" + name.replace(".", "_"), None)
        if m is not None:
            return m(args, kwargs, st, e)
        import builtins as _b
        c = getattr(_b, name, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return [(st.alloc(InstO(BuiltinV(name), {"args": Tup(args)}, None, True)), st)]
        if "." in name:
            base, meth = name.split(".", 1)
            if args and base in ("str", "bytes", "dict", "list", "int", "float", "object", "bytearray"):
                if meth == "fromhex":
                    return [(unk("fromhex"), st)]
                if base == "object":
                    return [(None, st)]
                return self.method(args[0], meth, args[1:], kwargs, st, e)
            if meth == "from_bytes":
                return self.int_from_bytes(args, kwargs, st, e)
        return [(unk(name), st)]

    def choice_map(self, v, st, f):
        """apply f(value, state)->results over choice alternatives"""
        if isinstance(v, Choice):
            out = []
            for x in v.vals:
                out += f(x, st.fork())
            return self.I.merge_states(out)
        return f(v, st)

    def b_len(self, args, kw, st, e):
        def f(v, st):
            I = self.I
            if isinstance(v, Ref):
                o = st[v]
                if isinstance(o, ListO):
                    return [(st.facts.simplify(o.length()), st)]
                if isinstance(o, DictO):
                    if o.star is None:
                        return [(len(o.items), st)]
                    return [(dom.sym("dlen", True, len(o.items), INF), st)]
                if isinstance(o, InstO) and isinstance(o.cls, ClsV):
                    g = o.cls.lookup("__len__")
                    if g is not None:
                        return I.call(BoundV(g, v), [], {}, st, e)
                    if o.cls.known() and not o.open:
                        return I.raise_(st, "TypeError", e, msg="object has no len()")
                return [(dom.sym("len", True, 0, INF), st)]
            if isinstance(v, (str, bytes)):
                return [(len(v), st)]
            if isinstance(v, Tup):
                return [(len(v.items), st)]
            if isinstance(v, SStr):
                return [(v.clen(), st)]
            if isinstance(v, BytesV):
                return [(st.facts.simplify(v.blen()), st)]
            if isinstance(v, RangeV):
                d = dom.sub(v.b, v.a)
                if isinstance(v.step, int) and v.step == 1:
                    if isinstance(d, Lin):
                        if st.facts.bounds(d)[0] >= 0:
                            return [(d, st)]
                        return [(dom.sym("len", True, 0, INF), st)]
                    return [(max(d, 0), st)]
                return [(dom.sym("len", True, 0, INF), st)]
            if isinstance(v, Unk):
                I.maybe_raise(st, "TypeError", e)
                return [(dom.opaque("len", (v,), True, 0, INF), st)]
            sv = self.seqview(v, st)
            if sv is not None and sv[1] is None:
                return [(len(sv[0]), st)]
            if v is None or dom.isnum(v) or isinstance(v, bool):
                return I.raise_(st, "TypeError", e, msg="object of type %s has no len()" % type(v).__name__)
            return [(dom.sym("len", True, 0, INF), st)]
        return self.choice_map(args[0], st, f)

    def num_of_str(self, v):
        return None

    def b_int(self, args, kw, st, e):
        I = self.I
        if not args:
            return [(0, st)]

        def f(v, st):
            if isinstance(v, bool):
                return [(int(v), st)]
            if len(args) > 1:
                if isinstance(v, str) and isinstance(args[1], int):
                    try:
                        return [(int(v, args[1]), st)]
                    except ValueError:
                        return I.raise_(st, "ValueError", e, msg="int(%r)" % v)
                I.maybe_raise(st, "ValueError", e)
                k = ("int", v) if isinstance(v, (SStr, Unk)) else None
                return [(dom.opaque("int", (v, 16), True) if k else dom.sym("int", True), st)]
            if isinstance(v, float) and (v != v or v in (INF, -INF)):
                return I.raise_(st, "OverflowError", e)
            if isinstance(v, Fraction):
                return [(int(v), st)]
            if isinstance(v, (int, float)):
                return [(int(v), st)]
            if isinstance(v, Lin):
                return [(dom.rnd(st.facts.simplify(v), st.facts, "trunc"), st)]
            if isinstance(v, (str, bytes)):
                try:
                    return [(int(v), st)]
                except ValueError:
                    return I.raise_(st, "ValueError", e, msg="int(%r)" % v)
            if isinstance(v, (SStr, BytesV)):
                I.maybe_raise(st, "ValueError", e)
                return [(dom.opaque("int", (v,), True), st)]
            if isinstance(v, Unk):
                I.maybe_raise(st, "ValueError", e)
                I.maybe_raise(st, "TypeError", e)
                return [(dom.opaque("int", (v,), True), st)]
            if v is None or isinstance(v, (Tup, Ref)):
                if isinstance(v, Ref) and isinstance(st[v], InstO):
                    return [(dom.sym("int", True), st)]
                return I.raise_(st, "TypeError", e, msg="int() of %s" % ("None" if v is None else "a container"))
            return [(dom.sym("int", True), st)]
        return self.choice_map(args[0], st, f)

    def b_float(self, args, kw, st, e):
        I = self.I

        def f(v, st):
            if isinstance(v, bool):
                return [(float(v), st)]
            if isinstance(v, (int, float)):
                return [(float(v), st)]
            if isinstance(v, (Lin, Fraction)):
                return [(v, st)]
            if isinstance(v, (str, bytes)):
                try:
                    return [(float(v), st)]
                except ValueError:
                    return I.raise_(st, "ValueError", e, msg="float(%r)" % v)
            if isinstance(v, (SStr, Unk, BytesV)):
                I.maybe_raise(st, "ValueError", e)
                if isinstance(v, Unk):
                    I.maybe_raise(st, "TypeError", e)
                return [(dom.opaque("float", (v,), False), st)]
            if v is None:
                return I.raise_(st, "TypeError", e, msg="float(None)")
            return [(dom.sym("float", False), st)]
        return self.choice_map(args[0], st, f) if args else [(0.0, st)]

    def b_round(self, args, kw, st, e):
        def f(v, st):
            if isinstance(v, Lin):
                v = st.facts.simplify(v)
            if len(args) > 1 and args[1] is not None:
                if isinstance(v, (int, float)) and isinstance(args[1], int):
                    return [(round(v, args[1]), st)]
                if isinstance(v, Lin):
                    if dom.is_int_lin(v) and isinstance(args[1], int) and args[1] >= 0:
                        return [(v, st)]
                    lo, hi = st.facts.bounds(v)
                    return [(dom.opaque("roundn", (v, args[1] if not isinstance(args[1], Lin) else 0), False,
                                        lo - 1, hi + 1), st)]
                return [(unk("round"), st)]
            if isinstance(v, bool):
                return [(int(v), st)]
            if isinstance(v, (int, float)):
                try:
                    return [(round(v), st)]
                except (OverflowError, ValueError):
                    return self.I.raise_(st, "OverflowError", e)
            if isinstance(v, Fraction):
                return [(round(v), st)]
            if isinstance(v, Lin):
                return [(dom.rnd(v, st.facts, "round"), st)]
            if v is None or isinstance(v, (str, SStr)):
                return self.I.raise_(st, "TypeError", e, msg="round(%r)" % (v,))
            return [(dom.sym("round", True), st)]
        return self.choice_map(args[0], st, f)

    def b_abs(self, args, kw, st, e):
        def f(v, st):
            if isinstance(v, Lin):
                v = st.facts.simplify(v)
            if isinstance(v, (int, float)):
                return [(abs(v), st)]
            if isinstance(v, Fraction):
                return [(abs(v), st)]
            if isinstance(v, Lin):
                lo, hi = st.facts.bounds(v)
                if lo >= 0:
                    return [(v, st)]
                if hi <= 0:
                    return [(dom.neg(v), st)]
                return [(dom.absv(v, st.facts), st)]
            if isinstance(v, Unk):
                return [(dom.opaque("abs", (v,), False, 0, INF), st)]
            if v is None:
                return self.I.raise_(st, "TypeError", e, msg="abs(None)")
            return [(unk("abs"), st)]
        return self.choice_map(args[0], st, f)

    def minmax(self, name, args, kw, st, e):
        I = self.I
        if len(args) == 1:
            sv = self.seqview(args[0], st)
            if sv is None or sv[1] is not None or kw:
                if sv is not None and "key" not in kw:
                    t = sv[1]
                    nums = []
                    ok = t.mat is None and not t.objs and not t.refs and t.unk is None
                    vals = [t.num[1], t.num[2]] if ok and t.num else []
                    vals += [k[1] for k in t.consts if k[0] in ("int", "float")] if ok else []
                    for x in sv[0] + sv[2]:
                        if dom.isnum(x):
                            vals += list(st.facts.bounds(x))
                        else:
                            ok = False
                    I.maybe_raise(st, "ValueError", e)
                    if ok and vals:
                        return [(dom.sym(name, True, min(vals), max(vals)), st)]
                else:
                    I.maybe_raise(st, "ValueError", e)
                return [(unk(name, labels_of(args[0], st)), st)]
            items = list(sv[0])
            if not items:
                if "default" in kw:
                    return [(kw["default"], st)]
                return I.raise_(st, "ValueError", e, msg="%s() of an empty sequence" % name)
        else:
            items = list(args)
        if kw:
            return [(unk(name), st)]
        cur = [(items[0], st)]
        for x in items[1:]:
            nxt = []
            for v, s in cur:
                if is_const(v) and is_const(x):
                    try:
                        nxt.append(((min if name == "min" else max)(v, x), s))
                    except TypeError:
                        I.raise_(s, "TypeError", e)
                    continue
                if dom.isnum(v) and dom.isnum(x):
                    d = dom.sub(x, v)
                    lo, hi = s.facts.bounds(d) if d is not None else (-INF, INF)
                    if lo >= 0:
                        nxt.append((v if name == "min" else x, s))
                        continue
                    if hi <= 0:
                        nxt.append((x if name == "min" else v, s))
                        continue
                    (l1, h1), (l2, h2) = s.facts.bounds(v), s.facts.bounds(x)
                    f = min if name == "min" else max
                    isint = dom.is_int_lin(v) and dom.is_int_lin(x)
                    tv, tx = dom.tolin(v), dom.tolin(x)
                    if tv is None or tx is None:
                        # infinities
                        r = dom.sym(name, isint, f(l1, l2), f(h1, h2))
                    else:
                        r = dom.opaque(name, tuple(sorted((tv, tx), key=repr)), isint, f(l1, l2), f(h1, h2))
                    for y in (v, x):
                        if dom.tolin(y) is not None:
                            dd = dom.sub(y, r)
                            if isinstance(dd, Lin):
                                if name == "min":
                                    self.setfact(s, dd, 0, INF)
                                else:
                                    self.setfact(s, dd, -INF, 0)
                    nxt.append((r, s))
                    continue
                if isinstance(v, Unk) or isinstance(x, Unk) or isinstance(v, Choice) or isinstance(x, Choice):
                    I.maybe_raise(s, "TypeError", e)
                    nxt.append((unk(name), s))
                    continue
                if v is None or x is None:
                    I.raise_(s, "TypeError", e, msg="%s() with None" % name)
                    continue
                nxt.append((unk(name), s))
            cur = nxt
        return cur

    def b_min(self, args, kw, st, e):
        return self.minmax("min", args, kw, st, e)

    def b_max(self, args, kw, st, e):
        return self.minmax("max", args, kw, st, e)

    def b_sum(self, args, kw, st, e):
        I = self.I
        sv = self.seqview(args[0], st)
        start = args[1] if len(args) > 1 else 0
        if sv is not None and sv[1] is None:
            cur = [(start, st)]
            for x in sv[0]:
                nxt = []
                for v, s in cur:
                    nxt += I.binop(ast.Add(), v, x, s, e)
                cur = nxt
            return cur
        return [(dom.sym("sum", False), st)]

    def b_range(self, args, kw, st, e):
        I = self.I
        vals = []
        for a in args:
            if isinstance(a, Choice) or isinstance(a, Unk):
                if isinstance(a, Unk):
                    a = dom.opaque("int", (a,), True)
                else:
                    out = []
                    for x in a.vals:
                        s = st.fork()
                        out += self.b_range([x if y is a else y for y in args], kw, s, e)
                    return out
            if isinstance(a, float) or isinstance(a, Fraction):
                return I.raise_(st, "TypeError", e, msg="range(float)")
            if isinstance(a, bool):
                a = int(a)
            if a is None or not dom.isnum(a):
                return I.raise_(st, "TypeError", e, msg="range(%r)" % (a,))
            vals.append(st.facts.simplify(a) if isinstance(a, Lin) else a)
        if len(vals) == 1:
            return [(RangeV(0, vals[0], 1), st)]
        if len(vals) == 2:
            return [(RangeV(vals[0], vals[1], 1), st)]
        return [(RangeV(*vals[:3]), st)]

    b_xrange = b_range

    def b_enumerate(self, args, kw, st, e):
        return [(GenExpV("enumerate", (args[0], args[1] if len(args) > 1 else kw.get("start", 0))), st)]

    def b_zip(self, args, kw, st, e):
        return [(GenExpV("zip", args), st)]

    def b_map(self, args, kw, st, e):
        if len(args) != 2:
            return [(unk("map"), st)]
        return [(GenExpV("map", args), st)]

    def b_filter(self, args, kw, st, e):
        return [(GenExpV("filter", args), st)]

    def b_reversed(self, args, kw, st, e):
        if isinstance(args[0], RangeV) and all(isinstance(x, int) for x in (args[0].a, args[0].b, args[0].step)):
            r = range(args[0].a, args[0].b, args[0].step)[::-1]
            return [(RangeV(r.start, r.stop, r.step), st)]
        return [(GenExpV("reversed", args), st)]

    def b_iter(self, args, kw, st, e):
        return [(GenExpV("iter", args), st)]

    def b_next(self, args, kw, st, e):
        self.I.maybe_raise(st, "StopIteration", e)
        return [(unk("next"), st)]

    def b_sorted(self, args, kw, st, e):
        out = []
        for r, s in self.to_list(args[0], st, "list", e):
            o = s[r]
            if o.star is None and all(is_const(x) for x in o.pre) and not kw:
                try:
                    s[r] = o.rep(pre=sorted(o.pre))
                    out.append((r, s))
                    continue
                except TypeError:
                    pass
            if o.star is not None or len(o.pre) > 1:
                self.blur(r, s)
            out.append((r, s))
        return out

    def blur(self, r, s):
        o = s[r]
        star = o.star or T()
        mark = newid()
        for x in o.pre + o.suf:
            star = t_join(star, t_of(x, s, mark))
        s[r] = ListO(o.kind, (), star, (), o.length(), o.label)

    def b_any(self, args, kw, st, e):
        return self.anyall(args[0], st, e, True)

    def b_all(self, args, kw, st, e):
        return self.anyall(args[0], st, e, False)

    def anyall(self, v, st, e, isany):
        I = self.I
        sv = self.seqview(v, st)
        if sv is None or sv[1] is not None:
            return I.fork_bool(st)
        out, cur = [], [st]
        for x in sv[0]:
            nxt = []
            for s in cur:
                for b, s2 in I.truth(x, s):
                    if b is isany:
                        out.append((isany, s2))
                    else:
                        nxt.append(s2)
            cur = nxt
        out += [(not isany, s) for s in cur]
        return I.bool_merge(out, st) if len(out) > 2 else out

    def b_str(self, args, kw, st, e):
        if not args:
            return [("", st)]
        if len(args) > 1 or kw:
            return self.method(args[0], "decode", args[1:], kw, st, e)
        return self.to_str(args[0], st, e)

    def b_repr(self, args, kw, st, e):
        if is_const(args[0]):
            return [(repr(args[0]), st)]
        return [(fresh_str("repr"), st)]

    def b_unicode(self, args, kw, st, e):
        return self.I.raise_(st, "NameError", e, msg="unicode")

    def b_bytes(self, args, kw, st, e):
        I = self.I
        if not args:
            return [(b"", st)]

        def f(v, st):
            if isinstance(v, (str, SStr)):
                enc = args[1] if len(args) > 1 else kw.get("encoding")
                if enc is None:
                    return I.raise_(st, "TypeError", e, msg="string argument without an encoding")
                errors = args[2] if len(args) > 2 else kw.get("errors")
                if isinstance(v, SStr) and enc not in ("utf8", "utf-8", "UTF-8", "utf-16", "utf_16_be", "UTF-16BE"):
                    I.maybe_raise(st, "UnicodeEncodeError", e)
                return [(self.encode(v, enc, st), st)]
            if isinstance(v, (bytes, BytesV)):
                return [(v, st)]
            if isinstance(v, Ref) and isinstance(st[v], ListO):
                return self.list_bytes(st[v], st, e)
            if isinstance(v, int) and not isinstance(v, bool):
                if v < 0:
                    return I.raise_(st, "ValueError", e)
                if v <= 65536:
                    return [(bytes(v), st)]
            if isinstance(v, Lin):
                return [(BytesV((BAtom(("zeros", newid()), v),)), st)]
            if isinstance(v, Unk):
                st.trace = True
                I.maybe_raise(st, "TypeError", e)
                return [(BytesV((BAtom(("bytes", v), dom.opaque("len", (v,), True, 0, INF)),)), st)]
            if v is None or isinstance(v, float):
                return I.raise_(st, "TypeError", e, msg="bytes(%r)" % (v,))
            out = []
            for r, s in self.to_list(v, st, "list", e):
                out += self.list_bytes(s[r], s, e)
            return out
        return self.choice_map(args[0], st, f)

    def list_bytes(self, o, st, e):
        I = self.I
        if o.star is None:
            return self.check_bytes(o.pre, st, e, lambda items, s: BytesV((tuple(items),)).simp())
        parts = []
        if o.pre:
            parts.append(tuple(x if dom.isnum(x) else dom.sym("byte", True, 0, 255) for x in o.pre))
        parts.append(BAtom(("list", newid()), o.slen))
        if o.suf:
            parts.append(tuple(x if dom.isnum(x) else dom.sym("byte", True, 0, 255) for x in o.suf))
        return [(BytesV(parts), st)]

    def check_bytes(self, items, st, e, build):
        """byte range check of each item; -> [(val, st)]"""
        I = self.I
        vals = []
        cur = st
        for x in items:
            if isinstance(x, bool):
                x = int(x)
            if isinstance(x, Choice) or isinstance(x, Unk):
                I.maybe_raise(cur, "ValueError", e)
                vals.append(dom.sym("byte", True, 0, 255))
                continue
            if not dom.isnum(x):
                return I.raise_(cur, "TypeError", e, msg="bytes element %r" % (x,))
            x = cur.facts.simplify(x) if isinstance(x, Lin) else x
            if isinstance(x, (float, Fraction)):
                return I.raise_(cur, "TypeError", e, msg="float in bytes")
            lo, hi = cur.facts.bounds(x)
            if lo > 255 or hi < 0:
                return I.raise_(cur, "ValueError", e, msg="byte must be in range(0, 256)")
            if lo < 0 or hi > 255:
                bad = cur.fork()
                I.raise_(bad, "ValueError", e, definite=False, msg="byte may be out of range")
                if not I.assume(cur, x, 0, 255):
                    return []
            vals.append(x)
        return [(build(vals, cur), cur)]

    def b_bytearray(self, args, kw, st, e):
        I = self.I
        if not args:
            return [(st.alloc(ListO("bytearray", ())), st)]

        def f(v, st):
            if isinstance(v, (str, SStr)):
                enc = args[1] if len(args) > 1 else kw.get("encoding")
                if enc is None:
                    return I.raise_(st, "TypeError", e, msg="string argument without an encoding")
                v = self.encode(v, enc, st)
            if isinstance(v, Ref) and isinstance(st[v], ListO) and st[v].kind == "bytearray":
                o = st[v]
                return [(st.alloc(o.rep(label=None)), st)]
            if isinstance(v, Ref) and isinstance(st[v], ListO) and st[v].star is None:
                return self.check_bytes(st[v].pre, st, e, lambda items, s: s.alloc(ListO("bytearray", items)))
            if isinstance(v, int) and not isinstance(v, bool):
                return [(st.alloc(ListO("bytearray", (0,) * v)), st)] if v <= 8192 else \
                    [(st.alloc(ListO("bytearray", (), T(num=(True, 0, 255)), (), v)), st)]
            if isinstance(v, Lin):
                return [(st.alloc(ListO("bytearray", (), T(num=(True, 0, 255)), (), v)), st)]
            if isinstance(v, float):
                return I.raise_(st, "TypeError", e, msg="bytearray(float)")
            if v is None:
                return I.raise_(st, "TypeError", e, msg="bytearray(None)")
            if isinstance(v, Unk):
                n = dom.opaque("len", (v,), True, 0, INF)
                return [(st.alloc(ListO("bytearray", (), T(num=(True, 0, 255)), (), n)), st)]
            return self.to_list(v, st, "bytearray", e)
        return self.choice_map(args[0], st, f)

    def b_list(self, args, kw, st, e):
        if not args:
            return [(st.alloc(ListO("list", ())), st)]
        if args[0] is None or dom.isnum(args[0]):
            return self.I.raise_(st, "TypeError", e, msg="list(%r)" % (args[0],))
        return self.to_list(args[0], st, "list", e)

    def b_tuple(self, args, kw, st, e):
        if not args:
            return [(Tup(()), st)]
        out = []
        for r, s in self.to_list(args[0], st, "list", e):
            o = s[r]
            out.append((Tup(o.pre), s) if o.star is None else (r, s))
        return out

    def b_set(self, args, kw, st, e):
        if not args:
            return [(st.alloc(ListO("set", ())), st)]
        return self.to_list(args[0], st, "set", e)

    b_frozenset = b_set

    def b_dict(self, args, kw, st, e):
        I = self.I
        items, star = {}, None
        if args:
            v = args[0]
            if isinstance(v, Ref) and isinstance(st[v], DictO):
                items.update(st[v].items)
                star = st[v].star
            else:
                sv = self.seqview(v, st)
                if sv is not None and sv[1] is None and all(isinstance(x, Tup) and len(x.items) == 2 and
                                                            self.hashable_const(x.items[0]) for x in sv[0]):
                    for x in sv[0]:
                        items[x.items[0]] = x.items[1]
                else:
                    star = T(unk_=labels_of(v, st))
        k2 = dict(kw)
        if "**" in k2:
            s = k2.pop("**")
            star = T(unk_=labels_of(s, st))
        items.update(k2)
        return [(st.alloc(DictO(items, star)), st)]

    def b_bool(self, args, kw, st, e):
        if not args:
            return [(False, st)]
        return self.I.truth(args[0], st)

    def b_print(self, args, kw, st, e):
        return [(None, st)]

    def b_callable(self, args, kw, st, e):
        v = args[0]
        if isinstance(v, (FnV, BoundV, ClsV, BuiltinV, MethV)):
            return [(True, st)]
        if isinstance(v, (Unk, Choice, Ref, ExtV)):
            return self.I.fork_bool(st)
        return [(False, st)]

    def b_hasattr(self, args, kw, st, e):
        I = self.I
        v, n = args[0], args[1]
        if isinstance(n, str):
            if isinstance(v, Ref):
                o = st[v]
                if isinstance(o, InstO):
                    if n in o.attrs:
                        return [(True, st)]
                    if isinstance(o.cls, ClsV):
                        if o.cls.lookup(n) is not None or n in o.cls.attrs:
                            return [(True, st)]
                        if o.cls.known() and not o.open:
                            return [(False, st)]
                elif isinstance(o, (ListO, DictO, StreamO)):
                    return [(self.has_method(o, n), st)]
            elif isinstance(v, ModV):
                I.import_mod(v.name, st)
                return [(n in st.heap[I.modframes[v.name]].vars, st)]
            elif isinstance(v, ClsV) and v.known():
                return [(v.lookup(n) is not None or n in v.attrs, st)]
            elif v is None or dom.isnum(v) or isinstance(v, bool):
                import builtins
                return [(hasattr(0.0 if dom.isnum(v) else v, n), st)]
            elif isinstance(v, (str, SStr)):
                return [(hasattr("", n), st)]
        if isinstance(v, Unk):
            return I.truth(Unk(("hasattr", v, n)), st)
        return I.fork_bool(st)

    def b_getattr(self, args, kw, st, e):
        I = self.I
        v, n = args[0], args[1]
        if isinstance(n, Choice):
            out = []
            for x in n.vals:
                out += self.b_getattr([v, x] + args[2:], kw, st.fork(), e)
            return I.merge_states(out)
        if not isinstance(n, str):
            if isinstance(v, ModV) or isinstance(v, (Ref, Unk, Choice)):
                return [(unk("getattr", labels_of(v, st)), st)]
            return [(unk("getattr"), st)]
        if len(args) > 2:
            out = []
            for b, s in self.b_hasattr([v, n], {}, st, e):
                if b:
                    out += I.getattr(v, n, s, e)
                else:
                    out.append((args[2], s))
            return I.merge_states(out)
        return I.getattr(v, n, st, e)

    def b_setattr(self, args, kw, st, e):
        if isinstance(args[1], str):
            return [(None, s) for s in self.I.setattr(args[0], args[1], args[2], st, e)]
        if isinstance(args[0], Ref):
            self.I.mon.on_mutate(self.I, st, args[0].oid, "setattr", e)
        return [(None, st)]

    def b_type(self, args, kw, st, e):
        v = args[0]
        if isinstance(v, Ref) and isinstance(st[v], InstO):
            return [(st[v].cls, st)]
        if isinstance(v, Ref) and isinstance(st[v], ListO):
            return [(BuiltinV(st[v].kind), st)]
        if isinstance(v, Ref) and isinstance(st[v], DictO):
            return [(BuiltinV("dict"), st)]
        if isinstance(v, bool):
            return [(BuiltinV("bool"), st)]
        if isinstance(v, (str, SStr)):
            return [(BuiltinV("str"), st)]
        if isinstance(v, (bytes, BytesV)):
            return [(BuiltinV("bytes"), st)]
        if isinstance(v, Tup):
            return [(BuiltinV("tuple"), st)]
        if isinstance(v, int):
            return [(BuiltinV("int"), st)]
        if isinstance(v, float):
            return [(BuiltinV("float"), st)]
        return [(unk("type"), st)]

    def b_id(self, args, kw, st, e):
        return [(dom.sym("id", True, 0), st)]

    def b_hash(self, args, kw, st, e):
        I = self.I
        v = args[0]
        if isinstance(v, Ref) and isinstance(st[v], InstO) and isinstance(st[v].cls, ClsV):
            f = st[v].cls.lookup("__hash__")
            if f is not None:
                return I.call(BoundV(f, v), [], {}, st, e)
        if isinstance(v, (Lin, SStr, BytesV)) or is_const(v):
            if isinstance(v, int) and -2 ** 60 < v < 2 ** 60:
                return [(hash(v), st)]
            return [(dom.opaque("hash", (v,), True), st)]
        if isinstance(v, Ref) and isinstance(st[v], (ListO, DictO)):
            return I.raise_(st, "TypeError", e, msg="unhashable type")
        return [(dom.opaque("hash", (v,), True) if not isinstance(v, Choice) else dom.sym("hash", True), st)]

    def b_hash(self, args, kw, st, e):
        v = args[0]
        if isinstance(v, Lin):
            v = st.facts.simplify(v)
        if isinstance(v, bool) or isinstance(v, int) and 0 <= v < 2 ** 61 - 1:
            return [(int(v), st)]
        if isinstance(v, Lin) and dom.is_int_lin(v):
            lo, hi = st.facts.bounds(v)
            if lo >= 0 and hi < 2 ** 61 - 1:
                return [(v, st)]
        if isinstance(v, Ref) and isinstance(st[v], InstO) and isinstance(st[v].cls, ClsV):
            f = st[v].cls.lookup("__hash__")
            if f is not None:
                return self.I.call(BoundV(f, v), [], {}, st, e)
        return [(Unk(("hash", v), frozenset()) if isinstance(v, (str, SStr)) else unk("hash"), st)]

    def b_ord(self, args, kw, st, e):
        v = args[0]
        if isinstance(v, (str, bytes)):
            if len(v) == 1:
                return [(ord(v), st)]
            return self.I.raise_(st, "TypeError", e, msg="ord() expected a character")
        if isinstance(v, BytesV):
            it = v.items()
            if it is not None and len(it) == 1:
                return [(it[0], st)]
            self.I.maybe_raise(st, "TypeError", e)
            return [(dom.opaque("ord", (v,), True, 0, 255), st)]
        if dom.isnum(v) or v is None:
            return self.I.raise_(st, "TypeError", e, msg="ord() of a number")
        self.I.maybe_raise(st, "TypeError", e)
        return [(dom.opaque("ord", (v,), True, 0, 0x10FFFF) if isinstance(v, (Unk, SStr))
                 else dom.sym("ord", True, 0, 0x10FFFF), st)]

    def b_chr(self, args, kw, st, e):
        v = args[0]
        if isinstance(v, int):
            try:
                return [(chr(v), st)]
            except (ValueError, OverflowError):
                return self.I.raise_(st, "ValueError", e)
        if isinstance(v, Lin):
            lo, hi = st.facts.bounds(v)
            return [(fresh_str("chr", 1, 1, hi < 128 and lo >= 0, key=("chr", v)), st)]
        return [(fresh_str("chr", 1, 1), st)]

    def b_hex(self, args, kw, st, e):
        if isinstance(args[0], int):
            return [(hex(args[0]), st)]
        return [(fresh_str("hex", 3, INF, True), st)]

    b_bin = b_hex

    def b_divmod(self, args, kw, st, e):
        I = self.I
        out = []
        for q, s in I.binop(ast.FloorDiv(), args[0], args[1], st, e):
            for r, s2 in I.binop(ast.Mod(), args[0], args[1], s, e):
                out.append((Tup((q, r)), s2))
        return out

    def b_pow(self, args, kw, st, e):
        return self.I.binop(ast.Pow(), args[0], args[1], st, e)

    def b_complex(self, args, kw, st, e):
        if all(isinstance(a, (int, float)) for a in args):
            return [(complex(*args), st)]
        return [(unk("complex"), st)]

    def b_object(self, args, kw, st, e):
        return [(st.alloc(InstO(BuiltinV("object"), {})), st)]

    def b_vars(self, args, kw, st, e):
        v = args[0] if args else None
        if isinstance(v, Ref) and isinstance(st[v], InstO):
            return [(st.alloc(DictO(dict(st[v].attrs), label=st[v].label)), st)]
        return [(unk("vars"), st)]

    def b_property(self, args, kw, st, e):
        return [(DescV("property", args[0], args[1] if len(args) > 1 else None), st)]

    def b_staticmethod(self, args, kw, st, e):
        return [(DescV("staticmethod", args[0]), st)]

    def b_classmethod(self, args, kw, st, e):
        return [(DescV("classmethod", args[0]), st)]

    def b_memoryview(self, args, kw, st, e):
        return [(args[0], st)]

    def b_format(self, args, kw, st, e):
        if all(is_const(a) for a in args):
            try:
                return [(format(*args), st)]
            except (ValueError, TypeError):
                return self.I.raise_(st, "ValueError", e)
        return [(fresh_str("fmt"), st)]

    def b_open(self, args, kw, st, e):
        I = self.I
        mode = args[1] if len(args) > 1 else kw.get("mode", "r")
        m = "w" if isinstance(mode, str) and any(c in mode for c in "wax") else "r"
        I.maybe_raise(st, "OSError", e, msg="open")
        text = not (isinstance(mode, str) and "b" in mode)
        r = st.alloc(StreamO(m, 0, False, "live" if m == "r" else None, ("opened", getattr(e, "lineno", 0)), text))
        I.mon.on_open(I, st, r, args, kw, e)
        return [(r, st)]

    def int_from_bytes(self, args, kw, st, e):
        v = args[0]
        order = args[1] if len(args) > 1 else kw.get("byteorder", "big")
        signed = kw.get("signed", False)
        sv = self.seqview(v, st)
        if sv is None or sv[1] is not None or order not in ("big", "little") or not isinstance(signed, bool) \
                or not all(dom.isnum(x) for x in sv[0]):
            return [(dom.sym("int", True), st)]
        return [(self.join_bytes(sv[0], order == "little", signed, st), st)]

    def join_bytes(self, items, little, signed, st):
        r = 0
        its = list(items) if little else list(reversed(items))
        for k, x in enumerate(its):
            r = dom.add(r, dom.mul(x, 256 ** k))
        n = len(its)
        if signed and n:
            if isinstance(r, Lin):
                m = dom.mod2k(dom.add(r, 256 ** n // 2), 8 * n, st.facts)
                return dom.sub(m, 256 ** n // 2)
            return r - 256 ** n if r >= 256 ** n // 2 else r
        return r

    # isinstance
    def b_isinstance(self, args, kw, st, e):
        v, c = args[0], args[1]
        I = self.I
        cs = list(c.items) if isinstance(c, Tup) else [c]

        def f(v, st):
            res = None
            unk_ = False
            for k in cs:
                r = self.isinst(v, k, st)
                if r is True:
                    return [(True, st)]
                if r is None:
                    unk_ = True
            if unk_:
                if isinstance(v, Unk):
                    return I.truth(Unk(("isinst", v, tuple(cs))), st)
                return I.fork_bool(st)
            return [(False, st)]
        return self.choice_map(v, st, f)

    def isinst(self, v, k, st):
        if isinstance(k, Unk):
            return None
        if isinstance(v, MU):
            v = v.v
        if isinstance(v, Unk):
            return None
        if isinstance(k, BuiltinV):
            n = k.name
            if n == "object":
                return True
            if isinstance(v, bool):
                return n in ("bool", "int")
            if isinstance(v, int):
                return n == "int"
            if isinstance(v, float):
                return n == "float"
            if isinstance(v, Fraction):
                return n == "float"
            if isinstance(v, Lin):
                if n == "int":
                    return True if dom.is_int_lin(v) else None
                if n == "float":
                    return False if dom.is_int_lin(v) else None
                return False
            if isinstance(v, (str, SStr)):
                return n == "str"
            if isinstance(v, (bytes, BytesV)):
                return n == "bytes"
            if isinstance(v, Tup):
                return n == "tuple"
            if isinstance(v, complex):
                return n == "complex"
            if v is None:
                return False
            if isinstance(v, Ref):
                o = st[v]
                if isinstance(o, ListO):
                    return n == o.kind
                if isinstance(o, DictO):
                    return n == "dict"
                if isinstance(o, InstO):
                    if isinstance(o.cls, ClsV):
                        if o.cls.known():
                            return False
                        return None
                    if isinstance(o.cls, BuiltinV):
                        from .interp import exc_isa
                        return exc_isa(o.cls.name, n)
                    return None
                return False
            if isinstance(v, (ClsV,)):
                return n == "type"
            return False
        if isinstance(k, ClsV):
            if isinstance(v, Ref) and isinstance(st[v], InstO):
                c = st[v].cls
                if isinstance(c, ClsV):
                    if c.isa(k):
                        return True
                    return False if c.known() else None
                return None if st[v].open else False
            return False
        return None

    def b_issubclass(self, args, kw, st, e):
        if isinstance(args[0], ClsV) and isinstance(args[1], ClsV):
            return [(args[0].isa(args[1]), st)]
        return self.I.fork_bool(st)

    def super_(self, e, st):
        I = self.I
        fr = st.frame()
        # find the class by the function name stack
        fn = I.stack[-1][3] if I.stack else None
        for (mod, name), c in I.classes.items():
            if c.node is not None and fn in c.node.body:
                slf = fr.vars.get(fn.args.args[0].arg) if fn.args.args else None
                for b in c.bases:
                    if isinstance(b, ClsV):
                        r = st.alloc(InstO(BuiltinV("super"), {}, None, True))
                        return [(SuperV(b, slf), st)]
        return [(unk("super"), st)]

    # ------------------------------------------------------------- external
    def external(self, name, args, kwargs, st, e):
        I = self.I
        args = [a.v if isinstance(a, MU) else a for a in args]
        if name.startswith("math."):
            return self.ext_math(name[5:], args, st, e)
        if name == "struct.pack":
            return self.struct_pack(args, st, e)
        if name == "struct.calcsize" and isinstance(args[0], str):
            return [(_struct.calcsize(args[0]), st)]
        if name == "struct.unpack":
            return self.struct_unpack(args, st, e)
        if name in ("os.path.splitext",):
            return [(Tup((fresh_str("root"), fresh_str("ext", key=("ext", args[0]) if isinstance(
                args[0], (SStr, Unk)) else None))), st)] if not isinstance(args[0], str) else \
                [(Tup(__import__("os").path.splitext(args[0])), st)]
        if name in PURE_PATH and args and all(isinstance(a, str) for a in args):
            r = getattr(_os.path, name[8:])(*args)
            return [(Tup(r) if isinstance(r, tuple) else r, st)]
        if name.startswith("os.path."):
            if name.endswith(("exists", "isfile", "isdir")):
                return I.fork_bool(st)
            return [(fresh_str("path"), st)]
        if name in ("io.BytesIO", "io.StringIO"):
            return [(st.alloc(StreamO("w", 0, False, None, ("mem", newid()), name.endswith("StringIO"))), st)]
        if name in ("io.open", "codecs.open"):
            return self.b_open(args, kwargs, st, e)
        if name == "copy.copy" and args:
            return self.shallow_copy(args[0], st, e)
        if name == "copy.deepcopy" and args:
            return self.deep_copy(args[0], st, e)
        if name in ("random.randint", "random.randrange"):
            lo, hi = -INF, INF
            if len(args) == 2 and all(isinstance(a, int) for a in args):
                lo, hi = args[0], args[1] - (1 if name.endswith("range") else 0)
            elif len(args) == 1 and isinstance(args[0], int):
                lo, hi = 0, args[0] - 1
            return [(dom.sym("random", True, lo, hi), st)]
        if name in ("random.random",):
            return [(dom.sym("random", False, 0, 1), st)]
        if name == "zlib.compress":
            return [(BytesV((BAtom(("zlib", newid()), dom.sym("blen", True, 0, INF)),)), st)]
        if name == "zlib.crc32":
            return [(dom.sym("crc", True, 0, 2 ** 32 - 1), st)]
        if name == "json.load" and args:
            if isinstance(args[0], Ref):
                I.mon.on_stream(I, st, args[0], "read", None, e)
            I.maybe_raise(st, "ValueError", e)
            return [(unk("json"), st)]
        if name == "json.dump" and len(args) > 1:
            if isinstance(args[1], Ref):
                I.mon.on_stream(I, st, args[1], "write", args[0], e)
            return [(None, st)]
        if name == "csv.reader":
            lab = labels_of(args[0], st)
            if isinstance(args[0], Ref):
                I.mon.on_stream(I, st, args[0], "read", None, e)

            def rows():
                pass
            n = dom.sym("rows", True, 0, INF)
            row = TObj("slist", "list", [(0, T(objs=(TObj("str", None, (), None),)))], None)
            return [(st.alloc(ListO("list", (), T(objs=(row,)), (), n)), st)]
        lab = frozenset()
        for a in args:
            if isinstance(a, Unk):
                lab |= a.labels
        return [(unk("ext:" + name, lab), st)]

    def shallow_copy(self, v, st, e):
        I = self.I
        if isinstance(v, Ref):
            o = st[v]
            if isinstance(o, InstO) and isinstance(o.cls, ClsV):
                f = o.cls.lookup("__copy__")
                if f is not None:
                    return I.call(BoundV(f, v), [], {}, st, e)
            if isinstance(o, (InstO, ListO, DictO)):
                return [(st.alloc(o.rep(label=None)), st)]
        return [(v, st)]

    def deep_copy(self, v, st, e, memo=None):
        I = self.I
        if isinstance(v, Ref):
            o = st[v]
            if isinstance(o, InstO) and isinstance(o.cls, ClsV):
                f = o.cls.lookup("__deepcopy__")
                if f is not None:
                    return I.call(BoundV(f, v), [st.alloc(DictO({}))], {}, st, e)
            if isinstance(o, ListO):
                if o.star is not None and (o.star.mat is not None or o.star.refs or o.star.unk is not None or
                                           o.star.objs):
                    if o.star.mat is not None and hasattr(o.star.mat, "copied"):
                        star = T(mat=o.star.mat.copied())
                    else:
                        star = strip_labels(o.star)
                else:
                    star = o.star
                cur = [((), st)]
                for x in o.pre:
                    cur = [(vs + (w,), s2) for vs, s in cur for w, s2 in self.deep_copy(x, s, e)]
                out = []
                for vs, s in cur:
                    suf = [self.deep_copy(x, s, e)[0][0] for x in o.suf]
                    out.append((s.alloc(ListO(o.kind, vs, star, suf, o.slen)), s))
                return out
            if isinstance(o, DictO):
                items = {}
                for k, x in o.items.items():
                    r = self.deep_copy(x, st, e)
                    items[k], st = r[0]
                return [(st.alloc(DictO(items, strip_labels(o.star) if o.star is not None else None, o.gone)), st)]
            if isinstance(o, InstO):
                attrs = {}
                for k, x in o.attrs.items():
                    r = self.deep_copy(x, st, e)
                    attrs[k], st = r[0]
                return [(st.alloc(InstO(o.cls, attrs, None, o.open)), st)]
            return [(v, st)]
        if isinstance(v, Tup):
            cur = [((), st)]
            for x in v.items:
                cur = [(vs + (w,), s2) for vs, s in cur for w, s2 in self.deep_copy(x, s, e)]
            return [(Tup(vs), s) for vs, s in cur]
        if isinstance(v, Unk):
            return [(Unk(("deepcopy", newid())), st)]
        return [(v, st)]

    def ext_math(self, fn, args, st, e):
        I = self.I
        out = []
        for i, a in enumerate(args):
            if isinstance(a, Choice):
                for x in a.vals:
                    out += self.ext_math(fn, args[:i] + [x] + args[i + 1:], st.fork(), e)
                return I.merge_states(out)
        args = [int(a) if isinstance(a, bool) else (st.facts.simplify(a) if isinstance(a, Lin) else a) for a in args]
        if all(isinstance(a, (int, float)) for a in args) and hasattr(math, fn):
            try:
                return [(getattr(math, fn)(*args), st)]
            except (ValueError, OverflowError):
                return I.raise_(st, "ValueError", e, msg="math domain error")
            except TypeError:
                return I.raise_(st, "TypeError", e)
        args = [float(a) if isinstance(a, Fraction) else a for a in args]
        if any(a is None or isinstance(a, (str, SStr, bytes, Tup)) for a in args):
            return I.raise_(st, "TypeError", e, msg="math.%s of a non-number" % fn)
        if not hasattr(math, fn):
            return I.raise_(st, "AttributeError", e, msg="module math has no attribute %s" % fn)
        if fn in ("ceil", "floor", "trunc") and isinstance(args[0], Lin):
            return [(dom.rnd(args[0], st.facts, fn), st)]
        lo, hi = {"sqrt": (0, INF), "sin": (-1, 1), "cos": (-1, 1), "hypot": (0, INF), "fabs": (0, INF),
                  "exp": (0, INF), "atan2": (-4, 4), "atan": (-2, 2)}.get(fn, (-INF, INF))
        isint = fn in ("ceil", "floor", "trunc")
        if all(dom.isnum(a) for a in args):
            if fn == "sqrt":
                l, h = st.facts.bounds(args[0])
                if l < 0:
                    I.maybe_raise(st, "ValueError", e)
                if l >= 0:
                    lo = math.sqrt(l)
                if 0 <= h < INF:
                    hi = math.sqrt(h) + 1e-9
            return [(dom.opaque("math." + fn, tuple(dom.tolin(a) if dom.tolin(a) is not None else repr(a)
                                                    for a in args), isint, lo, hi), st)]
        I.maybe_raise(st, "TypeError", e)
        return [(dom.opaque("math." + fn, tuple(a if not dom.isnum(a) else dom.tolin(a) for a in args), isint, lo, hi)
                 if all(isinstance(a, Unk) or dom.tolin(a) is not None for a in args) else
                 dom.sym("math." + fn, isint, lo, hi), st)]

    STRUCT = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
              "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}

    def struct_fields(self, fmt):
        little = True
        if fmt and fmt[0] in "<>!=@":
            little = fmt[0] in "<=@"
            fmt = fmt[1:]
        out = []
        n = ""
        for ch in fmt:
            if ch.isdigit():
                n += ch
                continue
            if ch.isspace():
                continue
            if ch in self.STRUCT:
                for _ in range(int(n or 1)):
                    out.append(self.STRUCT[ch])
            else:
                return None
            n = ""
        return little, out

    def struct_pack(self, args, st, e):
        I = self.I
        fmt = args[0]
        if isinstance(fmt, str):
            sf = self.struct_fields(fmt)
            if sf is not None and len(sf[1]) == len(args) - 1:
                little, fields = sf
                items = []
                for (n, signed), v in zip(fields, args[1:]):
                    if not dom.isnum(v):
                        items += [dom.sym("byte", True, 0, 255) for _ in range(n)]
                        continue
                    lo, hi = st.facts.bounds(v)
                    mn, mx = (-(256 ** n) // 2, 256 ** n // 2 - 1) if signed else (0, 256 ** n - 1)
                    if lo > mx or hi < mn:
                        return I.raise_(st, "struct.error", e)
                    if lo < mn or hi > mx:
                        I.raise_(st.fork(), "struct.error", e, definite=False)
                        I.assume(st, v, mn, mx)
                    bs = []
                    for k in range(n):
                        if isinstance(v, Lin):
                            bs.append(dom.mod2k(dom.shr(v, 8 * k, st.facts), 8, st.facts))
                        else:
                            bs.append((int(v) >> (8 * k)) & 255)
                    items += bs if little else bs[::-1]
                return [(BytesV((tuple(items),)).simp(), st)]
            try:
                n = _struct.calcsize(fmt)
            except _struct.error:
                n = None
            if n is not None:
                if all(isinstance(a, (int, float, bytes)) for a in args[1:]):
                    try:
                        return [(_struct.pack(fmt, *args[1:]), st)]
                    except _struct.error:
                        return I.raise_(st, "struct.error", e)
                if n <= 64:
                    return [(BytesV((tuple(dom.opaque("pack", (fmt, k) + tuple(args[1:]), True, 0, 255)
                                           if all(isinstance(a, (Lin, int, float, Unk)) for a in args[1:])
                                           else dom.sym("byte", True, 0, 255) for k in range(n)),)), st)]
                return [(BytesV((BAtom(("pack", newid()), n),)), st)]
        return [(BytesV((BAtom(("pack", newid()), dom.sym("blen", True, 0, INF)),)), st)]

    def struct_unpack(self, args, st, e):
        I = self.I
        fmt, v = args[0], args[1]
        if isinstance(fmt, str):
            sf = self.struct_fields(fmt)
            if sf is not None:
                little, fields = sf
                n = sum(f[0] for f in fields)
                if isinstance(v, (bytes, BytesV)):
                    out = []
                    for b, s in I.compare_num("==", self.blen(v), n, st):
                        if not b:
                            I.raise_(s, "struct.error", e, definite=False)
                            continue
                        its = []
                        for i in range(n):
                            its.append(self.getitem(v, i, s, e)[0][0])
                        vals, k = [], 0
                        for size, signed in fields:
                            vals.append(self.join_bytes(its[k:k + size], little, signed, s))
                            k += size
                        out.append((Tup(vals), s))
                    return out
                return [(Tup([dom.sym("unpack", True) for _ in fields]), st)]
            try:
                _struct.calcsize(fmt)
                return [(Tup([dom.sym("unpack", False) for _ in fmt.strip("<>=!@")]), st)]
            except _struct.error:
                pass
        return [(unk("unpack"), st)]

    # -------------------------------------------------------------- methods
    def has_method(self, o, name):
        if isinstance(o, ListO):
            return name in {"list": LIST_METHODS, "bytearray": BA_METHODS, "set": SET_METHODS}.get(o.kind, LIST_METHODS) \
                or hasattr({"list": list, "bytearray": bytearray, "set": set}.get(o.kind, list), name)
        if isinstance(o, DictO):
            return name in DICT_METHODS or hasattr(dict, name)
        if isinstance(o, StreamO):
            return name in STREAM_METHODS or hasattr(__import__("io").BytesIO, name)
        return False

    def value_has_method(self, v, name):
        if isinstance(v, (str, SStr)):
            return hasattr(str, name)
        if isinstance(v, (bytes, BytesV)):
            return hasattr(bytes, name)
        if isinstance(v, Tup):
            return hasattr(tuple, name)
        if isinstance(v, bool):
            return hasattr(bool, name)
        if dom.isnum(v):
            return hasattr(int, name) or hasattr(float, name)
        if isinstance(v, complex):
            return hasattr(complex, name)
        if isinstance(v, SuperV):
            return True
        return False

    def value_attr(self, v, name, st):
        if isinstance(v, complex) and name in ("real", "imag"):
            return [(getattr(v, name), st)]
        if dom.isnum(v) and name in ("real",):
            return [(v, st)]
        if isinstance(v, SuperV):
            f = v.cls.lookup(name)
            if f is not None:
                return [(BoundV(f, v.slf), st)]
            return [(BuiltinV("object." + name), st)]
        return None

    def method(self, obj, name, args, kwargs, st, e):
        I = self.I
        if isinstance(obj, MU):
            obj = obj.v
        args = [a.v if isinstance(a, MU) else a for a in args]
        if isinstance(obj, Choice):
            out = []
            for x in obj.vals:
                out += self.method(x, name, args, kwargs, st.fork(), e)
            return I.merge_states(out)
        if isinstance(obj, Ref):
            o = st[obj]
            if isinstance(o, ListO):
                if o.kind == "set":
                    return self.m_set(obj, o, name, args, kwargs, st, e)
                if o.kind == "bytearray" and name in ("decode", "hex", "find", "startswith", "endswith"):
                    bs = self.list_bytes(o, st, e)
                    out = []
                    for v, s in bs:
                        out += self.method(v, name, args, kwargs, s, e)
                    return out
                return self.m_list(obj, o, name, args, kwargs, st, e)
            if isinstance(o, DictO):
                return self.m_dict(obj, o, name, args, kwargs, st, e)
            if isinstance(o, StreamO):
                return self.m_stream(obj, o, name, args, kwargs, st, e)
            if isinstance(o, InstO):
                out = []
                for f, s in I.getattr(obj, name, st, e):
                    out += I.call(f, args, kwargs, s, e)
                return out
            return [(unk(name), st)]
        if isinstance(obj, (str, SStr)):
            return self.m_str(obj, name, args, kwargs, st, e)
        if isinstance(obj, (bytes, BytesV)):
            return self.m_bytes(obj, name, args, kwargs, st, e)
        if isinstance(obj, Tup):
            if name == "index" or name == "count":
                if all(is_const(x) for x in obj.items) and is_const(args[0]):
                    try:
                        return [(getattr(obj.items, name)(args[0]), st)]
                    except ValueError:
                        return I.raise_(st, "ValueError", e)
                I.maybe_raise(st, "ValueError", e)
                return [(dom.sym("idx", True, 0, len(obj.items)), st)]
        if dom.isnum(obj):
            if name == "to_bytes" and args:
                n = args[0]
                order = args[1] if len(args) > 1 else kwargs.get("byteorder", "big")
                signed = kwargs.get("signed", False)
                if isinstance(n, int) and order in ("big", "little") and isinstance(signed, bool):
                    lo, hi = st.facts.bounds(obj)
                    mn, mx = (-(256 ** n) // 2, 256 ** n // 2 - 1) if signed else (0, 256 ** n - 1)
                    if lo > mx or hi < mn:
                        return I.raise_(st, "OverflowError", e)
                    if lo < mn or hi > mx:
                        I.raise_(st.fork(), "OverflowError", e, definite=False)
                        I.assume(st, obj, mn, mx)
                    bs = [dom.mod2k(dom.shr(obj, 8 * k, st.facts), 8, st.facts) if isinstance(obj, Lin)
                          else (int(obj) >> 8 * k) & 255 for k in range(n)]
                    return [(BytesV((tuple(bs if order == "little" else bs[::-1]),)).simp(), st)]
            if is_const(obj) and all(is_const(a) for a in args):
                try:
                    return [(getattr(obj, name)(*args), st)]
                except (TypeError, ValueError):
                    pass
            return [(unk(name), st)]
        if isinstance(obj, complex):
            return [(unk(name), st)]
        if isinstance(obj, Unk):
            return I.call(Unk(("attr", obj, name), obj.labels), args, kwargs, st, e)
        return [(unk(name), st)]

    def m_list(self, ref, o, name, args, kw, st, e):
        I = self.I
        if name in MUTATORS:
            I.mon.on_mutate(I, st, ref.oid, name, e)
        if name == "append":
            I.mon.on_append(I, st, ref.oid, args[0], e)
            o = st[ref]
            if o.kind == "bytearray":
                out = []
                for v, s in self.check_bytes([args[0]], st, e, lambda items, s: items[0]):
                    s[ref] = I.list_append(s[ref], v)
                    out.append((None, s))
                return out
            st[ref] = I.list_append(o, args[0])
            self.compact(ref, st)
            return [(None, st)]
        if name == "extend":
            if isinstance(args[0], Choice):
                out = []
                for x in args[0].vals:
                    out += self.m_list(ref, o, name, [x], kw, st.fork(), e)
                return I.merge_states(out)
            if args[0] is None or dom.isnum(args[0]):
                return I.raise_(st, "TypeError", e, msg="extend(%r)" % (args[0],))
            h = getattr(I.mon, "on_extend", None)
            if h is not None:
                h(I, st, ref.oid, args[0], e)
            return [(None, s) for s in self.list_extend(ref, args[0], st, e)]
        if name == "insert":
            I.mon.on_append(I, st, ref.oid, args[1], e)
            o = st[ref]
            i = args[0]
            if o.star is None and isinstance(i, int):
                l = list(o.pre)
                l.insert(i, args[1])
                st[ref] = o.rep(pre=l)
                return [(None, st)]
            if isinstance(i, int) and i == 0:
                st[ref] = o.rep(pre=(args[1],) + o.pre)
                return [(None, st)]
            star = o.star or T()
            mark = newid()
            for x in o.pre + o.suf + (args[1],):
                star = t_join(star, t_of(x, st, mark))
            st[ref] = ListO(o.kind, (), star, (), dom.add(o.length(), 1), o.label)
            return [(None, st)]
        if name == "pop":
            i = args[0] if args else -1
            if o.star is None:
                if not o.pre:
                    return I.raise_(st, "IndexError", e, msg="pop from empty list")
                if isinstance(i, int):
                    if not -len(o.pre) <= i < len(o.pre):
                        return I.raise_(st, "IndexError", e, msg="pop index out of range")
                    l = list(o.pre)
                    v = l.pop(i)
                    st[ref] = o.rep(pre=l)
                    return [(v, st)]
            if isinstance(i, int) and i < 0 and -i <= len(o.suf):
                l = list(o.suf)
                v = l.pop(i)
                st[ref] = o.rep(suf=l)
                return [(v, st)]
            if isinstance(i, int) and 0 <= i < len(o.pre):
                l = list(o.pre)
                v = l.pop(i)
                st[ref] = o.rep(pre=l)
                return [(v, st)]
            out = []
            for v, s in self.list_get(ref, o, i, st, e):
                oo = s[ref]
                star = oo.star or T()
                mark = newid()
                for x in oo.pre + oo.suf:
                    star = t_join(star, t_of(x, s, mark))
                s[ref] = ListO(oo.kind, (), star, (), dom.sub(oo.length(), 1), oo.label)
                out.append((v, s))
            return out
        if name == "clear":
            st[ref] = ListO(o.kind, (), None, (), 0, o.label)
            return [(None, st)]
        if name == "copy":
            return [(st.alloc(o.rep(label=None)), st)]
        if name in ("sort", "reverse"):
            if name == "reverse" and o.star is None:
                st[ref] = o.rep(pre=tuple(reversed(o.pre)))
            elif o.star is not None or len(o.pre) > 1:
                if o.star is None and all(is_const(x) for x in o.pre) and not kw:
                    try:
                        st[ref] = o.rep(pre=sorted(o.pre))
                        return [(None, st)]
                    except TypeError:
                        return I.raise_(st, "TypeError", e)
                self.blur(ref, st)
            return [(None, st)]
        if name in ("index", "count"):
            if o.star is None and is_const(args[0]) and all(is_const(x) for x in o.pre):
                try:
                    return [(getattr(list(o.pre), name)(args[0]), st)]
                except ValueError:
                    return I.raise_(st, "ValueError", e, msg="not in list")
            I.maybe_raise(st, "ValueError", e)
            n = o.length()
            v = dom.sym("idx", True, 0, st.facts.bounds(n)[1] if not isinstance(n, int) else n)
            return [(v, st)]
        if name == "remove":
            if o.star is None and is_const(args[0]) and all(is_const(x) for x in o.pre):
                l = list(o.pre)
                if args[0] not in l:
                    return I.raise_(st, "ValueError", e)
                l.remove(args[0])
                st[ref] = o.rep(pre=l)
                return [(None, st)]
            I.maybe_raise(st, "ValueError", e)
            n = dom.sub(o.length(), 1)
            self.blur(ref, st)
            st[ref] = st[ref].rep(slen=n)
            return [(None, st)]
        if name == "join":
            return [(BytesV((BAtom(("join", newid()), dom.sym("blen", True, 0, INF)),)), st)]
        return [(unk(name), st)]

    def compact(self, ref, st):
        """Bound the exact suffix of a summarised list."""
        o = st[ref]
        if o.star is not None and len(o.suf) > 40:
            mark = newid()
            star = o.star
            for x in o.suf[:-8]:
                star = t_join(star, t_of(x, st, mark))
            st[ref] = ListO(o.kind, o.pre, star, o.suf[-8:], dom.add(o.slen, len(o.suf) - 8), o.label)

    def m_set(self, ref, o, name, args, kw, st, e):
        I = self.I
        if name in MUTATORS:
            I.mon.on_mutate(I, st, ref.oid, name, e)
        if name == "add":
            if o.star is None and is_const(args[0]) and all(is_const(x) for x in o.pre):
                if args[0] in o.pre:
                    return [(None, st)]
                st[ref] = o.rep(pre=o.pre + (args[0],))
                return [(None, st)]
            star = o.star or T()
            mark = newid()
            for x in o.pre + (args[0],):
                star = t_join(star, t_of(x, st, mark))
            st[ref] = ListO("set", (), star, (), dom.sym("setlen", True, 1, INF), o.label)
            return [(None, st)]
        if name == "copy":
            return [(st.alloc(o.rep(label=None)), st)]
        if name == "clear":
            st[ref] = ListO("set", (), label=o.label)
            return [(None, st)]
        if name in ("discard", "remove", "update", "pop"):
            self.blur(ref, st)
            st[ref] = st[ref].rep(slen=dom.sym("setlen", True, 0, INF))
            if name == "pop":
                I.maybe_raise(st, "KeyError", e)
                return [(self.any_elem(ref, st), st)]
            if name == "update" and args:
                for r, s in self.to_list(args[0], st, "list", e)[:1]:
                    p = s[r]
                    t = st[ref].star
                    for x in p.pre + p.suf:
                        t = t_join(t, t_of(x, s, newid()))
                    if p.star is not None:
                        t = t_join(t, p.star)
                    s[ref] = s[ref].rep(star=t)
                    return [(None, s)]
            return [(None, st)]
        return [(unk(name), st)]

    def m_dict(self, ref, o, name, args, kw, st, e):
        I = self.I
        if name in MUTATORS:
            I.mon.on_mutate(I, st, ref.oid, name, e)
        if name == "get":
            d = args[1] if len(args) > 1 else None
            k = args[0]
            if isinstance(k, Choice):
                out = []
                for x in k.vals:
                    out += self.dict_get(o, x, st.fork(), e, d, True)
                return I.merge_states(out)
            return self.dict_get(o, k, st, e, d, True)
        if name in ("items", "keys", "values"):
            return [(GenExpV(name, (ref,)), st)]
        if name == "update":
            items = dict(o.items)
            star = o.star
            gone = o.gone
            if args:
                v = args[0]
                if isinstance(v, Choice):
                    out = []
                    for x in v.vals:
                        out += self.m_dict(ref, o, name, [x], kw, st.fork(), e)
                    return I.merge_states(out)
                if isinstance(v, Ref) and isinstance(st[v], DictO):
                    p = st[v]
                    if p.star is not None:
                        # listed keys may be overridden by unlisted ones
                        star = p.star if star is None else t_join(star, p.star)
                        for k in list(items):
                            if k not in p.items and k not in p.gone:
                                items[k] = Choice([items[k], t_value(p.star, st, I, "dictval")])
                        gone = frozenset(k for k in gone if k in p.gone)
                    items.update(p.items)
                    gone = gone - frozenset(p.items)
                else:
                    if v is None or dom.isnum(v):
                        return I.raise_(st, "TypeError", e, msg="update(%r)" % (v,))
                    I.maybe_raise(st, "TypeError", e)
                    t = T(unk_=labels_of(v, st))
                    star = t if star is None else t_join(star, t)
                    gone = frozenset()
                    for k in list(items):
                        items[k] = Choice([items[k], unk("dictval", labels_of(v, st))])
            items.update(kw)
            st[ref] = o.rep(items=items, star=star, gone=gone)
            return [(None, st)]
        if name == "setdefault":
            k = args[0]
            d = args[1] if len(args) > 1 else None
            out = []
            for b, s in self.contains(ref, k, st, e):
                if b:
                    out += self.dict_get(s[ref], k, s, e)
                else:
                    for s2 in self.setitem(ref, k, d, s, e):
                        out.append((d, s2))
            return out
        if name == "pop":
            k = args[0]
            if self.hashable_const(k):
                if k in o.items:
                    items = dict(o.items)
                    v = items.pop(k)
                    st[ref] = o.rep(items=items, gone=o.gone | frozenset([k]))
                    return [(v, st)]
                if o.star is None:
                    if len(args) > 1:
                        return [(args[1], st)]
                    return I.raise_(st, "KeyError", e)
            I.maybe_raise(st, "KeyError", e)
            return [(unk("pop"), st)]
        if name == "clear":
            st[ref] = DictO({}, None, frozenset(), o.label)
            return [(None, st)]
        if name == "copy":
            return [(st.alloc(o.rep(label=None)), st)]
        return [(unk(name), st)]

    def m_str(self, v, name, args, kw, st, e):
        I = self.I
        if isinstance(v, str) and all(is_const(a) for a in args) and all(is_const(a) for a in kw.values()) and \
                name not in ("encode", "join"):
            try:
                r = getattr(v, name)(*args, **kw)
            except (TypeError, ValueError, IndexError, KeyError) as ex:
                return I.raise_(st, type(ex).__name__, e, msg=str(ex))
            if isinstance(r, list):
                return [(st.alloc(ListO("list", r)), st)]
            if isinstance(r, tuple):
                return [(Tup(r), st)]
            return [(r, st)]
        asc = all((p.isascii() if isinstance(p, str) else p.ascii) for p in (v.parts if isinstance(v, SStr) else (v,)))
        hi = st.facts.bounds(v.clen())[1] if isinstance(v, SStr) else len(v)
        if name == "encode":
            enc = args[0] if args else kw.get("encoding", "utf8")
            if isinstance(v, SStr) and not asc and not (isinstance(enc, str) and enc.lower().replace("-", "").replace(
                    "_", "").startswith("utf")):
                I.maybe_raise(st, "UnicodeEncodeError", e)
            return [(self.encode(v, enc, st), st)]
        if name == "format":
            if isinstance(v, str):
                return self.str_format(v, args, kw, st, e)
            return [(fresh_str("format"), st)]
        if name == "join":
            sv = self.seqview(args[0], st)
            if sv is not None and sv[1] is None:
                parts = []
                ok = True
                for i, x in enumerate(sv[0]):
                    if i:
                        parts += [v] if isinstance(v, str) else list(v.parts)
                    if isinstance(x, str):
                        parts.append(x)
                    elif isinstance(x, SStr):
                        parts += list(x.parts)
                    else:
                        ok = False
                        break
                if ok and len(parts) < 60:
                    return [(SStr(parts).simp(), st)]
            return [(fresh_str("join"), st)]
        if name in ("strip", "lstrip", "rstrip"):
            return [(fresh_str("strip", 0, hi, asc, key=(name, v, tuple(args)) if all(is_const(a) for a in args) else None), st)]
        if name in ("lower", "upper", "title", "capitalize", "swapcase", "casefold"):
            lo2, hi2 = (st.facts.bounds(v.clen()) if asc and isinstance(v, SStr) else (0, INF))
            return [(fresh_str(name, lo2, hi2, asc, key=(name, v)), st)]
        if name in ("split", "rsplit", "splitlines"):
            n = dom.sym("nsplit", True, 1 if name != "splitlines" and args else 0, INF)
            return [(st.alloc(ListO("list", (), T(objs=(TObj("str", None, (), None),)), (), n)), st)]
        if name in ("partition", "rpartition"):
            return [(Tup((fresh_str("p"), fresh_str("p"), fresh_str("p"))), st)]
        if name in ("startswith", "endswith", "isdigit", "isalpha", "isspace", "isnumeric", "isupper", "islower",
                    "isascii", "isalnum", "isdecimal"):
            return I.truth(Unk((name, v, tuple(args))), st) if all(is_const(a) or isinstance(a, (SStr, Tup)) for a in args) \
                else I.fork_bool(st)
        if name in ("find", "rfind", "index", "rindex", "count"):
            if name in ("index", "rindex"):
                I.maybe_raise(st, "ValueError", e)
            return [(dom.sym("find", True, 0 if name not in ("find", "rfind") else -1, hi), st)]
        if name in ("replace", "zfill", "ljust", "rjust", "center", "expandtabs", "translate"):
            lo2 = 0
            if name in ("zfill", "ljust", "rjust", "center") and args and isinstance(args[0], int):
                lo2 = args[0]
                hi = max(hi, lo2)
            else:
                hi = INF
            asc2 = asc and all(isinstance(a, str) and a.isascii() or dom.isnum(a) for a in args)
            return [(fresh_str(name, lo2, hi, asc2, key=(name, v, tuple(args)) if all(is_const(a) for a in args) else None), st)]
        return [(unk(name), st)]

    def str_format(self, v, args, kw, st, e):
        import string
        I = self.I
        try:
            parsed = list(string.Formatter().parse(v))
        except ValueError:
            return I.raise_(st, "ValueError", e)
        parts = []
        auto = 0
        for lit, field, spec, conv in parsed:
            parts.append(lit or "")
            if field is None:
                continue
            if field == "":
                k = auto
                auto += 1
            elif field.isdigit():
                k = int(field)
            else:
                k = field
            if isinstance(k, int):
                if k >= len(args):
                    return I.raise_(st, "IndexError", e, msg="format index")
                x = args[k]
            else:
                x = kw.get(k, unk("fmt"))
            if isinstance(x, Lin):
                x = st.facts.simplify(x)
            if is_const(x) and "{" not in (spec or ""):
                try:
                    parts.append(format(x, spec or "") if not conv else str(x))
                    continue
                except (ValueError, TypeError):
                    return I.raise_(st, "ValueError", e, msg="format")
            if isinstance(x, SStr) and not spec:
                parts += list(x.parts)
                continue
            key = ("format", spec, x) if isinstance(x, (Lin, Unk, SStr)) else None
            parts += list(fresh_str("fmt", 0, INF, dom.isnum(x), key=key).parts)
        return [(SStr(parts).simp(), st)]

    def m_bytes(self, v, name, args, kw, st, e):
        I = self.I
        if isinstance(v, bytes) and all(is_const(a) for a in args) and name not in ("join",):
            try:
                r = getattr(v, name)(*args, **{k: x for k, x in kw.items() if is_const(x)})
            except UnicodeError:
                return I.raise_(st, "UnicodeDecodeError", e)
            except (TypeError, ValueError, LookupError) as ex:
                return I.raise_(st, type(ex).__name__, e, msg=str(ex))
            if isinstance(r, list):
                return [(st.alloc(ListO("list", r)), st)]
            if isinstance(r, tuple):
                return [(Tup(r), st)]
            return [(r, st)]
        if name == "decode":
            errs = args[1] if len(args) > 1 else kw.get("errors")
            if errs is None:
                I.maybe_raise(st, "UnicodeDecodeError", e)
            enc = args[0] if args else kw.get("encoding", "utf8")
            if len(v.parts) == 1 and isinstance(v.parts[0], BAtom):
                k = v.parts[0].key
                if isinstance(k, tuple) and len(k) == 3 and k[0] == "enc" and isinstance(enc, str) and \
                        k[1] == enc.lower().replace("-", ""):
                    n = v.parts[0].n
                    return [(SStr((StrAtom(k[2], dom.opaque("strlen", (k[2],), True, 0, INF), False),)), st)]
            hi = st.facts.bounds(v.blen())[1]
            return [(fresh_str("decoded", 0, hi, False, key=("dec", enc, v)), st)]
        if name in ("strip", "lstrip", "rstrip", "replace", "join", "lower", "upper", "ljust", "rjust"):
            return [(BytesV((BAtom((name, newid()), dom.sym("blen", True, 0, INF)),)), st)]
        if name == "split":
            n = dom.sym("nsplit", True, 0, INF)
            return [(st.alloc(ListO("list", (), T(objs=(TObj("bytes", None, (), None),)), (), n)), st)]
        if name in ("find", "index", "rfind", "count"):
            return [(dom.sym("find", True, -1, INF), st)]
        if name in ("startswith", "endswith"):
            return I.fork_bool(st)
        if name == "hex":
            return [(fresh_str("hex", 0, INF, True), st)]
        return [(unk(name), st)]

    # --------------------------------------------------------------- streams
    def m_stream(self, ref, o, name, args, kw, st, e):
        I = self.I
        if o.closed and name not in ("close",):
            I.mon.on_stream(I, st, ref, "use-after-close", name, e)
            return I.raise_(st, "ValueError", e, msg="I/O operation on closed file")
        if name == "write":
            v = args[0]
            if isinstance(v, Choice):
                out = []
                for x in v.vals:
                    out += self.m_stream(ref, st[ref], name, [x], kw, st.fork(), e)
                return I.merge_states(out)
            if o.text is True and isinstance(v, (bytes, BytesV)) or \
                    (o.text is True and isinstance(v, Ref) and isinstance(st[v], ListO)):
                return I.raise_(st, "TypeError", e, msg="bytes written to a text stream")
            if o.text is False and isinstance(v, (str, SStr)):
                return I.raise_(st, "TypeError", e, msg="text written to a binary stream")
            if v is None or (dom.isnum(v)):
                return I.raise_(st, "TypeError", e, msg="write(%r)" % (v,))
            if isinstance(v, Ref) and isinstance(st[v], ListO):
                out = []
                for w, s in self.list_bytes(st[v], st, e):
                    out += self.m_stream(ref, s[ref], name, [w], kw, s, e)
                return out
            I.mon.on_stream(I, st, ref, "write", v, e)
            n = self.wlen(v)
            o = st[ref]
            st[ref] = o.rep(pos=dom.add(o.pos, n))
            return [(n, st)]
        if name == "tell":
            I.mon.on_stream(I, st, ref, "tell", None, e)
            return [(st.facts.simplify(st[ref].pos), st)]
        if name == "seek":
            wh = args[1] if len(args) > 1 else kw.get("whence", 0)
            p = args[0]
            if isinstance(p, Choice):
                out = []
                for x in p.vals:
                    out += self.m_stream(ref, st[ref], name, [x] + args[1:], kw, st.fork(), e)
                return I.merge_states(out)
            if p is None or isinstance(p, (str, SStr, Tup)):
                return I.raise_(st, "TypeError", e, msg="seek(%r)" % (p,))
            if isinstance(p, float):
                return I.raise_(st, "TypeError", e, msg="seek(float)")
            if isinstance(p, Unk):
                p = dom.opaque("int", (p,), True)
            I.mon.on_stream(I, st, ref, "seek", Tup((p, wh)), e)
            o = st[ref]
            h = getattr(I, "stream_seek", None)
            if h is not None:
                return h(I, st, ref, p, wh, e)
            if wh == 0:
                if not isinstance(p, Lin) and p < 0:
                    return I.raise_(st, "ValueError", e, msg="negative seek")
                pos = p
            elif wh == 1:
                pos = dom.add(o.pos, p)
            else:
                pos = dom.sym("pos", True, 0, INF)
            data = o.data
            if o.mode == "r" and data == "exhausted":
                data = "live"
            st[ref] = o.rep(pos=pos, data=data)
            return [(pos, st)]
        if name == "read":
            n = args[0] if args else None
            h = self.stream_read
            if h is not None:
                r = h(I, st, ref, n, e)
                if r is not None:
                    return r
            I.mon.on_stream(I, st, ref, "read", n, e)
            return self.default_read(ref, n, st, e)
        if name == "readline":
            I.mon.on_stream(I, st, ref, "read", None, e)
            return [(fresh_str("line") if o.text else BytesV((BAtom(("line", newid()), dom.sym("blen", True, 0, INF)),)), st)]
        if name == "readlines":
            return [(unk("lines"), st)]
        if name == "close":
            I.mon.on_stream(I, st, ref, "close", None, e)
            st[ref] = st[ref].rep(closed=True)
            return [(None, st)]
        if name == "writelines":
            I.mon.on_stream(I, st, ref, "write", unk("lines"), e)
            st[ref] = o.rep(pos=dom.sym("pos", True, 0, INF))
            return [(None, st)]
        if name in ("flush", "truncate"):
            return [(None, st)]
        if name == "getvalue":
            return [(unk("getvalue"), st)]
        return [(unk(name), st)]

    def wlen(self, v):
        if isinstance(v, (str, bytes)):
            return len(v)
        if isinstance(v, SStr):
            return v.clen()
        if isinstance(v, BytesV):
            return v.blen()
        return dom.sym("wlen", True, 0, INF)

    def default_read(self, ref, n, st, e):
        I = self.I
        o = st[ref]
        if isinstance(n, Lin):
            n = st.facts.simplify(n)
        if isinstance(n, MU):
            n = n.v
        if isinstance(n, Choice):
            out = []
            for x in n.vals:
                out += self.default_read(ref, x, st.fork(), e)
            return I.merge_states(out)
        if isinstance(n, Unk):
            n = dom.opaque("int", (n,), True)
        if isinstance(n, float) or isinstance(n, str):
            return I.raise_(st, "TypeError", e, msg="read(%r)" % (n,))
        if o.text:
            return [(fresh_str("text"), st)]
        if o.data == "exhausted":
            return [(b"", st)]
        if n is None or (isinstance(n, int) and n < 0):
            k = dom.sym("rest", True, 0, INF)
            st[ref] = o.rep(pos=dom.add(o.pos, k), data="exhausted")
            return [(BytesV((BAtom(("rest", newid()), k),)), st)]
        if isinstance(n, Lin):
            k = dom.sym("got", True, 0, INF)
            lo, hi = st.facts.bounds(n)
            if lo >= 0:
                self.setfact(st, dom.sub(n, k), 0, INF)
            st[ref] = o.rep(pos=dom.add(o.pos, k))
            s2 = st.fork()
            s2[ref] = s2[ref].rep(data="exhausted")
            b = BytesV((BAtom(("chunk", newid()), k),))
            return [(b, st), (b, s2)]
        if n == 0:
            return [(b"", st)]
        full, short = st.fork(), st
        full[ref] = o.rep(pos=dom.add(o.pos, n))
        if n <= 64:
            fv = BytesV((tuple(dom.sym("byte", True, 0, 255) for _ in range(n)),))
        else:
            fv = BytesV((BAtom(("chunk", newid()), n),))
        out = [(fv, full)]
        if n == 1:
            short[ref] = o.rep(data="exhausted")
            out.append((b"", short))
        else:
            k = dom.sym("short", True, 0, n - 1)
            short[ref] = o.rep(data="exhausted", pos=dom.add(o.pos, k))
            out.append((BytesV((BAtom(("short", newid()), k),)), short))
        return out

    def enter(self, v, st, node):
        if isinstance(v, Ref) and isinstance(st[v], InstO) and isinstance(st[v].cls, ClsV):
            f = st[v].cls.lookup("__enter__")
            if f is not None:
                return self.I.call(BoundV(f, v), [], {}, st, node)
        return [(v, st)]

    def exit(self, v, st, node):
        if isinstance(v, Ref) and v.oid in st.heap:
            o = st[v]
            if isinstance(o, StreamO):
                if not o.closed:
                    self.I.mon.on_stream(self.I, st, v, "close", None, node)
                    st[v] = st[v].rep(closed=True)
                return [st]
            if isinstance(o, InstO) and isinstance(o.cls, ClsV):
                f = o.cls.lookup("__exit__")
                if f is not None:
                    return [s for _, s in self.I.call(BoundV(f, v), [None, None, None], {}, st, node)]
        return [st]


class SuperV(Val):
    __slots__ = ("cls", "slf")

    def __init__(self, cls, slf):
        self.cls = cls
        self.slf = slf

    def __eq__(self, o):
        return isinstance(o, SuperV) and o.cls is self.cls and o.slf == self.slf

    def __hash__(self):
        return hash(("super", id(self.cls), self.slf))


def strip_labels(t):
    """Template of deep copies of the elements."""
    if t is None:
        return None
    return T(t.consts, t.num, tuple(TObj(o.kind, o.cls, [(k, strip_labels(x)) for k, x in o.fields], None,
                                         strip_labels(o.extra) if isinstance(o.extra, T) else o.extra)
                                    for o in t.objs),
             frozenset(), frozenset() if (t.unk is not None or t.refs) else None,
             t.mat.copied() if t.mat is not None and hasattr(t.mat, "copied") else t.mat)


class AnalysisErr(Exception):
    pass
