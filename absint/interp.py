"""Abstract interpreter for the Python subset used by pyembroidery.

Evaluation maps an abstract state to a list of (value, state) partitions;
statements map a state to a list of (kind, state, value) outcomes, kind in
next | break | continue | return.  Exceptions are delivered to the innermost
collector.  Loops are solved by fixpoint with affine (Karr-style) joins.
"""
import ast
import os
import sys
import builtins as _bi
from fractions import Fraction

from . import dom
from .dom import Lin, ATOMS, INF, Infeasible
from .core import *
from .live import liveness

sys.setrecursionlimit(20000)

EXC_PARENTS = {
    "IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception",
    "ValueError": "Exception", "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError",
    "UnicodeError": "ValueError", "TypeError": "Exception", "AttributeError": "Exception",
    "NameError": "Exception", "UnboundLocalError": "NameError", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError",
    "OSError": "Exception", "IOError": "Exception", "EOFError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "OverflowError": "ArithmeticError", "ArithmeticError": "Exception", "StopIteration": "Exception",
    "AssertionError": "Exception", "NotImplementedError": "RuntimeError", "RuntimeError": "Exception",
    "Exception": "BaseException", "struct.error": "Exception", "FileNotFoundError": "OSError",
}


def exc_isa(name, target):
    if target in ("IOError", "EnvironmentError"):
        target = "OSError"
    if name in ("IOError", "EnvironmentError"):
        name = "OSError"
    while name is not None:
        if name == target:
            return True
        name = EXC_PARENTS.get(name, None if name in ("BaseException",) else "Exception"
                               if name != "Exception" else "BaseException")
    return False


class Budget(Exception):
    """Analysis budget exhausted."""


class AnalysisError(Exception):
    """The analysed program has a shape the engine cannot interpret."""


class ExcInfo(object):
    __slots__ = ("name", "val", "node", "mod", "stack", "definite", "msg")

    def __init__(self, name, val, node, mod, stack, definite, msg=None):
        self.name = name
        self.val = val
        self.node = node
        self.mod = mod
        self.stack = stack
        self.definite = definite
        self.msg = msg

    def where(self):
        return "%s:%s" % (self.mod, getattr(self.node, "lineno", "?"))

    def __repr__(self):
        return "%s at %s (%s)" % (self.name, self.where(), self.msg)


class Monitor(object):
    """Property hooks; subclass and override."""

    def on_mutate(self, interp, st, oid, how, node):
        pass

    def on_unbound(self, interp, st, name, node):
        """A local variable is read that is not bound on every path merged here."""

    def on_head(self, interp, st, node):
        """Stable head of a while loop (before its test)."""

    def on_append(self, interp, st, oid, val, node):
        """A value was appended/inserted into list oid (before the change)."""

    def on_setattr(self, interp, st, oid, name, val, node):
        pass

    def on_stream(self, interp, st, ref, op, val, node):
        pass

    def on_call(self, interp, st, fn, args, kwargs, node):
        """May return a list of (val, st) to replace the call."""
        return None

    def on_return(self, interp, st, fn, val, node):
        pass

    def on_ext(self, interp, st, name, args, kwargs, node):
        return None

    def on_open(self, interp, st, ref, args, kwargs, node):
        pass

    def on_exc(self, interp, st, info):
        pass

    def on_stmt(self, interp, st, node):
        pass

    def on_yield(self, interp, st, val, node):
        pass

    def on_getattr_unknown(self, interp, st, val, name, node):
        pass


class Package(object):
    """Parsed sources of the analysed package."""

    def __init__(self, root, pkg="pyembroidery"):
        self.root = root
        self.pkg = pkg
        self.trees = {}
        self.paths = {}
        d = os.path.join(root, pkg)
        for fn in sorted(os.listdir(d)):
            if fn.endswith(".py"):
                name = pkg if fn == "__init__.py" else pkg + "." + fn[:-3]
                p = os.path.join(d, fn)
                with open(p, encoding="utf8") as f:
                    src = f.read()
                self.trees[name] = ast.parse(src, p)
                self.paths[name] = p


def local_names(fnode):
    """Names bound in the function's own scope."""
    out = set()
    glob = set()
    args = fnode.args
    for a in list(getattr(args, "posonlyargs", [])) + args.args + args.kwonlyargs:
        out.add(a.arg)
    if args.vararg:
        out.add(args.vararg.arg)
    if args.kwarg:
        out.add(args.kwarg.arg)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    if not isinstance(fnode, ast.Lambda):
        for s in fnode.body:
            walk(s)
    return frozenset(out - glob)


def has_yield(fnode):
    def walk(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        return any(walk(c) for c in ast.iter_child_nodes(n))
    if isinstance(fnode, ast.Lambda):
        return False
    return any(walk(s) for s in fnode.body)


class Interp(object):
    def __init__(self, pkg, monitor=None, merge="lossless", budget=4000000, unroll=80, head_cap=48,
                 part_cap=160):
        self.pkg = pkg
        self.mon = monitor or Monitor()
        self.merge = merge
        self.budget = budget
        self.steps = 0
        self.unroll = unroll
        self.head_cap = head_cap
        self.forget = False     # merges drop relations between unknowns
        self.part_cap = part_cap
        self.thresholds = []
        self.part_key = None
        self.partition_ints = frozenset()
        self.choice_ints = frozenset()   # constants of locals kept apart as a set of values
        self.exc = [[]]            # exception collectors
        self.collectors = [self.exc[0]]
        self.handlers = []         # dynamically active except clauses: sets of names
        self.yields = []           # yield handlers
        self.stack = []            # call stack [(qual, call node, mod)]
        self.dry = 0
        self.modframes = {}
        self.modstate = {}
        self.mod = None
        self.base = State()
        self.classes = {}
        self.phi_head = {}
        self.stats = {"calls": 0, "loops": 0, "stmts": 0, "functions": set(), "merges": 0}
        self.unsupported = []
        self.models = None
        self.no_inline = {}
        self.stream_merge = None
        from . import models
        self.models = models.Models(self)

    # ------------------------------------------------------------ modules
    def load_all(self):
        for m in sorted(self.pkg.trees):
            self.load_module(m)

    def load_module(self, name):
        if name in self.modframes:
            return
        if name not in self.pkg.trees:
            raise AnalysisError("module %s not found" % name)
        if name != self.pkg.pkg and self.pkg.pkg not in self.modframes:
            self.load_module(self.pkg.pkg)
            if name in self.modframes:
                return
        st = self.base
        fr = FrameO({"__name__": name, "__file__": name}, None, name, "<module>")
        r = st.alloc(fr)
        self.modframes[name] = r.oid
        save = (st.frames, self.mod)
        st.frames = st.frames + (r.oid,)
        self.mod = name
        outs = self.block(self.pkg.trees[name].body, st)
        self.mod = save[1]
        if not outs:
            raise AnalysisError("module %s does not load: %r" % (name, [e[1] for e in self.exc[-1]]))
        st2 = outs[0][1]
        # module execution must stay a single state: adopt it in place
        if st2 is not st:
            st.heap, st.facts, st.ghost, st.truth = st2.heap, st2.facts, st2.ghost, st2.truth
        st.frames = save[0]
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            if par in self.modframes:
                o = st.heap[self.modframes[par]]
                v = dict(o.vars)
                v.setdefault(leaf, ModV(name))
                st.heap[self.modframes[par]] = FrameO(v, o.parent, o.mod, o.fn)

    def modvar(self, mod, name, st=None):
        st = st or self.base
        return st.heap[self.modframes[mod]].vars.get(name)

    def resolve(self, dotted):
        """'pyembroidery.DstWriter.write' or '...EmbPattern.EmbPattern.copy'"""
        parts = dotted.split(".")
        for n in range(len(parts), 0, -1):
            m = ".".join(parts[:n])
            if m in self.modframes:
                v = ModV(m)
                for p in parts[n:]:
                    if isinstance(v, ModV):
                        v = self.modvar(v.name, p)
                    elif isinstance(v, ClsV):
                        v = v.lookup(p)
                        if isinstance(v, DescV):
                            v = v.fn
                    else:
                        v = None
                    if v is None:
                        return None
                return v
        return None

    def constants(self, mod):
        """Names bound at the top level of a module -> values."""
        f = self.modframes.get(mod)
        return dict(self.base.heap[f].vars) if f is not None else {}

    # ---------------------------------------------------------- utilities
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("more than %d evaluation steps" % self.budget)

    def raise_(self, st, name, node, val=None, definite=True, msg=None):
        info = ExcInfo(name, val, node, self.mod, tuple(self.stack), definite, msg)
        self.mon.on_exc(self, st, info)
        self.exc[-1].append((st, info))
        return []

    def catchable(self, name):
        for hs in self.handlers:
            for h in hs:
                if exc_isa(name, h):
                    return True
        return False

    def maybe_raise(self, st, name, node, msg=None):
        """A potential exception: fork only when some handler would catch it."""
        if self.catchable(name):
            self.raise_(st.fork(), name, node, definite=False, msg=msg)

    def fork_bool(self, st):
        st.trace = True
        return [(True, st.fork()), (False, st)]

    # ------------------------------------------------------------ truth
    def truth(self, v, st):
        """-> list of (bool, state)"""
        if isinstance(v, MU):
            v = v.v
        if is_const(v) or isinstance(v, Fraction):
            return [(bool(v), st)]
        if isinstance(v, Lin):
            r = self.compare_num("!=", v, 0, st)
            return r
        if isinstance(v, Tup):
            return [(len(v.items) > 0, st)]
        if isinstance(v, Ref):
            o = st[v]
            if isinstance(o, ListO):
                if o.pre or o.suf:
                    return [(True, st)]
                if o.star is None:
                    return [(False, st)]
                return self.compare_num(">", o.slen, 0, st)
            if isinstance(o, DictO):
                if o.items:
                    return [(True, st)]
                if o.star is None:
                    return [(False, st)]
                return self.fork_bool(st)
            if isinstance(o, InstO) and isinstance(o.cls, ClsV):
                for m in ("__bool__", "__len__"):
                    f = o.cls.lookup(m)
                    if f is not None:
                        out = []
                        for r, s in self.call(BoundV(f, v), [], {}, st, None):
                            out += self.truth(r, s)
                        return out
                return [(True, st)]
            return [(True, st)]
        if isinstance(v, Choice):
            out = []
            bs = {}
            for x in v.vals:
                bs.setdefault(ckey(x), x)
            if all(isinstance(x, bool) for x in v.vals):
                if len(v.vals) == 2:
                    return self.fork_bool(st)
                return [(v.vals[0], st)]
            for i, x in enumerate(v.vals):
                out += self.truth(x, st.fork())
            t = [s for b, s in out if b]
            f = [s for b, s in out if not b]
            res = []
            if t:
                res.append((True, t[0] if len(t) == 1 else st.fork()))
            if f:
                res.append((False, f[0] if len(f) == 1 else st.fork()))
            return res
        if isinstance(v, SStr):
            return self.compare_num(">", v.clen(), 0, st)
        if isinstance(v, BytesV):
            return self.compare_num(">", v.blen(), 0, st)
        if isinstance(v, RangeV):
            return self.compare_num(">", dom.sub(v.b, v.a), 0, st)
        if isinstance(v, Unk):
            if v in st.truth:
                return [(st.truth[v], st)]
            a, b = st.fork(), st
            a.trace = b.trace = True
            a.truth[v] = True
            b.truth[v] = False
            return [(True, a), (False, b)]
        return [(True, st)]

    # ------------------------------------------------- numeric comparison
    def assume(self, st, lin, lo, hi):
        """in place; returns False when infeasible"""
        try:
            if isinstance(lin, Lin):
                st.facts.assume(lin, lo, hi)
            else:
                n = dom._num(lin)
                if n is not None and not (lo <= n <= hi):
                    return False
            return True
        except Infeasible:
            return False

    def compare_num(self, op, a, b, st, depth=0):
        a = st.facts.simplify(a)
        b = st.facts.simplify(b)
        if not isinstance(a, Lin) and not isinstance(b, Lin):
            r = {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
                 "==": lambda: a == b, "!=": lambda: a != b}[op]()
            return [(bool(r), st)]
        for x, y, o in ((a, b, op), (b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op))):
            if isinstance(x, float) and (x == INF or x == -INF):
                # x inf, y a finite symbolic number
                r = {"<": x < 0, "<=": x < 0, ">": x > 0, ">=": x > 0, "==": False, "!=": True}[o]
                return [(r, st)]
            if isinstance(x, float) and x != x:
                return [(op == "!=", st)]
        d = dom.sub(a, b)
        if d is None:
            return self.fork_bool(st)
        if not isinstance(d, Lin):
            return self.compare_num(op, d, 0, st)
        lo, hi = st.facts.bounds(d)
        isint = dom.is_int_lin(d)
        strict = 1 if isint else 0
        if op in ("<", ">="):
            if hi < 0:
                return [(op == "<", st)]
            if lo >= 0:
                return [(op != "<", st)]
        elif op in (">", "<="):
            if lo > 0:
                return [(op == ">", st)]
            if hi <= 0:
                return [(op != ">", st)]
        else:
            if lo > 0 or hi < 0:
                return [(op != "==", st)]
            if lo == hi == 0:
                return [(op == "==", st)]
        # split on boolean atoms first
        bools = [i for i in st.facts.bools_in(d)]
        defb = [i for i in bools if ATOMS[i].defn and ATOMS[i].defn[0] == "neg"] if len(d.t) > 1 else None
        if defb and depth < 2:
            out = []
            i = max(defb)
            for v in (0, 1):
                s = st.fork()
                if not self.assume(s, Lin(0, ((i, 1),)), v, v):
                    continue
                out += self.compare_num(op, a, b, s, depth + 1)
            if out:
                t = [s for r, s in out if r]
                f = [s for r, s in out if not r]
                if not t:
                    return [(False, st)]
                if not f:
                    return [(True, st)]
                out = []
                for r, ss in ((True, t), (False, f)):
                    if len(ss) > 1:
                        ss = [x for _, x in self.merge_states([(None, x) for x in ss])]
                        if len(ss) == 1:
                            self.assume_cmp(ss[0], d, op, r, strict)
                    out += [(r, x) for x in ss]
                return out
        out = []
        t, f = st.fork(), st.fork()
        if any(ATOMS[i].name == "phi" for i in dom.deps(d, set())):
            t.trace = f.trace = True
        ok_t = ok_f = True
        if op == "<":
            ok_t = self.assume(t, d, -INF, -strict)
            ok_f = self.assume(f, d, 0, INF)
        elif op == ">=":
            ok_t = self.assume(t, d, 0, INF)
            ok_f = self.assume(f, d, -INF, -strict)
        elif op == ">":
            ok_t = self.assume(t, d, strict, INF)
            ok_f = self.assume(f, d, -INF, 0)
        elif op == "<=":
            ok_t = self.assume(t, d, -INF, 0)
            ok_f = self.assume(f, d, strict, INF)
        else:
            e, n = (t, f) if op == "==" else (f, t)
            ok_e = self.assume(e, d, 0, 0)
            ok_n = True
            if lo == 0 and isint:
                ok_n = self.assume(n, d, 1, INF)
            elif hi == 0 and isint:
                ok_n = self.assume(n, d, -INF, -1)
            else:
                kn = ("ne", d)
                kn2 = ("ne", dom.neg(d))
                if kn in st.truth or kn2 in st.truth:
                    ok_e = False
                n.truth[kn] = True
            ok_t, ok_f = (ok_e, ok_n) if op == "==" else (ok_n, ok_e)
        if ok_t:
            out.append((True, t))
        if ok_f:
            out.append((False, f))
        return out

    def assume_cmp(self, st, d, op, r, strict):
        """Record d <op> 0 (or its negation) as a fact."""
        if not r:
            op = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[op]
        if op == "<":
            self.assume(st, d, -INF, -strict)
        elif op == "<=":
            self.assume(st, d, -INF, 0)
        elif op == ">":
            self.assume(st, d, strict, INF)
        elif op == ">=":
            self.assume(st, d, 0, INF)
        elif op == "==":
            self.assume(st, d, 0, 0)

    def concretize(self, v, st):
        """Split on boolean atoms to make a number concrete when possible."""
        v = st.facts.simplify(v)
        if not isinstance(v, Lin):
            return [(v, st)]
        lo, hi = st.facts.bounds(v)
        if lo == hi:
            return [(dom.conc(lo), st)]
        bs = st.facts.bools_in(v)
        if bs and len(bs) == len(v.t) and len(bs) <= 4:
            out = []
            for x in (0, 1):
                s = st.fork()
                if self.assume(s, Lin(0, ((bs[0], 1),)), x, x):
                    out += self.concretize(v, s)
            return out
        if dom.is_int_lin(v) and hi - lo <= 3:
            out = []
            for x in range(int(lo), int(hi) + 1):
                s = st.fork()
                if self.assume(s, v, x, x):
                    out.append((x, s))
            return out
        return [(v, st)]

    # ----------------------------------------------------------- equality
    def eq(self, a, b, st):
        """-> list of (bool, state) for a == b"""
        if isinstance(a, MU):
            a = a.v
        if isinstance(b, MU):
            b = b.v
        if isinstance(a, Choice):
            out = []
            for v in a.vals:
                out += self.eq(v, b, st.fork())
            return self.bool_merge(out, st)
        if isinstance(b, Choice):
            out = []
            for v in b.vals:
                out += self.eq(a, v, st.fork())
            return self.bool_merge(out, st)
        if isinstance(a, Unk) or isinstance(b, Unk):
            if isinstance(a, Unk) and isinstance(b, Unk) and a == b:
                return [(True, st)]
            k = Unk(("eq", a, b) if repr(a) <= repr(b) else ("eq", b, a))
            return self.truth(k, st)
        if is_const(a) and is_const(b):
            return [(a == b, st)]
        if dom.isnum(a) or dom.isnum(b) or isinstance(a, bool) or isinstance(b, bool):
            na = dom.isnum(a) or isinstance(a, bool)
            nb = dom.isnum(b) or isinstance(b, bool)
            if na and nb:
                return self.compare_num("==", a, b, st)
            if isinstance(a, Ref) and isinstance(st[a], InstO) or isinstance(b, Ref) and isinstance(st[b], InstO):
                return self.eq_inst(a, b, st)
            return [(False, st)]
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return [(False, st)]
            return self.eq_seq(a.items, b.items, st)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid == b.oid and not isinstance(st[a], InstO):
                return [(True, st)]
            x, y = st[a], st[b]
            if isinstance(x, InstO) or isinstance(y, InstO):
                return self.eq_inst(a, b, st)
            if isinstance(x, ListO) and isinstance(y, ListO):
                if x.star is None and y.star is None:
                    if len(x.pre) != len(y.pre):
                        return [(False, st)]
                    if len(x.pre) <= 40:
                        return self.eq_seq(x.pre, y.pre, st)
                return self.fork_bool(st)
            if isinstance(x, DictO) and isinstance(y, DictO):
                return self.fork_bool(st)
            return [(False, st)] if type(x) is not type(y) else self.fork_bool(st)
        if isinstance(a, Ref) and isinstance(st[a], InstO) or isinstance(b, Ref) and isinstance(st[b], InstO):
            return self.eq_inst(a, b, st)
        if isinstance(a, (SStr, BytesV)) or isinstance(b, (SStr, BytesV)):
            if a == b:
                return [(True, st)]
            if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
                return self.eq_str(a, b, st)
            if isinstance(a, (BytesV, bytes)) and isinstance(b, (BytesV, bytes)):
                return self.eq_bytes(a, b, st)
            return [(False, st)]
        if isinstance(a, (FnV, ClsV, ModV, BuiltinV, ExtV, BoundV)) and type(a) is type(b):
            return [(a == b, st)]
        if a is None or b is None:
            return [(False, st)]
        if type(a) is not type(b):
            return [(False, st)]
        return self.fork_bool(st)

    def eq_str(self, a, b, st):
        la = len(a) if isinstance(a, str) else a.clen()
        lb = len(b) if isinstance(b, str) else b.clen()
        k = Unk(("eqs", a, b) if repr(a) <= repr(b) else ("eqs", b, a))
        out = []
        for r, s in self.truth(k, st):
            if r:
                d = dom.sub(la, lb)
                if isinstance(d, Lin):
                    if not self.assume(s, d, 0, 0):
                        continue
                elif d != 0:
                    continue
            out.append((r, s))
        return out

    def eq_bytes(self, a, b, st):
        ia = tuple(a) if isinstance(a, bytes) else a.items()
        ib = tuple(b) if isinstance(b, bytes) else b.items()
        if ia is not None and ib is not None:
            if len(ia) != len(ib):
                return [(False, st)]
            return self.eq_seq(ia, ib, st)
        return self.truth(Unk(("eqb", a, b)), st)

    def eq_inst(self, a, b, st):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(st[x], InstO):
                c = st[x].cls
                f = c.lookup("__eq__") if isinstance(c, ClsV) else None
                if f is not None:
                    out = []
                    for r, s in self.call(BoundV(f, x), [y], {}, st, None):
                        out += self.truth(r, s)
                    return out
                if st[x].open:
                    return self.fork_bool(st)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return [(a.oid == b.oid, st)]
        return [(False, st)]

    def eq_seq(self, xs, ys, st):
        out = []
        cur = [st]
        for x, y in zip(xs, ys):
            nxt = []
            for s in cur:
                for r, s2 in self.eq(x, y, s):
                    if r:
                        nxt.append(s2)
                    else:
                        out.append((False, s2))
            cur = nxt
            if not cur:
                break
        out += [(True, s) for s in cur]
        return self.bool_merge(out, st) if len(out) > 8 else out

    def bool_merge(self, out, st):
        res = []
        for b in (True, False):
            ss = [s for r, s in out if r is b]
            if not ss:
                continue
            if len(ss) == 1:
                res.append((b, ss[0]))
            else:
                m = self.merge_states([(None, s) for s in ss])
                res += [(b, s) for _, s in m]
        return res

    # -------------------------------------------------------------- merge
    def merge_stream_data(self, m, x, y):
        if self.stream_merge is not None:
            return self.stream_merge(m, x, y)
        if x.data == y.data:
            return x.data
        if m.mode == "lossless":
            raise Reject()
        m.changed = True
        return None

    def try_merge(self, A, B, va=None, vb=None, mode="lossless", mark=None, widen=False):
        try:
            m = Merger(self, A, B, mode, mark, widen)
            st, v = m.run(va, vb)
            self.stats["merges"] += 1
            return st, v
        except (Reject, KeyError):
            return None

    def merge_states(self, results):
        """Merge (val, state) results where this loses nothing (or, in join
        mode, always)."""
        if len(results) <= 1:
            return results
        if self.part_key is not None:
            keyed = [r for r in results if self.part_key(r[1]) is not None]
            if keyed:
                free = [r for r in results if self.part_key(r[1]) is None]
                return self.merge_keyed(keyed) + (self.merge_states(free) if free else [])
        out = []
        for v, s in results:
            for i, (v2, s2) in enumerate(out):
                r = self.try_merge(s2, s, v2, v, "join" if self.merge == "join" else "lossless")
                if r is not None:
                    out[i] = (r[1], r[0])
                    break
            else:
                out.append((v, s))
        if len(out) > 1 and self.merge != "join":
            # a second sweep: merged states may now merge again
            n = len(out)
            again = []
            for v, s in out:
                for i, (v2, s2) in enumerate(again):
                    r = self.try_merge(s2, s, v2, v, "lossless")
                    if r is not None:
                        again[i] = (r[1], r[0])
                        break
                else:
                    again.append((v, s))
            out = again
        if len(out) > self.part_cap:
            joined = []
            for v, s in out:
                for i, (v2, s2) in enumerate(joined):
                    r = self.try_merge(s2, s, v2, v, "join")
                    if r is not None:
                        joined[i] = (r[1], r[0])
                        break
                else:
                    joined.append((v, s))
            out = joined
        return out

    def merge_keyed(self, results):
        """Merge every two states with the same partition key."""
        out = []
        for v, s in results:
            k = self.part_key(s)
            for i, (v2, s2, k2) in enumerate(out):
                if k != k2:
                    continue
                r = self.try_merge(s2, s, v2, v, "lossless") or self.try_merge(s2, s, v2, v, "join")
                if r is not None:
                    out[i] = (r[1], r[0], k)
                    break
            else:
                out.append((v, s, k))
        return [(v, s) for v, s, _ in out]

    def prune(self, st, live, cap=frozenset()):
        """Drop dead locals of the top frame."""
        oid = st.frames[-1]
        f = st.heap[oid]
        dead = [k for k in f.vars if k not in live and k not in cap]
        if dead:
            v = dict((k, x) for k, x in f.vars.items() if k in live or k in cap)
            st.heap[oid] = FrameO(v, f.parent, f.mod, f.fn)

    # ----------------------------------------------------------- fixpoint
    def fixpoint(self, st0, step, live=None, cap=frozenset()):
        """step(state) -> (back states, exit states).  Returns exit states of
        the stable heads."""
        self.stats["loops"] += 1
        head = newid()
        mark = head
        heads = []
        work = [st0]
        snaps = [(c, len(c)) for c in self.collectors]
        self.dry += 1
        try:
            rounds = 0
            while work:
                s = work.pop(0)
                if live is not None:
                    self.prune(s, live, cap)
                summarize(s, mark)
                self.gc_facts(s)
                rounds += 1
                if rounds > 20000:
                    raise Budget("loop does not stabilise")
                target = None
                cands = list(heads)
                status = None
                key = self.part_key(s) if self.part_key is not None else None
                if key is not None:
                    cands = [h for h in heads if h["key"] == key]
                for mode in ("affine", "join") if key is not None else ("affine",):
                    for h in cands:
                        r = self.head_join(h, s, head, mark, mode)
                        if r is None:
                            continue
                        target, status = h, r
                        break
                    if target is not None:
                        break
                if target is None and len(heads) >= self.head_cap:
                    for h in cands:
                        r = self.head_join(h, s, head, mark, "join")
                        if r is None:
                            continue
                        target, status = h, r
                        break
                if target is None:
                    target = {"state": s, "n": 0, "key": key}
                    heads.append(target)
                elif status == "same":
                    continue
                else:
                    self.gc_facts(status)
                    target["state"] = status
                    target["n"] += 1
                    if target["n"] > 80:
                        raise Budget("loop head does not stabilise")
                backs, _ = step(target["state"].fork())
                for c, n in snaps:
                    del c[n:]
                work.extend(backs)
        finally:
            self.dry -= 1
            for c, n in snaps:
                del c[n:]
        # drop heads subsumed by others
        final = []
        for h in heads:
            if any(g is not h and g in final and self.head_join(g, h["state"], head, mark, "affine") == "same"
                   for g in final):
                continue
            final.append(h)
        exits = []
        for h in final:
            _, e = step(h["state"].fork())
            exits.extend(e)
        return exits

    def head_join(self, h, s, head, mark, mode):
        A = h["state"]
        m = Merger(self, A, s, mode, mark, widen=h["n"] >= 2)
        m.head = head
        try:
            st, _ = m.run()
        except (Reject, KeyError):
            return None
        for p in m.pivots:
            self.phi_head[p[3]] = head
        if not m.pivots and not m.changed and not m.bounds_lost:
            # nothing differs except possibly facts
            if self.facts_weaker(A.facts, st.facts):
                return "same"
            return st
        if m.no_loss() and all(self.phi_head.get(a) == head for a in m.old_phis):
            if not self.mentions(st, m.old_phis) and self.facts_kept(A, st, m):
                return "same"
        return st

    def facts_weaker(self, fa, fn):
        """does A already have no more facts than N?"""
        for k, (l, h) in fa.d.items():
            a, b = fn.bounds(dom.form_lin(k))
            if a < l or b > h:
                return False
        return True

    def facts_kept(self, A, N, m):
        ren = {}
        for i, a, b, pid, ka, kb in m.pivots:
            ren[a.t[0][0]] = pid
        for k, (l, h) in A.facts.d.items():
            if not any(at in ren for at, _ in k):
                # facts on unrelated atoms: must hold in N
                a, b = N.facts.bounds(dom.form_lin(k))
            else:
                f = 0
                for at, c in k:
                    f = dom.add(f, Lin(0, ((ren.get(at, at), c),)))
                a, b = N.facts.bounds(f)
            if a < l or b > h:
                return False
        return True

    def mentions(self, st, atoms):
        seen = set()
        todo = list(st.frames)
        acc = set()
        for v in st.ghost.values():
            value_atoms(v, acc)
            if isinstance(v, Ref):
                todo.append(v.oid)
        while todo:
            o = todo.pop()
            if o in seen or o not in st.heap:
                continue
            seen.add(o)
            for v in obj_values(st.heap[o]):
                self._refs(v, todo)
                value_atoms(v, acc)
        return bool(acc & atoms)

    def gc_facts(self, st):
        """Forget facts about unknowns no value refers to any more."""
        if not st.facts.d:
            return
        live = self.live_atoms(st)
        dead = [k for k in st.facts.d if not all(j in live for j, _ in k)]
        if dead:
            for k in dead:
                del st.facts.d[k]
            st.facts.cache = {}

    def live_atoms(self, st):
        acc = set()
        seen = set()
        todo = list(st.frames)
        for v in st.ghost.values():
            value_atoms(v, acc)
            self._refs(v, todo)
        while todo:
            o = todo.pop()
            if o in seen or o not in st.heap:
                continue
            seen.add(o)
            for v in obj_values(st.heap[o]):
                self._refs(v, todo)
                value_atoms(v, acc)
        live = set()
        work = list(acc)
        while work:
            i = work.pop()
            if i in live:
                continue
            live.add(i)
            a = ATOMS[i]
            if a.defn is not None:
                if a.defn[0] == "mono":
                    work.extend(a.defn[1])
                else:
                    for x in a.defn[1:]:
                        dom.direct_atoms(x, work)
            if a.when is not None:
                for side in a.when:
                    for k, l, h in side:
                        work.extend(j for j, _ in k)
        return live

    def _refs(self, v, todo):
        if isinstance(v, Ref):
            todo.append(v.oid)
        elif isinstance(v, Tup):
            for x in v.items:
                self._refs(x, todo)
        elif isinstance(v, MU):
            self._refs(v.v, todo)
        elif isinstance(v, Choice):
            for x in v.vals:
                self._refs(x, todo)
        elif isinstance(v, BoundV):
            self._refs(v.self, todo)
        elif isinstance(v, MethV):
            self._refs(v.obj, todo)
        elif isinstance(v, GenExpV):
            for x in v.args:
                self._refs(x, todo)
            if v.env is not None:
                todo.append(v.env)
        elif isinstance(v, GenV):
            todo.append(v.frame)
        elif isinstance(v, FnV) and v.env is not None:
            todo.append(v.env)

    # --------------------------------------------------------- statements
    def block(self, stmts, st):
        """-> outcomes"""
        cur = [st]
        outs = []
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.stmt(s, c):
                    if o[0] == "next":
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            if len(nxt) > 1 and isinstance(s, (ast.If, ast.Try, ast.For, ast.While, ast.Expr, ast.Assign,
                                               ast.AugAssign, ast.With)):
                fn = self.cur_fn()
                if fn is not None and isinstance(s, (ast.If, ast.Try, ast.For, ast.While)):
                    lv = liveness(fn)
                    la = lv.after.get(id(s))
                    if la is not None:
                        for c in nxt:
                            self.prune(c, la, lv.captured)
                nxt = [x for _, x in self.merge_states([(None, x) for x in nxt])]
            cur = nxt
            if not cur:
                break
        outs += [("next", c, None) for c in cur]
        return outs

    def cur_fn(self):
        return self.stack[-1][3] if self.stack else None

    def stmt(self, s, st):
        self.tick()
        self.stats["stmts"] += 1
        self.mon.on_stmt(self, st, s)
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.unsupported.append((self.mod, type(s).__name__, s.lineno))
            return [("next", st, None)]
        return m(s, st)

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [("next", st, None)]
        return [("next", x, None) for _, x in self.ev(s.value, st)]

    def st_Pass(self, s, st):
        return [("next", st, None)]

    def st_Global(self, s, st):
        return [("next", st, None)]

    st_Nonlocal = st_Global

    def st_Assign(self, s, st):
        outs = []
        for v, x in self.ev(s.value, st):
            cur = [x]
            for t in s.targets:
                nxt = []
                for c in cur:
                    nxt += self.assign(t, v, c)
                cur = nxt
            outs += [("next", c, None) for c in cur]
        return outs

    def st_AnnAssign(self, s, st):
        if s.value is None:
            return [("next", st, None)]
        outs = []
        for v, x in self.ev(s.value, st):
            outs += [("next", c, None) for c in self.assign(s.target, v, x)]
        return outs

    def st_AugAssign(self, s, st):
        outs = []
        t = s.target
        if isinstance(t, ast.Name):
            for v, x in self.ev_name(t.id, t, st):
                for w, y in self.ev(s.value, x):
                    for r, z in self.binop(s.op, v, w, y, s, aug=True):
                        outs += [("next", c, None) for c in self.assign(t, r, z)]
        elif isinstance(t, ast.Attribute):
            for b, x in self.ev(t.value, st):
                for v, y in self.getattr(b, t.attr, x, t):
                    for w, z in self.ev(s.value, y):
                        for r, q in self.binop(s.op, v, w, z, s, aug=True):
                            outs += [("next", c, None) for c in self.setattr(b, t.attr, r, q, t)]
        elif isinstance(t, ast.Subscript):
            for b, x in self.ev(t.value, st):
                for i, y in self.ev(t.slice, x):
                    for v, z in self.models.getitem(b, i, y, t):
                        for w, q in self.ev(s.value, z):
                            for r, p in self.binop(s.op, v, w, q, s, aug=True):
                                outs += [("next", c, None) for c in self.models.setitem(b, i, r, p, t)]
        return outs

    def assign(self, t, v, st):
        """-> list of states"""
        if isinstance(t, ast.Name):
            oid = st.frames[-1]
            f = st.heap[oid]
            if f.fn is not None and self.is_global_decl(t.id):
                oid = self.modframes[f.mod]
                f = st.heap[oid]
            vs = dict(f.vars)
            vs[t.id] = v
            st.heap[oid] = FrameO(vs, f.parent, f.mod, f.fn)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st)
        if isinstance(t, ast.Attribute):
            out = []
            for b, x in self.ev(t.value, st):
                out += self.setattr(b, t.attr, v, x, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for b, x in self.ev(t.value, st):
                for i, y in self.ev(t.slice, x):
                    out += self.models.setitem(b, i, v, y, t)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        self.unsupported.append((self.mod, "assign " + type(t).__name__, t.lineno))
        return [st]

    def is_global_decl(self, name):
        fn = self.cur_fn()
        if fn is None or isinstance(fn, ast.Lambda):
            return False
        g = getattr(fn, "_vglobals", None)
        if g is None:
            g = set()
            for n in ast.walk(fn):
                if isinstance(n, ast.Global):
                    g.update(n.names)
            fn._vglobals = g
        return name in g

    def unpack(self, t, v, st):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        out = []
        for items, s in self.models.seq_items(v, st, None if star else n, t):
            if items is None:
                lab = v.labels if isinstance(v, Unk) else frozenset()
                items = [Unk(("unpack", v, i), lab) if isinstance(v, Unk) else unk("unpack", lab) for i in range(n)]
            elif star:
                k = star[0]
                tail = n - k - 1
                mid = s.alloc(ListO("list", items[k:len(items) - tail]))
                items = list(items[:k]) + [mid] + list(items[len(items) - tail:] if tail else [])
            elif len(items) != n:
                self.raise_(s, "ValueError", t, msg="unpack %d values into %d targets" % (len(items), n))
                continue
            cur = [s]
            for e, x in zip(t.elts, items):
                nxt = []
                for c in cur:
                    nxt += self.assign(e, x, c)
                cur = nxt
            out += cur
        return out

    def st_Delete(self, s, st):
        cur = [st]
        for t in s.targets:
            nxt = []
            for c in cur:
                if isinstance(t, ast.Subscript):
                    for b, x in self.ev(t.value, c):
                        for i, y in self.ev(t.slice, x):
                            nxt += self.models.delitem(b, i, y, t)
                elif isinstance(t, ast.Name):
                    oid = c.frames[-1]
                    f = c.heap[oid]
                    vs = dict(f.vars)
                    vs.pop(t.id, None)
                    c.heap[oid] = FrameO(vs, f.parent, f.mod, f.fn)
                    nxt.append(c)
                elif isinstance(t, ast.Attribute):
                    for b, x in self.ev(t.value, c):
                        if isinstance(b, Ref) and isinstance(x[b], InstO):
                            a = dict(x[b].attrs)
                            a.pop(t.attr, None)
                            self.mon.on_mutate(self, x, b.oid, "delattr", t)
                            x[b] = x[b].rep(attrs=a)
                        nxt.append(x)
                else:
                    nxt.append(c)
            cur = nxt
        return [("next", c, None) for c in cur]

    def st_Return(self, s, st):
        if s.value is None:
            return [("return", st, None)]
        return [("return", x, v) for v, x in self.ev(s.value, st)]

    def st_Break(self, s, st):
        return [("break", st, s)]

    def st_Continue(self, s, st):
        return [("continue", st, None)]

    def st_If(self, s, st):
        outs = []
        for b, x in self.cond(s.test, st):
            outs += self.block(s.body if b else s.orelse, x)
        return outs

    def cond(self, test, st):
        """Evaluate a test to booleans."""
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            cur = [st]
            out = []
            for i, e in enumerate(test.values):
                nxt = []
                for c in cur:
                    for b, x in self.cond(e, c):
                        if b is isand:
                            nxt.append(x)
                        else:
                            out.append((b, x))
                cur = nxt
            out += [(isand, c) for c in cur]
            if len(out) > 2:
                out = self.bool_merge(out, st)
            return out
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(not b, x) for b, x in self.cond(test.operand, st)]
        out = []
        split = self.split_choices(test, st)
        for y in split:
            for v, x in self.ev(test, y):
                out += self.truth(v, x)
        if len(split) > 1 and len(out) > 2:
            out = self.bool_merge(out, st)
        return out

    def split_choices(self, test, st):
        """One state per alternative of the variables a test asks about, so
        that the test narrows them."""
        if isinstance(test, ast.Name):
            ns = [test]
        elif isinstance(test, ast.Compare):
            ns = [n for n in [test.left] + test.comparators if isinstance(n, ast.Name)]
        else:
            return [st]
        cur = [st]
        for nm in sorted(set(n.id for n in ns)):
            v = st.heap[st.frames[-1]].vars.get(nm)
            if isinstance(v, MU):
                continue
            if isinstance(v, Choice) and len(cur) * len(v.vals) <= 6:
                nxt = []
                for c in cur:
                    for x in v.vals:
                        y = c.fork()
                        y.setvar(nm, x)
                        nxt.append(y)
                cur = nxt
        return cur

    def st_Assert(self, s, st):
        outs = []
        for b, x in self.cond(s.test, st):
            if b:
                outs.append(("next", x, None))
            else:
                self.raise_(x, "AssertionError", s)
        return outs

    def st_Raise(self, s, st):
        if s.exc is None:
            cur = st.ghost.get("__exc__")
            return self.raise_(st, "Exception", s) or []
        for v, x in self.ev(s.exc, st):
            name = "Exception"
            if isinstance(v, BuiltinV):
                name = v.name
            elif isinstance(v, Ref) and isinstance(x[v], InstO):
                c = x[v].cls
                name = c.name if isinstance(c, (BuiltinV, ClsV)) else str(c)
            self.raise_(x, name, s, v, msg="raise")
        return []

    def st_While(self, s, st):
        outs = []
        keys = set(st.ghost)
        brk = []

        def step(x):
            backs, exits = [], []
            if not self.dry:
                self.mon.on_head(self, x, s)
            for b, y in self.cond(s.test, x):
                if not b:
                    exits.append(y)
                    continue
                for o in self.block(s.body, y):
                    if o[0] in ("next", "continue"):
                        backs.append(o[1])
                    elif o[0] == "break":
                        brk.append(o[1])
                    else:
                        outs.append(o)
            if len(backs) > 1:
                backs = self.loop_merge(s, backs)
            return backs, exits

        self.collectors.append(brk)
        self.collectors.append(outs)
        lv = self.live_head(s)
        exits = self.fixpoint(st, step, lv[0], lv[1])
        self.collectors.pop()
        self.collectors.pop()
        for e in exits:
            if s.orelse:
                outs += self.block(s.orelse, e)
            else:
                outs.append(("next", e, None))
        self.unghost(brk, keys)
        self.unghost([o[1] for o in outs], keys)
        outs += [("next", b, None) for b in brk]
        return outs

    def unghost(self, states, keys):
        """Forget the iterators of loops that were left early."""
        for x in states:
            for k in [k for k in x.ghost if k not in keys and isinstance(k, tuple) and k[0] in ("it", "compacc")]:
                del x.ghost[k]

    def loop_merge(self, s, backs):
        lv = self.live_head(s)
        if lv[0] is not None:
            for b in backs:
                self.prune(b, lv[0], lv[1])
        return [x for _, x in self.merge_states([(None, x) for x in backs])]

    def live_head(self, s):
        fn = self.cur_fn()
        if fn is None:
            return None, frozenset()
        lv = liveness(fn)
        h = lv.head.get(id(s))
        return h, lv.captured

    def st_For(self, s, st):
        outs = []
        keys = set(st.ghost)
        brk = []
        self.collectors.append(brk)
        self.collectors.append(outs)

        def body(v, x):
            cont = []
            for y in self.assign(s.target, v, x):
                for o in self.block(s.body, y):
                    if o[0] in ("next", "continue"):
                        cont.append(o[1])
                    elif o[0] == "break":
                        brk.append(o[1])
                    else:
                        outs.append(o)
            if len(cont) > 1:
                cont = self.loop_merge(s, cont)
            return cont

        ends = []
        lv = self.live_head(s)
        for it, x in self.ev(s.iter, st):
            ends += self.models.iterate(it, x, body, s, lv)
        self.collectors.pop()
        self.collectors.pop()
        for e in ends:
            if s.orelse:
                outs += self.block(s.orelse, e)
            else:
                outs.append(("next", e, None))
        self.unghost(brk, keys)
        self.unghost([o[1] for o in outs], keys)
        outs += [("next", b, None) for b in brk]
        return outs

    def st_Try(self, s, st):
        coll = []
        names = set()
        for h in s.handlers:
            names |= self.handler_names(h, st)
        self.exc.append(coll)
        self.collectors.append(coll)
        self.handlers.append(names)
        frames = st.frames
        keys = set(st.ghost)
        outs = self.block(s.body, st)
        self.handlers.pop()
        self.collectors.pop()
        self.exc.pop()
        if s.orelse:
            o2 = []
            for o in outs:
                if o[0] == "next":
                    o2 += self.block(s.orelse, o[1])
                else:
                    o2.append(o)
            outs = o2
        # route exceptions
        fin_exc = []
        self.exc.append(fin_exc)
        self.collectors.append(fin_exc)
        for x, info in coll:
            for h in s.handlers:
                hn = self.handler_names(h, x)
                if any(exc_isa(info.name, n) for n in hn):
                    x.frames = frames
                    self.unghost([x], keys)
                    if h.name:
                        x.setvar(h.name, info.val if info.val is not None else unk("exc"))
                    outs += self.block(h.body, x)
                    break
            else:
                fin_exc.append((x, info))
        self.collectors.pop()
        self.exc.pop()
        if s.finalbody:
            o2 = []
            for o in outs:
                for f in self.block(s.finalbody, o[1]):
                    o2.append((o[0], f[1], o[2]) if f[0] == "next" else f)
            outs = o2
            for x, info in fin_exc:
                fr = x.frames
                x.frames = frames
                for f in self.block(s.finalbody, x):
                    if f[0] == "next":
                        self.exc[-1].append((f[1], info))
                    else:
                        outs.append(f)
        else:
            self.exc[-1].extend(fin_exc)
        return outs

    def handler_names(self, h, st):
        if h.type is None:
            return {"BaseException"}
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = set()
        for t in types:
            if isinstance(t, ast.Name):
                out.add(t.id)
            elif isinstance(t, ast.Attribute):
                out.add(ast.unparse(t))
        return out

    def st_With(self, s, st):
        outs = []
        items = s.items

        def enter(k, x):
            if k == len(items):
                return self.block(s.body, x)
            res = []
            it = items[k]
            for v, y in self.ev(it.context_expr, x):
                coll = []
                frames = y.frames
                self.exc.append(coll)
                self.collectors.append(coll)
                inner = []
                for ev_, y2 in self.models.enter(v, y, s):
                    if it.optional_vars is not None:
                        for z in self.assign(it.optional_vars, ev_, y2):
                            inner += enter(k + 1, z)
                    else:
                        inner += enter(k + 1, y2)
                self.collectors.pop()
                self.exc.pop()
                for o in inner:
                    for z in self.models.exit(v, o[1], s):
                        res.append((o[0], z, o[2]))
                for z, info in coll:
                    z.frames = frames
                    for q in self.models.exit(v, z, s):
                        self.exc[-1].append((q, info))
            return res
        return enter(0, st)

    def st_FunctionDef(self, s, st):
        outs = []
        for f, x in self.make_fn(s, st, s.name):
            cur = [(f, x)]
            for d in reversed(s.decorator_list):
                nxt = []
                for v, y in cur:
                    if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"):
                        nxt.append((DescV(d.id, v), y))
                    elif isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
                        for old, z in self.ev(d.value, y):
                            if isinstance(old, DescV):
                                nxt.append((DescV("property", old.fn, v), z))
                            else:
                                nxt.append((unk("deco"), z))
                    else:
                        for dv, z in self.ev(d, y):
                            nxt += self.call(dv, [v], {}, z, d)
                cur = nxt
            for v, y in cur:
                outs += [("next", z, None) for z in self.assign(ast.Name(id=s.name, ctx=ast.Store(),
                                                                         lineno=s.lineno), v, y)]
        return outs

    def make_fn(self, node, st, name):
        a = node.args
        out = []
        for ds, x in self.evs(a.defaults, st):
            for ks, y in self.evs([k if k is not None else ast.Constant(value=None) for k in a.kw_defaults], x):
                fr = y.frame()
                env = None
                if fr.fn != "<module>":
                    env = y.frames[-1] if not (fr.fn or "").startswith("<class") else None
                qual = name
                if fr.fn and fr.fn != "<module>":
                    qual = fr.fn.replace("<class ", "").rstrip(">") + "." + name
                f = FnV(node, fr.mod, name, env, ds, ks, fr.mod.split(".")[-1] + "." + qual)
                f.isgen = has_yield(node)
                f.locals = local_names(node)
                out.append((f, y))
        return out

    def st_ClassDef(self, s, st):
        outs = []
        for bases, x in self.evs(s.bases, st):
            mod = x.frame().mod
            fr = FrameO({}, None, mod, "<class %s>" % s.name)
            r = x.alloc(fr)
            x.frames = x.frames + (r.oid,)
            for o in self.block(s.body, x):
                y = o[1]
                attrs = dict(y.heap[r.oid].vars)
                y.frames = y.frames[:-1]
                c = ClsV(s.name, mod, bases, attrs, s)
                self.classes[(mod, s.name)] = c
                outs += [("next", z, None) for z in self.assign(ast.Name(id=s.name, ctx=ast.Store(),
                                                                         lineno=s.lineno), c, y)]
        return outs

    def st_Import(self, s, st):
        cur = [st]
        for a in s.names:
            nxt = []
            for c in cur:
                if a.name.split(".")[0] == self.pkg.pkg:
                    if a.name in self.pkg.trees:
                        self.import_mod(a.name, c)
                        v = ModV(a.name if a.asname else a.name.split(".")[0])
                    else:
                        self.raise_(c, "ImportError", s, msg="no module %s" % a.name)
                        continue
                else:
                    v = ExtV(a.name if a.asname else a.name.split(".")[0])
                c.setvar(a.asname or a.name.split(".")[0], v)
                nxt.append(c)
            cur = nxt
        return [("next", c, None) for c in cur]

    def import_mod(self, name, st):
        if name in self.modframes:
            return
        if st is not self.base:
            # late import inside a function: load into base then copy frames over
            before = set(self.base.heap)
            self.load_module(name)
            for o, v in self.base.heap.items():
                if o not in before:
                    st.heap[o] = v
            return
        self.load_module(name)

    def st_ImportFrom(self, s, st):
        mod = self.mod
        if s.level:
            base = mod if mod == self.pkg.pkg else mod.rsplit(".", 1)[0]
            full = base + ("." + s.module if s.module else "")
        else:
            full = s.module
        if full.split(".")[0] != self.pkg.pkg:
            for a in s.names:
                if a.name != "*":
                    st.setvar(a.asname or a.name, self.models.ext_value(full + "." + a.name))
            return [("next", st, None)]
        if full not in self.pkg.trees:
            return self.raise_(st, "ImportError", s, msg="no module %s" % full)
        self.import_mod(full, st)
        src = st.heap[self.modframes[full]]
        for a in s.names:
            if a.name == "*":
                names = [n for n in src.vars if not n.startswith("_")]
                if "__all__" in src.vars:
                    av = src.vars["__all__"]
                    if isinstance(av, Ref) and isinstance(st[av], ListO):
                        names = [x for x in st[av].pre if isinstance(x, str)]
                for n in names:
                    st.setvar(n, src.vars[n])
                continue
            v = src.vars.get(a.name)
            if v is None and a.name not in src.vars:
                sub = full + "." + a.name
                if sub in self.pkg.trees:
                    self.import_mod(sub, st)
                    v = ModV(sub)
                else:
                    return self.raise_(st, "ImportError", s, msg="cannot import %s from %s" % (a.name, full))
            st.setvar(a.asname or a.name, v)
        return [("next", st, None)]

    # -------------------------------------------------------- expressions
    def ev(self, e, st):
        self.tick()
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            self.unsupported.append((self.mod, type(e).__name__, getattr(e, "lineno", 0)))
            return [(unk("unsupported"), st)]
        return m(e, st)

    def evs(self, es, st):
        """Evaluate a list of expressions -> [(tuple, state)]"""
        cur = [((), st)]
        for e in es:
            nxt = []
            for vs, x in cur:
                for v, y in self.ev(e, x):
                    nxt.append((vs + (v,), y))
            cur = nxt
        return cur

    def ev_Constant(self, e, st):
        return [(e.value, st)]

    def ev_Name(self, e, st):
        return self.ev_name(e.id, e, st)

    def ev_name(self, name, e, st):
        oid = st.frames[-1]
        f = st.heap[oid]
        top = True
        fn = self.cur_fn()
        while True:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, MU):
                    v = v.v
                    self.mon.on_unbound(self, st, name, e)
                return [(v, st)]
            if top and fn is not None and name in self.stack[-1][4]:
                return self.raise_(st, "UnboundLocalError", e, msg=name)
            top = False
            if f.parent is None:
                break
            f = st.heap[f.parent]
        mf = self.modframes.get(f.mod)
        if mf is not None:
            g = st.heap[mf]
            if name in g.vars:
                v = g.vars[name]
                if isinstance(v, MU):
                    v = v.v
                return [(v, st)]
        if name in ("True", "False", "None"):
            return [({"True": True, "False": False, "None": None}[name], st)]
        if hasattr(_bi, name):
            return [(BuiltinV(name), st)]
        return self.raise_(st, "NameError", e, msg=name)

    def ev_Tuple(self, e, st):
        return [(Tup(vs), x) for vs, x in self.ev_elts(e.elts, st)]

    def ev_elts(self, elts, st):
        if not any(isinstance(x, ast.Starred) for x in elts):
            return self.evs(elts, st)
        cur = [((), st)]
        for e in elts:
            nxt = []
            for vs, x in cur:
                if isinstance(e, ast.Starred):
                    for v, y in self.ev(e.value, x):
                        for items, z in self.models.seq_items(v, y, None, e):
                            nxt.append((vs + tuple(items if items is not None else (unk("star"),)), z))
                else:
                    for v, y in self.ev(e, x):
                        nxt.append((vs + (v,), y))
            cur = nxt
        return cur

    def ev_List(self, e, st):
        return [(x.alloc(ListO("list", vs)), x) for vs, x in self.ev_elts(e.elts, st)]

    def ev_Set(self, e, st):
        return [(x.alloc(ListO("set", vs)), x) for vs, x in self.evs(e.elts, st)]

    def ev_Dict(self, e, st):
        out = []
        keys = [k if k is not None else ast.Constant(value=None) for k in e.keys]
        for ks, x in self.evs(keys, st):
            for vs, y in self.evs(e.values, x):
                items = {}
                star = None
                for k, v, kn in zip(ks, vs, e.keys):
                    if kn is None:
                        if isinstance(v, Ref) and isinstance(y[v], DictO):
                            items.update(y[v].items)
                            star = y[v].star if star is None else star
                        else:
                            star = T(unk_=frozenset())
                    elif self.models.hashable_const(k):
                        items[k] = v
                    else:
                        t = t_of(v, y, 0)
                        star = t if star is None else t_join(star, t)
                out.append((y.alloc(DictO(items, star)), y))
        return out

    def ev_BinOp(self, e, st):
        out = []
        for a, x in self.ev(e.left, st):
            for b, y in self.ev(e.right, x):
                out += self.binop(e.op, a, b, y, e)
        return out

    def ev_UnaryOp(self, e, st):
        out = []
        if isinstance(e.op, ast.Not):
            return [(not b, x) for b, x in self.cond(e.operand, st)]
        for v, x in self.ev(e.operand, st):
            if isinstance(v, Choice):
                vals = [(self._un(e.op, w, x, e)) for w in v.vals]
                out.append((vals[0] if len(vals) == 1 else Choice(vals), x))
            else:
                out.append((self._un(e.op, v, x, e), x))
        return out

    def _un(self, op, v, x, e):
        if isinstance(v, bool):
            v = int(v)
        if dom.isnum(v):
            if isinstance(op, ast.USub):
                return dom.neg(v)
            if isinstance(op, ast.UAdd):
                return v
            if isinstance(op, ast.Invert):
                return dom.sub(dom.neg(v), 1)
        return Unk(("un", type(op).__name__, v)) if isinstance(v, Unk) else unk("un")

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        n = len(e.values)
        for i, x in enumerate(e.values):
            nxt = []
            for c in cur:
                for v, y in self.ev(x, c):
                    if i == n - 1:
                        out.append((v, y))
                        continue
                    if isinstance(v, MU):
                        v = v.v
                    alts = v.vals if isinstance(v, Choice) else (v,)
                    for w in alts:
                        for b, z in self.truth(w, y.fork() if len(alts) > 1 else y):
                            if b is isand:
                                nxt.append(z)
                            else:
                                out.append((w, z))
            if len(nxt) > 4:
                nxt = [z for _, z in self.merge_states([(None, z) for z in nxt])]
            cur = nxt
        return out

    def ev_IfExp(self, e, st):
        out = []
        for b, x in self.cond(e.test, st):
            out += self.ev(e.body if b else e.orelse, x)
        return self.merge_states(out)

    def ev_Compare(self, e, st):
        out = []
        for v, x in self.ev(e.left, st):
            out += self._cmp_chain(v, e.ops, e.comparators, x, e)
        return out

    def _cmp_chain(self, left, ops, comps, st, e):
        out = []
        for r, x in self.ev(comps[0], st):
            for b, y in self.compare(ops[0], left, r, x, e):
                if len(ops) == 1:
                    out.append((b, y))
                else:
                    if isinstance(b, bool):
                        if b:
                            out += self._cmp_chain(r, ops[1:], comps[1:], y, e)
                        else:
                            out.append((False, y))
                    else:
                        out.append((b, y))
        return out

    def compare(self, op, a, b, st, e):
        """-> [(bool value, state)]"""
        if isinstance(a, MU):
            a = a.v
        if isinstance(b, MU):
            b = b.v
        t = type(op).__name__
        if t in ("Eq", "NotEq"):
            if t == "NotEq":
                for x in (a, b):
                    if isinstance(x, Ref) and isinstance(st[x], InstO) and isinstance(st[x].cls, ClsV):
                        f = st[x].cls.lookup("__ne__")
                        if f is not None and x is a:
                            out = []
                            for r, s in self.call(BoundV(f, a), [b], {}, st, e):
                                out += self.truth(r, s)
                            return out
            return [(r if t == "Eq" else (not r), s) for r, s in self.eq(a, b, st)]
        if t in ("Is", "IsNot"):
            return [((r if t == "Is" else (not r)), s) for r, s in self.is_(a, b, st)]
        if t in ("In", "NotIn"):
            return [((r if t == "In" else (not r)), s) for r, s in self.models.contains(b, a, st, e)]
        o = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[t]
        if isinstance(a, Choice):
            out = []
            for v in a.vals:
                out += self.compare(op, v, b, st.fork(), e)
            return self.bool_merge(out, st)
        if isinstance(b, Choice):
            out = []
            for v in b.vals:
                out += self.compare(op, a, v, st.fork(), e)
            return self.bool_merge(out, st)
        na = dom.isnum(a) or isinstance(a, bool)
        nb = dom.isnum(b) or isinstance(b, bool)
        if na and nb:
            return self.compare_num(o, a, b, st)
        if is_const(a) and is_const(b):
            try:
                return [(eval("a %s b" % o, {"a": a, "b": b}), st)]
            except TypeError:
                return self.raise_(st, "TypeError", e, msg="compare %r %s %r" % (a, o, b))
        if (a is None and (nb or isinstance(b, (SStr, str)))) or (b is None and (na or isinstance(a, (SStr, str)))):
            return self.raise_(st, "TypeError", e, msg="ordering comparison with None")
        if isinstance(a, Unk) or isinstance(b, Unk):
            self.maybe_raise(st, "TypeError", e)
            return self.truth(Unk(("cmp", o, a, b)), st)
        if isinstance(a, Ref) and isinstance(st[a], InstO) and isinstance(st[a].cls, ClsV):
            f = st[a].cls.lookup({"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[o])
            if f is not None:
                out = []
                for r, s in self.call(BoundV(f, a), [b], {}, st, e):
                    out += self.truth(r, s)
                return out
        return self.fork_bool(st)

    def is_(self, a, b, st):
        if isinstance(a, Choice) or isinstance(b, Choice):
            va = a.vals if isinstance(a, Choice) else (a,)
            vb = b.vals if isinstance(b, Choice) else (b,)
            out = []
            for x in va:
                for y in vb:
                    out += self.is_(x, y, st.fork())
            return self.bool_merge(out, st)
        if isinstance(a, Unk) or isinstance(b, Unk):
            if a == b:
                return [(True, st)]
            if isinstance(b, Unk):
                a, b = b, a
            if a.hint == "notnone" and b is None:
                return [(False, st)]
            return self.truth(Unk(("is", a, b)), st)
        if is_const(a) and is_const(b):
            if type(a) is not type(b):
                return [(False, st)]
            return [(a is b or (isinstance(a, (int, str)) and a == b), st)]
        if isinstance(a, Ref) and isinstance(b, Ref):
            return [(a.oid == b.oid, st)]
        if dom.isnum(a) and dom.isnum(b):
            return self.compare_num("==", a, b, st)
        if isinstance(a, (ClsV, FnV, ModV, BuiltinV, ExtV)) or isinstance(b, (ClsV, FnV, ModV, BuiltinV, ExtV)):
            return [(a == b, st)]
        return [(False, st)]

    # arithmetic
    def binop(self, op, a, b, st, e, aug=False):
        if isinstance(a, MU):
            a = a.v
        if isinstance(b, MU):
            b = b.v
        t = type(op).__name__
        if isinstance(a, Choice) or isinstance(b, Choice):
            va = a.vals if isinstance(a, Choice) else (a,)
            vb = b.vals if isinstance(b, Choice) else (b,)
            if len(va) * len(vb) <= 12:
                out = []
                for x in va:
                    for y in vb:
                        out += self.binop(op, x, y, st.fork(), e, aug)
                return self.merge_states(out)
            return [(unk("binop"), st)]
        if is_const(a) and is_const(b):
            try:
                r = _CONST_OPS[t](a, b)
                if isinstance(r, tuple):
                    r = Tup(r)
                if isinstance(r, (int, float, complex, str, bytes, bool, Tup)):
                    return [(r, st)]
            except ZeroDivisionError:
                return self.raise_(st, "ZeroDivisionError", e)
            except (TypeError, KeyError) as ex:
                if not isinstance(a, (str, bytes)) or t != "Mod":
                    return self.raise_(st, "TypeError", e, msg="%r %s %r" % (a, t, b))
            except (ValueError, OverflowError):
                return self.raise_(st, "ValueError", e)
        na = dom.isnum(a) or isinstance(a, bool)
        nb = dom.isnum(b) or isinstance(b, bool)
        if na and nb:
            return self.num_binop(t, a, b, st, e)
        r = self.models.binop(t, a, b, st, e, aug)
        if r is not None:
            return r
        if isinstance(a, Unk) or isinstance(b, Unk):
            self.maybe_raise(st, "TypeError", e)
            lab = frozenset()
            for x in (a, b):
                if isinstance(x, Unk):
                    lab |= x.labels
            return [(Unk(("op", t, a, b), lab), st)]
        if a is None or b is None:
            return self.raise_(st, "TypeError", e, msg="%s on None" % t)
        self.maybe_raise(st, "TypeError", e)
        return [(unk("op"), st)]

    def num_binop(self, t, a, b, st, e):
        f = st.facts
        a = f.simplify(a) if isinstance(a, Lin) else a
        b = f.simplify(b) if isinstance(b, Lin) else b
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if not isinstance(a, Lin) and not isinstance(b, Lin):
            try:
                if isinstance(a, Fraction) or isinstance(b, Fraction):
                    if t in ("Add", "Sub", "Mult"):
                        return [({"Add": dom.add, "Sub": dom.sub, "Mult": dom.mul}[t](a, b), st)]
                    a, b = float(a), float(b)
                return [(_CONST_OPS[t](a, b), st)]
            except ZeroDivisionError:
                return self.raise_(st, "ZeroDivisionError", e)
            except TypeError:
                return self.raise_(st, "TypeError", e)
        r = None
        if t == "Add":
            r = dom.add(a, b)
        elif t == "Sub":
            r = dom.sub(a, b)
        elif t == "Mult":
            r = dom.mul(a, b)
        elif t == "Div":
            if not isinstance(b, Lin) and b == 0:
                return self.raise_(st, "ZeroDivisionError", e)
            if isinstance(b, Lin):
                lo, hi = f.bounds(b)
                if lo <= 0 <= hi:
                    self.maybe_raise(st, "ZeroDivisionError", e)
            r = dom.div(a, b)
        elif t == "FloorDiv":
            r = dom.floordiv(a, b, f)
        elif t == "Mod":
            r = dom.mod(a, b, f)
        elif t in ("BitAnd", "BitOr", "BitXor"):
            if dom.is_int_lin(a) and dom.is_int_lin(b):
                r = {"BitAnd": dom.band, "BitOr": dom.bor, "BitXor": dom.bxor}[t](a, b, f)
            else:
                r = dom.opaque(t, (dom.tolin(a), dom.tolin(b)), True)
        elif t in ("LShift", "RShift"):
            if isinstance(b, Lin):
                cs = self.concretize(b, st)
                if len(cs) > 1 or not isinstance(cs[0][0], Lin):
                    out = []
                    for c, s in cs:
                        out += self.num_binop(t, a, c, s, e)
                    return out
                r = dom.opaque(t, (dom.tolin(a), b), True)
            elif t == "LShift":
                r = dom.mul(a, 1 << int(b))
            elif dom.is_int_lin(a):
                r = dom.shr(a, int(b), f)
        elif t == "Pow":
            if isinstance(b, int) and 0 <= b <= 4:
                r = 1
                for _ in range(b):
                    r = dom.mul(r, a)
            elif dom.tolin(a) is not None and dom.tolin(b) is not None:
                r = dom.opaque("pow", (dom.tolin(a), dom.tolin(b)), False)
        if r is None:
            return [(unk("num"), st)]
        return [(r, st)]

    def ev_Attribute(self, e, st):
        out = []
        for v, x in self.ev(e.value, st):
            out += self.getattr(v, e.attr, x, e)
        return out

    def getattr(self, v, name, st, e):
        if isinstance(v, MU):
            v = v.v
        if isinstance(v, Ref):
            o = st[v]
            if isinstance(o, InstO):
                if name in o.attrs:
                    a = o.attrs[name]
                    if isinstance(a, MU):
                        a = a.v
                    return [(a, st)]
                if isinstance(o.cls, ClsV):
                    c = o.cls.lookup(name)
                    if c is not None or name in o.cls.attrs:
                        if isinstance(c, FnV):
                            return [(BoundV(c, v), st)]
                        if isinstance(c, DescV):
                            if c.kind == "staticmethod":
                                return [(c.fn, st)]
                            if c.kind == "classmethod":
                                return [(BoundV(c.fn, o.cls), st)]
                            return self.call(BoundV(c.fn, v), [], {}, st, e)
                        return [(c, st)]
                    if name == "__class__":
                        return [(o.cls, st)]
                    if name == "__dict__":
                        return [(st.alloc(DictO(dict(o.attrs), label=o.label)), st)]
                    ga = o.cls.lookup("__getattr__")
                    if ga is not None:
                        return self.call(BoundV(ga, v), [name], {}, st, e)
                    if o.cls.known() and not o.open:
                        return self.raise_(st, "AttributeError", e, msg="%s has no attribute %s" % (o.cls.name, name))
                lab = frozenset([o.label]) if o.label is not None else frozenset()
                self.maybe_raise(st, "AttributeError", e)
                return [(Unk(("attr", v.oid, name), lab), st)]
            if isinstance(o, (ListO, DictO, StreamO)):
                if self.models.has_method(o, name):
                    return [(MethV(v, name), st)]
                if isinstance(o, StreamO) and name in ("name", "closed", "mode"):
                    return [(unk("streamattr"), st)]
                return self.raise_(st, "AttributeError", e, msg="%s has no attribute %s" % (
                    getattr(o, "kind", type(o).__name__), name))
            return [(unk("attr"), st)]
        if isinstance(v, ModV):
            self.import_mod(v.name, st)
            g = st.heap[self.modframes[v.name]]
            if name in g.vars:
                return [(g.vars[name], st)]
            sub = v.name + "." + name
            if sub in self.modframes:
                return [(ModV(sub), st)]
            return self.raise_(st, "AttributeError", e, msg="module %s has no attribute %s" % (v.name, name))
        if isinstance(v, ExtV):
            return [(self.models.ext_value(v.name + "." + name), st)]
        if isinstance(v, ClsV):
            c = v.lookup(name)
            if c is not None or name in v.attrs:
                if isinstance(c, DescV):
                    if c.kind == "classmethod":
                        return [(BoundV(c.fn, v), st)]
                    return [(c.fn, st)]
                return [(c, st)]
            if name == "__name__":
                return [(v.name, st)]
            if v.known():
                if name in ("__init__", "__eq__", "__hash__", "__str__", "__repr__"):
                    return [(BuiltinV("object." + name), st)]
                return self.raise_(st, "AttributeError", e, msg="class %s has no attribute %s" % (v.name, name))
            return [(unk("attr"), st)]
        if isinstance(v, Choice):
            out = []
            for x in v.vals:
                out += self.getattr(x, name, st.fork(), e)
            return self.merge_states(out) if len(out) > 1 else out
        if isinstance(v, Unk):
            self.maybe_raise(st, "AttributeError", e)
            return [(Unk(("attr", v, name), v.labels), st)]
        if isinstance(v, BuiltinV):
            return [(BuiltinV(v.name + "." + name), st)]
        if v is None:
            return self.raise_(st, "AttributeError", e, msg="None has no attribute %s" % name)
        if isinstance(v, (FnV, BoundV)):
            return [(unk("fnattr"), st)]
        if self.models.value_has_method(v, name):
            r = self.models.value_attr(v, name, st)
            if r is not None:
                return r
            return [(MethV(v, name), st)]
        if isinstance(v, (GenV, GenExpV, RangeV, SliceV, MethV)):
            return [(unk("attr"), st)]
        return self.raise_(st, "AttributeError", e, msg="%s has no attribute %s" % (type(v).__name__, name))

    def setattr(self, b, name, v, st, e):
        """-> list of states"""
        if isinstance(b, MU):
            b = b.v
        if isinstance(b, Ref):
            o = st[b]
            if isinstance(o, InstO):
                if isinstance(o.cls, ClsV):
                    c = o.cls.lookup(name)
                    if isinstance(c, DescV) and c.kind == "property":
                        if c.setter is None:
                            return self.raise_(st, "AttributeError", e)
                        return [s for _, s in self.call(BoundV(c.setter, b), [v], {}, st, e)]
                self.mon.on_mutate(self, st, b.oid, "attribute %s" % name, e)
                self.mon.on_setattr(self, st, b.oid, name, v, e)
                a = dict(o.attrs)
                a[name] = v
                st[b] = o.rep(attrs=a)
                return [st]
            return [st]
        if isinstance(b, Choice):
            out = []
            for x in b.vals:
                out += self.setattr(x, name, v, st.fork(), e)
            return [s for _, s in self.merge_states([(None, s) for s in out])]
        if isinstance(b, Unk):
            self.mon.on_mutate(self, st, b, "attribute %s" % name, e)
            return [st]
        if isinstance(b, ModV):
            oid = self.modframes[b.name]
            f = st.heap[oid]
            vs = dict(f.vars)
            vs[name] = v
            st.heap[oid] = FrameO(vs, f.parent, f.mod, f.fn)
            return [st]
        if b is None:
            return self.raise_(st, "AttributeError", e, msg="None has no attribute %s" % name)
        return [st]

    def ev_Subscript(self, e, st):
        out = []
        for b, x in self.ev(e.value, st):
            for i, y in self.ev(e.slice, x):
                out += self.models.getitem(b, i, y, e)
        return out

    def ev_Slice(self, e, st):
        out = []
        es = [p if p is not None else ast.Constant(value=None) for p in (e.lower, e.upper, e.step)]
        for (a, b, c), x in self.evs(es, st):
            out.append((SliceV(a, b, c), x))
        return out

    def ev_Index(self, e, st):
        return self.ev(e.value, st)

    def ev_Lambda(self, e, st):
        return self.make_fn(e, st, "<lambda>")

    def ev_JoinedStr(self, e, st):
        cur = [((), st)]
        for p in e.values:
            nxt = []
            for vs, x in cur:
                if isinstance(p, ast.Constant):
                    nxt.append((vs + (p.value,), x))
                else:
                    for v, y in self.ev(p.value, x):
                        if is_const(v) and p.format_spec is None and p.conversion in (-1, 115):
                            nxt.append((vs + (str(v),), y))
                        elif isinstance(v, SStr) and p.format_spec is None:
                            nxt.append((vs + v.parts, y))
                        else:
                            nxt.append((vs + fresh_str("fstr", ascii_=dom.isnum(v)).parts, y))
            cur = nxt
        return [(SStr(vs).simp(), x) for vs, x in cur]

    def ev_Await(self, e, st):
        return self.ev(e.value, st)

    def ev_NamedExpr(self, e, st):
        out = []
        for v, x in self.ev(e.value, st):
            for y in self.assign(e.target, v, x):
                out.append((v, y))
        return out

    def ev_Starred(self, e, st):
        return self.ev(e.value, st)

    # comprehensions
    def comp(self, e, st, emit):
        """Run a comprehension; emit(state)->list of states at each element."""
        fr = FrameO({}, st.frames[-1], st.frame().mod, st.frame().fn)
        r = st.alloc(fr)

        gens = e.generators

        def run(k, x):
            if k == len(gens):
                return emit(x)
            g = gens[k]
            res = []

            def body(v, y):
                out = []
                for z in self.assign(g.target, v, y):
                    cur = [z]
                    for c in g.ifs:
                        nxt = []
                        for q in cur:
                            for b, w in self.cond(c, q):
                                if b:
                                    nxt.append(w)
                                else:
                                    out.append(w)
                        cur = nxt
                    for q in cur:
                        out += run(k + 1, q)
                return [s for _, s in self.merge_states([(None, s) for s in out])]
            for it, y in self.ev(g.iter, x):
                res += self.models.iterate(it, y, body, e, (None, frozenset()))
            return res

        base = st.frames
        st.frames = base + (r.oid,)
        self.stack.append(("<comp>", e, self.mod, None, frozenset()))
        try:
            outs = run(0, st)
        finally:
            self.stack.pop()
        for o in outs:
            o.frames = base
        return outs

    def ev_ListComp(self, e, st, kind="list"):
        acc = st.alloc(ListO(kind, ()))
        cell = st.alloc(CellO("compacc", (acc,)))

        def emit(x):
            out = []
            for v, y in self.ev(e.elt, x):
                y[acc] = self.list_append(y[acc], v)
                out.append(y)
            return out
        key = ("compacc", newid())
        st.ghost[key] = acc
        outs = self.comp(e, st, emit)
        for o in outs:
            o.ghost.pop(key, None)
        return [(acc, o) for o in outs]

    def list_append(self, o, v):
        if o.star is None:
            return o.rep(pre=o.pre + (v,))
        return o.rep(suf=o.suf + (v,))

    def ev_SetComp(self, e, st):
        return self.ev_ListComp(e, st, "set")

    def ev_GeneratorExp(self, e, st):
        # evaluated eagerly: the package only feeds them to consumers at once
        return self.ev_ListComp(e, st)

    def ev_DictComp(self, e, st):
        acc = st.alloc(DictO({}))
        key = ("compacc", newid())
        st.ghost[key] = acc

        def emit(x):
            out = []
            for (k, v), y in self.evs([e.key, e.value], x):
                out += self.models.setitem(acc, k, v, y, e)
            return out
        outs = self.comp(e, st, emit)
        for o in outs:
            o.ghost.pop(key, None)
        return [(acc, o) for o in outs]

    # yield
    def ev_Yield(self, e, st):
        out = []
        src = self.ev(e.value, st) if e.value is not None else [(None, st)]
        for v, x in src:
            self.mon.on_yield(self, x, v, e)
            if not self.yields:
                out.append((None, x))
                continue
            h = self.yields[-1]
            for y in h(v, x):
                out.append((None, y))
        return out

    def ev_YieldFrom(self, e, st):
        out = []
        for v, x in self.ev(e.value, st):
            h = self.yields[-1]
            for y in self.models.iterate(v, x, lambda w, s: h(w, s), e, (None, frozenset())):
                out.append((None, y))
        return out

    # calls
    def ev_Call(self, e, st):
        out = []
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.models.super_(e, st)
        for f, x in self.ev(e.func, st):
            for args, kwargs, y in self.call_args(e, x):
                out += self.call(f, args, kwargs, y, e)
        return out

    def call_args(self, e, st):
        cur = [([], {}, st)]
        for a in e.args:
            nxt = []
            for ar, kw, x in cur:
                if isinstance(a, ast.Starred):
                    for v, y in self.ev(a.value, x):
                        for items, z in self.models.seq_items(v, y, None, a):
                            nxt.append((ar + list(items if items is not None else [unk("star")]), kw, z))
                else:
                    for v, y in self.ev(a, x):
                        nxt.append((ar + [v], kw, y))
            cur = nxt
        for k in e.keywords:
            nxt = []
            for ar, kw, x in cur:
                for v, y in self.ev(k.value, x):
                    kw2 = dict(kw)
                    if k.arg is None:
                        if isinstance(v, Ref) and isinstance(y[v], DictO):
                            for kk, vv in y[v].items.items():
                                kw2[kk] = vv
                            if y[v].star is not None:
                                kw2["**"] = v
                        else:
                            kw2["**"] = v
                    else:
                        kw2[k.arg] = v
                    nxt.append((ar, kw2, y))
            cur = nxt
        return cur

    def call(self, f, args, kwargs, st, e):
        self.tick()
        if isinstance(f, MU):
            f = f.v
        r = self.mon.on_call(self, st, f, args, kwargs, e)
        if r is not None:
            return r
        if isinstance(f, FnV):
            return self.call_fn(f, list(args), kwargs, st, e)
        if isinstance(f, BoundV):
            if isinstance(f.fn, DescV):
                return self.call(BoundV(f.fn.fn, f.self), args, kwargs, st, e)
            if isinstance(f.fn, FnV):
                return self.call_fn(f.fn, [f.self] + list(args), kwargs, st, e)
            return self.call(f.fn, [f.self] + list(args), kwargs, st, e)
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kwargs, st, e)
        if isinstance(f, BuiltinV):
            return self.models.builtin(f.name, args, kwargs, st, e)
        if isinstance(f, ExtV):
            r = self.mon.on_ext(self, st, f.name, args, kwargs, e)
            if r is not None:
                return r
            return self.models.external(f.name, args, kwargs, st, e)
        if isinstance(f, MethV):
            return self.models.method(f.obj, f.name, args, kwargs, st, e)
        if isinstance(f, Choice):
            out = []
            for x in f.vals:
                out += self.call(x, args, kwargs, st.fork(), e)
            return self.merge_states(out)
        if isinstance(f, Unk):
            if isinstance(f.key, tuple) and f.key[:1] == ("attr",) and f.key[2:] in (("strftime",), ("isoformat",)):
                n = {"%Y%m%d%H%M%S": 14, "%Y%m%d": 8, "%H%M%S": 6}.get(args[0] if args else None)
                return [(fresh_str("date", n or 0, n or INF, n is not None), st)]
            self.maybe_raise(st, "AttributeError", e)
            lab = f.labels
            return [(Unk(("call", f, newid()), lab), st)]
        if isinstance(f, Ref) and isinstance(st[f], InstO) and isinstance(st[f].cls, ClsV):
            c = st[f].cls.lookup("__call__")
            if c is not None:
                return self.call(BoundV(c, f), args, kwargs, st, e)
            if st[f].open:
                return [(unk("call"), st)]
        if isinstance(f, DescV):
            return self.call(f.fn, args, kwargs, st, e)
        return self.raise_(st, "TypeError", e, msg="%r is not callable" % (f,))

    def instantiate(self, c, args, kwargs, st, e):
        if not c.known():
            for b in c.bases:
                if isinstance(b, BuiltinV) and exc_isa(b.name, "BaseException"):
                    r = st.alloc(InstO(c, {"args": Tup(args)}))
                    return [(r, st)]
        r = st.alloc(InstO(c, {}))
        init = c.lookup("__init__")
        if init is None:
            if (args or kwargs) and c.known():
                return self.raise_(st, "TypeError", e, msg="%s() takes no arguments" % c.name)
            return [(r, st)]
        return [(r, x) for _, x in self.call(BoundV(init, r), args, kwargs, st, e)]

    def bind(self, f, args, kwargs, st, e):
        """-> vars dict or None after raising"""
        a = f.node.args
        names = [x.arg for x in list(getattr(a, "posonlyargs", [])) + a.args]
        vars_ = {}
        kw = dict(kwargs)
        star_kw = kw.pop("**", None)
        rest = []
        unknown_star = any(isinstance(x, Unk) and isinstance(x.key, tuple) and x.key and x.key[0] == "star"
                           for x in args)
        for i, v in enumerate(args):
            if i < len(names):
                vars_[names[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            if unknown_star:
                rest = []
            else:
                return self.argerr(f, st, e, "takes %d positional arguments but %d were given" % (
                    len(names), len(args)))
        if a.vararg:
            vars_[a.vararg.arg] = Tup(rest)
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vars_:
                    return self.argerr(f, st, e, "got multiple values for argument %s" % k)
                vars_[k] = v
            else:
                extra[k] = v
        if extra and not a.kwarg:
            return self.argerr(f, st, e, "got an unexpected keyword argument %s" % sorted(extra)[0])
        if a.kwarg:
            star = None
            if star_kw is not None:
                star = T(unk_=frozenset())
                if isinstance(star_kw, Ref) and isinstance(st[star_kw], DictO):
                    star = st[star_kw].star
            vars_[a.kwarg.arg] = st.alloc(DictO(extra, star))
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vars_:
                j = i - (len(names) - nd)
                if j >= 0:
                    vars_[n] = f.defaults[j]
                elif star_kw is not None or unknown_star:
                    vars_[n] = unk("arg")
                else:
                    return self.argerr(f, st, e, "missing required argument %s" % n)
        for x, d, dn in zip(a.kwonlyargs, f.kwdefaults, a.kw_defaults):
            if x.arg not in vars_:
                if dn is None:
                    return self.argerr(f, st, e, "missing keyword argument %s" % x.arg)
                vars_[x.arg] = d
        return vars_

    def argerr(self, f, st, e, msg):
        self.raise_(st, "TypeError", e, msg="%s() %s" % (f.name, msg))
        return None

    def call_fn(self, f, args, kwargs, st, e):
        self.stats["calls"] += 1
        self.stats["functions"].add(f.qual)
        depth = sum(1 for fr in self.stack if fr[3] is f.node)
        if depth >= 3 or len(self.stack) > 60:
            return [(unk("recursion"), st)]
        vars_ = self.bind(f, args, kwargs, st, e)
        if vars_ is None:
            return []
        fr = st.alloc(FrameO(vars_, f.env, f.mod, f.name))
        if f.isgen:
            return [(GenV(f, fr.oid), st)]
        return self.run_body(f, fr, st, e)

    def run_body(self, f, fr, st, e):
        base = st.frames
        st.frames = base + (fr.oid,)
        self.stack.append((f.qual, e, self.mod, f.node, f.locals))
        save = self.mod
        ysave = self.yields
        if not f.isgen:
            self.yields = []
        self.mod = f.mod
        try:
            if isinstance(f.node, ast.Lambda):
                outs = [("return", x, v) for v, x in self.ev(f.node.body, st)]
            else:
                outs = self.block(f.node.body, st)
        finally:
            self.stack.pop()
            self.mod = save
            self.yields = ysave
        res = []
        keep = bool(liveness(f.node).captured) or self.has_comp(f.node)
        for o in outs:
            v = o[2] if o[0] == "return" else None
            x = o[1]
            x.frames = base
            if not keep:
                x.heap.pop(fr.oid, None)
            self.mon.on_return(self, x, f, v, e)
            res.append((v, x))
        if len(res) > 1:
            res = self.merge_states(res)
        return res

    def has_comp(self, node):
        r = getattr(node, "_vcomp", None)
        if r is None:
            r = any(isinstance(n, (ast.GeneratorExp,)) for n in ast.walk(node))
            node._vcomp = r
        return r

    # entry helper
    def run(self, fn, args, kwargs=None, st=None):
        """Call fn from outside; returns (results, exceptions)."""
        st = st or self.base.fork()
        coll = []
        self.exc.append(coll)
        self.collectors.append(coll)
        try:
            res = self.call(fn, args, kwargs or {}, st, None)
        finally:
            self.exc.pop()
            self.collectors.pop()
        return res, coll


import operator as _op

_CONST_OPS = {
    "Add": _op.add, "Sub": _op.sub, "Mult": _op.mul, "Div": _op.truediv, "FloorDiv": _op.floordiv,
    "Mod": _op.mod, "Pow": _op.pow, "LShift": _op.lshift, "RShift": _op.rshift, "BitAnd": _op.and_,
    "BitOr": _op.or_, "BitXor": _op.xor, "MatMult": _op.matmul,
}
