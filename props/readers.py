"""Every reader, interpreted on an arbitrary file that may end anywhere."""
import ast
from .disp import *
from .c20 import same_obj
from absint.codec import witness

TEXT = ("csv", "json", "gcode", "txt")
COLORS = ("edr", "col", "inf")
HEUR = frozenset("interpolate_trims interpolate_duplicate_color_as_stop interpolate_stop_as_duplicate_color interpolate_frame_eject".split())
CRASH = frozenset("AttributeError TypeError NameError UnboundLocalError IndexError KeyError ZeroDivisionError".split())


class Reading(Monitor):
    def __init__(self, I, pattern, commands, end):
        self.I, self.p, self.cmds, self.END = I, pattern, commands, end
        self.oid = None
        self.loops = {}         # (function, ordinal) -> verdicts
        self.index = {}         # function -> verdicts
        self.entries = {}       # function -> (bad, msg)
        self.appends = 0
        self.probing = 0
        self.unbound = set()

    def where(self, node):
        t = self.I.stack[-1]
        return "%s:%s" % (t[0].replace("pyembroidery.", ""), getattr(node, "lineno", "?"))

    def fn(self):
        return self.I.stack[-1][0].replace("pyembroidery.", "") if self.I.stack else "?"

    # streams
    def read(self, I, st, ref, n, node):
        out = I.models.default_read(ref, n, st, node)
        for v, s in out:
            if s[ref].data == "exhausted":
                if not s.ghost.get("short") and self.in_loop(node):
                    s.ghost["cut"] = True
                s.ghost["short"] = True
        return out

    def in_loop(self, node):
        """Is the statement (or the call that led here) inside a while loop?"""
        if self.looped is None:
            self.looped = set()
            for t in self.I.pkg.trees.values():
                for w in ast.walk(t):
                    if isinstance(w, ast.While):
                        self.looped.update(id(n) for b in w.body for n in ast.walk(b))
        return id(node) in self.looped or any(id(t[1]) in self.looped for t in self.I.stack)

    looped = None

    def on_call(self, I, st, fn, args, kwargs, node):
        f = fn.fn if isinstance(fn, BoundV) else fn
        if not isinstance(f, FnV):
            return None
        if f.name in HEUR:
            return [(None, st)]
        if f.name == "expand" and f.mod.endswith("EmbCompress"):
            return [(st.alloc(ListO("list", (), T(num=(True, 0, 255)), (), dom.sym("n", True, 0, INF))), st)]
        return None

    # entries
    def on_append(self, I, st, oid, val, node):
        l = get_attr(st, self.p, "stitches")
        if not isinstance(l, Ref) or l.oid != oid or self.probing:
            return
        x = y = c = None
        known = False
        if isinstance(val, Ref) and val.oid in st.heap and isinstance(st[val], ListO) and st[val].star is None and len(st[val].pre) == 3:
            x, y, c = st[val].pre
            known = True
        elif isinstance(val, Tup) and len(val.items) == 3:
            x, y, c = val.items
            known = True
        if isinstance(c, Lin):
            c = st.facts.simplify(c)
        end = isinstance(c, int) and c & 0xFF == self.END
        if not I.dry:
            self.appends += 1
            k = (self.caller(), "END" if end else "entry")
            bad, msg = False, None
            if not known:
                msg = "the entry is not a list of three"
                bad = isinstance(val, (Ref, Tup, int, float, str)) and not isinstance(val, Ref)
            else:
                for n, v in (("x", x), ("y", y)):
                    vs = v.vals if isinstance(v, Choice) else (v,)
                    for w in vs:
                        if isinstance(w, MU) or isinstance(w, Unk):
                            msg = msg or "%s is not known" % n
                        elif w is None or isinstance(w, (str, SStr, Tup, bytes, BytesV)):
                            bad, msg = True, "%s is %r" % (n, w)
                if isinstance(c, int):
                    if c & 0xFF not in self.cmds:
                        bad, msg = True, "the command is %r" % c
                elif c is None or isinstance(c, str):
                    bad, msg = True, "the command is %r" % (c,)
                elif not bad:
                    # packed numbers: the low byte must still be a command
                    lo = self.low(st, c)
                    if lo is None:
                        msg = msg or "the command %r is not known" % (c,)
                    elif lo not in self.cmds:
                        bad, msg = True, "the command is %r" % (c,)
            if st.ghost.get("ended"):
                self.note(("after", self.caller()), True, "an entry is added after END (%s)" % self.where(node))
            if not end and any(isinstance(o, StreamO) and o.data == "exhausted" for o in st.heap.values()):
                self.note(("cut", self.caller()), True, "an entry is added from data that is not there (%s)" % self.where(node))
            self.note(k, bad, msg)
        st.ghost["any"] = True
        if end:
            st.ghost["ended"] = True

    def low(self, st, c):
        if isinstance(c, Choice):
            s = set(self.low(st, v) if not isinstance(v, int) else v & 0xFF for v in c.vals)
            return s.pop() if len(s) == 1 else (next(iter(s)) if None not in s and s <= self.cmds else None)
        if isinstance(c, Lin):
            got = set()
            for v, s in self.I.binop(ast.BitAnd(), c, 0xFF, st.fork(), None):
                v = s.facts.simplify(v) if isinstance(v, Lin) else v
                got.add(v if isinstance(v, int) else None)
            return got.pop() if len(got) == 1 else None
        return None

    def caller(self):
        """The format's function that adds the entry."""
        for t in reversed(self.I.stack):
            n = t[0].replace("pyembroidery.", "")
            if not n.startswith("EmbPattern."):
                return n
        return self.fn()

    def note(self, k, bad, msg):
        o = self.entries.get(k)
        if o is None or (bad and not o[0]) or (msg and not o[1]):
            self.entries[k] = (bad, msg)

    def on_unbound(self, I, st, name, node):
        if not I.dry and not self.probing:
            self.unbound.add((self.fn(), name))

    # indexing
    def on_index(self, I, st, ref, o, i, node):
        if I.dry or self.probing or o.star is not None or not isinstance(i, Lin) or st.ghost.get("short"):
            return
        n = len(o.pre)
        lo, hi = st.facts.bounds(i)
        k = (self.fn(), getattr(node, "lineno", 0))
        if hi < n and lo >= -n:
            self.index.setdefault(k, (False, None))
            return
        for a, b in (((n, INF),) if hi >= n else ()) + (((-INF, -n - 1),) if lo < -n else ()):
            s = st.fork()
            if I.assume(s, i, a, b):
                w = witness(1, s)
                if w is not None:
                    self.index[k] = (True, "index %r of a list of %d" % (i, n))
                    return
                self.index.setdefault(k, (None, "index %r of a list of %d" % (i, n)))

    # loops
    def on_head(self, I, st, node):
        if self.probing:
            return
        k = (self.fn(), node.lineno)
        st = st.fork()
        rs = [oid for oid, o in st.heap.items() if isinstance(o, StreamO) and o.mode == "r"]
        for oid in rs:
            st.heap[oid] = st.heap[oid].rep(data="exhausted")
        st.ghost["short"] = True
        self.probing += 1
        I.dry += 1
        coll = []
        I.exc.append(coll)
        reads = [0]
        old = I.models.stream_read

        def count(I_, s, ref, n, nd):
            reads[0] += 1
            return self.read(I_, s, ref, n, nd)
        I.models.stream_read = count
        try:
            cur = [st]
            mode, I.merge = I.merge, "lossless"
            st.trace = False
            backs = []
            for turn in range(3):
                backs = []
                for x in cur:
                    for b, y in I.cond(node.test, x.fork()):
                        if not b:
                            continue
                        for o in I.block(node.body, y):
                            if o[0] in ("next", "continue"):
                                backs.append(o[1])
                if turn == 0:
                    first = list(backs)
                backs = backs[:12]
                if not backs:
                    break
                if turn < 2:
                    cur = backs
            v = (False, None)
            if backs:
                v = self.progress(I, st, cur, backs, node, reads[0], first)
        except (AnalysisError, Budget) as e:
            v = (None, str(e))
        finally:
            I.merge = mode
            I.models.stream_read = old
            I.exc.pop()
            I.dry -= 1
            self.probing -= 1
        o = self.loops.get(k)
        if o is None or v[0] is True or (v[0] is None and o[0] is False):
            self.loops[k] = v

    def progress(self, I, st, before, after, node, reads, first):
        """A loop that goes on at the end of the input: does it count towards a bound of its own?"""
        tests = [n.test for n in ast.walk(node) if isinstance(n, (ast.If, ast.While, ast.IfExp))]
        names = set(n.id for t in tests for n in ast.walk(t) if isinstance(n, ast.Name))
        attrs = any(isinstance(n, (ast.Attribute, ast.Call, ast.Subscript)) for t in tests for n in ast.walk(t))
        t = node.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]).__name__ in ("Lt", "LtE", "Gt", "GtE"):
            up = type(t.ops[0]).__name__ in ("Lt", "LtE")
            l, r = (t.left, t.comparators[0]) if up else (t.comparators[0], t.left)
            for y in first:
                x, d = st, None
                if x is not None:
                    va, vb = self.value(I, l, x), self.value(I, l, y)
                    wa, wb = self.value(I, r, x), self.value(I, r, y)
                    if all(dom.isnum(z) for z in (va, vb, wa, wb)):
                        d = dom.sub(dom.sub(vb, va), dom.sub(wb, wa))
                if d is None:
                    return None, "the loop's own bound is not known"
                lo, hi = y.facts.bounds(d) if isinstance(d, Lin) else (d, d)
                if not lo > 0:
                    if hi <= 0:
                        return True, "the loop goes on without coming closer to its bound"
                    return None, "progress of the loop is not known: %r" % (d,)
            return False, None
        if not reads:
            return None, "the loop does not read"
        soft = True
        for y in after:
            if y.trace:
                continue
            x = before[0] if len(before) == 1 else None
            if x is None:
                continue
            vx, vy = x.heap[x.frames[-1]].vars, y.heap[y.frames[-1]].vars
            changed = set(n for n in names if n in vy and vx.get(n) != vy.get(n))
            if changed or attrs and any(isinstance(n, ast.Attribute) for t in tests for n in ast.walk(t)):
                continue
            soft = False
        if soft:
            return None, "the loop may go on at the end of the input"
        return True, "at the end of the input the loop goes on for ever"

    def value(self, I, e, st):
        out = I.ev(e, st.fork())
        if len(out) != 1:
            return None
        v, s = out[0]
        return v


class Result(object):
    pass


def run_reader(root, ext, tier="quick"):
    """-> Result for the reader of the format, interpreted on an arbitrary file."""
    R = run_once(root, ext, ())
    names = sorted(set(n for f, n in R.m.unbound))
    if names:
        R = run_once(root, ext, names)      # once more, keeping states apart by whether these variables are bound
        R.unbound = names
    return R


def run_once(root, ext, names):
    I = load(root, merge="join", budget=3000000)

    def key(s):
        k = tuple(bool(s.ghost.get(k)) for k in ("short", "cut", "any", "ended"))
        if names:
            v = s.heap[s.frames[-1]].vars if s.frames else {}
            k += tuple(n in v for n in names)
        return k
    I.part_key = key
    R = Result()
    r = [d["reader"] for d, _ in ((dict((k, plain(v)) for k, v in d.items()), z) for d, z in formats(I)) if d["extension"] == ext][0]
    R.mod = r.name.replace("pyembroidery.", "")
    p, st = new_obj(I, I.base.fork(), PAT)
    cmds = set(c for c, n in commands(I).items() if n != "COMMAND_MASK")
    f = st.alloc(StreamO("r", 0, False, "live", "file", text=const_of(I, r, "READ_FILE_IN_TEXT_MODE") is True))
    end = I.constants("pyembroidery.EmbConstant")["END"]
    m = Reading(I, p, cmds, end)
    I.models.stream_read = m.read
    I.models.index_hook = m.on_index
    I.mon = m
    fn = [v for v, _ in I.getattr(r, "read", st, None)]
    if not fn:
        raise Broken("%s has no read" % R.mod)
    R.res, R.exc = I.run(fn[0], [f, p, st.alloc(DictO({}, None))], {}, st)
    R.m, R.I, R.p = m, I, p
    return R
