"""C25: the ways to iterate over a pattern cover its commands exactly."""
from .util import *
from absint.codec import witness

LEVEL = "proof"
EXPLANATION = ("Abstract interpretation of each iterator of EmbPattern over a command list of unknown length whose generic entry is any of the "
               "delimiting commands, sewing commands or others with arbitrary upper bits and coordinates.  Ghost state holds how many "
               "entries were seen, how many of them earlier blocks cover and how many thread changes passed; every yield and every "
               "iteration is compared with it, so the result holds by induction for every list.")
VOCAB = ("STITCH", "JUMP", "TRIM", "STOP", "END", "COLOR_CHANGE", "COLOR_BREAK", "NEEDLE_SET", "SEW_TO", "NEEDLE_AT", "SEQUENCE_BREAK")
SHORT = ("STITCH", "JUMP", "COLOR_CHANGE", "COLOR_BREAK", "NEEDLE_SET", "END")


class Mat(object):
    def __init__(self, mon):
        self.mon = mon

    def init(self, I, st):
        return ()

    def step(self, I, st, extra):
        out = []
        if self.mon.bounded and len(self.mon.get(st)[0][4]) >= self.mon.bounded:
            return []
        for c in self.mon.vocab:
            z = st.fork()
            if self.mon.bounded:
                z.trace = 0
            x, y = dom.sym("X", False, -INF, INF), dom.sym("Y", False, -INF, INF)
            h = dom.sym("H", True, 0, 0xFFFFFF)
            r = z.alloc(ListO("list", (x, y, dom.add(c, dom.mul(256, h) if hasattr(dom, "mul") else dom.scale(h, 256))), None, (), 0, "stitch"))
            self.mon.begin(I, z, c, x, y)
            out.append((r, extra, z))
        return out

    def done(self, I, st, extra):
        self.mon.done(I, st)

    def any(self, I, st):
        return [(r, z) for r, _, z in []] or [(self._any(st), st)]

    def _any(self, st):
        return st.alloc(ListO("list", (dom.sym("X", False, -INF, INF), dom.sym("Y", False, -INF, INF),
                                       dom.sym("C", True, 0, INF)), None, (), 0, "stitch"))

    def copied(self):
        return self


class Mon(Monitor):
    """kind: (command, yields in this iteration, appends in this iteration, previous command); vals: see N_*"""
    START, POS, NY, NCH, PEND, X, Y = range(7)

    def __init__(self, C, vocab):
        self.C = C
        self.vocab = vocab
        self.bounded = 0
        self.results = {}
        self.name = ""

    def setup(self, st):
        st.ghost[("it",)] = st.alloc(CellO((None, 0, 0, None, ()), (0,) * 7))

    def get(self, st):
        c = st[st.ghost[("it",)]]
        return list(c.kind), list(c.vals)

    def put(self, st, k, v):
        st[st.ghost[("it",)]] = CellO(tuple(k), tuple(v))

    def begin(self, I, st, c, x, y):
        k, v = self.get(st)
        k[0], k[1], k[2] = c, 0, 0
        if self.bounded:
            k[4] += (c,)
        v[self.X], v[self.Y] = x, y
        self.put(st, k, v)

    def done(self, I, st):
        k, v = self.get(st)
        if k[0] is None:
            return
        v[self.POS] = dom.add(v[self.POS], 1)
        self.iteration(I, st, k, v)
        k = [None, 0, 0, k[0], k[4]]
        v[self.X] = v[self.Y] = 0
        self.put(st, k, v)

    def rel(self, st, got, want):
        if not dom.isnum(got) or not dom.isnum(want):
            return None
        d = dom.sub(got, want)
        lo, hi = st.facts.bounds(d) if isinstance(d, Lin) else (d, d)
        if lo == hi == 0:
            return True
        if isinstance(d, Lin) and not (lo > 0 or hi < 0) and any(dom.ATOMS[i].name == "phi" for i in dom.deps(d, set())):
            return None
        return False if witness(d, st) is not None else None

    def check(self, I, st, rule, inst, ok, msg, node=None):
        if I.dry:
            return
        if ok is False and (st.trace or witness(1, st) is None):
            ok = None
        key = (rule, "%s: %s" % (self.name, inst))
        cur = self.results.get(key)
        if ok is True:
            self.results.setdefault(key, True)
        elif ok is False:
            if not isinstance(cur, tuple):
                self.results[key] = ("EmbPattern.py:%s" % getattr(node, "lineno", self.name), msg)
        elif not isinstance(cur, tuple):
            self.results[key] = None

    def on_mutate(self, I, st, oid, how, node):
        o = st.heap.get(oid)
        if getattr(o, "label", None) in ("yielded", "source", "stitch"):
            self.check(I, st, "effect", "leaves alone what it handed out", False, "%s is changed (%s)" % (
                "a block already handed out" if o.label == "yielded" else "the pattern", how), node)

    def tof(self, I, st, fn, args, kwargs):
        i = (list(args) + list(kwargs.values()))[-1]
        return [(st.alloc(ListO("list", (i,), None, (), 0, "thread")), st)]

    def on_call(self, I, st, fn, args, kwargs, node):
        f = fn.fn if isinstance(fn, BoundV) else fn
        if getattr(f, "name", None) == "get_thread_or_filler":
            return self.tof(I, st, fn, args, kwargs)
        return None

    def thread(self, I, st, th, want, node):
        o = st[th] if isinstance(th, Ref) else None
        i = o.pre[0] if isinstance(o, ListO) and o.label == "thread" and len(o.pre) == 1 else None
        self.check(I, st, "thread", "of a block", None if i is None else self.rel(st, i, want),
                   "the block carries another thread than that of its place in the thread list", node)

    def part(self, st, b):
        o = st[b] if isinstance(b, Ref) else None
        if isinstance(o, ListO) and isinstance(o.label, tuple) and o.label[0] == "part" and o.label[1] == "source":
            return o.label[2], o.label[3]
        return None, None

    def slice_yield(self, I, st, b, k, v, node):
        """A yielded part of the source: must start where the last one ended."""
        lo, hi = self.part(st, b)
        k[1] = min(k[1] + 1, 2)
        self.check(I, st, "coverage", "a block starts where the one before it ended", None if lo is None else self.rel(st, lo, v[self.START]),
                   "a block starts elsewhere than after the block before it", node)
        if hi is None:
            k[1] = None
            return
        v[self.START] = hi
        if isinstance(b, Ref) and isinstance(st[b], ListO):
            self.block = b

    iteration = None
    finish = None


class Colors(Mon):
    def on_yield(self, I, st, val, node):
        k, v = self.get(st)
        it = seq_items(val, st)
        if it is None or len(it) != 2:
            self.check(I, st, "coverage", "yields (block, thread)", None, "", node)
            return
        lo, hi = self.part(st, it[0])
        if lo is not None:
            d = st.facts.bounds(dom.sub(hi, lo))
            self.check(I, st, "coverage", "no empty block", True if d[0] >= 1 else False if d[1] <= 0 else None, "an empty block is yielded", node)
        self.slice_yield(I, st, it[0], k, v, node)
        self.thread(I, st, it[1], v[self.NY], node)
        v[self.NY] = dom.add(v[self.NY], 1)
        self.put(st, k, v)

    def iteration(self, I, st, k, v):
        C, c, pos = self.C, k[0], dom.sub(v[self.POS], 1)
        nm = [n for n in VOCAB if C[n] == c][0]
        if k[1] is None:
            return self.check(I, st, "delimiter", nm, None, "")
        if c == C["COLOR_CHANGE"]:
            ok = False if k[1] != 1 else self.rel(st, v[self.START], v[self.POS])
            self.check(I, st, "delimiter", nm, ok, "a COLOR_CHANGE does not end a block that includes it")
        elif c in (C["COLOR_BREAK"], C["NEEDLE_SET"]):
            ok = False if k[1] == 2 else self.rel(st, v[self.START], pos)
            self.check(I, st, "delimiter", nm, ok, "a %s does not end the block before it" % nm)
            v[self.START] = v[self.POS] if c == C["COLOR_BREAK"] else pos
        else:
            self.check(I, st, "delimiter", nm, k[1] == 0, "%s ends a block" % nm)
        return

    def finish(self, I, st, n):
        k, v = self.get(st)
        self.check(I, st, "coverage", "the last block ends with the list", None if k[1] is None else k[1] != 2 and self.rel(st, v[self.START], n),
                   "the entries after the last delimiter are not covered by a block")


class Commands(Mon):
    def on_yield(self, I, st, val, node):
        k, v = self.get(st)
        self.slice_yield(I, st, val, k, v, node)
        self.put(st, k, v)

    def iteration(self, I, st, k, v):
        c, pos, prev = k[0], dom.sub(v[self.POS], 1), k[3]
        if prev is not None and prev != c:
            ok = None if k[1] is None else k[1] == 1 and self.rel(st, v[self.START], pos)
            self.check(I, st, "delimiter", "another command", ok, "no block ends where the command changes")
        else:
            self.check(I, st, "delimiter", "same command", None if k[1] is None else k[1] == 0, "a block ends between two equal commands")

    def finish(self, I, st, n):
        k, v = self.get(st)
        self.check(I, st, "coverage", "the last block ends with the list", None if k[1] is None else self.rel(st, v[self.START], n),
                   "the last commands are not covered by a block")


class Stitches(Mon):
    """get_as_stitchblock"""
    def on_append(self, I, st, oid, val, node):
        o = st.heap.get(oid)
        if getattr(o, "label", None) in ("source", "thread", "stitch"):
            return
        k, v = self.get(st)
        it = seq_items(val, st) if isinstance(val, Ref) and getattr(st[val], "label", None) == "stitch" else None
        if it is None or k[0] is None:
            return
        a, b = self.rel(st, it[0], v[self.X]), self.rel(st, it[1], v[self.Y])
        self.check(I, st, "coverage", "the stitch at hand is added", True if a and b else False if a is False or b is False else None,
                   "another entry than the one at hand is added to the block", node)
        k[2] = min(k[2] + 1, 2)
        v[self.PEND] = dom.add(v[self.PEND], 1)
        self.put(st, k, v)

    def on_yield(self, I, st, val, node):
        k, v = self.get(st)
        it = seq_items(val, st)
        o = st[it[0]] if it and len(it) == 2 and isinstance(it[0], Ref) else None
        if not isinstance(o, ListO):
            self.check(I, st, "coverage", "yields (block, thread)", None, "", node)
            return
        n = o.length()
        self.check(I, st, "coverage", "a block holds the stitches since the last one", self.rel(st, n, v[self.PEND]),
                   "a block does not hold exactly the stitches since the block before it", node)
        lo, hi = st.facts.bounds(n) if isinstance(n, Lin) else (n, n)
        self.check(I, st, "coverage", "no empty block", True if lo >= 1 else False if hi <= 0 else None, "an empty block is yielded", node)
        self.thread(I, st, it[1], v[self.NCH], node)
        st[it[0]] = o.rep(label="yielded")
        k[1] = min(k[1] + 1, 2)
        v[self.PEND] = 0
        self.put(st, k, v)

    def iteration(self, I, st, k, v):
        c = k[0]
        if c == self.C["STITCH"]:
            self.check(I, st, "delimiter", "STITCH", k[1] == 0 and k[2] == 1, "a stitch is not added once to the open block")
        else:
            lo, hi = st.facts.bounds(v[self.PEND]) if isinstance(v[self.PEND], Lin) else (v[self.PEND],) * 2
            ok = False if k[2] else True if hi <= 0 else False if lo >= 1 else None
            self.check(I, st, "delimiter", "not a stitch", ok, "another command does not end the block before it")
        if c == self.C["COLOR_CHANGE"]:
            v[self.NCH] = dom.add(v[self.NCH], 1)

    def finish(self, I, st, n):
        k, v = self.get(st)
        lo, hi = st.facts.bounds(v[self.PEND]) if isinstance(v[self.PEND], Lin) else (v[self.PEND],) * 2
        self.check(I, st, "coverage", "the last block is yielded", True if hi <= 0 else False if lo >= 1 else None,
                   "the stitches after the last other command are lost")


class Entries(Mon):
    """get_as_stitches"""
    def on_yield(self, I, st, val, node):
        k, v = self.get(st)
        it = seq_items(val, st)
        if it is None or len(it) < 4 or k[0] is None:
            self.check(I, st, "coverage", "one tuple per entry", None, "", node)
            return
        k[1] = min(k[1] + 1, 2)
        for nm, a, b in (("index", it[0], v[self.POS]), ("x", it[1], v[self.X]), ("y", it[2], v[self.Y]), ("command", it[3], k[0])):
            self.check(I, st, "entry", nm, self.rel(st, a, b), "the %s reported is not the entry's" % nm, node)
        self.put(st, k, v)

    def iteration(self, I, st, k, v):
        self.check(I, st, "coverage", "one tuple per entry", k[1] == 1, "an entry is reported %s" % ("never" if not k[1] else "twice"))

    def finish(self, I, st, n):
        k, v = self.get(st)
        self.check(I, st, "coverage", "all entries are visited", self.rel(st, v[self.POS], n), "not every entry is reported")


class Match(Mon):
    """get_match_commands: arbitrary command asked for"""
    def on_yield(self, I, st, val, node):
        k, v = self.get(st)
        it = seq_items(val, st)
        k[1] = min(k[1] + 1, 2)
        a, b = (self.rel(st, it[0], v[self.X]), self.rel(st, it[1], v[self.Y])) if it and len(it) >= 2 else (None, None)
        self.check(I, st, "entry", "entry", True if a and b else False if a is False or b is False else None,
                   "another entry than the matching one is yielded", node)
        self.put(st, k, v)

    def iteration(self, I, st, k, v):
        self.check(I, st, "coverage", "exactly the matching entries", k[1] == (1 if k[0] == self.want else 0),
                   "an entry is %s" % ("yielded without matching" if k[1] else "not yielded although it matches"))

    def finish(self, I, st, n):
        k, v = self.get(st)
        self.check(I, st, "coverage", "all entries are visited", self.rel(st, v[self.POS], n), "not every entry is visited")


class Count(Mon):
    def on_yield(self, I, st, val, node):
        pass

    def iteration(self, I, st, k, v):
        if k[0] == self.want:
            v[self.NY] = dom.add(v[self.NY], 1)

    def finish(self, I, st, n, res=None):
        k, v = self.get(st)
        self.check(I, st, "count", "result", self.rel(st, res, v[self.NY]), "the count is not the number of such commands")


def setup(root, cls):
    I = load(root)
    C = I.constants("pyembroidery.EmbConstant")
    mon = cls(C, [C[n] for n in VOCAB])
    st = I.base.fork()
    p, st = new_obj(I, st, PAT)
    n = dom.sym("n", True, 0, INF)
    set_attr(st, p, "stitches", st.alloc(ListO("list", (), T(mat=Mat(mon)), (), n, "source")))
    set_attr(st, p, "threadlist", star_list(st, thread_t(I), "threads"))
    mon.setup(st)
    I.part_key = lambda s: s[s.ghost[("it",)]].kind if ("it",) in s.ghost else None
    return I, C, mon, st, p, n


def generator(name, cls, want=None, bounded=0):
    def job(c):
        I, C, mon, st, p, n = setup(c.root, cls)
        mon.name = name
        mon.bounded = bounded
        if bounded:
            mon.vocab = [C[x] for x in SHORT]
        args = []
        if want is not None:
            mon.want = C[want]
            args = [C[want]]
            mon.name = "%s(%s)" % (name, want)
        if bounded:
            mon.name += " up to %d entries" % bounded
        if I.resolve(PAT).lookup(name) is None:
            raise Broken("EmbPattern.%s not found" % name)
        I.mon = mon
        outs = []
        for f, x in I.getattr(p, name, st, None):
            res, exc = I.run(f, args, {}, x)
            for v, s in res:
                if cls is Count:
                    mon.finish(I, s, n, v)
                    continue
                def consume():
                    for z in I.models.iterate(v, s, lambda w, y: [y], None, (None, frozenset())):
                        mon.finish(I, z, n)
                consume()
        for (rule, inst), r in sorted(mon.results.items(), key=str):
            if r is True:
                c.ok(rule, inst)
            elif r is None:
                c.unknown(rule, inst, "not decided")
            else:
                c.bad(rule, inst, "pyembroidery/" + r[0], r[1])
        c.count("iterators analysed")

    def go(c):
        try:
            job(c)
        except (AnalysisError, Budget) as e:
            c.unknown("coverage", name, e)
    return go


def run(ctx):
    jobs = [generator("get_as_colorblocks", Colors), generator("get_as_command_blocks", Commands),
            generator("get_as_stitchblock", Stitches), generator("get_as_stitches", Entries)]
    for cls, name in ((Colors, "get_as_colorblocks"), (Commands, "get_as_command_blocks"), (Stitches, "get_as_stitchblock")):
        jobs.append(generator(name, cls, None, 3 if ctx.tier == "quick" else 4))
    jobs.append(generator("count_stitch_commands", Count, "STITCH", 3))
    for w in ("STITCH", "COLOR_CHANGE", "JUMP"):
        jobs.append(generator("get_match_commands", Match, w))
        jobs.append(generator("count_stitch_commands", Count, w))
    fork_map(ctx, jobs)
