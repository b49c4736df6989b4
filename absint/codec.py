"""Stitch-record codecs: the bytes a writer emits for one command, as affine
forms of the displacement, and a reader driven by exactly those bytes.

Writer side: the pattern handed to the writer has a command list of unknown
length whose generic element lies one admissible step after its predecessor.
The analysis of the writer's loop yields, per command and per control state of
the writer, the emitted bytes (a *record*).  Reader side: the input stream is
any sequence of those records followed by the trailer; at every record boundary
the commands the reader has produced are compared with the command the record
stands for, and its position with the position written.
"""
from . import dom
from .dom import Lin, INF, ATOMS
from .core import *
from .interp import *
from .harness import *


class StitchMat(object):
    """Element generator of an arbitrary normalised command list."""

    def __init__(self, vocab, rec=None, end=None):
        self.vocab = vocab      # [(command, (lo, hi) step or None)]
        self.rec = rec
        self.end = end          # command that closes the list

    def init(self, I, st):
        if self.rec is not None:
            self.rec.start(I, st)
        return (0, 0)

    def step(self, I, st, extra):
        out = []
        lx, ly = extra[0], extra[1]
        fk = self.rec.key(I, st) if self.rec is not None else None
        for n, (cmd, lim) in enumerate(self.vocab):
            z = st.fork() if n < len(self.vocab) - 1 else st
            if lim is None:
                D = E = 0
            else:
                D = dom.sym("D", True, lim[0], lim[1])
                E = dom.sym("E", True, lim[0], lim[1])
            x, y = dom.add(lx, D), dom.add(ly, E)
            r = z.alloc(ListO("list", (x, y, cmd), None, (), 0, "stitch"))
            if self.rec is not None:
                self.rec.begin(I, z, cmd, D, E, fk)
            out.append((r, (x, y), z))
        return out

    def done(self, I, st, extra):
        if self.rec is not None:
            self.rec.end(I, st)

    def finish(self, I, st, extra):
        if self.rec is not None:
            self.rec.close(I, st)
        if self.end is None:
            return [(None, st)][:0]
        r = st.alloc(ListO("list", (extra[0], extra[1], self.end), None, (), 0, "stitch"))
        return [(r, st)]

    def any(self, I, st):
        x = dom.sym("x", True)
        y = dom.sym("y", True)
        c = T(consts=frozenset(("int", k) for k, _ in self.vocab + [(self.end, None)] if k is not None))
        return [(z.alloc(ListO("list", (x, y, v), None, (), 0, "stitch")), z)
                for v, z in t_values(c, st, I)]

    def copied(self):
        return self


class Record(object):
    def __init__(self, cmd, D, E, items, facts, frm, to):
        self.cmd = cmd
        self.D = D
        self.E = E
        self.items = items
        self.facts = facts      # [(lin, lo, hi)]
        self.frm = frm
        self.to = to
        self._canon = None

    def canon(self):
        if self._canon is None:
            ren = {}

            def lin(v):
                if not isinstance(v, Lin):
                    return v
                # order the terms by what the atoms are, not by when they were made
                ts = sorted((atom(i), str(k)) for i, k in v.t)
                return (str(v.c), tuple(ts))

            def atom(i):
                a = ATOMS[i]
                if a.defn is None or a.defn[0] == "mono":
                    if a.when is not None:
                        if i not in ren:
                            ren[i] = "when"
                            ren[i] = "%x" % hash(repr([[([(atom(j), str(c)) for j, c in k], str(l), str(h)) for k, l, h in s]
                                           for s in a.when]))
                        return "w" + ren[i]
                    if i not in ren:
                        ren[i] = "%s%d" % (a.name, 0 if a.name in ("D", "E") else len(ren))
                    return ren[i]
                return repr((a.defn[0],) + tuple(lin(x) if isinstance(x, Lin) else x for x in a.defn[1:]))
            its = tuple(lin(x) for x in self.items)
            fs = tuple(sorted(repr((lin(f), str(l), str(h))) for f, l, h in self.facts))
            self._canon = repr((self.cmd, lin(self.D), lin(self.E), its, fs, self.frm, self.to))
        return self._canon


class Recorder(Monitor):
    """Collects the records of a writer."""

    def __init__(self):
        self.records = []
        self.prefix = None
        self.suffixes = []
        self.patches = []
        self.problems = []
        self.open_tail = False
        self.seen = set()
        self.loops = set()
        self.nwrites = 0
        self.starts = {}        # loop -> [(position, bytes written before)]
        self.stub = {}

    def key(self, I, st):
        f = st.frame()
        k = []
        for n in sorted(f.vars):
            v = f.vars[n]
            if isinstance(v, bool) or v is None:
                k.append((n, v))
        return tuple(k)

    def on_stream(self, I, st, ref, op, val, node):
        o = st[ref]
        if o.mode != "w":
            return
        d = o.data or ()
        if op == "write":
            off = None
            g = st[st.ghost[("end",)]]
            if g.kind == "end" and ("rec",) not in st.ghost:
                # how far behind the end of the last record
                p = dom.sub(o.pos, g.vals[0])
                p = st.facts.simplify(p) if isinstance(p, Lin) else p
                off = p if isinstance(p, int) else None
            st[ref] = o.rep(data=d + (("w", val, off),))
        elif op == "seek":
            st[ref] = o.rep(data=d + (("seek", val),))

    def on_call(self, I, st, fn, args, kwargs, node):
        f = fn.fn if isinstance(fn, BoundV) else fn
        name = getattr(f, "name", None)
        h = self.stub.get(name)
        if h is not None:
            return h(I, st, fn, args, kwargs)
        return None

    def streams(self, st):
        return [r for r, o in st.heap.items() if isinstance(o, StreamO) and o.mode == "w"]

    def start(self, I, st):
        st[st.ghost[("end",)]] = CellO("open", (0,))
        for r in self.streams(st):
            o = st.heap[r]
            if I.dry == 0:
                pos = st.facts.simplify(o.pos)
                lo, hi = st.facts.bounds(pos) if isinstance(pos, Lin) else (pos, pos)
                self.starts.setdefault(id(I.loop_node), []).append((lo if lo == hi else (lo, hi), o.data))
            st.heap[r] = o.rep(data=())

    def close(self, I, st):
        for r in self.streams(st):
            o = st.heap[r]
            st.heap[r] = o.rep(data=(o.data or ()) + (("end", id(I.loop_node)),))
            st[st.ghost[("end",)]] = CellO("end", (o.pos,))

    def begin(self, I, st, cmd, D, E, fk):
        c = st.ghost.get(("rec",))
        # the list may be iterated by an inner loop of the loop that writes
        st.ghost[("rec",)] = st.alloc(CellO(("rec", cmd, fk), (D, E)))

    def end(self, I, st):
        g = st.ghost.get(("rec",))
        for r in self.streams(st):
            o = st.heap[r]
            data = o.data or ()
            if data and I.dry == 0 and g is not None:
                cell = st[g]
                self.add(I, st, cell.kind[1], cell.vals[0], cell.vals[1], data, cell.kind[2], self.key(I, st))
            elif not data and I.dry == 0 and g is not None:
                cell = st[g]
                self.add(I, st, cell.kind[1], cell.vals[0], cell.vals[1], (), cell.kind[2], self.key(I, st))
            st.heap[r] = o.rep(data=())
        st.ghost.pop(("rec",), None)

    def add(self, I, st, cmd, D, E, data, frm, to):
        items = data_items(I, st, data)
        if items is None:
            self.problems.append((cmd, "record is not a fixed sequence of bytes"))
            return
        items = tuple(st.facts.simplify(x) if isinstance(x, Lin) else x for x in items)
        r = Record(cmd, D, E, items, relevant(st.facts, list(items) + [D, E]), frm, to)
        loop = id(I.loop_node)
        if items:
            self.loops.add(loop)
        r.loop = loop
        if (loop, r.canon()) not in self.seen:
            self.seen.add((loop, r.canon()))
            self.records.append(r)


def data_items(I, st, data):
    """write() values -> tuple of byte values, or None"""
    out = []
    for e in data:
        k, v = e[0], e[1]
        if k != "w":
            return None
        if isinstance(v, bytes):
            out += list(v)
        elif isinstance(v, BytesV):
            it = v.items()
            if it is None:
                return None
            out += list(it)
        elif isinstance(v, str):
            return None
        else:
            return None
    return tuple(out)


def atoms_of(v, out):
    """All atoms reachable from a value through definitions."""
    if isinstance(v, Lin):
        for i, _ in v.t:
            if i in out:
                continue
            out.add(i)
            a = ATOMS[i]
            if a.defn is not None:
                if a.defn[0] == "mono":
                    for j in a.defn[1]:
                        atoms_of(Lin(0, ((j, 1),)), out)
                else:
                    for x in a.defn[1:]:
                        atoms_of(x, out)
            if a.when is not None:
                for side in a.when:
                    for k, l, h in side:
                        atoms_of(Lin(0, tuple(k)), out)
    elif isinstance(v, tuple):
        for x in v:
            atoms_of(x, out)
    return out


def relevant(facts, vals):
    """Facts that speak only about atoms connected with vals."""
    ids = set()
    for v in vals:
        atoms_of(v, ids)
    out = []
    for k, (l, h) in facts.d.items():
        if all(j in ids for j, _ in k):
            out.append((Lin(0, k), l, h))
    return out


class Renamer(object):
    """Fresh copies of the atoms of a record."""

    def __init__(self):
        self.m = {}

    def lin(self, v):
        if not isinstance(v, Lin):
            return v
        r = v.c
        for i, k in v.t:
            r = dom.add(r, dom.scale(self.atom(i), k))
        return r

    def any(self, x):
        if isinstance(x, Lin):
            return self.lin(x)
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        return x

    def atom(self, i):
        if i in self.m:
            return self.m[i]
        a = ATOMS[i]
        if a.defn is None:
            b = dom.fresh(a.name, a.isint, a.lo, a.hi)
            v = Lin(0, ((b.id, 1),))
            self.m[i] = v
            if a.when is not None:
                b.when = tuple(tuple(self.fact(k, l, h) for k, l, h in side) for side in a.when)
            return v
        if a.defn[0] == "mono":
            r = 1
            for j in a.defn[1]:
                r = dom.mul(r, self.atom(j))
            self.m[i] = r
            return r
        v = dom.opaque(a.defn[0], [self.any(x) for x in a.defn[1:]], a.isint, a.lo, a.hi)
        j = v.t[0][0]
        if a.when is not None and ATOMS[j].when is None:
            ATOMS[j].when = tuple(tuple(self.fact(k, l, h) for k, l, h in side) for side in a.when)
        self.m[i] = v
        return v

    def forms(self):
        """What holds of the originals by definition holds of the copies."""
        for key, (l, h) in list(dom.FORMS.items()):
            if all(j in self.m for j, _ in key):
                k, l, h = self.fact(key, l, h)
                if k and k not in dom.FORMS:
                    dom.FORMS[k] = (l, h)

    def fact(self, k, l, h):
        v = self.lin(Lin(0, tuple(k)))
        if not isinstance(v, Lin):
            return ((), l, h)
        key, s, c = dom.formkey(v)
        lo, hi = l - c, h - c
        lo, hi = (lo / s, hi / s) if s > 0 else (hi / s, lo / s)
        return (key, lo, hi)


def run_writer(I, rec, writer, vocab, settings=None, end=None, prep=None, coarse=False):
    """Analyse writer.write(pattern, stream, settings); -> (states, excs)."""
    st = I.base.fork()
    p, st = new_obj(I, st, "pyembroidery.EmbPattern.EmbPattern")
    mat = StitchMat(vocab, rec, end)
    n = dom.sym("n", True, 1, INF)
    set_attr(st, p, "stitches", st.alloc(ListO("list", (), T(mat=mat), (), n, "stitches")))
    if prep is not None:
        st = prep(I, st, p)
    f = st.alloc(StreamO("w", 0, False, (), "out"))
    sv = None
    if settings is not None:
        sv = st.alloc(DictO(dict(settings)))
    st.ghost[("end",)] = st.alloc(CellO("open", (0,)))
    I.mon = rec
    I.part_key = (lambda s: (len(s.frames), rec.key(I, s)) if ("rec",) not in s.ghost else None) if coarse else None
    I.stream_merge = merge_written
    res, exc = I.run(I.resolve("pyembroidery.%s.write" % writer), [p, f, sv], {}, st)
    rec.records = [r for r in rec.records if r.loop in rec.loops]
    for v, s in res:
        it, op, patches = trailer(I, s, s[f].data or (), rec.loops)
        rec.open_tail |= op
        if it not in [x for x, _ in rec.suffixes]:
            rec.suffixes.append((it, s))
            rec.patches.append(patches)
    I.part_key = None
    return res, exc


def trailer(I, st, data, loops):
    """Writes after the last record -> (bytes that directly follow the records,
    whether more follows, [(position, bytes)] written elsewhere)."""
    items, patches = [], []
    op = False
    for i, e in enumerate(data):
        if e[0] == "end" and e[1] in loops:
            data = data[i:]
            break
        if e[0] == "many":
            op = True
    for e in data:
        if e[0] == "many":
            op = True
            break
        if e[0] != "w":
            continue
        b = data_items(I, st, (e,))
        if e[2] is not None and e[2] == len(items) and not op:
            if b is None:
                op = True
                if isinstance(e[1], BytesV) and isinstance(e[1].parts[0], tuple):
                    items += list(e[1].parts[0])
                continue
            items += list(b)
        elif e[2] is not None and e[2] > len(items):
            op = True
        else:
            patches.append((e[2], b))
    return tuple(items), op, patches


def merge_written(m, x, y):
    if x.data == y.data:
        return x.data
    if m.mode == "lossless" and ("rec",) in m.A.ghost:
        raise Reject()
    return (("many", None, None),)


class Mismatch(object):
    def __init__(self, rule, rec, msg, node=None):
        self.rule = rule
        self.rec = rec
        self.msg = msg


EOF = "eof"


class ReaderDriver(Monitor):
    """Feeds any sequence of records to a reader.
    expect(record command) -> list of acceptable event lists; an event list is
    a list of (command, "to" | "at" | None): position after / before the record,
    or any position."""

    def __init__(self, records, suffix, expect, mask, names, pre=()):
        self.records = records
        self.suffix = suffix
        self.expect = expect
        self.mask = mask
        self.names = names
        self.pre = pre
        self.bad = {}
        self.unknown = {}
        self.passed = {}
        self.stub = {}
        self.out = None
        self.ended = set()
        self.early = {}
        self.start = 0          # length of the header
        self.header = {}        # known header bytes
        self.offset_at = None   # header field that holds the start of the records
        self.offset_size = (4, "le")
        self.open_tail = False
        self.why = {}
        self.pool = {}
        self.usual = set()

    # ghost cell: kind ("cur", record index | "start" | "tail", n remaining, event commands)
    #             vals: remaining items ++ event positions ++ (gx, gy, nx, ny)
    def setup(self, st):
        st.ghost[("cur",)] = st.alloc(CellO(("cur", "start", len(self.pre), ()), tuple(self.pre) + (0, 0, 0, 0)))

    def cur(self, st):
        c = st[st.ghost[("cur",)]]
        _, idx, n, ev = c.kind
        m = len(ev)
        return idx, list(c.vals[:n]), [(e, c.vals[n + 2 * i], c.vals[n + 2 * i + 1]) for i, e in enumerate(ev)], \
            list(c.vals[n + 2 * m:])

    def put(self, st, idx, items, events, pos):
        vals = tuple(items) + tuple(z for e in events for z in e[1:]) + tuple(pos)
        st[st.ghost[("cur",)]] = CellO(("cur", idx, len(items), tuple(e[0] for e in events)), vals)

    def on_call(self, I, st, fn, args, kwargs, node):
        f = fn.fn if isinstance(fn, BoundV) else fn
        h = self.stub.get(getattr(f, "name", None))
        if h is not None:
            return h(I, st, fn, args, kwargs)
        return None

    def on_append(self, I, st, oid, val, node):
        o = st.heap.get(oid)
        if not isinstance(o, ListO) or o.label != "events":
            return
        idx, items, ev, pos = self.cur(st)
        e = None
        if isinstance(val, Ref) and isinstance(st[val], ListO) and st[val].star is None and len(st[val].pre) >= 3:
            e = st[val].pre[:3]
        elif isinstance(val, Tup) and len(val.items) >= 3:
            e = val.items[:3]
        new = ((None, "?", "?", True), 0, 0)
        if e is not None and len(ev) <= 12:
            c = st.facts.simplify(e[2]) if isinstance(e[2], Lin) else e[2]
            if isinstance(c, Lin):
                c = dom.band(c, self.mask, st.facts)
                c = st.facts.simplify(c) if isinstance(c, Lin) else c
            c = c & self.mask if isinstance(c, int) else None
            x = e[0] if dom.isnum(e[0]) else None
            y = e[1] if dom.isnum(e[1]) else None
            if c is not None and x is not None and y is not None:
                # judged now: a later join need not keep the facts that decide it
                to = self.verdict(I, st, idx, (x, y), (pos[2], pos[3]))
                at = self.verdict(I, st, idx, (x, y), (pos[0], pos[1]))
                # continue from the reader's own expression of an equal position
                for i, v in ((2, x), (3, y)):
                    d = dom.sub(v, pos[i])
                    if isinstance(d, Lin) and st.facts.bounds(d) == (0, 0):
                        pos[i] = v
                soft = st.trace or (c, to) not in self.usual and not self.feasible(st)
                new = ((c, to, at, soft), x, y)
            elif isinstance(c, int):
                new = ((c, "?", "?", True), 0, 0)
        ev.append(new)
        self.put(st, idx, items, ev, pos)

    def verdict(self, I, st, idx, got, want):
        res = "="
        for nme, g, t in (("x", got[0], want[0]), ("y", got[1], want[1])):
            d = dom.sub(g, t)
            lo, hi = st.facts.bounds(d)
            if lo == hi == 0:
                continue
            if isinstance(d, Lin) and any(ATOMS[i].name == "phi" for i in dom.deps(d, set())):
                res = "?" if res == "=" else res
                continue
            wt = witness(d, st)
            if wt is None:
                res = "?" if res == "=" else res
                continue
            if I.dry == 0:
                self.why.setdefault(idx, "%s off by %s%s" % (nme, d, (" (e.g. %s)" % ", ".join(
                    "%s=%s" % kv for kv in sorted(wt.items(), key=str)[:4])) if wt else ""))
            res = "!"
        return res

    def feasible(self, st):
        return witness(1, st) is not None

    # ---------------------------------------------------------- reading
    def stream_read(self, I, st, ref, n, node):
        if not isinstance(n, int):
            if isinstance(n, Lin):
                n = st.facts.simplify(n)
        if isinstance(n, Lin):
            lo, hi = st.facts.bounds(n)
            if hi - lo <= 4:
                out = []
                for k in range(int(lo), int(hi) + 1):
                    z = st.fork()
                    if I.assume(z, dom.sub(n, k), 0, 0):
                        out += self.stream_read(I, z, ref, k, node)
                return out
        if not isinstance(n, int):
            raise AnalysisError("read(%r) in the record area" % (n,))
        done = []
        todo = [((), st)]
        while todo:
            got, x = todo.pop()
            idx, items, ev, pos = self.cur(x)
            need = n - len(got)
            if idx == "free":
                done += I.models.default_read(ref, n, x, node)
                continue
            if idx == "start":
                r = self.read_prefix(I, x, ref, n, node)
                if r is not None:
                    done += r
                    continue
            if idx == "tail" and self.open_tail and len(items) < need:
                self.put(x, "free", [], ev, pos)
                items = items + [dom.sym("byte", True, 0, 255) for _ in range(need - len(items))]
                done.append((BytesV((tuple(got) + tuple(items),)).simp(), x))
                continue
            if len(items) >= need or (idx == "tail"):
                take = items[:need]
                self.put(x, idx, items[need:], ev, pos)
                got = tuple(got) + tuple(take)
                b = BytesV((got,)).simp() if got else b""
                o = x[ref]
                x[ref] = o.rep(pos=dom.add(o.pos, len(got)))
                done.append((b, x))
                continue
            if items and idx != "tail":
                got = tuple(got) + tuple(items)
            if got and idx not in ("start",):
                self.note_bad(I, x, "framing", idx, "the reader's read of %d bytes runs past the end of the record "
                              "(%d bytes) for %s" % (n, len(got), self.name(idx)))
                continue
            # at a record boundary
            self.boundary(I, x, idx, ev, pos)
            gx, gy, nx, ny = pos
            if isinstance(idx, int) and ev and ev[-1][0][1] != "?":
                # judged at the event; go on from where the reader is
                nx, ny = ev[-1][1:]
            # (the values consumed for the last record are dead from here on)
            self.put(x, "between", [], [], [nx, ny, nx, ny])
            I.gc_facts(x)
            x.truth = {}
            live = I.live_atoms(x)
            for j, r in enumerate(self.records):
                if isinstance(idx, int) and not self.follows(self.records[idx], r):
                    continue
                if idx == "start" and r.frm is not None and not self.first(r):
                    continue
                if not r.items:
                    continue
                y = x.fork()
                y.trace = False
                its, D, E, facts = self.copy_of(j, live)
                ok = True
                for f, l, h in facts:
                    if not I.assume(y, f, l, h):
                        ok = False
                        break
                if not ok:
                    continue
                self.put(y, j, its, [], [nx, ny, dom.add(nx, D), dom.add(ny, E)])
                todo.append((got, y))
            y = x.fork()
            y.trace = False
            self.put(y, "tail", list(self.suffix), [], [nx, ny, nx, ny])
            todo.append((got, y))
        return done

    def read_prefix(self, I, st, ref, n, node):
        """Bytes before the record area."""
        o = st[ref]
        p = st.facts.simplify(o.pos)
        if isinstance(self.start, Lin):
            d = dom.sub(p, self.start)
            if (st.facts.bounds(d) if isinstance(d, Lin) else (d, d)) == (0, 0):
                return None
        elif isinstance(p, int):
            if p > self.start and I.dry == 0:
                raise AnalysisError("reader starts at byte %d, records start at %d" % (p, self.start))
            if p >= self.start:
                return None
            if p + n > self.start:
                self.note_bad(I, st, "framing", "start", "a read of %d bytes at %d runs past the header (%d bytes)"
                              % (n, p, self.start))
                return []
        if not isinstance(p, int):
            # a read loop somewhere in the header: any bytes
            st[ref] = o.rep(pos=dom.add(o.pos, n))
            its = tuple(dom.sym("byte", True, 0, 255) for _ in range(n))
            return [(BytesV((its,)).simp(), st)]
        st[ref] = o.rep(pos=p + n)
        if n > 64 and not any(p <= k < p + n for k in self.header):
            return [(BytesV((BAtom(("chunk", newid()), n),)), st)]
        its = tuple(self.header[k] if k in self.header else dom.sym("byte", True, 0, 255) for k in range(p, p + n))
        return [(BytesV((its,)).simp(), st)]

    def stream_seek(self, I, st, ref, p, wh, node):
        idx, items, ev, pos = self.cur(st)
        o = st[ref]
        if isinstance(p, Lin):
            p = st.facts.simplify(p)
        if idx in ("tail", "free") and wh == 1 and isinstance(p, int) and p >= 0:
            self.put(st, idx, items[p:], ev, pos)
            q = dom.add(o.pos, p)
        elif idx == "start":
            q = p if wh == 0 else dom.add(o.pos, p)
            if wh == 2:
                raise AnalysisError("seek from the end in the header")
        elif idx in ("tail", "free"):
            self.put(st, "free", [], ev, pos)
            q = p if wh == 0 else dom.sym("pos", True, 0, INF)
        elif wh == 1 and isinstance(p, int) and p >= 0:
            if p > len(items):
                self.note_bad(I, st, "framing", idx, "the reader skips %d bytes past the end of the record for %s"
                              % (p - len(items), self.name(idx)))
                return []
            self.put(st, idx, items[p:], ev, pos)
            q = dom.add(o.pos, p)
        else:
            raise AnalysisError("seek inside the record area")
        st[ref] = o.rep(pos=q)
        return [(q, st)]

    def copy_of(self, j, live):
        """The record over unknowns that are not in use."""
        r = self.records[j]
        pool = self.pool.setdefault(j, [])
        for c in pool:
            if not (c[4] & live):
                return c[:4]
        rn = Renamer()
        its = [rn.lin(i) for i in r.items]
        D, E = rn.lin(r.D), rn.lin(r.E)
        facts = [(rn.lin(f), l, h) for f, l, h in r.facts]
        rn.forms()
        ids = set()
        for v in its + [D, E]:
            atoms_of(v, ids)
        pool.append((its, D, E, facts, frozenset(ids)))
        return pool[-1][:4]

    def follows(self, a, b):
        return a.to is None or b.frm is None or a.to == b.frm

    def first(self, r):
        return True

    def name(self, idx):
        if isinstance(idx, int):
            return self.names.get(self.records[idx].cmd, self.records[idx].cmd)
        return idx

    def note_bad(self, I, st, rule, idx, msg):
        if I.dry == 0:
            self.bad.setdefault((rule, self.name(idx)), msg)

    def boundary(self, I, st, idx, ev, pos):
        """Check the events of the record just consumed."""
        if I.dry or idx in ("tail", "free"):
            return
        if idx == "start":
            want = [[]]
        else:
            want = self.expect(self.records[idx].cmd)
        nm = self.name(idx)
        r = self.match(I, st, ev, want, pos, idx)
        if r is True:
            self.passed[nm] = self.passed.get(nm, 0) + 1
        elif r is None:
            self.unknown.setdefault(nm, "events %s not related to the written position" % (self.show(ev),))
        else:
            self.bad.setdefault(("event", nm), r)

    def show(self, ev):
        return "[" + ", ".join("%s(%s, %s)" % (self.names.get(c[0], c[0]), x, y) for c, x, y in ev) + "]"

    def match(self, I, st, ev, want, pos, idx):
        if any(c[0] is None for c, _, _ in ev):
            return None
        shapes = [w for w in want if callable(w) or [k[0] for k in w] == [c[0] for c, _, _ in ev]]
        if not shapes:
            if any(c[3] for c, _, _ in ev) or (not ev and (st.trace or not self.feasible(st))):
                return None
            return "%s is read back as %s" % (self.name(idx), self.show(ev) if ev else "nothing")
        res = []
        for w in shapes:
            if callable(w):
                r = w(I, st, ev, pos)
                if r is True:
                    return True
                res.append(r)
                continue
            vs = [({"to": vt, "at": va}.get(at) or (vt if vt != "=" else va), soft) for (c, at), ((_, vt, va, soft), _, _) in zip(w, ev) if at]
            if all(v == "=" for v, _ in vs):
                return True
            bad = [s for v, s in vs if v == "!"]
            res.append("%s is read back with %s" % (self.name(idx), self.why.get(idx, "another position"))
                       if bad and not any(s for _, s in vs) else None)
        if all(isinstance(r, str) for r in res):
            return res[0]
        return None


def witness(d, st):
    """A point of the state where the form is not zero (its inputs), or None."""
    ne = [k[1] for k, v in st.truth.items() if isinstance(k, tuple) and k and k[0] == "ne" and v and isinstance(k[1], Lin)]
    if isinstance(d, Lin):
        return dom.differs(d, st.facts, ne=ne)
    if d == 0:
        return None
    return dom.differs(1, st.facts, ne=ne)


def drive_reader(I, drv, fnname, settings=None, cmds=None, args=None, prep=None):
    st = I.base.fork()
    p, st = new_obj(I, st, "pyembroidery.EmbPattern.EmbPattern")
    s0 = st[get_attr(st, p, "stitches")]
    st[get_attr(st, p, "stitches")] = s0.rep(label="events")
    if prep is not None:
        st = prep(I, st, p)
    f = st.alloc(StreamO("r", 0, False, None, "in"))
    drv.setup(st)
    if drv.offset_at is not None:
        # the header states where the records start
        S = dom.sym("offset", True, 0x100, (1 << 31) - 1)
        drv.start = S
        size, order = drv.offset_size
        bs = [dom.sub(dom.shr(S, 8 * k, st.facts), dom.mul(dom.shr(S, 8 * k + 8, st.facts), 256)) for k in range(size)]
        for k, b in enumerate(bs if order == "le" else bs[::-1]):
            drv.header[drv.offset_at + k] = b
    I.mon = drv
    I.models.stream_read = drv.stream_read
    I.stream_seek = drv.stream_seek
    I.part_key = lambda s: ("header", len(s.frames)) if drv.cur(s)[0] == "start" else None
    try:
        a = [f, p, None] if args is None else args(st, f, p)
        res, exc = I.run(I.resolve(fnname), a, {}, st)
    finally:
        I.models.stream_read = None
        I.stream_seek = None
        I.part_key = None
        I.mon = Monitor()
    return res, exc, p
