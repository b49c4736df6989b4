"""Shared by the format checks: the records a writer emits for one command,
handed to the reader of the same format."""
import os
import time
from .util import *
from absint.codec import *

EXPL = ("Abstract interpretation of the writer on a command list of unknown length whose generic element is any admitted "
        "command one admissible (symbolic, integral) step after its predecessor: every path of the writer's loop yields the "
        "bytes of one record as affine / bit-field forms of the step, with the path's facts.  The reader of the same format "
        "is then interpreted on the header and any sequence of those records and the trailer; at every record boundary the "
        "commands it appended are compared with the command the record stands for and the positions with the position "
        "written (difference of forms, exactly zero).  By induction over the list this covers command lists of every "
        "length and every displacement inside the step limit; tests sample a few designs.")


class Fmt(object):
    """One way of writing a format and reading it back."""

    def __init__(self, name, writer, reader, limit, vocab, expect, **kw):
        self.name, self.writer, self.reader, self.limit = name, writer, reader, limit
        self.vocab, self.expect = vocab, expect
        self.settings = kw.get("settings", {})
        self.stubs = kw.get("stubs")            # f(rec, I) -> prep
        self.reader_stubs = kw.get("reader_stubs", ())
        self.offset_at = kw.get("offset_at")
        self.reader_args = kw.get("reader_args")
        self.start = kw.get("start")
        self.silent = kw.get("silent", ())      # commands that need not be written
        self.tail = kw.get("tail", True)
        self.mask = kw.get("mask")
        self.header = kw.get("header", {})
        self.nocheck_exc = kw.get("nocheck_exc", False)
        self.quiet_exc = kw.get("quiet_exc", ())


def stub_none(I, st, fn, a, k):
    return [(None, st)]


def palette_stubs(rec, I):
    """Palette search, thread lists and drawings are not part of the stitch
    encoding: their results are arbitrary values of the right shape."""
    tt = thread_t(I)
    S = rec.stub
    S["find_nearest_color_index"] = lambda I, st, fn, a, k: [(dom.sym("nearest", True, 0, 70), st)]
    S["get_thread_set"] = lambda I, st, fn, a, k: [(st.alloc(ListO("list", (), tt, (), 79)), st)]
    for n in ("fix_color_count", "interpolate_stop_as_duplicate_color", "draw_scaled"):
        S[n] = stub_none
    for n in ("get_as_colorblocks", "get_as_stitchblock"):
        S[n] = lambda I, st, fn, a, k: [(st.alloc(ListO("list", (), None, (), 0)), st)]
    S["build_unique_palette"] = lambda I, st, fn, a, k: [
        (st.alloc(ListO("list", (), T(num=(True, 0, 70)), (), dom.sym("n", True, 0, 250))), st)]
    S["get_blank"] = lambda I, st, fn, a, k: [(st.alloc(ListO("list", (0,), T(num=(True, 0, 255)), (), 227)), st)]

    def prep(I, st, p):
        set_attr(st, p, "threadlist", star_list(st, tt, "threads"))
        return st
    return prep


def check_format(ctx, I, fm):
    C = I.constants("pyembroidery.EmbConstant")
    names = dict(commands(I))

    def code(c):
        if isinstance(c, tuple):        # needle change to a given needle
            v = C[c[0]] | (c[1] + 1) << 16
            names[v] = "%s %d" % c
            return v
        return C[c]
    need = set(code(c) for c, _ in fm.vocab)
    rec = Recorder()
    prep = fm.stubs(rec, I) if fm.stubs else None
    inst = lambda c: "%s %s" % (fm.name, names.get(c, c))
    wfile = "pyembroidery/%s.py" % fm.writer
    rfile = "pyembroidery/%s.py" % fm.reader.split(".")[0]
    if not isinstance(I.resolve("pyembroidery.%s.write" % fm.writer), FnV):
        raise Broken("%s.write not found" % fm.writer)
    if not isinstance(I.resolve("pyembroidery." + fm.reader), FnV):
        raise Broken("%s not found" % fm.reader)
    vocab = [(code(c), (-fm.limit, fm.limit) if lim == "step" else lim) for c, lim in fm.vocab]
    try:
        res, exc = run_writer(I, rec, fm.writer, vocab, fm.settings, end=C["END"], prep=prep, coarse=True)
    except (AnalysisError, Budget) as e:
        for c in sorted(need):
            ctx.unknown("records", inst(c), "writer: %s" % e)
        return None
    for s, e in exc:
        if e.definite and not fm.nocheck_exc and not s.trace and witness(1, s) is not None:
            ctx.bad("writes", "%s %s" % (fm.name, e.name), e.where(), "writing raises %s: %s" % (e.name, e.msg))
    if not res or not rec.suffixes:
        ctx.unknown("records", fm.name, "no complete path through the writer")
        return None
    if rec.problems:
        for p in list(rec.problems)[:3]:
            ctx.unknown("records", fm.name, str(p))
    ctx.count("records of writers", len(rec.records))
    seen = {}
    for r in rec.records:
        seen.setdefault(r.cmd, []).append(r)
    for c in sorted(need):
        if names.get(c) in fm.silent:
            continue
        rs = seen.get(c, [])
        empty = [r for r in rs if not r.items]
        if not rs or len(empty) == len(rs):
            ctx.bad("records", inst(c), wfile, "%s is not written" % names.get(c, c))
        else:
            ctx.ok("records", inst(c))
    starts = [p for k, v in rec.starts.items() if k in rec.loops for p, _ in v]
    start = fm.start
    if start is None and fm.offset_at is None:
        ss = set(p if isinstance(p, int) else p[0] for p in starts)
        if len(ss) != 1:
            for c in sorted(need):
                ctx.unknown("events", inst(c), "records start at %s" % sorted(ss))
            return None
        start = ss.pop()
    drv = ReaderDriver(rec.records, rec.suffixes[0][0], lambda c: fm.expect(c, C), fm.mask or C["COMMAND_MASK"], names)
    drv.open_tail = rec.open_tail
    drv.header = dict(fm.header)
    if fm.offset_at is not None:
        drv.offset_at = fm.offset_at
    else:
        drv.start = start
    drv.stub["interpolate_trims"] = stub_none
    for n in fm.reader_stubs:
        drv.stub[n] = rec.stub.get(n, stub_none)
    try:
        res, exc, p = drive_reader(I, drv, "pyembroidery." + fm.reader, args=fm.reader_args)
    except (AnalysisError, Budget) as e:
        for c in sorted(need):
            ctx.unknown("events", inst(c), "reader: %s" % e)
        return None
    for (rule, nm), msg in sorted(drv.bad.items(), key=str):
        ctx.bad(rule, "%s %s" % (fm.name, nm), rfile, msg)
    bad = set(nm for _, nm in drv.bad)
    for nm, msg in sorted(drv.unknown.items(), key=str):
        if nm not in bad:
            ctx.unknown("events", "%s %s" % (fm.name, nm), msg)
    for nm in sorted(drv.passed, key=str):
        if nm not in bad and nm not in drv.unknown and nm != "start":
            ctx.ok("events", "%s %s" % (fm.name, nm))
            ctx.count("record boundaries checked", drv.passed[nm])
    for s, e in exc:
        if not e.definite or e.name in fm.quiet_exc:
            continue
        idx = drv.cur(s)[0]
        if isinstance(idx, int) and not s.trace and drv.feasible(s):
            ctx.bad("events", "%s %s" % (fm.name, drv.name(idx)), e.where(), "reading %s raises %s: %s" % (
                drv.name(idx), e.name, e.msg))
    # the reader stops at the end of the records, not before
    tails = 0
    for v, s in res:
        idx, items, ev, pos = drv.cur(s)
        if idx in ("tail", "free", "start"):
            tails += 1
            if idx == "tail" and fm.tail:
                codes = [c[0] for c, _, _ in ev]
                if codes == [C["END"]]:
                    ctx.ok("end", "%s end" % fm.name)
                elif any(c is None for c in codes) or s.trace or any(c[3] for c, _, _ in ev):
                    ctx.unknown("end", fm.name, "events %s after the last record" % codes)
                else:
                    ctx.bad("end", "%s end" % fm.name, rfile, "after the last record the reader adds %s instead of END"
                            % drv.show(ev))
        elif isinstance(idx, int):
            if s.trace or not drv.feasible(s):
                ctx.unknown("end", fm.name, "may stop at %s" % drv.name(idx))
            else:
                ctx.bad("end", "%s %s" % (fm.name, drv.name(idx)), rfile,
                        "the reader stops in the middle of the commands, at a record for %s" % drv.name(idx))
    if not tails:
        ctx.unknown("end", fm.name, "no path reaches the end of the records")
    return rec


def run_formats(ctx, fmts):
    def job(fm):
        def go(c):
            t = time.time()
            check_format(c, load(c.root), fm)
            c.note("%s: %.1f s" % (fm.name, time.time() - t))
            if os.environ.get("VERIF_DEBUG"):
                print(c.notes[-1], flush=True)
        return go
    fork_map(ctx, [job(fm) for fm in fmts])


def ev(*alts):
    """ev(("STITCH","to")) -> function of C giving acceptable event lists."""
    return lambda C: [[(C[c], at) for c, at in a] for a in alts]


def table(**kw):
    def f(cmd, C):
        if cmd & ~0xFF:
            return [[(cmd, "at")]]
        for k, v in kw.items():
            if C[k] == cmd:
                return v(C)
        return []
    return f
