"""C01: saving a pattern leaves the pattern, its threads and the settings passed alone."""
from .own import *

LEVEL = "proof"
EXPLANATION = ("Effect analysis by abstract interpretation: write_embroidery is interpreted with every writer supported_formats names, on an "
               "arbitrary pattern (any number of entries and threads) whose pattern object, command list, entries, thread list, threads, "
               "metadata and the settings passed carry an ownership label; no assignment, deletion, insertion or in-place method may reach a labelled "
               "object.  The encoder is interpreted the same way on its own.")
VOCAB = ("STITCH", "JUMP", "TRIM", "STOP", "COLOR_CHANGE", "END", "NEEDLE_SET", "SEQUIN_EJECT", "SEQUIN_MODE", "SLOW", "FAST")
CONFS = (("as set by the writer", {}), ("encode off", {"encode": False}), ("encode on", {"encode": True}))


def writers(I):
    return sorted((d["extension"], d["writer"]) for d, _ in formats(I) if "writer" in d)


def save(ctx, ext, conf):
    name, settings = conf
    I = load(ctx.root, merge="join", head_cap=2, budget=1500000)
    inst = "%s, %s" % (ext, name)
    col = Collect()
    mon = Save(col)
    C = I.constants("pyembroidery.EmbConstant")
    mon.cmds = [C[c] for c in VOCAB]
    w = dict(writers(I))[ext]
    I.mon, I.stream_merge = mon, strip
    st = I.base.fork()
    p, st = source_pattern(I, st, mon.cmds, True, 1)
    f = st.alloc(StreamO("w", 0, False, (), "out"))
    d = st.alloc(DictO(dict(settings), None, label="caller's settings"))
    done = 0
    try:
        for fn, x in I.getattr(I.resolve(PAT), "write_embroidery", st, None):
            res, exc = I.run(fn, [w, p, f, d], {}, x)
            done += len(res)
    except (AnalysisError, Budget) as e:
        ctx.unknown("effects", inst, e)
        done = -1
    report(ctx, col, inst, "saving")
    if done > 0 and not col.seen:
        ctx.ok("effects", inst)
    elif not done:
        ctx.unknown("effects", inst, "no way to the end of the writer")
    ctx.count("changes of objects examined", mon.events)


def report(ctx, col, inst, what):
    for (label, fn, how), where in sorted(col.seen.items()):
        ctx.bad("effects", "%s: %s in %s" % (inst, label, fn), where, "%s (%s): %s of a %s of the caller" % (what, inst, how, label))


def encode(ctx, settings):
    I = load(ctx.root, merge="join", head_cap=2, budget=1500000)
    inst = "encoder %r" % (settings,)
    col = Collect()
    mon = Encode(col)
    I.forget = True
    C = I.constants("pyembroidery.EmbConstant")
    I.mon = mon
    st = I.base.fork()
    p, st = source_pattern(I, st, sorted(commands(I)), True, 0)
    d = st.alloc(DictO(dict(settings), None, label="caller's settings"))
    ok = False
    try:
        res, exc = meth(I, st, p, "get_normalized_pattern", [d])
        ok = bool(res)
        for q, s in res:
            shared = reach(s, q) & set(SRC) - {"source thread"}
            for l in sorted(shared):
                ctx.bad("sharing", "%s: %s" % (inst, l), "pyembroidery.EmbEncoder", "the encoded pattern holds a %s of the caller" % l)
                ok = False
    except (AnalysisError, Budget) as e:
        ctx.unknown("effects", inst, e)
        return
    report(ctx, col, inst, "encoding")
    if ok and not col.seen:
        ctx.ok("effects", inst)
    ctx.count("changes of objects examined", mon.events)


def run(ctx):
    I = load(ctx.root, merge="join", head_cap=2)
    ws = writers(I)
    if not ws:
        raise Broken("supported_formats names no writer")
    ctx.count("writers", len(ws))
    jobs = [lambda c, e=e, k=k: save(c, e, k) for k in CONFS for e, _ in ws]
    jobs += [lambda c, s=s: encode(c, s) for s in ({}, {"long_stitch_contingency": -1}, {"max_stitch": 100, "max_jump": 120, "full_jump": True})]
    fork_map(ctx, jobs)
