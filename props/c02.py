"""C02: patterns derived from a pattern are independent of it."""
from .own import *
from .c01 import report

LEVEL = "proof"
EXPLANATION = ("Ownership analysis by abstract interpretation: every method that derives a pattern is interpreted on an arbitrary source pattern whose "
               "list, entries, metadata and threads carry an ownership label.  No path may assign to a labelled object, and nothing reachable from "
               "the result may be labelled: later changes of either pattern then cannot reach the other.  Threads may be shared except by "
               "deepcopy.")
COMMON = ("STITCH", "JUMP", "TRIM", "STOP", "COLOR_CHANGE", "END", "NEEDLE_SET", "SEQUIN_EJECT", "COLOR_BREAK", "MATRIX_TRANSLATE", "NO_COMMAND")


def source(I, st, lo=0):
    C = I.constants("pyembroidery.EmbConstant")
    return source_pattern(I, st, [C[c] for c in COMMON], True, lo)


def other(I, st):
    C = I.constants("pyembroidery.EmbConstant")
    return source_pattern(I, st, [C[c] for c in COMMON], False, 0)


def by_method(name, *args):
    return lambda I, st, p: I_meth(I, st, p, name, list(args))


def I_meth(I, st, p, name, args):
    return meth(I, st, p, name, args)[0]


def construct(I, st, p):
    return I.run(I.resolve(PAT), [p], {}, st)[0]


def deep(I, st, p):
    out = []
    for f, x in I.getattr(p, "__deepcopy__", st, None):
        m = x.alloc(DictO({}, None))
        out += I.run(f, [m], {}, x)[0]
    return out


def added(kw):
    def go(I, st, p):
        q, st = other(I, st)
        out = []
        for f, x in I.getattr(q, "add_pattern", st, None):
            out += [(q, s) for _, s in I.run(f, [p], dict(kw), x)[0]]
        return out
    return go


def plus(I, st, p):
    q, st = other(I, st)
    return meth(I, st, q, "__iadd__", [p])[0]


def summed(left):
    def go(I, st, p):
        q, st = other(I, st)
        return meth(I, st, p if left else q, "__add__", [q if left else p])[0]
    return go


def stringy(I, st, p):
    s = fresh_str("setting", 0, INF, False)
    return s


DERIVE = (
    ("EmbPattern(p)", "__init__", construct, True),
    ("p.copy()", "copy", by_method("copy"), True),
    ("copy.copy(p)", "__copy__", by_method("__copy__"), True),
    ("copy.deepcopy(p)", "__deepcopy__", deep, False),
    ("q.add_pattern(p)", "add_pattern", added({}), True),
    ("q.add_pattern(p, dx, dy, sx, sy, rotate)", "add_pattern", added({"dx": 5, "dy": 6, "sx": 2, "sy": 3, "rotate": 45}), True),
    ("q += p", "__iadd__", plus, True),
    ("p + q", "__add__", summed(True), True),
    ("q + p", "__add__", summed(False), True),
    ("p.get_stable_pattern()", "get_stable_pattern", by_method("get_stable_pattern"), True),
    ("p.get_pattern_merge_jumps()", "get_pattern_merge_jumps", by_method("get_pattern_merge_jumps"), True),
    ("p.get_pattern_interpolate_trim(3)", "get_pattern_interpolate_trim", by_method("get_pattern_interpolate_trim", 3), True),
    ("p.get_normalized_pattern()", "get_normalized_pattern", by_method("get_normalized_pattern"), True),
)
# questions about a pattern: no effect on it
ASK = (("count_stitch_commands", [0]), ("count_color_changes", []), ("count_stitches", []), ("count_threads", []), ("bounds", []), ("extents", []),
       ("get_singleton_threadlist", []), ("get_unique_threadlist", []), ("get_metadata", ["name"]), ("get_thread_or_filler", [0]),
       ("get_thread", [0]), ("get_thread_count", []), ("get_match_commands", [0]), ("get_as_stitchblock", []), ("get_as_command_blocks", []),
       ("get_as_colorblocks", []), ("get_as_stitches", []), ("__str__", []), ("__len__", []))


def derive(ctx, row):
    what, name, go, shares = row
    I = load(ctx.root, merge="join", head_cap=2, budget=1500000)
    col = Collect()
    I.mon = Encode(col)
    I.forget = True
    cls = I.resolve(PAT)
    if not cls.lookup(name):
        ctx.note("method %s not present" % name)
        return
    st = I.base.fork()
    p, st = source(I, st)
    bad = False
    try:
        res = go(I, st, p)
    except (AnalysisError, Budget) as e:
        ctx.unknown("independent", what, e)
        return
    ends = 0
    for q, s in res:
        if not isinstance(q, (Ref, Choice)):
            continue
        ends += 1
        shared = reach(s, q) & set(SRC)
        if shares:
            shared -= {"source thread"}
        for l in sorted(shared):
            bad = True
            ctx.bad("independent", "%s: %s" % (what, l), name, "what %s returns holds the %s itself: changing one changes the other" % (what, l))
    report(ctx, col, what, "deriving a pattern")
    if not ends:
        ctx.unknown("independent", what, "no result found")
    elif not bad and not col.seen:
        ctx.ok("independent", what)
    ctx.count("changes of objects examined", I.mon.events)


def ask(ctx, row):
    name, args = row
    I = load(ctx.root, merge="join", head_cap=2, budget=600000)
    col = Collect()
    I.mon = Encode(col)
    I.forget = True
    cls = I.resolve(PAT)
    if not cls.lookup(name):
        ctx.note("method %s not present" % name)
        return
    st = I.base.fork()
    p, st = source(I, st)
    try:
        res, _ = meth(I, st, p, name, args)
        for v, s in res:
            if isinstance(v, GenV):
                list(I.models.iterate(v, s, lambda w, z: [z], None, (None, frozenset())))
    except (AnalysisError, Budget) as e:
        ctx.unknown("question", name, e)
        return
    report(ctx, col, name, "asking")
    if res and not col.seen:
        ctx.ok("question", name)


def run(ctx):
    jobs = [lambda c, r=r: derive(c, r) for r in DERIVE[::-1]] + [lambda c, r=r: ask(c, r) for r in ASK]
    fork_map(ctx, jobs)
    ctx.count("ways to derive a pattern", len(DERIVE))
    ctx.count("questions", len(ASK))
