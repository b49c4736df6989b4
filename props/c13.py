"""C13: XXX, U01 and TBF stitch encoding."""
from .codecs import *

LEVEL = "proof"
EXPLANATION = EXPL
EITHER = ev([("COLOR_CHANGE", "at")], [("STOP", "at")])


def run(ctx):
    base = dict(STITCH=ev([("STITCH", "to")]), COLOR_CHANGE=EITHER, STOP=EITHER,
                TRIM=ev([("TRIM", "at")], [("JUMP", None)] * 3))
    common = [("STITCH", "step"), ("JUMP", "step"), ("TRIM", None), ("STOP", None)]
    vocab = common + [("COLOR_CHANGE", None)]
    jump = ev([("JUMP", "to")])
    # the encoder writes thread changes of U01 and TBF as needle changes
    needles = range(1, 15) if ctx.tier == "thorough" else (1, 2, 7, 14)
    nd = common + [(("NEEDLE_SET", n), None) for n in needles]
    xxx = Fmt("XXX", "XxxWriter", "XxxReader.read", 124, vocab, table(JUMP=jump, **base))
    u01 = Fmt("U01", "U01Writer", "U01Reader.read", 127, nd, table(JUMP=jump, **base), mask=0x00FF00FF)
    # TBF has one code for "jump" and "trim": a zero jump is a trim
    t = dict(base)
    t.pop("COLOR_CHANGE")
    tab = table(JUMP=ev([("JUMP", "to")], [("TRIM", "both")]), **t)
    # the needle of a change is looked up in a table of the header
    tbf = Fmt("TBF", "TbfWriter", "TbfReader.read", 127, common + [(("NEEDLE_SET", 1), None)],
              lambda c, C: ev([("NEEDLE_SET", "at")], [("STOP", "at")])(C) if c & ~0xFF else tab(c, C))
    run_formats(ctx, [xxx, u01, tbf])
