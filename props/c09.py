"""C09: DST stitch encoding."""
from .codecs import *

LEVEL = "proof"
EXPLANATION = EXPL
EITHER = ev([("COLOR_CHANGE", "at")], [("STOP", "at")])


def run(ctx):
    base = dict(STITCH=ev([("STITCH", "to")]), COLOR_CHANGE=EITHER, STOP=EITHER, JUMP=ev([("JUMP", "to")]),
                TRIM=ev([("TRIM", "at")], [("JUMP", None)] * 3))
    vocab = [("STITCH", "step"), ("JUMP", "step"), ("TRIM", None), ("COLOR_CHANGE", None), ("STOP", None)]
    dst = Fmt("DST", "DstWriter", "DstReader.read", 121, vocab, table(**base), stubs=palette_stubs)
    run_formats(ctx, [dst])
