"""C11: EXP and JEF stitch encoding."""
from .codecs import *

LEVEL = "proof"
EXPLANATION = EXPL
EITHER = ev([("COLOR_CHANGE", "at")], [("STOP", "at")])


def run(ctx):
    base = dict(STITCH=ev([("STITCH", "to")]), JUMP=ev([("JUMP", "to")]),
                TRIM=ev([("TRIM", "at")], [("JUMP", None)] * 3))
    vocab = [("STITCH", "step"), ("JUMP", "step"), ("TRIM", None), ("COLOR_CHANGE", None), ("STOP", None)]
    exp = Fmt("EXP", "ExpWriter", "ExpReader.read_exp_stitches", 127, vocab,
              table(COLOR_CHANGE=EITHER, STOP=EITHER, **base), reader_args=lambda st, f, p: [f, p])
    jef = Fmt("JEF", "JefWriter", "JefReader.read", 127, vocab,
              table(COLOR_CHANGE=EITHER, STOP=EITHER, **base), stubs=palette_stubs, offset_at=0,
              settings={"trims": True}, reader_stubs=("get_thread_set",))
    run_formats(ctx, [exp, jef])
