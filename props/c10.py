"""C10: PEC stitch encoding (the stitch block of PEC and PES files)."""
from .codecs import *

LEVEL = "proof"
EXPLANATION = EXPL


def run(ctx):
    vocab = [("STITCH", "step"), ("JUMP", "step"), ("TRIM", None), ("COLOR_CHANGE", None), ("STOP", None)]
    t = table(STITCH=ev([("STITCH", "to")], [("STITCH", "at"), ("STITCH", "to")]),
              COLOR_CHANGE=ev([("COLOR_CHANGE", "at")], [("STITCH", "at"), ("COLOR_CHANGE", "at")]),
              JUMP=ev([("JUMP", "to")], [("TRIM", "at"), ("JUMP", "to")]))
    pec = Fmt("PEC", "PecWriter", "PecReader.read_pec_stitches", 2047, vocab, t, stubs=palette_stubs,
              reader_args=lambda st, f, p: [f, p], start=0, silent=("STOP", "TRIM"))
    run_formats(ctx, [pec])
