"""C04: exactly one END, last."""
from .enc import *

LEVEL = "proof"
EXPLANATION = EXPL


def run(ctx):
    run_confs(ctx, confs(ctx.tier), ('end',))
