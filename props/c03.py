"""C03: the encoded list stays inside the vocabulary."""
from .enc import *

LEVEL = "proof"
EXPLANATION = EXPL


def run(ctx):
    run_confs(ctx, confs(ctx.tier), ('vocabulary',))
