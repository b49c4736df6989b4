"""C05: every source command keeps its place and contribution."""
from .enc import *

LEVEL = "proof"
EXPLANATION = EXPL


def run(ctx):
    run_confs(ctx, confs(ctx.tier), ('contribution', 'position', 'place'))
