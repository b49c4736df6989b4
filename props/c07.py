"""C07: threads match thread changes."""
from .enc import *

LEVEL = "proof"
EXPLANATION = EXPL


def run(ctx):
    run_confs(ctx, confs(ctx.tier), ('threads',))
