"""C06: sequins only inside sequin mode."""
from .enc import *

LEVEL = "proof"
EXPLANATION = EXPL


def run(ctx):
    run_confs(ctx, confs(ctx.tier), ('sequin',))
