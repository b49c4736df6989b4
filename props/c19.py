"""C19: what a reader returns is a well-formed pattern that ends with END."""
from .readers import *
from .c18 import over

LEVEL = "proof"
EXPLANATION = ("Abstract interpretation of every reader on an arbitrary file (which may end anywhere), with typestate for the command list: every entry "
               "appended on any path has numbers for coordinates and a known command, nothing follows END, and on every path that returns END has been appended if anything was. "
               "Entries appended while the input is at its end are violations for the formats that store one record per command.")
CUT_FAIL = ("bro", "pmv", "shv", "spx", "xxx")
CUT_NOT = ("hus", "xxx", "csv", "json", "gcode")


def run(ctx):
    over(ctx, judge)
    ctx.assumptions.append("the pattern's interpolate_ heuristics that some readers end with are not part of this (C19 looks at what is read from the file)")


def judge(ctx, ext, R):
    m = R.m
    if ext in COLORS:
        return
    ctx.count("appending statements seen", m.appends)
    if not m.appends:
        ctx.unknown("entry", R.mod, "no entry is appended")
    after = cut = False
    for k, (bad, msg) in sorted(m.entries.items()):
        if k[0] == "after":
            if ext in ("csv", "json"):
                continue
            after = True
            ctx.bad("after END", "%s in %s" % (R.mod, k[1]), k[1], msg)
        elif k[0] == "cut":
            if ext in CUT_NOT:
                continue
            cut = True
            ctx.bad("cut short", "%s in %s" % (R.mod, k[1]), k[1], msg)
        elif ext in TEXT:
            continue
        elif bad:
            ctx.bad("entry", "%s, %s in %s" % (R.mod, k[1], k[0]), k[0], msg)
        elif msg:
            ctx.unknown("entry", "%s, %s in %s" % (R.mod, k[1], k[0]), msg)
        else:
            ctx.ok("entry", "%s, %s in %s" % (R.mod, k[1], k[0]))
    if ext in ("csv", "json"):
        return
    if not after:
        ctx.ok("after END", R.mod)
    if not cut and ext not in CUT_NOT:
        ctx.ok("cut short", R.mod)
    if ext not in CUT_FAIL and ext not in TEXT:
        bad = {}
        for s, i in R.exc:
            if s.ghost.get("cut") and i.name in CRASH and (i.definite or "too short" in (i.msg or "")) and i.msg != "raise":
                fn = [t[0].replace("pyembroidery.", "") for t in i.stack]
                if witness(1, s) is not None:
                    bad.setdefault((i.name, fn[-1] if fn else "?"), (fn, i))
        for (name, fn), (stack, i) in sorted(bad.items()):
            ctx.bad("cut returns", "%s, %s in %s" % (R.mod, name, fn), "%s:%s" % (fn, getattr(i.node, "lineno", "?")), "%s: %s when the file is cut off in the stitch data" % (name, i.msg))
        if not bad:
            ctx.ok("cut returns", R.mod)
    wrong = soft = None
    for v, s in R.res:
        if s.ghost.get("any") and not s.ghost.get("ended"):
            if witness(1, s) is not None:
                wrong = "a file read %s gives a pattern without END" % ("to its early end" if s.ghost.get("short") else "to the end")
            else:
                soft = "no witness found"
    if wrong:
        ctx.bad("END", R.mod, R.mod + ".read", wrong)
    elif soft:
        ctx.unknown("END", R.mod, soft)
    elif R.res:
        ctx.ok("END", R.mod)
    else:
        ctx.unknown("END", R.mod, "no path returns")
