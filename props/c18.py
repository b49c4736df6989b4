"""C18: reading any file comes to an end, and whole files do not crash a reader."""
from .readers import *

LEVEL = "proof"
EXPLANATION = ("Abstract interpretation of every reader on an arbitrary file: every read yields any bytes of the size asked for, or fewer and then nothing. At the stable head of each "
               "while loop the body is interpreted once more with the input at its end: it must leave the loop, or count towards the loop's bound. Exceptions of "
               "the kinds programming mistakes raise, on paths where no read has fallen short, and indices beyond a palette (with a witness) are violations.")


def targets(ctx):
    I = load(ctx.root, merge=False)
    out = []
    for d, _ in formats(I):
        d = dict((k, plain(v)) for k, v in d.items())
        if isinstance(d.get("reader"), ModV):
            out.append((d["extension"], d["reader"].name.replace("pyembroidery.", "")))
    if not out:
        raise Broken("no readers found")
    return out


def over(ctx, judge):
    def job(ext, mod):
        def go(sub):
            try:
                R = run_reader(ctx.root, ext, ctx.tier)
            except (AnalysisError, Budget, RecursionError) as e:
                sub.unknown("reader", mod, e)
                return
            except Broken:
                raise
            except Exception as e:
                sub.unknown("reader", mod, "%s: %s" % (type(e).__name__, e))
                return
            sub.count("readers")
            judge(sub, ext, R)
        return go
    heavy = ("zhs", "vp3", "pes", "gcode")
    ts = sorted(targets(ctx), key=lambda x: (x[0] not in heavy, x[0]))
    fork_map(ctx, [job(e, m) for e, m in ts])


def run(ctx):
    over(ctx, judge)
    inner(ctx)
    ctx.assumptions.append("for loops are over sequences and ranges, which are finite; HUS decompression is replaced by an arbitrary list of bytes")


def judge(ctx, ext, R):
    m = R.m
    ctx.count("while loops", len(m.loops))
    ctx.count("paths returning", len(R.res))
    ctx.count("exceptional paths", len(R.exc))
    nth = {}
    for (fn, line), (bad, msg) in sorted(m.loops.items()):
        nth[fn] = nth.get(fn, 0) + 1
        inst = "%s, loop %d of %s" % (R.mod, nth[fn], fn)
        if bad:
            ctx.bad("loop", inst, "%s:%d" % (fn, line), msg)
        elif bad is None:
            ctx.unknown("loop", inst, msg)
        else:
            ctx.ok("loop", inst)
    if ext in TEXT:
        return
    nth = {}
    for (fn, line), (bad, msg) in sorted(m.index.items()):
        nth[fn] = nth.get(fn, 0) + 1
        inst = "%s, index %d of %s" % (R.mod, nth[fn], fn)
        if bad:
            ctx.bad("index", inst, "%s:%d" % (fn, line), msg)
        elif bad is None:
            ctx.unknown("index", inst, msg)
        else:
            ctx.ok("index", inst)
    bad = {}
    for s, i in R.exc:
        if i.name not in CRASH or s.ghost.get("short") or (i.msg or "") == "raise":
            continue
        if not i.definite and not (i.name == "IndexError" and "too short" in (i.msg or "")):
            continue
        if ext in ("col", "inf"):
            continue        # text: what int() refuses is an error of the file
        fn = [t[0].replace("pyembroidery.", "") for t in i.stack]
        bad.setdefault((i.name, fn[-1] if fn else "?"), (fn, i))
    for (name, fn), (stack, i) in sorted(bad.items()):
        if witness(1, [s for s, j in R.exc if j is i][0]) is None:
            ctx.unknown("crash", "%s, %s in %s" % (R.mod, name, fn), "%s; no witness found" % i.msg)
            continue
        ctx.bad("crash", "%s, %s in %s" % (R.mod, name, fn), "%s:%s, through %s" % (fn, getattr(i.node, "lineno", "?"), " > ".join(stack)), "%s: %s on a file that is not cut short" % (name, i.msg))
    if not bad:
        ctx.ok("crash", "%s fails on no whole file" % R.mod)


def inner(ctx):
    """The loops of the decompressor are not driven by a stream: each must move on in its body (query on the syntax tree)."""
    I = load(ctx.root, merge=False)
    tree = I.pkg.trees.get("pyembroidery.EmbCompress")
    if tree is None:
        return
    for k, w in enumerate([n for n in ast.walk(tree) if isinstance(n, ast.While)]):
        names = set(n.id for n in ast.walk(w.test) if isinstance(n, ast.Name)) | set(n.attr for n in ast.walk(w.test) if isinstance(n, ast.Attribute))
        const = isinstance(w.test, ast.Constant)
        moved = any(isinstance(n, (ast.AugAssign, ast.Assign)) and any(
            (isinstance(t, ast.Name) and t.id in names) or (isinstance(t, ast.Attribute) and t.attr in names)
            for t in ([n.target] if isinstance(n, ast.AugAssign) else n.targets)) for b in w.body for n in ast.walk(b))
        leaves = any(isinstance(n, (ast.Break, ast.Return)) for b in w.body for n in ast.walk(b))
        calls = any(isinstance(n, ast.Call) for b in w.body for n in ast.walk(b))
        if moved or leaves:
            ctx.ok("inner", "EmbCompress, while loop %d" % (k + 1))
        elif const or not calls:
            ctx.bad("inner", "EmbCompress, while loop %d" % (k + 1), "EmbCompress:%d" % w.lineno, "nothing in the loop's body changes what its test asks")
        else:
            ctx.unknown("inner", "EmbCompress, while loop %d" % (k + 1), "progress not seen")
