"""C21: files are opened in the right mode, closed on every path, and the caller's own streams are left open."""
from .disp import *
from .c20 import verdict, same_obj, variants

LEVEL = "proof"
EXPLANATION = ("Typestate analysis of the streams in every reading and writing entry point, by abstract interpretation with the formats' read / write functions replaced by "
               "recorders that return or raise: mode and state of the stream when the format gets it, state on every normal and exceptional path afterwards, and what "
               "was opened before encoding or refusing.")


def run(ctx):
    env = Env(ctx)
    ctx.count("formats", len(env.entries))
    for part in (files, streams, inside):
        try:
            part(env)
        except (AnalysisError, Budget) as e:
            ctx.unknown(part.__name__, part.__name__, e)


def closed(s, ref):
    o = s.heap.get(ref.oid)
    return o is None or getattr(o, "closed", True)


class Order(Rec):
    """Also: was a file open when the pattern was encoded?"""
    early = False

    def on_call(self, I, st, fn, args, kwargs, node):
        f = fn.fn if isinstance(fn, BoundV) else fn
        if isinstance(f, FnV) and f.name == "get_normalized_pattern" and self.opens:
            self.early = True
        return Rec.on_call(self, I, st, fn, args, kwargs, node)


def files(env):
    ctx, I = env.ctx, env.I
    for kind in ("read", "write"):
        for ext, m in (env.readers() if kind == "read" else env.writers()):
            for fail in (False, True):
                path = "dir/design." + ext
                p, st = env.pattern()
                r = Order(fail)
                I.mon = r
                try:
                    res, exc = I.run(I.resolve(API + "." + kind), [path] if kind == "read" else [p, path], {}, st)
                finally:
                    I.mon = Monitor()
                where = "EmbPattern.%s_embroidery" % kind
                inst = "%s %s%s" % (kind, ext, ", the format raises" if fail else "")
                if len(r.opens) != 1 or len(r.calls) != 1:
                    if not r.opens and r.calls:
                        ctx.unknown("open", inst, "no call of open seen")
                    else:
                        verdict(ctx, "open", inst, where, len(r.opens) == 1 and len(r.calls) == 1, "%d files opened, %d calls of the format" % (len(r.opens), len(r.calls)))
                    continue
                ref, args, kw = r.opens[0]
                so = r.calls[0][5]
                verdict(ctx, "path", inst, where, bool(args) and args[0] == path, "%r opened instead of %r" % (args[:1], path))
                mode = args[1] if len(args) > 1 else kw.get("mode", "r")
                text = env.text(m, "READ_FILE_IN_TEXT_MODE" if kind == "read" else "WRITE_FILE_IN_TEXT_MODE")
                want = kind[0] + ("" if text else "b")
                norm = mode.replace("t", "") if isinstance(mode, str) else None
                verdict(ctx, "mode", inst, where, norm is not None and sorted(norm) == sorted(want), "opened with mode %r, the format needs %r" % (mode, want))
                verdict(ctx, "use", inst, where, same_obj(r.calls[0][4], ref) and isinstance(so, StreamO) and not so.closed, "the format does not get the open file")
                left = [s for _, s in res if not closed(s, ref)] + [s for s, i in exc if i.msg == "from the format" and not closed(s, ref)]
                verdict(ctx, "close", inst, where, not left, "the file is left open %s" % ("when the format raises" if fail else "afterwards"))
                if fail:
                    verdict(ctx, "raise", inst, where, not res and any(i.msg == "from the format" for _, i in exc), "an error of the format is swallowed")
                if kind == "write" and env.encodes(m):
                    verdict(ctx, "order", inst, where, not r.early, "the file is opened (and emptied) before the pattern is encoded")


def streams(env):
    ctx, I = env.ctx, env.I
    for kind in ("read", "write"):
        for ext, m in (env.readers() if kind == "read" else env.writers()):
            for fail in (False, True):
                p, st = env.pattern()
                f = env.stream(st, kind[0])
                r, res, exc = env.call(kind + "_embroidery", [m, f, None, p] if kind == "read" else [m, p, f], st, fail)
                inst = "%s %s, the caller's stream%s" % (kind, ext, ", the format raises" if fail else "")
                left = [s for _, s in res if closed(s, f)] + [s for s, i in exc if i.msg == "from the format" and closed(s, f)]
                verdict(ctx, "stream", inst, "EmbPattern.%s_embroidery" % kind, not left and not r.opens and len(r.calls) == 1, "the caller's stream is closed, or another one opened")


def inside(env):
    """No format closes the stream it is given, nor opens another: calls of close / open in the formats' modules (whole-program query on the syntax tree)."""
    ctx, I = env.ctx, env.I
    import ast
    mods = sorted(set(m.name for _, m in env.readers() + env.writers()))
    todo, seen = list(mods), set()
    while todo:
        name = todo.pop()
        if name in seen:
            continue
        seen.add(name)
        tree = I.pkg.trees.get(name)
        if tree is None:
            ctx.unknown("inside", name, "source not found")
            continue
        bad = None
        for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.name in ("read", "write")]:
            first = [a.arg for a in fn.args.args][:1] if fn.name == "read" else [a.arg for a in fn.args.args][1:2]
            for n in ast.walk(fn):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "close" and isinstance(n.func.value, ast.Name) and n.func.value.id in first:
                    bad = (fn.name, n.lineno, "closes the stream it is given")
                if isinstance(n, ast.With):
                    for it in n.items:
                        if isinstance(it.context_expr, ast.Name) and it.context_expr.id in first:
                            bad = (fn.name, n.lineno, "closes the stream it is given at the end of a with block")
        verdict(ctx, "inside", name, "%s.%s:%s" % (name, bad[0], bad[1]) if bad else name, bad is None, bad[2] if bad else "")
    ctx.count("format modules", len(seen))
