"""C15: packing of thread / needle / order numbers into a command."""
from absint.harness import *
from .ctx import Broken

LEVEL = "proof"
EXPLANATION = ("Abstract interpretation of the two packing functions over a relational integer domain (affine forms, "
               "bit-field extraction decided by non-overlap of the fields).  Each combination of 'absent' / 'any number "
               "0..254' for the three fields is one obligation: the value obtained by unpacking the packed command is "
               "the same affine form as the input, for every command byte of the vocabulary and for an arbitrary byte.")


def run(ctx):
    I = load(ctx.root)
    enc = I.resolve("pyembroidery.EmbFunctions.encode_thread_change")
    dec = I.resolve("pyembroidery.EmbFunctions.decode_embroidery_command")
    if enc is None or dec is None:
        raise Broken("packing functions not found")
    cmds = {}
    for name, v in I.constants("pyembroidery.EmbConstant").items():
        if isinstance(v, int) and 0 <= v <= 255 and name.isupper():
            cmds.setdefault(v, name)
    ctx.count("command constants", len(cmds))
    todo = [("any byte", None)] + sorted((n, v) for v, n in cmds.items())
    for cname, cv in todo:
        for shape in range(8):
            st = I.base.fork()
            c = cv if cv is not None else dom.sym("cmd", True, 0, 255)
            given = [dom.sym(n, True, 0, 254) if shape >> i & 1 else None for i, n in enumerate(("thread", "needle", "order"))]
            inst = "%s with %s" % (cname, "/".join(n for i, n in enumerate(("thread", "needle", "order")) if shape >> i & 1) or "nothing")
            check(ctx, I, enc, dec, st, c, given, inst)
    ctx.count("functions analysed", 2)


def check(ctx, I, enc, dec, st, c, given, inst):
    where = "EmbFunctions.encode_thread_change / decode_embroidery_command"
    try:
        res, ex = I.run(enc, [c] + given, {}, st)
        if not res:
            ctx.bad("pack-total", inst, where, "packing always raises")
            return
        allok = True
        for v, s in res:
            r2, ex2 = I.run(dec, [v], {}, s)
            if not r2:
                ctx.bad("unpack-total", inst, where, "unpacking always raises")
                return
            for w, q in r2:
                if not isinstance(w, Tup) or len(w.items) != 4:
                    ctx.unknown("inverse", inst, "result %r" % (w,))
                    return
                for name, got, want in zip(("command", "thread", "needle", "order"), w.items, [c] + given):
                    k = equal(got, want, q)
                    if k is False:
                        ctx.bad("inverse", "%s: %s" % (inst, name), where,
                                "%s comes back as %r instead of %r" % (name, got, want))
                        return
                    if k is None:
                        allok = False
        if allok:
            ctx.ok("inverse", inst)
        else:
            ctx.unknown("inverse", inst, "fields not related by the domain")
    except (AnalysisError, Budget) as e:
        ctx.unknown("inverse", inst, e)


def equal(got, want, st):
    """True / False (differs for some values) / None."""
    if want is None or got is None:
        if got is want:
            return True
        if isinstance(got, (Choice, Unk)) or isinstance(want, (Choice, Unk)):
            return None
        return False
    if not dom.isnum(got):
        return None
    d = dom.sub(got, want)
    lo, hi = st.facts.bounds(d)
    if lo == hi == 0:
        return True
    if lo > 0 or hi < 0:
        return False
    if isinstance(d, Lin) and dom.differs(d, st.facts) is not None:
        return False
    return None
