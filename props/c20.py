"""C20: every format is reached through its extension and its own functions, with its own limits."""
from .disp import *

LEVEL = "proof"
EXPLANATION = ("Abstract interpretation of supported_formats and of every reading and writing entry point, with the formats' read / write functions "
               "replaced by recorders: which module is called, with which stream, pattern and settings, on every path.  One obligation per entry, extension and "
               "entry point, and one per writer and encoder setting.")


def run(ctx):
    env = Env(ctx)
    for part in (registry, by_extension, named, general, conversion, defaults):
        try:
            part(env)
        except (AnalysisError, Budget) as e:
            ctx.unknown(part.__name__, part.__name__, e)
    ctx.count("formats", len(env.entries))
    ctx.count("readers", len(env.readers()))
    ctx.count("writers", len(env.writers()))


def verdict(ctx, rule, inst, where, ok, msg):
    if ok:
        ctx.ok(rule, inst)
    else:
        ctx.bad(rule, inst, where, msg)


def registry(env):
    ctx = env.ctx
    seen = {}
    for n, (d, z) in enumerate(env.entries):
        ext = d.get("extension")
        inst = "entry %d (%s)" % (n + 1, ext)
        miss = [k for k in REQUIRED if k not in d]
        verdict(ctx, "entry", inst, "EmbPattern.supported_formats", not miss and isinstance(ext, str), "keys missing: %s" % ", ".join(miss))
        verdict(ctx, "unique", inst, "EmbPattern.supported_formats", ext not in seen, "extension %r has two entries" % (ext,))
        seen[ext] = n
        x = d.get("extensions")
        items = seq_items(x, z) if x is not None else None
        verdict(ctx, "extensions", inst, "EmbPattern.supported_formats", items is not None and all(isinstance(i, str) for i in items),
                "extensions is %r, not a collection of extensions" % (x,))
        if "reader" not in d and "writer" not in d:
            ctx.bad("entry", inst + ", direction", "EmbPattern.supported_formats", "neither reader nor writer")
        for kind, fn in (("reader", "read"), ("writer", "write")):
            m = d.get(kind)
            if m is None:
                continue
            if not isinstance(m, ModV):
                ctx.unknown("entry", "%s, %s" % (inst, kind), "not a module")
                continue
            f = env.I.constants(m.name).get(fn)
            verdict(ctx, "entry", "%s, %s" % (inst, kind), m.name, isinstance(f, (FnV, ClsV)), "%s has no function %s" % (m.name, fn))
            stem = m.name.rsplit(".", 1)[-1].lower()
            stem = stem[:-6] if stem.endswith(("reader", "writer")) else stem
            verdict(ctx, "module", "%s, %s" % (inst, kind), "EmbPattern.supported_formats", stem in (ext, "a" + str(ext)), "extension %s is handled by %s" % (ext, m.name))


def same_obj(a, b):
    return isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid


def one_call(env, r, kind, mod):
    """What is wrong with the recorded calls, or None."""
    cs = [c for c in r.calls if c[0] == kind]
    if len(cs) != len(r.calls):
        return "%s called" % ", ".join(c[1] for c in r.calls)
    if len(cs) != 1:
        return "%d calls of %s" % (len(cs), kind)
    if cs[0][1] != mod.name:
        return "%s handles it instead of %s" % (cs[0][1], mod.name)
    return None


def judge_call(env, rule, inst, where, r, res, exc, kind, mod, more):
    ctx = env.ctx
    if not res and not r.calls and not exc:
        return ctx.unknown(rule, inst, "no path")
    d = [e for e in exc if e[1].definite and e[1].name not in ("OSError",)]
    if not res and d:
        return ctx.bad(rule, inst, where, "raises %s" % d[0][1])
    if any(s.trace for _, s in res) or len(res) != 1:
        wrong = one_call(env, r, kind, mod)
        return ctx.unknown(rule, inst, "several paths") if wrong or len(res) != 1 else ctx.ok(rule, inst)
    wrong = one_call(env, r, kind, mod)
    if wrong is None:
        wrong = more(r.calls[0], res[0])
    verdict(ctx, rule, inst, where, wrong is None, wrong)


def reading(p, want=None):
    def more(c, res):
        v, s = res
        if p is not None and not same_obj(c[2], p):
            return "the pattern given is not the one read into"
        if not same_obj(v, c[2]):
            return "what is returned is not the pattern read"
        if want is not None and c[6] != want:
            return "settings %r arrive as %r" % (want, c[6])
        return None
    return more


def writing(p, encode, want=None):
    def more(c, res):
        if encode and c[3] != "normalized":
            return "the pattern is written without encoding"
        if not encode and c[3] == "normalized":
            return "the pattern is encoded though the format keeps all commands"
        if want is not None:
            for k, v in want.items():
                if (c[6] or {}).get(k, ABSENT) != v:
                    return "setting %s=%r does not arrive" % (k, v)
        return None
    return more


def variants(ext):
    return ("design." + ext, "a.b/c.d." + ext.upper(), "/tmp/x y." + ext.capitalize())


def by_extension(env):
    ctx, I = env.ctx, env.I
    for ext, d in sorted(env.by_ext().items()):
        for path in variants(ext):
            # reading
            st = I.base.fork()
            p, st = env.pattern(st)
            s = env.settings(st, level=7)
            r, res, exc = env.call("read", [path, s, p], st)
            inst = "read %s" % path
            if isinstance(d.get("reader"), ModV):
                judge_call(env, "by extension", inst, "EmbPattern.static_read", r, res, exc, "read", d["reader"], reading(p, {"level": 7}))
            else:
                verdict(ctx, "by extension", inst, "EmbPattern.static_read", not r.calls and not r.opens and all(v is None for v, _ in res),
                        "a format without reader is read")
            # writing
            p, st = env.pattern()
            s = env.settings(st, level=7)
            r, res, exc = env.call("write", [p, path, s], st)
            inst = "write %s" % path
            if isinstance(d.get("writer"), ModV):
                judge_call(env, "by extension", inst, "EmbPattern.static_write", r, res, exc, "write", d["writer"],
                           writing(p, env.encodes(d["writer"]), {"level": 7}))
            else:
                names = set(e[1].name for e in exc)
                verdict(ctx, "by extension", inst, "EmbPattern.static_write",
                        not res and not r.calls and not r.opens and names <= {"IOError", "OSError"} and bool(names), "writing a format without writer does not raise IOError")
    for path in ("design.nonsense", "design", "dst"):
        r, res, exc = env.call("read", [path], I.base.fork())
        verdict(ctx, "by extension", "read %s" % path, "EmbPattern.static_read", not r.calls and not r.opens and bool(res) and all(v is None for v, _ in res), "an unknown extension is read")
        p, st = env.pattern()
        r, res, exc = env.call("write", [p, path], st)
        verdict(ctx, "by extension", "write %s" % path, "EmbPattern.static_write", not res and not r.calls and not r.opens and bool(exc), "an unknown extension is written")


def named(env):
    ctx, I = env.ctx, env.I
    api = I.constants(API)
    by = env.by_ext()
    n = 0
    for kind, owner in [(k, o) for k in ("read", "write") for o in ("PyEmbroidery", "EmbPattern")]:
        for ext, d in sorted(by.items()):
            name = "%s_%s" % (kind, ext)
            if owner == "PyEmbroidery":
                f = api.get(name)
            else:
                cls = I.resolve(PAT)
                f = None
                if cls.lookup(name):
                    f = [v for v, _ in I.getattr(cls, name, I.base.fork(), None)][0]
            if f is None:
                continue
            n += 1
            inst = "%s.%s" % (owner, name)
            mod = d.get("reader" if kind == "read" else "writer")
            if not isinstance(mod, ModV):
                ctx.bad("by name", inst, inst, "the format has no such direction")
                continue
            for target in ("file.xyz", "stream"):
                p, st = env.pattern()
                s = env.settings(st, level=7)
                t = target if target != "stream" else env.stream(st, kind[0])
                args = [t, s, p] if kind == "read" else [p, t, s]
                r, res, exc = env.call(f, args, st)
                base = reading(p, {"level": 7}) if kind == "read" else writing(p, env.encodes(mod), {"level": 7})

                def more(c, q, base=base, t=t):
                    if isinstance(t, Ref) and not same_obj(c[4], t):
                        return "the caller's stream is not the one used"
                    return base(c, q)
                judge_call(env, "by name", "%s to a %s" % (inst, "file" if target != "stream" else "stream") if kind == "write" else
                           "%s of a %s" % (inst, "file" if target != "stream" else "stream"), inst, r, res, exc, kind, mod, more)
    if not n:
        raise Broken("no read_ / write_ functions found")
    ctx.count("named functions", n)


def general(env):
    """Reading and writing with an explicit module; a new pattern when none is given; nothing for None."""
    ctx, I = env.ctx, env.I
    for ext, m in env.readers():
        st = I.base.fork()
        r, res, exc = env.call("read_embroidery", [m, "file." + ext], st)
        judge_call(env, "new pattern", "read_embroidery(%s)" % ext, "EmbPattern.read_embroidery", r, res, exc, "read", m, reading(None))
    ext, w = env.writers()[0]
    st = I.base.fork()
    f = env.stream(st, "w")
    r, res, exc = env.call("write_embroidery", [w, None, f], st)
    verdict(ctx, "nothing", "write_embroidery(None)", "EmbPattern.write_embroidery", not r.calls and bool(res), "writing no pattern calls the writer")
    for name, how in (("read", "p.read(path)"), ("constructor", "EmbPattern(path)")):
        for ext, m in env.readers()[:6]:
            st = I.base.fork()
            if name == "read":
                p, st = env.pattern(st)
                fs = I.getattr(p, "read", st, None) if I.resolve(PAT).lookup("read") else []
                for g, x in fs:
                    r, res, exc = env.call(g, ["a." + ext], x)
                    judge_call(env, "into the pattern", how + ", " + ext, "EmbPattern.read", r, res, exc, "read", m,
                               lambda c, q, p=p: None if same_obj(c[2], p) else "another pattern is read into")
            else:
                r, res, exc = env.call(PAT, ["a." + ext], st, api=False)
                judge_call(env, "into the pattern", how + ", " + ext, "EmbPattern.__init__", r, res, exc, "read", m, reading(None))


def conversion(env):
    ctx, I = env.ctx, env.I
    for (a, ra) in env.readers()[:4]:
        for (b, wb) in env.writers()[:4]:
            st = I.base.fork()
            s = env.settings(st, level=7)
            r, res, exc = env.call("convert", ["x." + a, "y." + b, s], st)
            inst = "convert %s to %s" % (a, b)
            kinds = [(c[0], c[1]) for c in r.calls]
            want = [("read", ra.name), ("write", wb.name)]
            if len(res) != 1:
                ctx.unknown("convert", inst, "%d results" % len(res))
                continue
            ok = kinds == want
            if ok and env.encodes(wb):
                ok = len(r.encodes) == 1 and same_obj(r.encodes[0][0], r.calls[0][2])
            verdict(ctx, "convert", inst, "EmbPattern.convert", ok, "calls %r instead of %r" % (kinds, want))
            if kinds == want:
                for c in r.calls:
                    verdict(ctx, "convert", inst + ", settings when %sing" % {"read": "read", "write": "writ"}[c[0]], "EmbPattern.convert",
                            c[6] is not None and eq(c[6].get("level", ABSENT), 7), "the caller's settings do not arrive")
    st = I.base.fork()
    r, res, exc = env.call("convert", ["x.nonsense", "y.dst"], st)
    verdict(ctx, "convert", "convert from an unknown format", "EmbPattern.convert", not r.calls and not r.opens, "something is written")


def eq(a, b):
    a, b = plain(a), plain(b)
    return a is b or a == b


def defaults(env):
    """The writer's declared limits reach the encoder, unless the caller says otherwise."""
    ctx, I = env.ctx, env.I
    for ext, w in env.writers():
        declared = dict((s, const_of(I, w, a)) for a, s in DEFAULTS)
        for given, value in [(None, None)] + [(s, v) for _, s in DEFAULTS for v in ("the caller's", False, 0)]:
            p, st = env.pattern()
            f = env.stream(st, "w")
            caller = {"encode": True, "own": "x"}
            if given:
                caller[given] = value
            s = env.settings(st, **caller)
            r, res, exc = env.call("write_embroidery", [w, p, f, s], st)
            inst = "%s, %s" % (ext, "no limits given" if given is None else "%s=%r given by the caller" % (given, value))
            if len(r.encodes) != 1 or r.encodes[0][1] is None:
                if len(res) == 1 and not r.encodes:
                    ctx.bad("limits", inst, "EmbPattern.write_embroidery", "nothing is encoded")
                else:
                    ctx.unknown("limits", inst, "encoder settings not known")
                continue
            got = r.encodes[0][1]
            wrong = None
            for k, v in declared.items():
                v = caller.get(k, v)
                g = got.get(k, ABSENT)
                if not eq(g, v):
                    wrong = "%s is %s for the encoder instead of %s" % (k, "absent" if g is ABSENT else repr(g), "absent" if v is ABSENT else repr(v))
            for k, v in caller.items():
                if not eq(got.get(k, ABSENT), v):
                    wrong = "the caller's %s does not arrive" % k
            verdict(ctx, "limits", inst, "EmbPattern.write_embroidery", wrong is None, wrong)
        for asked in (True, False):
            p, st = env.pattern()
            f = env.stream(st, "w")
            r, res, exc = env.call("write_embroidery", [w, p, f, env.settings(st, encode=asked)], st)
            if len(res) == 1 and len(r.calls) == 1:
                verdict(ctx, "limits", "%s, encode=%r" % (ext, asked), "EmbPattern.write_embroidery", bool(r.encodes) == asked,
                        "the pattern is %sencoded" % ("" if r.encodes else "not "))
            else:
                ctx.unknown("limits", "%s, encode=%r" % (ext, asked), "%d results, %d calls" % (len(res), len(r.calls)))
