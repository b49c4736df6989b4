"""Reading and writing entry points, interpreted with the formats' own read/write functions replaced by recorders."""
from .util import *
from .own import formats

API = "pyembroidery.PyEmbroidery"
REQUIRED = ("description", "extension", "extensions", "mimetype", "category")
# writer attribute -> encoder setting it stands for
DEFAULTS = (("MAX_JUMP_DISTANCE", "max_jump"), ("MAX_STITCH_DISTANCE", "max_stitch"), ("FULL_JUMP", "full_jump"), ("ROUND", "round"),
            ("WRITES_SPEEDS", "writes_speeds"), ("SEQUIN_CONTINGENCY", "sequin_contingency"), ("THREAD_CHANGE_COMMAND", "thread_change_command"),
            ("EXPLICIT_TRIM", "explicit_trim"), ("TRANSLATE", "translate"), ("SCALE", "scale"), ("ROTATE", "rotate"))


class Rec(Monitor):
    """Records the calls of a format's read / write, of open and of the encoder on each path."""

    def __init__(self, fail=False):
        self.calls = []     # (kind, module, args, stream object, settings items, state)
        self.encodes = []   # (pattern, settings items)
        self.opens = []
        self.fail = fail
        self.normal = None

    def on_open(self, I, st, ref, args, kwargs, node):
        self.opens.append((ref, tuple(args), dict(kwargs)))

    def on_call(self, I, st, fn, args, kwargs, node):
        f = fn.fn if isinstance(fn, BoundV) else fn
        if not isinstance(f, FnV):
            return None
        if f.name == "get_normalized_pattern" and isinstance(fn, BoundV):
            d = st[args[0]] if args and isinstance(args[0], Ref) else None
            self.encodes.append((fn.self, dict(d.items) if isinstance(d, DictO) else None))
            st = st.fork()
            p, st = new_obj(I, st, PAT)
            st[p] = st[p].rep(label="normalized")
            return [(p, st)]
        if f.name in ("read", "write") and not isinstance(fn, BoundV) and f.mod.endswith(("Reader", "Writer")) and f.qual.count(".") <= 1:
            a = list(args)
            names = ["f", "pattern", "settings"] if f.name == "write" else ["f", "out", "settings"]
            if f.name == "write":
                pat, stream, sett = (a + [kwargs.get("f"), kwargs.get("settings")])[:3] if len(a) < 3 else a[:3]
            else:
                stream, pat, sett = (a + [kwargs.get("out"), kwargs.get("settings")])[:3] if len(a) < 3 else a[:3]
            so = st[stream] if isinstance(stream, Ref) else stream
            do = st[sett] if isinstance(sett, Ref) else None
            po = st[pat] if isinstance(pat, Ref) else None
            self.calls.append((f.name, f.mod, pat, getattr(po, "label", None), stream, so, dict(do.items) if isinstance(do, DictO) else None))
            st = st.fork()
            if self.fail:
                I.raise_(st, "ValueError", node, msg="from the format")
                return []
            return [(None, st)]
        return None


def modname(m):
    return getattr(m, "name", None)


def const_of(I, m, attr):
    """Value of a module attribute, or the marker absent."""
    for v, _ in (I.getattr(m, attr, I.base.fork(), None) if attr in I.constants(m.name) else ()):
        return v
    return ABSENT


ABSENT = object()


def plain(v):
    if isinstance(v, MU):
        v = v.v
    return v


class Env(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.I = load(ctx.root, merge=False)
        self.entries = [(dict((k, plain(v)) for k, v in d.items()), z) for d, z in formats(self.I)]
        if not self.entries:
            raise Broken("supported_formats yields nothing")

    def call(self, name, args, st, fail=False, kwargs=None, api=True):
        """-> (recorder, results, exceptions)"""
        r = Rec(fail)
        self.I.mon = r
        self.I.budget = self.I.steps + 100000
        try:
            f = name if isinstance(name, Val) else self.I.resolve("%s.%s" % (API, name) if api else name)
            res, exc = self.I.run(f, args, kwargs or {}, st)
        finally:
            self.I.mon = Monitor()
        return r, res, exc

    def pattern(self, st=None, label="caller's pattern"):
        p, st = new_obj(self.I, st or self.I.base.fork(), PAT)
        st[p] = st[p].rep(label=label)
        return p, st

    def settings(self, st, **kw):
        return st.alloc(DictO(dict(kw), None, label="caller's settings"))

    def stream(self, st, mode):
        return st.alloc(StreamO(mode, 0, False, "live" if mode == "r" else None, "caller's stream"))

    def readers(self):
        return [(d["extension"], d["reader"]) for d, _ in self.entries if isinstance(d.get("reader"), ModV)]

    def writers(self):
        return [(d["extension"], d["writer"]) for d, _ in self.entries if isinstance(d.get("writer"), ModV)]

    def by_ext(self):
        return dict((d["extension"], d) for d, _ in self.entries)

    def encodes(self, w):
        v = const_of(self.I, w, "ENCODE")
        return True if v is ABSENT else plain(v)

    def text(self, m, attr):
        v = const_of(self.I, m, attr)
        return False if v is ABSENT else bool(plain(v))
