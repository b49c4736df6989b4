"""Abstract values, heap objects, states, and the state merge operators."""
from fractions import Fraction
from . import dom
from .dom import Lin, ATOMS, INF, Facts, Infeasible

_counter = [1]


def newid():
    _counter[0] += 1
    return _counter[0]


# ------------------------------------------------------------------ values

class Val(object):
    __slots__ = ()


class Tup(Val):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


class Ref(Val):
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and self.oid == o.oid

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return "&%d" % self.oid


class FnV(Val):
    __slots__ = ("node", "mod", "name", "env", "defaults", "kwdefaults", "qual", "isgen", "locals")

    def __init__(self, node, mod, name, env, defaults, kwdefaults, qual):
        self.node = node
        self.mod = mod
        self.name = name
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual
        self.isgen = False
        self.locals = frozenset()

    def __eq__(self, o):
        return isinstance(o, FnV) and self.node is o.node and self.env == o.env

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((id(self.node), self.env))

    def __repr__(self):
        return "<fn %s>" % self.qual


class BoundV(Val):
    __slots__ = ("fn", "self")

    def __init__(self, fn, slf):
        self.fn = fn
        self.self = slf

    def __eq__(self, o):
        return isinstance(o, BoundV) and self.fn == o.fn and self.self == o.self

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.fn, self.self))

    def __repr__(self):
        return "<bound %r of %r>" % (self.fn, self.self)


class ClsV(Val):
    """User class. attrs: dict (class namespace, fixed after definition)."""
    __slots__ = ("name", "mod", "bases", "attrs", "node")

    def __init__(self, name, mod, bases, attrs, node):
        self.name = name
        self.mod = mod
        self.bases = bases
        self.attrs = attrs
        self.node = node

    def lookup(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            if isinstance(b, ClsV):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def known(self):
        return all((isinstance(b, ClsV) and b.known()) or (isinstance(b, BuiltinV) and b.name == "object")
                   for b in self.bases)

    def isa(self, o):
        return self is o or any(isinstance(b, ClsV) and b.isa(o) for b in self.bases)

    def __repr__(self):
        return "<class %s>" % self.name


class DescV(Val):
    """staticmethod / classmethod / property wrapper in a class namespace."""
    __slots__ = ("kind", "fn", "setter")

    def __init__(self, kind, fn, setter=None):
        self.kind = kind
        self.fn = fn
        self.setter = setter


class ModV(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("mod", self.name))

    def __repr__(self):
        return "<module %s>" % self.name


class BuiltinV(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, BuiltinV) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("bi", self.name))

    def __repr__(self):
        return "<builtin %s>" % self.name


class ExtV(Val):
    """Attribute path of an external module (math.ceil, struct.pack, ...)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return "<ext %s>" % self.name


class MethV(Val):
    """Method of a builtin-typed value."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __eq__(self, o):
        return isinstance(o, MethV) and o.obj == self.obj and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.obj, self.name))


class GenV(Val):
    """A suspended generator: function + prepared frame."""
    __slots__ = ("fn", "frame")

    def __init__(self, fn, frame):
        self.fn = fn
        self.frame = frame

    def __eq__(self, o):
        return isinstance(o, GenV) and o.frame == self.frame

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("gen", self.frame))


class GenExpV(Val):
    """Generator expression / lazy iterator: kind + args."""
    __slots__ = ("kind", "args", "node", "env")

    def __init__(self, kind, args, node=None, env=None):
        self.kind = kind
        self.args = tuple(args)
        self.node = node
        self.env = env

    def __eq__(self, o):
        return isinstance(o, GenExpV) and (o.kind, o.args, o.env) == (self.kind, self.args, self.env) \
            and o.node is self.node

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.kind, self.args, id(self.node), self.env))

    def __repr__(self):
        return "<%s %r>" % (self.kind, self.args)


class RangeV(Val):
    __slots__ = ("a", "b", "step")

    def __init__(self, a, b, step):
        self.a = a
        self.b = b
        self.step = step

    def __eq__(self, o):
        return isinstance(o, RangeV) and (o.a, o.b, o.step) == (self.a, self.b, self.step)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("range", self.a, self.b, self.step))


class SliceV(Val):
    __slots__ = ("a", "b", "step")

    def __init__(self, a, b, step):
        self.a = a
        self.b = b
        self.step = step

    def __eq__(self, o):
        return isinstance(o, SliceV) and (o.a, o.b, o.step) == (self.a, self.b, self.step)

    def __hash__(self):
        return hash(("slice", self.a, self.b, self.step))


class Unk(Val):
    """Unknown value. key gives identity; labels = owners of objects it may be
    (or reach)."""
    __slots__ = ("key", "labels", "hint")

    def __init__(self, key, labels=frozenset(), hint=None):
        self.key = key
        self.labels = labels
        self.hint = hint

    def __eq__(self, o):
        return isinstance(o, Unk) and o.key == self.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("unk", self.key))

    def __repr__(self):
        s = str(self.key)
        return "?%s" % (s if len(s) < 40 else s[:40])


def unk(tag="u", labels=frozenset(), hint=None):
    return Unk((tag, newid()), labels, hint)


class Choice(Val):
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def __eq__(self, o):
        return isinstance(o, Choice) and set(map(ckey, self.vals)) == set(map(ckey, o.vals))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(frozenset(map(ckey, self.vals)))

    def __repr__(self):
        return "{%s}" % "|".join(map(repr, self.vals))


def ckey(v):
    """Key distinguishing True from 1, 1 from 1.0."""
    return (type(v).__name__, v)


class Undef(Val):
    __slots__ = ()

    def __repr__(self):
        return "<undef>"


UNDEF = Undef()


class MU(Val):
    """value of a variable that may be undefined"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, MU) and o.v == self.v

    def __hash__(self):
        return hash(("mu", self.v))


class StrAtom(object):
    """Unknown text. clen: character length (number); excess atom: byte length
    minus character length in the given encoding."""
    __slots__ = ("key", "clen", "ascii")

    def __init__(self, key, clen, ascii_):
        self.key = key
        self.clen = clen
        self.ascii = ascii_

    def __eq__(self, o):
        return isinstance(o, StrAtom) and o.key == self.key

    def __hash__(self):
        return hash(("sa", self.key))

    def __repr__(self):
        return "<%s>" % (self.key,)


class SStr(Val):
    """Symbolic text: tuple of str | StrAtom."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def __eq__(self, o):
        return isinstance(o, SStr) and o.parts == self.parts

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("sstr", self.parts))

    def __repr__(self):
        return "SStr%r" % (self.parts,)

    def clen(self):
        t = 0
        for p in self.parts:
            t = dom.add(t, len(p) if isinstance(p, str) else p.clen)
        return t

    def simp(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return self


def fresh_str(tag, lo=0, hi=INF, ascii_=False, key=None):
    k = key if key is not None else (tag, newid())
    n = dom.opaque("strlen", (k,), True, lo, hi)
    return SStr((StrAtom(k, n, ascii_),))


class BAtom(object):
    """Unknown bytes of a given length."""
    __slots__ = ("key", "n")

    def __init__(self, key, n):
        self.key = key
        self.n = n

    def __eq__(self, o):
        return isinstance(o, BAtom) and o.key == self.key

    def __hash__(self):
        return hash(("ba", self.key))

    def __repr__(self):
        return "<bytes %s len %r>" % (self.key, self.n)


class BytesV(Val):
    """Symbolic immutable bytes: parts are tuples of int values, or BAtom."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, (bytes, bytearray)):
                p = tuple(p)
            if isinstance(p, tuple):
                if not p:
                    continue
                if out and isinstance(out[-1], tuple):
                    out[-1] = out[-1] + p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def __eq__(self, o):
        return isinstance(o, BytesV) and o.parts == self.parts

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("bytesv", self.parts))

    def __repr__(self):
        return "B%r" % (self.parts,)

    def blen(self):
        t = 0
        for p in self.parts:
            t = dom.add(t, len(p) if isinstance(p, tuple) else p.n)
        return t

    def items(self):
        """tuple of ints when fully itemised, else None"""
        if not self.parts:
            return ()
        if len(self.parts) == 1 and isinstance(self.parts[0], tuple):
            return self.parts[0]
        return None

    def simp(self):
        it = self.items()
        if it is not None and all(isinstance(x, int) and 0 <= x < 256 for x in it):
            return bytes(bytearray(it))
        return self


def is_const(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes, complex)) or v is Ellipsis


def same(a, b):
    if a is b:
        return True
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if type(a) is not type(b):
        return False
    return a == b


# ------------------------------------------------------------------ heap

class Obj(object):
    __slots__ = ()


class ListO(Obj):
    """kind: list | bytearray | set.  Contents: pre ++ star* ++ suf, where star
    is None (exact) or a template; slen = number of star elements."""
    __slots__ = ("kind", "pre", "star", "suf", "slen", "label")

    def __init__(self, kind, pre, star=None, suf=(), slen=0, label=None):
        self.kind = kind
        self.pre = tuple(pre)
        self.star = star
        self.suf = tuple(suf)
        self.slen = slen
        self.label = label

    def length(self):
        n = len(self.pre) + len(self.suf)
        return n if self.star is None else dom.add(n, self.slen)

    def rep(self, **kw):
        d = dict(kind=self.kind, pre=self.pre, star=self.star, suf=self.suf, slen=self.slen, label=self.label)
        d.update(kw)
        return ListO(**d)

    def __repr__(self):
        return "%s%r%s" % (self.kind, list(self.pre), "" if self.star is None else "+%r*%r+%r" % (
            self.star, self.slen, list(self.suf)))


class DictO(Obj):
    """items: const key -> value; gone: keys known absent; star: None (exact) or
    template of the values of unlisted keys (open dict)."""
    __slots__ = ("items", "star", "gone", "label")

    def __init__(self, items, star=None, gone=frozenset(), label=None):
        self.items = items
        self.star = star
        self.gone = gone
        self.label = label

    def rep(self, **kw):
        d = dict(items=self.items, star=self.star, gone=self.gone, label=self.label)
        d.update(kw)
        return DictO(**d)

    def __repr__(self):
        return "dict(%r%s)" % (self.items, "" if self.star is None else " +*")


class InstO(Obj):
    __slots__ = ("cls", "attrs", "label", "open")

    def __init__(self, cls, attrs, label=None, open_=False):
        self.cls = cls
        self.attrs = attrs
        self.label = label
        self.open = open_

    def rep(self, **kw):
        d = dict(cls=self.cls, attrs=self.attrs, label=self.label, open_=self.open)
        d.update(kw)
        return InstO(**d)

    def __repr__(self):
        return "<%s %r>" % (getattr(self.cls, "name", self.cls), self.attrs)


class FrameO(Obj):
    __slots__ = ("vars", "parent", "mod", "fn")

    def __init__(self, vars_, parent, mod, fn):
        self.vars = vars_
        self.parent = parent
        self.mod = mod
        self.fn = fn

    def __repr__(self):
        return "<frame %s %r>" % (self.fn, self.vars)


class CellO(Obj):
    """Generic tuple of values (iterator state, ghost structures)."""
    __slots__ = ("kind", "vals", "label")

    def __init__(self, kind, vals, label=None):
        self.kind = kind
        self.vals = tuple(vals)
        self.label = label

    def __repr__(self):
        return "<%s %r>" % (self.kind, self.vals)


class StreamO(Obj):
    """mode: 'w' | 'r'. pos: number. closed: bool. data: model specific
    immutable payload (reader cursor or writer chunk list)."""
    __slots__ = ("mode", "pos", "closed", "data", "label", "text", "name")

    def __init__(self, mode, pos=0, closed=False, data=None, label=None, text=False, name=None):
        self.mode = mode
        self.pos = pos
        self.closed = closed
        self.data = data
        self.label = label
        self.text = text
        self.name = name

    def rep(self, **kw):
        d = dict(mode=self.mode, pos=self.pos, closed=self.closed, data=self.data, label=self.label,
                 text=self.text, name=self.name)
        d.update(kw)
        return StreamO(**d)

    def __repr__(self):
        return "<stream %s pos=%r data=%r>" % (self.mode, self.pos, self.data)


# -------------------------------------------------------------- templates
# A template describes the possible elements of a summarised container.

class T(object):
    """const: frozenset of ckeys; num: (isint, lo, hi) or None; objs: list of
    object templates; refs: frozenset of oids; unk: frozenset of labels or None."""
    __slots__ = ("consts", "num", "objs", "refs", "unk", "mat")

    def __init__(self, consts=frozenset(), num=None, objs=(), refs=frozenset(), unk_=None, mat=None):
        self.consts = consts
        self.num = num
        self.objs = tuple(objs)
        self.refs = refs
        self.unk = unk_
        self.mat = mat  # custom materializer (interp, st, listoid) -> [(val, st)]

    def __eq__(self, o):
        return isinstance(o, T) and (self.consts, self.num, self.objs, self.refs, self.unk, self.mat) == \
            (o.consts, o.num, o.objs, o.refs, o.unk, o.mat)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.consts, self.num, self.objs, self.refs, self.unk))

    def __repr__(self):
        out = []
        if self.consts:
            out.append("|".join(repr(k[1]) for k in sorted(self.consts, key=repr)))
        if self.num:
            out.append("num%r" % (self.num,))
        out += [repr(o) for o in self.objs]
        out += ["&%d" % r for r in sorted(self.refs)]
        if self.unk is not None:
            out.append("?")
        if self.mat:
            out.append("mat")
        return "T<%s>" % " ".join(out)


class TObj(object):
    """template of a heap object: kind 'tup'|'list'|'inst'|'dict'"""
    __slots__ = ("kind", "cls", "fields", "label", "extra")

    def __init__(self, kind, cls, fields, label, extra=None):
        self.kind = kind
        self.cls = cls
        self.fields = tuple(fields)  # tuple of (key, T)
        self.label = label
        self.extra = extra

    def shape(self):
        return (self.kind, self.cls, tuple(k for k, _ in self.fields), self.label)

    def __eq__(self, o):
        return isinstance(o, TObj) and self.shape() == o.shape() and self.fields == o.fields and self.extra == o.extra

    def __hash__(self):
        return hash(self.shape())

    def __repr__(self):
        return "%s%s%r" % (self.kind, "" if self.label is None else "@%s" % (self.label,),
                           dict(self.fields))


CONST_CAP = 48


def t_of(v, st, mark, depth=0):
    """Template of value v in state st; objects with oid <= mark stay refs."""
    if isinstance(v, MU):
        v = v.v
    if isinstance(v, (dict, tuple, list)):
        raise TypeError(v)
    if is_const(v) or isinstance(v, (FnV, ClsV, ModV, BuiltinV, ExtV, BoundV, MethV)):
        return T(consts=frozenset([ckey(v)]))
    if isinstance(v, (Lin, Fraction)):
        lo, hi = st.facts.bounds(v)
        return T(num=(dom.is_int_lin(v), lo, hi))
    if isinstance(v, Choice):
        t = T()
        for x in v.vals:
            t = t_join(t, t_of(x, st, mark, depth))
        return t
    if depth > 5:
        return T(unk_=frozenset())
    if isinstance(v, Tup):
        return T(objs=(TObj("tup", None, [(i, t_of(x, st, mark, depth + 1)) for i, x in enumerate(v.items)], None),))
    if isinstance(v, Ref):
        if v.oid <= mark:
            return T(refs=frozenset([v.oid]))
        o = st.heap[v.oid]
        if isinstance(o, ListO):
            if o.star is None and len(o.pre) <= 8:
                return T(objs=(TObj("list", o.kind, [(i, t_of(x, st, mark, depth + 1)) for i, x in enumerate(o.pre)],
                                    o.label),))
            t = o.star if o.star is not None else T()
            for x in o.pre + o.suf:
                t = t_join(t, t_of(x, st, mark, depth + 1))
            return T(objs=(TObj("slist", o.kind, [(0, t)], o.label),))
        if isinstance(o, InstO):
            return T(objs=(TObj("inst", o.cls, [(k, t_of(o.attrs[k], st, mark, depth + 1)) for k in sorted(o.attrs)],
                                o.label, o.open),))
        if isinstance(o, DictO):
            t = o.star if o.star is not None else T()
            fields = [(k, t_of(x, st, mark, depth + 1)) for k, x in sorted(o.items.items(), key=repr)]
            return T(objs=(TObj("dict", None, fields, o.label, o.star),))
        return T(unk_=frozenset([getattr(o, "label", None)]) - frozenset([None]))
    if isinstance(v, Unk):
        return T(unk_=v.labels)
    if isinstance(v, SStr):
        return T(objs=(TObj("str", None, (), None),))
    if isinstance(v, BytesV):
        return T(objs=(TObj("bytes", None, (), None),))
    return T(unk_=frozenset())


def t_join(a, b, widen=False):
    if a == b:
        return a
    if b == T():
        return a
    if a == T():
        return b
    consts = a.consts | b.consts
    num = a.num
    if b.num is not None:
        if num is None:
            num = b.num
        else:
            lo, hi = min(num[1], b.num[1]), max(num[2], b.num[2])
            if widen:
                lo = num[1] if lo == num[1] else -INF
                hi = num[2] if hi == num[2] else INF
            num = (num[0] and b.num[0], lo, hi)
    if len(consts) > CONST_CAP:
        nums = [k[1] for k in consts if k[0] in ("int", "float")]
        if nums:
            consts = frozenset(k for k in consts if k[0] not in ("int", "float"))
            lo, hi = min(nums), max(nums)
            isint = all(isinstance(x, int) for x in nums)
            num = (isint, lo, hi) if num is None else (num[0] and isint, min(num[1], lo), max(num[2], hi))
        if len(consts) > CONST_CAP:
            consts = frozenset(k for k in consts if k[0] in ("bool", "NoneType"))
            return T(consts, num, a.objs, a.refs | b.refs, (a.unk or frozenset()) | (b.unk or frozenset()),
                     a.mat or b.mat)
    if num is not None:
        # absorb numeric constants inside the interval
        keep = set()
        for k in consts:
            if k[0] == "int" and num[1] <= k[1] <= num[2]:
                continue
            keep.add(k)
        consts = frozenset(keep)
    objs = list(a.objs)
    for o in b.objs:
        for i, p in enumerate(objs):
            if p.shape() == o.shape():
                if p != o:
                    objs[i] = TObj(p.kind, p.cls, [(k, t_join(x, y, widen)) for (k, x), (_, y) in
                                                   zip(p.fields, o.fields)], p.label,
                                   p.extra if p.extra == o.extra else
                                   (t_join(p.extra, o.extra, widen) if isinstance(p.extra, T) and isinstance(o.extra, T)
                                    else (p.extra or o.extra)))
                break
            if (p.kind, p.cls, p.label) == (o.kind, o.cls, o.label) and p.kind in ("list", "slist"):
                t = T()
                for k, x in p.fields + o.fields:
                    t = t_join(t, x, widen)
                objs[i] = TObj("slist", p.cls, [(0, t)], p.label)
                break
            if (p.kind, p.cls, p.label) == (o.kind, o.cls, o.label) and p.kind in ("dict", "inst"):
                f = dict(p.fields)
                for k, x in o.fields:
                    f[k] = t_join(f[k], x, widen) if k in f else x
                objs[i] = TObj(p.kind, p.cls, sorted(f.items(), key=lambda kv: repr(kv[0])), p.label, p.extra or o.extra)
                break
        else:
            objs.append(o)
    if len(objs) > 12:
        return T(consts, num, (), a.refs | b.refs, (a.unk or frozenset()) | (b.unk or frozenset()), a.mat or b.mat)
    u = None
    if a.unk is not None or b.unk is not None:
        u = (a.unk or frozenset()) | (b.unk or frozenset())
    return T(consts, num, objs, a.refs | b.refs, u, a.mat or b.mat)


def t_values(t, st, interp, tag="elem"):
    """Materialise: list of (value, state) alternatives; allocates in st forks."""
    alts = []
    cs = sorted(t.consts, key=repr)
    for k in cs:
        alts.append(("v", k[1]))
    if t.num is not None:
        alts.append(("n", t.num))
    for o in t.objs:
        alts.append(("o", o))
    for r in sorted(t.refs):
        alts.append(("v", Ref(r)))
    if t.unk is not None:
        alts.append(("v", unk(tag, t.unk)))
    out = []
    for i, (k, x) in enumerate(alts):
        s = st if i == len(alts) - 1 else st.fork()
        if k == "v":
            out.append((x, s))
        elif k == "n":
            out.append((dom.sym(tag, x[0], x[1], x[2]), s))
        else:
            out.append((t_build(x, s, interp, tag), s))
    return out


def t_value(t, st, interp, tag="elem"):
    """Materialise as a single value (Choice when several)."""
    if t.mat is not None and not (t.consts or t.num or t.objs or t.refs or t.unk is not None):
        return unk(tag)
    vals = [k[1] for k in sorted(t.consts, key=repr)]
    if t.num is not None:
        vals.append(dom.sym(tag, t.num[0], t.num[1], t.num[2]))
    for o in t.objs:
        vals.append(t_build(o, st, interp, tag))
    for r in sorted(t.refs):
        vals.append(Ref(r))
    if t.unk is not None:
        vals.append(unk(tag, t.unk))
    if not vals:
        return unk(tag)
    if len(vals) == 1:
        return vals[0]
    return Choice(vals)


def t_build(o, st, interp, tag):
    if o.kind == "tup":
        return Tup([t_value(x, st, interp, tag) for _, x in o.fields])
    if o.kind == "list":
        return st.alloc(ListO(o.cls, [t_value(x, st, interp, tag) for _, x in o.fields], label=o.label))
    if o.kind == "slist":
        n = dom.sym("len", True, 0, INF)
        return st.alloc(ListO(o.cls, (), o.fields[0][1], (), n, label=o.label))
    if o.kind == "inst":
        return st.alloc(InstO(o.cls, dict((k, t_value(x, st, interp, tag)) for k, x in o.fields), o.label,
                              bool(o.extra)))
    if o.kind == "dict":
        return st.alloc(DictO(dict((k, t_value(x, st, interp, tag)) for k, x in o.fields), o.extra, label=o.label))
    if o.kind == "str":
        return fresh_str(tag)
    if o.kind == "bytes":
        return BytesV((BAtom((tag, newid()), dom.sym("blen", True, 0, INF)),))
    raise ValueError(o.kind)


# ------------------------------------------------------------------ state

class State(object):
    __slots__ = ("heap", "facts", "frames", "ghost", "truth", "trace", "summ")

    def __init__(self):
        self.summ = frozenset()
        self.heap = {}
        self.facts = Facts()
        self.frames = ()
        self.ghost = {}
        self.truth = {}
        self.trace = False      # a branch not described by the facts was taken

    def fork(self):
        s = State()
        s.heap = dict(self.heap)
        s.facts = self.facts.copy()
        s.frames = self.frames
        s.ghost = dict(self.ghost)
        s.truth = dict(self.truth)
        s.trace = self.trace
        s.summ = self.summ
        return s

    def alloc(self, obj):
        oid = newid()
        self.heap[oid] = obj
        return Ref(oid)

    def __getitem__(self, ref):
        return self.heap[ref.oid]

    def __setitem__(self, ref, obj):
        if ref.oid in self.summ:
            obj = weak_obj(self.heap[ref.oid], obj, self)
        self.heap[ref.oid] = obj

    def frame(self):
        return self.heap[self.frames[-1]]

    def setvar(self, name, val):
        oid = self.frames[-1]
        f = self.heap[oid]
        v = dict(f.vars)
        v[name] = val
        self.heap[oid] = FrameO(v, f.parent, f.mod, f.fn)


class Reject(Exception):
    pass


# --------------------------------------------------------- summary objects
# Objects allocated again and again in a loop and collected in a container are
# represented by one summary object; updates of it are weak (old | new).

def weak_val(a, b, st):
    if same(a, b) or a == b and type(a) is type(b):
        return a
    if isinstance(a, MU) or isinstance(b, MU) or a is UNDEF or b is UNDEF:
        va = a.v if isinstance(a, MU) else a
        vb = b.v if isinstance(b, MU) else b
        if va is UNDEF:
            return vb if isinstance(vb, MU) else MU(vb)
        if vb is UNDEF:
            return MU(va)
        return MU(weak_val(va, vb, st))
    if isinstance(a, (Lin, float, Fraction)) and dom.isnum(b) or isinstance(b, (Lin, float, Fraction)) and dom.isnum(a):
        (l1, h1), (l2, h2) = st.facts.bounds(a), st.facts.bounds(b)
        if isinstance(a, Lin) and l1 <= l2 and h1 >= h2 and len(a.t) == 1 and ATOMS[a.t[0][0]].name == "wnum":
            return a
        lo, hi = (l1 if l2 >= l1 else -INF), (h1 if h2 <= h1 else INF)
        if not (isinstance(a, Lin) and len(a.t) == 1 and ATOMS[a.t[0][0]].name == "wnum"):
            lo, hi = min(l1, l2), max(h1, h2)
        return dom.sym("wnum", dom.is_int_lin(a) and dom.is_int_lin(b), lo, hi)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([weak_val(x, y, st) for x, y in zip(a.items, b.items)])
    va = list(a.vals) if isinstance(a, Choice) else [a]
    vb = list(b.vals) if isinstance(b, Choice) else [b]
    na = [x for x in va if isinstance(x, Lin)]
    seen = set(ckey(x) for x in va)
    for x in vb:
        if ckey(x) in seen:
            continue
        if na and dom.isnum(x) and not isinstance(x, bool):
            w = weak_val(na[0], x, st)
            if w is not na[0]:
                va = [w if y is na[0] else y for y in va]
                na = [w]
            continue
        seen.add(ckey(x))
        va.append(x)
    ints = [x for x in va if isinstance(x, int) and not isinstance(x, bool)]
    if len(ints) > 8:
        va = [x for x in va if not (isinstance(x, int) and not isinstance(x, bool))]
        va.append(dom.sym("wnum", True))
    if len(va) > 16:
        return Unk(("joined", newid()))
    return va[0] if len(va) == 1 else Choice(va)


def weak_obj(x, y, st):
    if x is y:
        return x
    if type(x) is not type(y):
        return y
    if isinstance(x, InstO):
        attrs = {}
        for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
            attrs[k] = weak_val(x.attrs.get(k, UNDEF), y.attrs.get(k, UNDEF), st)
        return x.rep(attrs=attrs)
    if isinstance(x, ListO):
        if x.star is None and y.star is None and len(x.pre) == len(y.pre):
            return x.rep(pre=[weak_val(a, b, st) for a, b in zip(x.pre, y.pre)])
        t = T()
        for o in (x, y):
            if o.star is not None:
                t = t_join(t, o.star)
            for v in o.pre + o.suf:
                t = t_join(t, t_of(v, st, INF))
        (l1, h1), (l2, h2) = st.facts.bounds(x.length()), st.facts.bounds(y.length())
        if x.star == t and not x.pre and not x.suf and l1 <= l2 and h1 >= h2:
            return x
        lo = min(l1, l2)
        hi = h1 if h2 <= h1 else INF
        return x.rep(pre=(), star=t, suf=(), slen=dom.sym("slen", True, lo, hi))
    if isinstance(x, DictO):
        common = [k for k in x.items if k in y.items]
        items = dict((k, weak_val(x.items[k], y.items[k], st)) for k in common)
        rest = [(o, k) for o in (x, y) for k in o.items if k not in items]
        star = x.star
        if y.star is not None:
            star = y.star if star is None else t_join(star, y.star)
        for o, k in rest:
            star = t_join(star if star is not None else T(), t_of(o.items[k], st, INF))
        return x.rep(items=items, star=star, gone=(x.gone & y.gone) - set(k for _, k in rest))
    return y


def refs_in_t(t, out):
    out |= t.refs
    for o in t.objs:
        for _, f in o.fields:
            if isinstance(f, T):
                refs_in_t(f, out)


def summarize(st, mark):
    """Collapse the objects younger than mark that a container summary refers
    to into one summary object per shape."""
    cand = set()
    for o in st.heap.values():
        if isinstance(o, (ListO, DictO)) and o.star is not None:
            refs_in_t(o.star, cand)
    groups = {}
    for r in sorted(cand):
        if r <= mark or r not in st.heap:
            continue
        o = st.heap[r]
        if isinstance(o, ListO):
            k = ("l", o.kind, o.label, len(o.pre) if o.star is None else None)
        elif isinstance(o, InstO):
            k = ("i", o.cls, o.label)
        elif isinstance(o, DictO):
            k = ("d", o.label)
        else:
            continue
        groups.setdefault(k, []).append(r)
    ren = {}
    for k, rs in groups.items():
        if len(rs) < 2:
            continue
        rep = next((r for r in rs if r in st.summ), rs[0])
        for r in rs:
            if r != rep:
                ren[r] = rep
    if not ren:
        return
    for r, rep in ren.items():
        st.heap[rep] = weak_obj(st.heap[rep], st.heap.pop(r), st)
    st.summ = (st.summ | set(ren.values())) - set(ren)

    def sv(v):
        if isinstance(v, Ref):
            return Ref(ren[v.oid]) if v.oid in ren else v
        if isinstance(v, Tup):
            return Tup([sv(i) for i in v.items])
        if isinstance(v, MU):
            return MU(sv(v.v))
        if isinstance(v, Choice):
            out = []
            for x in v.vals:
                x = sv(x)
                if x not in out:
                    out.append(x)
            return out[0] if len(out) == 1 else Choice(out)
        if isinstance(v, BoundV):
            return BoundV(v.fn, sv(v.self))
        if isinstance(v, MethV):
            return MethV(sv(v.obj), v.name)
        if isinstance(v, GenExpV):
            return GenExpV(v.kind, [sv(i) for i in v.args], v.node, v.env)
        return v

    def sT(t):
        if t is None:
            return t
        return T(t.consts, t.num, [TObj(o.kind, o.cls, [(k, sT(f)) for k, f in o.fields], o.label,
                                        sT(o.extra) if isinstance(o.extra, T) else o.extra) for o in t.objs],
                 frozenset(ren.get(r, r) for r in t.refs), t.unk, t.mat)

    for oid in list(st.heap):
        o = st.heap[oid]
        if isinstance(o, (ListO, DictO)) and o.star is not None:
            o = o.rep(star=sT(o.star))
        st.heap[oid] = map_obj(o, sv)
    st.ghost = dict((k, sv(v)) for k, v in st.ghost.items())


class Slot(Val):
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i


class Merger(object):
    """Merges state B into A.  mode: 'lossless' | 'affine' | 'join'."""

    def __init__(self, interp, A, B, mode, mark=None, widen=False):
        self.interp = interp
        self.A = A
        self.B = B
        self.mode = mode
        self.widen = widen
        self.slots = []
        self.slotidx = {}
        self.omap = {}      # oid B -> oid A
        self.ormap = {}
        self.done = {}
        self.queue = []
        self.changed = False   # discrete generalisation happened
        self.mark = mark if mark is not None else 0

    # -- values
    def mv(self, a, b):
        if a is b:
            if isinstance(a, Ref):
                return self.mref(a, b)
            if not isinstance(a, (Tup, Choice, MU, BoundV, MethV, GenV, GenExpV)):
                return a
        if isinstance(a, MU) or isinstance(b, MU) or a is UNDEF or b is UNDEF:
            va = a.v if isinstance(a, MU) else a
            vb = b.v if isinstance(b, MU) else b
            if not isinstance(a, MU):
                self.changed = True
            if va is UNDEF:
                return MU(vb) if vb is not UNDEF else UNDEF
            if vb is UNDEF:
                return MU(va)
            return MU(self.mv(va, vb))
        na, nb = dom.isnum(a), dom.isnum(b)
        if na and nb:
            return self.mnum(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return self.mref(a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.mv(x, y) for x, y in zip(a.items, b.items)])
        if type(a) is type(b):
            if isinstance(a, (BoundV,)) and a.fn == b.fn:
                return BoundV(a.fn, self.mv(a.self, b.self))
            if isinstance(a, MethV) and a.name == b.name:
                return MethV(self.mv(a.obj, b.obj), a.name)
            if isinstance(a, GenExpV) and a.kind == b.kind and a.node is b.node and a.env == b.env \
                    and len(a.args) == len(b.args):
                return GenExpV(a.kind, [self.mv(x, y) for x, y in zip(a.args, b.args)], a.node, a.env)
            if isinstance(a, RangeV):
                return RangeV(self.mv(a.a, b.a), self.mv(a.b, b.b), self.mv(a.step, b.step))
            if a == b and not isinstance(a, Choice):
                return a
        elif is_const(a) and is_const(b) and not isinstance(a, bool) and not isinstance(b, bool) and a == b \
                and a is not None:
            return a
        return self.mdisc(a, b)

    def mnum(self, a, b):
        A, B = self.A, self.B
        sa, sb = A.facts.simplify(a), B.facts.simplify(b)
        if same(sa, sb) or (dom.isnum(sa) and sa == sb and not isinstance(sa, Lin) and not isinstance(sb, Lin)):
            return sa
        if a == b and isinstance(a, Lin):
            return a
        la, lb = dom.tolin(a), dom.tolin(b)
        if la is None or lb is None:
            if self.mode == "lossless":
                raise Reject()
            if a == b:
                return a
            # infinities etc.
            self.changed = not (isinstance(a, Lin) and len(a.t) == 1 and ATOMS[a.t[0][0]].name == "numjoin")
            if not self.changed:
                return a
            return dom.sym("numjoin", False)
        if self.mode == "affine" and isinstance(a, int) and isinstance(b, int) and \
                (a in self.interp.partition_ints or b in self.interp.partition_ints):
            raise Reject()
        key = (a if isinstance(a, Lin) else ("c", a), b if isinstance(b, Lin) else ("c", b))
        if key in self.slotidx:
            return Slot(self.slotidx[key])
        self.slots.append((la, lb))
        self.slotidx[key] = len(self.slots) - 1
        return Slot(len(self.slots) - 1)

    def mref(self, a, b):
        A, B = self.A, self.B
        oa, ob = a.oid, b.oid
        if ob in self.omap:
            if self.omap[ob] == oa:
                return a
            return self.mdisc(a, b)
        if oa in self.ormap:
            return self.mdisc(a, b)
        if oa != ob:
            if oa in B.heap and B.heap[oa] is not None and self.reach_common(oa) or ob in A.heap and self.reach_common(ob):
                return self.mdisc(a, b)
            x, y = A.heap.get(oa), B.heap.get(ob)
            if type(x) is not type(y) or getattr(x, "label", None) != getattr(y, "label", None):
                return self.mdisc(a, b)
            if isinstance(x, InstO) and x.cls is not y.cls:
                return self.mdisc(a, b)
            if isinstance(x, ListO) and x.kind != y.kind:
                return self.mdisc(a, b)
        self.omap[ob] = oa
        self.ormap[oa] = ob
        self.queue.append((oa, ob))
        return a

    def reach_common(self, oid):
        return oid in self.A.heap and oid in self.B.heap

    def mdisc(self, a, b):
        """Different discrete values."""
        if isinstance(a, Choice) or isinstance(b, Choice):
            va = a.vals if isinstance(a, Choice) else (a,)
            vb = b.vals if isinstance(b, Choice) else (b,)
            ks = set(ckey(x) for x in va)
            new = [x for x in vb if ckey(x) not in ks]
            if not new:
                return a
            if self.mode == "lossless":
                raise Reject()
            us = [x for x in va if isinstance(x, Unk)]
            if us:
                lab = frozenset()
                for x in new:
                    if isinstance(x, Unk):
                        lab |= x.labels
                    elif isinstance(x, Ref):
                        l = getattr(self.B.heap.get(x.oid), "label", None)
                        if l is not None:
                            lab |= frozenset([l])
                if lab <= us[0].labels:
                    return a
                self.changed = True
                u = Unk(("joined", newid()), us[0].labels | lab)
                rest = [x for x in va if not isinstance(x, Unk)]
                return Choice(rest + [u]) if rest else u
            num_a = [x for x in va if isinstance(x, Lin)]
            if num_a and all(isinstance(x, (Lin, int, float)) and not isinstance(x, bool) for x in new):
                v = num_a[0]
                lo, hi = self.A.facts.bounds(v)
                if all(self.within(x, lo, hi, self.B) for x in new):
                    return a
                self.changed = True
                w = dom.sym("choicenum", False)
                return Choice([x for x in va if not isinstance(x, Lin)] + [w])
            self.changed = True
            vals = list(va) + new
            return self.mkchoice(vals)
        if isinstance(a, Unk) and isinstance(b, Unk):
            if self.mode == "lossless":
                raise Reject()
            if b.labels <= a.labels and a.key[0] == "joined":
                return a
            self.changed = True
            return Unk(("joined", newid()), a.labels | b.labels)
        if self.mode == "lossless":
            raise Reject()
        if isinstance(a, SStr) or isinstance(b, SStr):
            if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
                if isinstance(a, SStr) and len(a.parts) == 1 and isinstance(a.parts[0], StrAtom) \
                        and isinstance(a.parts[0].key, tuple) and a.parts[0].key[0] == "joinstr":
                    return a
                self.changed = True
                return fresh_str("joinstr")
        if isinstance(a, BytesV) or isinstance(b, BytesV):
            if isinstance(a, (BytesV, bytes)) and isinstance(b, (BytesV, bytes)):
                if isinstance(a, BytesV) and len(a.parts) == 1 and isinstance(a.parts[0], BAtom) \
                        and isinstance(a.parts[0].key, tuple) and a.parts[0].key[0] == "joinbytes":
                    return a
                self.changed = True
                return BytesV((BAtom(("joinbytes", newid()), dom.sym("blen", True, 0, INF)),))
        if self.mode == "affine":
            if isinstance(a, Unk) and not (b is None or isinstance(b, (bool, Ref))):
                return a
            if isinstance(b, Unk) and not (a is None or isinstance(a, (bool, Ref))):
                self.changed = True
                return b
            raise Reject()
        self.changed = True
        return self.mkchoice([a, b])

    def within(self, x, lo, hi, st):
        l, h = st.facts.bounds(x)
        return l >= lo and h <= hi

    def mkchoice(self, vals):
        out, seen = [], set()
        unks = [v for v in vals if isinstance(v, Unk)]
        for v in vals:
            if isinstance(v, Unk):
                continue
            k = ckey(v)
            if k in seen:
                continue
            seen.add(k)
            if isinstance(v, Ref):
                # refs of B stay valid: heap union keeps them
                pass
            out.append(v)
        if unks:
            lab = frozenset()
            for u in unks:
                lab |= u.labels
            out.append(unks[0] if len(unks) == 1 else Unk(("joined", newid()), lab))
        if len(out) > (40 if all(isinstance(v, int) for v in out) else 12):
            lab = frozenset()
            for v in out:
                if isinstance(v, Unk):
                    lab |= v.labels
                elif isinstance(v, Ref):
                    l = getattr(self.A.heap.get(v.oid) or self.B.heap.get(v.oid), "label", None)
                    if l is not None:
                        lab |= frozenset([l])
            return Unk(("joined", newid()), lab)
        return out[0] if len(out) == 1 else Choice(out)

    # -- objects
    def mo(self, x, y):
        if x is y:
            # still need to follow refs inside only when oids were remapped; same
            # object on both sides with the same oids: contents are identical refs.
            return self.mo_refs(x)
        if type(x) is not type(y):
            raise Reject()
        if isinstance(x, FrameO):
            return FrameO(self.mvars(x.vars, y.vars, True), x.parent, x.mod, x.fn)
        if isinstance(x, InstO):
            if x.cls is not y.cls and x.cls != y.cls:
                raise Reject()
            return x.rep(attrs=self.mvars(x.attrs, y.attrs))
        if isinstance(x, CellO):
            if x.kind != y.kind or len(x.vals) != len(y.vals):
                raise Reject()
            return CellO(x.kind, [self.mv(a, b) for a, b in zip(x.vals, y.vals)], x.label)
        if isinstance(x, StreamO):
            if x.mode != y.mode or x.closed != y.closed or x.label != y.label:
                raise Reject()
            data = self.interp.merge_stream_data(self, x, y)
            return x.rep(pos=self.mv(x.pos, y.pos), data=data)
        if isinstance(x, DictO):
            return self.mdict(x, y)
        if isinstance(x, ListO):
            return self.mlist(x, y)
        raise Reject()

    def mo_refs(self, x):
        for v in obj_values(x):
            self.follow(v)
        return x

    def follow(self, v):
        if isinstance(v, Ref):
            r = self.mref(v, v)
            if r != v:
                raise Reject()
        elif isinstance(v, Tup):
            for i in v.items:
                self.follow(i)
        elif isinstance(v, MU):
            self.follow(v.v)

    def mvars(self, a, b, frame=False):
        out = {}
        ci = self.interp.choice_ints if frame else ()
        if ci:
            def small(v):
                return isinstance(v, int) and not isinstance(v, bool) and v in ci or \
                    isinstance(v, Choice) and all(small(x) for x in v.vals)
            keep = {}
            for k in a:
                if k in b and small(a[k]) and small(b[k]) and a[k] != b[k]:
                    keep[k] = self.mdisc(a[k], b[k])
            if keep:
                out.update(keep)
                a = dict((k, v) for k, v in a.items() if k not in keep)
                b = dict((k, v) for k, v in b.items() if k not in keep)
        for k in a:
            out[k] = self.mv(a[k], b[k]) if k in b else self.mv(a[k], UNDEF)
        for k in b:
            if k not in a:
                if self.mode == "lossless":
                    pass
                out[k] = self.mv(UNDEF, b[k])
        return out

    def mdict(self, x, y):
        if set(x.items) == set(y.items) and (x.star is None) == (y.star is None):
            items = dict((k, self.mv(x.items[k], y.items[k])) for k in x.items)
            star = x.star
            if star != y.star:
                star = t_join(x.star, y.star, self.widen)
                if star != x.star:
                    self.changed = True
                if self.mode == "lossless":
                    raise Reject()
            gone = x.gone & y.gone
            if gone != x.gone:
                self.changed = True
                if self.mode == "lossless":
                    raise Reject()
            return x.rep(items=items, star=star, gone=gone)
        if self.mode == "lossless":
            raise Reject()
        common = set(x.items) & set(y.items)
        items = dict((k, self.mv(x.items[k], y.items[k])) for k in x.items if k in common)
        star = T()
        for d, st in ((x, self.A), (y, self.B)):
            if d.star is not None:
                star = t_join(star, d.star, self.widen)
            for k in d.items:
                if k not in common:
                    star = t_join(star, t_of(d.items[k], st, self.mark), self.widen)
        gone = (x.gone & y.gone) - set(x.items) - set(y.items)
        if x.star != star or set(items) != set(x.items) or gone != x.gone:
            self.changed = True
        return x.rep(items=items, star=star, gone=gone)

    def mlist(self, x, y):
        if x.kind != y.kind:
            raise Reject()
        if x.star is None and y.star is None and len(x.pre) == len(y.pre):
            return x.rep(pre=[self.mv(a, b) for a, b in zip(x.pre, y.pre)])
        if x.star is not None and x.star == y.star and len(x.pre) == len(y.pre) and len(x.suf) == len(y.suf):
            return x.rep(pre=[self.mv(a, b) for a, b in zip(x.pre, y.pre)],
                         suf=[self.mv(a, b) for a, b in zip(x.suf, y.suf)],
                         slen=self.mv(x.slen, y.slen))
        if self.mode == "lossless":
            raise Reject()
        # common identical prefix survives
        n = 0
        while n < len(x.pre) and n < len(y.pre) and same(x.pre[n], y.pre[n]):
            self.mv(x.pre[n], y.pre[n])
            n += 1
        star = T()
        for d, st in ((x, self.A), (y, self.B)):
            if d.star is not None:
                star = t_join(star, d.star, self.widen)
            for v in d.pre[n:] + d.suf:
                star = t_join(star, t_of(v, st, self.mark), self.widen)
        if x.star != star or len(x.pre) != n or x.suf:
            self.changed = True
        lx = dom.sub(x.length(), n)
        ly = dom.sub(y.length(), n)
        return x.rep(pre=x.pre[:n], star=star, suf=(), slen=self.mv(lx, ly))

    # -- driver
    def run(self, va=None, vb=None):
        """Returns (state, value) or raises Reject."""
        A, B = self.A, self.B
        if A.frames != B.frames:
            raise Reject()
        for oid in A.frames:
            self.mref(Ref(oid), Ref(oid))
        ghost = {}
        if set(A.ghost) != set(B.ghost):
            raise Reject()
        for k in A.ghost:
            ghost[k] = self.mv(A.ghost[k], B.ghost[k])
        rv = self.mv(va, vb) if (va is not None or vb is not None) else None
        newobjs = {}
        base_oids = None
        while True:
            while self.queue:
                oa, ob = self.queue.pop()
                x, y = A.heap[oa], B.heap[ob]
                if x is y and oa == ob:
                    self.mo_refs(x)
                    continue
                newobjs[oa] = self.mo(x, y)
            if base_oids is None:
                # objects outside the frames' reach but shared and different
                # (temporaries): merge those too
                base_oids = [o for o in A.heap if o in B.heap and A.heap[o] is not B.heap[o]
                             and o not in self.ormap]
                for o in base_oids:
                    if o not in self.ormap and o not in self.omap:
                        self.mref(Ref(o), Ref(o))
                if self.queue:
                    continue
            break
        self.newobjs = newobjs
        self.newghost = ghost
        vals, facts = self.solve()
        st = State()
        st.frames = A.frames
        heap = dict(B.heap) if len(B.heap) and any(o not in A.heap for o in B.heap) else {}
        heap.update(A.heap)
        st.heap = heap

        def sub(v):
            if isinstance(v, Slot):
                return vals[v.i]
            if isinstance(v, Tup):
                return Tup([sub(i) for i in v.items])
            if isinstance(v, MU):
                return MU(sub(v.v))
            if isinstance(v, BoundV):
                return BoundV(v.fn, sub(v.self))
            if isinstance(v, MethV):
                return MethV(sub(v.obj), v.name)
            if isinstance(v, RangeV):
                return RangeV(sub(v.a), sub(v.b), sub(v.step))
            if isinstance(v, GenExpV):
                return GenExpV(v.kind, [sub(i) for i in v.args], v.node, v.env)
            return v

        for oid, o in newobjs.items():
            heap[oid] = map_obj(o, sub)
        st.ghost = dict((k, sub(v)) for k, v in ghost.items())
        st.facts = facts
        st.summ = A.summ | B.summ
        st.truth = dict((k, v) for k, v in A.truth.items() if B.truth.get(k, None) is v)
        st.trace = A.trace or B.trace
        return st, (sub(rv) if rv is not None else None)

    # -- numeric solving
    def solve(self):
        if self.mode == "lossless":
            return self.solve_lossless()
        return self.solve_affine()

    def solve_lossless(self):
        A, B = self.A, self.B
        if not self.slots:
            return [], self.hull_facts([])
        # a boolean atom that tells the two states apart
        ind = None
        for k, (lo, hi) in A.facts.d.items():
            if len(k) == 1 and lo == hi and ATOMS[k[0][0]].isbool:
                o = B.facts.d.get(k)
                if o is not None and o[0] == o[1] and o[0] != lo:
                    ind = k[0][0]
                    va = lo
                    break
        deltas = []
        for a, b in self.slots:
            sa, sb = a, b
            d = dom.sub(sb, sa)
            if isinstance(d, Lin):
                # rewrite with atoms pinned on one side so that they cancel
                for i, c in d.t:
                    p = A.facts.pinned(i)
                    if p is not None:
                        sa = dom.add(sa, dom.sub(Lin(0, ((i, c),)), c * p))
                        continue
                    p = B.facts.pinned(i)
                    if p is not None:
                        sb = dom.sub(sb, dom.sub(Lin(0, ((i, c),)), c * p))
                sa, sb = dom.tolin(sa), dom.tolin(sb)
                d = dom.sub(sb, sa)
            if isinstance(d, Lin):
                raise Reject()
            deltas.append((sa, sb, d))
        if ind is None:
            at = dom.fresh("m", True, 0, 1)
            ind = at.id
            at.when = self.when_facts(A, B)
            va = 0
        beta = Lin(0, ((ind, 1),))
        vals = []
        pairs = []
        for sa, sb, d in deltas:
            # va==0: value = sa + d*beta ; va==1: value = sb - d*beta
            v = dom.add(sa, dom.mul(beta, d)) if va == 0 else dom.sub(sb, dom.mul(beta, d))
            vals.append(v)
            pairs.append((v, sa, sb))
        return vals, self.hull_facts(pairs, drop=ind, beta=beta if va == 0 else dom.sub(1, beta))

    def when_facts(self, A, B):
        outA = [(k, l, h) for k, (l, h) in A.facts.d.items() if B.facts.d.get(k) != (l, h)]
        outB = [(k, l, h) for k, (l, h) in B.facts.d.items() if A.facts.d.get(k) != (l, h)]
        return (tuple(outA), tuple(outB))

    def hull_facts(self, pairs, drop=None, beta=None):
        A, B = self.A, self.B
        f = Facts()
        rel = []
        keys = dict.fromkeys(A.facts.d)
        keys.update(dict.fromkeys(B.facts.d))
        for k in keys:
            if drop is not None and k == ((drop, 1),):
                continue
            a = A.facts.d.get(k)
            b = B.facts.d.get(k)
            if a is not None and a == b:
                f.d[k] = a
                continue
            form = dom.form_lin(k)
            a = A.facts.bounds(form)
            b = B.facts.bounds(form)
            lo, hi = min(a[0], b[0]), max(a[1], b[1])
            if lo != -INF or hi != INF:
                f.d[k] = (lo, hi)
                f.cache = {}
            if beta is not None and a[0] != b[0] and a[1] - a[0] == b[1] - b[0] and a[1] - a[0] < INF:
                # same width on both sides: the interval moves with the indicator
                rel.append((dom.sub(form, dom.mul(beta, dom._clean2(b[0] - a[0]))), a[0], a[1]))
        for v, lo, hi in rel:
            try:
                f.assume(v, lo, hi)
            except Infeasible:
                pass
        for v, sa, sb in pairs:
            if not isinstance(v, Lin):
                continue
            a, b = A.facts.bounds(sa), B.facts.bounds(sb)
            lo, hi = min(a[0], b[0]), max(a[1], b[1])
            c = f.bounds(v)
            if lo > c[0] or hi < c[1]:
                try:
                    f.assume(v, lo, hi)
                except Infeasible:
                    pass
        return f

    def solve_affine(self):
        A, B = self.A, self.B
        self.pivots = []   # (slot index, la, lb, phi atom id)
        basis = []         # echelon: list of (pivot coord, vec dict, combo dict slot->coef)
        vals = [None] * len(self.slots)
        own = self.own_phis()
        for i, (a, b) in enumerate(self.slots):
            d = dom.tolin(dom.sub(b, a))
            vec = dict(d.t)
            if own:
                for j, c in a.t:
                    if j in own:
                        # the head's own unknowns of the older state are not those
                        # of the newer one
                        z = vec.get(j, 0) + c
                        if z == 0:
                            vec.pop(j, None)
                        else:
                            vec[j] = z
                        vec[j + 1000000000] = -c
            if d.c:
                vec[-1] = d.c
            combo = {}
            for pc, bv, bc in basis:
                if pc in vec:
                    m = Fraction(vec[pc]) / bv[pc]
                    for k, x in bv.items():
                        s = vec.get(k, 0) - m * x
                        if s == 0:
                            vec.pop(k, None)
                        else:
                            vec[k] = s
                    for k, x in bc.items():
                        combo[k] = combo.get(k, 0) + m * x
            if vec:
                # new pivot: delta_i = rest + sum combo ; store rest = delta_i - sum combo*delta_k
                pc = sorted(vec, key=lambda z: (z == -1, z))[0]
                bc = dict((k, -x) for k, x in combo.items())
                bc[i] = bc.get(i, 0) + 1
                basis.append((pc, vec, bc))
                ka, kb = A.facts.bounds(a), B.facts.bounds(b)
                lo, hi = min(ka[0], kb[0]), max(ka[1], kb[1])
                isint = dom.is_int_lin(a) and dom.is_int_lin(b)
                at = dom.fresh("phi", isint)
                self.pivots.append((i, a, b, at.id, ka, kb))
                vals[i] = Lin(0, ((at.id, 1),))
            else:
                # slot_i = sum combo_k * phi_k + remainder
                v = a
                for k, m in combo.items():
                    if m == 0:
                        continue
                    m = dom._clean(m)
                    v = dom.tolin(dom.sub(v, dom.mul(self.slots[k][0], m)))
                for k, m in combo.items():
                    if m == 0:
                        continue
                    m = dom._clean(m)
                    v = dom.tolin(dom.add(v, dom.mul(vals[k], m)))
                vals[i] = dom.conc(v.c) if not v.t else v
        # facts
        f = Facts()
        phi_of = {}
        for i, a, b, pid, ka, kb in self.pivots:
            if len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1:
                phi_of[a.t[0][0]] = (pid, b)
        self.phi_of = phi_of
        self.bounds_lost = False
        forget = self.interp.forget
        for k, (l, h) in A.facts.d.items():
            if forget and len(k) > 1:
                continue
            # fact over A; what is it in B under the substitution old-phi -> b value?
            subst_b = 0
            newform = 0
            touched = False
            for at, c in k:
                if at in phi_of:
                    touched = True
                    subst_b = dom.add(subst_b, dom.mul(phi_of[at][1], c))
                    newform = dom.add(newform, Lin(0, ((phi_of[at][0], c),)))
                else:
                    subst_b = dom.add(subst_b, Lin(0, ((at, c),)))
                    newform = dom.add(newform, Lin(0, ((at, c),)))
            o = B.facts.bounds(subst_b)
            lo, hi = min(l, o[0]), max(h, o[1])
            if lo < l or hi > h:
                self.bounds_lost = self.bounds_lost or touched
                if self.widen:
                    if lo < l:
                        lo = -INF
                    if hi > h:
                        hi = INF
            if lo == -INF and hi == INF:
                continue
            try:
                if isinstance(newform, Lin):
                    f.assume(newform, lo, hi)
                if touched and not self.still_used(k):
                    continue
                if touched:
                    # old atoms keep their own facts only if they hold in B too
                    o = B.facts.bounds(dom.form_lin(k))
                    lo, hi = min(l, o[0]), max(h, o[1])
                    if lo != -INF or hi != INF:
                        f.assume(dom.form_lin(k), lo, hi)
            except Infeasible:
                pass
        for k, (l, h) in B.facts.d.items():
            if k in A.facts.d or k in f.d or forget and len(k) > 1:
                continue
            o = A.facts.bounds(dom.form_lin(k))
            lo, hi = min(l, o[0]), max(h, o[1])
            if lo != -INF or hi != INF:
                f.d[k] = (lo, hi)
                f.cache = {}
        for i, a, b, pid, ka, kb in self.pivots:
            lo, hi = min(ka[0], kb[0]), max(ka[1], kb[1])
            if self.widen:
                thr = self.interp.thresholds
                if lo < ka[0]:
                    lo = max([t for t in thr if t <= lo] + [-INF])
                if hi > ka[1]:
                    hi = min([t for t in thr if t >= hi] + [INF])
            if lo != -INF or hi != INF:
                try:
                    f.assume(Lin(0, ((pid, 1),)), lo, hi)
                except Infeasible:
                    pass
            if not (isinstance(a, Lin) and len(a.t) == 1):
                continue
        return vals, f

    def own_phis(self):
        """Unknowns introduced at this loop head that occur only in values
        that differ between the two states."""
        head = getattr(self, "head", None)
        if head is None:
            return frozenset()
        ph = self.interp.phi_head
        own = set()
        for a, b in self.slots:
            for j, _ in a.t:
                if ph.get(j) == head:
                    own.add(j)
        if not own:
            return own
        acc = set()
        seen = set()
        todo = list(self.A.frames)
        for v in self.newghost.values():
            value_atoms(v, acc)
            self.interp._refs(v, todo)
        while todo:
            o = todo.pop()
            if o in seen or o not in self.A.heap:
                continue
            seen.add(o)
            ob = self.newobjs.get(o)
            if ob is None:
                ob = self.A.heap[o]
            for v in obj_values(ob):
                self.interp._refs(v, todo)
                value_atoms(v, acc)
        deep = set()
        for j in acc:
            dom._deps_atom(j, deep, set())
            if ATOMS[j].defn is not None:
                deep.add(j)
        return own - acc - deep

    def still_used(self, key):
        return True

    def no_loss(self):
        """True when the affine merge result is the state A up to renaming:
        B adds nothing to A."""
        if self.changed or self.bounds_lost:
            return False
        seen = {}
        for i, a, b, pid, ka, kb in self.pivots:
            if not (len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1):
                return False
            at = a.t[0][0]
            if ATOMS[at].name != "phi" or at in seen:
                return False
            if kb[0] < ka[0] or kb[1] > ka[1]:
                return False
            seen[at] = pid
        self.old_phis = set(seen)
        return True


def obj_values(o):
    if isinstance(o, FrameO):
        return list(o.vars.values()) + ([Ref(o.parent)] if o.parent is not None else [])
    if isinstance(o, InstO):
        return list(o.attrs.values())
    if isinstance(o, ListO):
        return list(o.pre) + list(o.suf) + [o.slen]
    if isinstance(o, DictO):
        return list(o.items.values())
    if isinstance(o, CellO):
        return list(o.vals)
    if isinstance(o, StreamO):
        return [o.pos]
    return []


def map_obj(o, f):
    if isinstance(o, FrameO):
        return FrameO(dict((k, f(v)) for k, v in o.vars.items()), o.parent, o.mod, o.fn)
    if isinstance(o, InstO):
        return o.rep(attrs=dict((k, f(v)) for k, v in o.attrs.items()))
    if isinstance(o, ListO):
        return o.rep(pre=[f(v) for v in o.pre], suf=[f(v) for v in o.suf], slen=f(o.slen))
    if isinstance(o, DictO):
        return o.rep(items=dict((k, f(v)) for k, v in o.items.items()))
    if isinstance(o, CellO):
        return CellO(o.kind, [f(v) for v in o.vals], o.label)
    if isinstance(o, StreamO):
        return o.rep(pos=f(o.pos))
    return o


def value_atoms(v, out):
    if isinstance(v, Lin):
        for i, _ in v.t:
            out.add(i)
    elif isinstance(v, Tup):
        for x in v.items:
            value_atoms(x, out)
    elif isinstance(v, MU):
        value_atoms(v.v, out)
    elif isinstance(v, Choice):
        for x in v.vals:
            value_atoms(x, out)
    elif isinstance(v, RangeV):
        for x in (v.a, v.b, v.step):
            value_atoms(x, out)
    elif isinstance(v, BytesV):
        for p in v.parts:
            if isinstance(p, tuple):
                for x in p:
                    value_atoms(x, out)
            else:
                value_atoms(p.n, out)
    elif isinstance(v, SStr):
        for p in v.parts:
            if isinstance(p, StrAtom):
                value_atoms(p.clen, out)
    elif isinstance(v, (MethV,)):
        value_atoms(v.obj, out)
    elif isinstance(v, GenExpV):
        for x in v.args:
            value_atoms(x, out)
