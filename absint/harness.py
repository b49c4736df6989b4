"""Builders of abstract inputs shared by the property checkers."""
from . import dom
from .dom import Lin, INF
from .core import *
from .interp import *


def load(root="/repo", **kw):
    dom.reset()
    I = Interp(Package(root), **kw)
    I.load_all()
    return I


def stitch_t(cmds=None, xy=(False, -INF, INF), label="stitch"):
    """Template of a stitch [x, y, command]."""
    if cmds is None:
        c = T(num=(True, -INF, INF))
    else:
        c = T(consts=frozenset(("int", k) for k in cmds))
    return T(objs=(TObj("list", "list", [(0, T(num=xy)), (1, T(num=xy)), (2, c)], label),))


def star_list(st, t, label=None, lo=0, hi=INF):
    n = dom.sym("n", True, lo, hi)
    return st.alloc(ListO("list", (), t, (), n, label))


def list_of(st, items, label=None):
    return st.alloc(ListO("list", tuple(items), None, (), 0, label))


def new_obj(I, st, dotted, args=(), kwargs=None):
    """Instantiate a class of the package; -> (ref, state)."""
    res, exc = I.run(I.resolve(dotted), list(args), kwargs or {}, st)
    if not res:
        raise AnalysisError("cannot construct %s" % dotted)
    return res[0]


def set_attr(st, ref, name, val):
    o = st[ref]
    a = dict(o.attrs)
    a[name] = val
    st[ref] = o.rep(attrs=a)


def get_attr(st, ref, name):
    return st[ref].attrs[name]


def thread_t(I, plain=True):
    """Template of an arbitrary EmbThread."""
    st = I.base.fork()
    r, st = new_obj(I, st, "pyembroidery.EmbThread.EmbThread")
    set_attr(st, r, "color", dom.sym("color", True, 0, 0xFFFFFF))
    if not plain:
        for a in ("description", "catalog_number", "details", "brand", "chart", "weight"):
            set_attr(st, r, a, Choice((None, fresh_str(a, 0, INF, False))))
    return t_of(r, st, 0)
