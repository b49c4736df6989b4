"""The encoder (Transcoder) on an arbitrary source command list: what one source
command contributes to the encoded list, from every reachable encoder state."""
import os
import re
import time
from .util import *
from absint.codec import witness

EXPL = ("Abstract interpretation of Transcoder.transcode on a source list of unknown length whose generic element is any of the "
        "admitted commands at an arbitrary (symbolic) point: the encoding loop is taken to its fixpoint, partitioned by the encoder's "
        "flags, with ghost state recording what the current source command has appended, the sequin mode, the number of threads "
        "and thread changes and the END marks.  Each rule is checked at every append and at the end of every iteration, so it "
        "holds for every list by induction.")

MOVES = ("STITCH", "JUMP", "SEQUIN_EJECT")
FREE_SETTINGS = ("OPTION_MAX_STITCH_LENGTH", "OPTION_MAX_JUMP_LENGTH", "OPTION_EXPLICIT_TRIM", "OPTION_IMPLICIT_TRIM",
                 "CONTINGENCY_LONG_STITCH_NONE", "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE", "CONTINGENCY_LONG_STITCH_SEW_TO")
CORE = ("STITCH", "JUMP", "TRIM", "STOP", "END", "COLOR_CHANGE", "NEEDLE_SET", "SEQUIN_MODE", "SEQUIN_EJECT",
        "SLOW", "FAST", "SEW_TO", "NEEDLE_AT", "STITCH_BREAK", "SEQUENCE_BREAK", "COLOR_BREAK", "FRAME_EJECT")
OUT = ("STITCH", "JUMP", "TRIM", "STOP", "END", "COLOR_CHANGE", "NEEDLE_SET", "SEQUIN_MODE", "SEQUIN_EJECT", "SLOW", "FAST")


class EncMat(object):
    """Generic source stitch."""

    def __init__(self, mon, vocab, step=None, isint=False):
        self.mon, self.vocab, self.lim, self.isint = mon, vocab, step, isint

    def init(self, I, st):
        return (0, 0)

    def step(self, I, st, extra):
        out = []
        main = self.mon.main(I, st, True)
        vocab = self.vocab
        if main and self.mon.conf.get("bounded"):
            hist = self.mon.get(st)[0][9]
            if len(hist) > self.mon.conf["bounded"]:
                return []
            if not hist and not self.mon.conf.get("any_first"):
                vocab = [self.mon.C["STITCH"]]
        for n, c in enumerate(vocab):
            z = st.fork() if n < len(vocab) - 1 else st
            if self.lim is None:
                x, y = dom.sym("X", self.isint, -INF, INF), dom.sym("Y", self.isint, -INF, INF)
            else:
                x = dom.add(extra[0], dom.sym("D", True, -self.lim, self.lim))
                y = dom.add(extra[1], dom.sym("E", True, -self.lim, self.lim))
            r = z.alloc(ListO("list", (x, y, c), None, (), 0, "stitch"))
            if main:
                self.mon.begin(I, z, c, x, y)
            out.append((r, (x, y) if self.lim is not None else extra, z))
        return out

    def done(self, I, st, extra):
        if self.mon.main(I, st, False):
            self.mon.done(I, st)

    def any(self, I, st):
        out = []
        for c in self.vocab:
            z = st.fork()
            r = z.alloc(ListO("list", (dom.sym("X", self.isint, -INF, INF), dom.sym("Y", self.isint, -INF, INF), c),
                              None, (), 0, "stitch"))
            out.append((r, z))
        return out

    def copied(self):
        return self


class EncMon(Monitor):
    def __init__(self, C, conf):
        self.C = C
        self.conf = conf
        self.names = dict((v, k) for k, v in C.items() if isinstance(v, int) and k in ALL)
        self.results = {}       # (rule, instance) -> True / (where, msg) / None
        self.events = 0
        self.loops = set()
        self.loop = 0
        self.enc = None

    # ghost: kind (command, what it emitted so far, END marks, sequin mode, (sewn, armed) at its start, is the last emission at its
    # point, loop, history (bounded runs), sewn: stitched since the last trim / stop / thread change, armed: STITCH_BREAK without a stitch since),
    # vals (x, y, last x, last y, threads, thread changes)
    def setup(self, st):
        st.ghost[("enc",)] = st.alloc(CellO((None, (), 0, False, (), None, 0, False, False, ()), (0, 0, 0, 0, 0, 0)))

    def get(self, st):
        c = st[st.ghost[("enc",)]]
        return c.kind, c.vals

    def put(self, st, kind, vals):
        st[st.ghost[("enc",)]] = CellO(tuple(kind), tuple(vals))

    def main(self, I, st, start):
        """Is this the loop whose iterations are judged?  (not one nested in it)"""
        k, _ = self.get(st)
        return k[0] is None if start else k[6] == id(I.loop_node)

    def begin(self, I, st, c, x, y):
        k, v = self.get(st)
        if self.conf.get("round"):
            x, y = dom.rnd(x, st.facts), dom.rnd(y, st.facts)
        st.trace = False        # an iteration starts in a state the fixpoint (partitioned by the flags) found reachable
        self.put(st, (c & 0xFF, (), k[2], k[3], k[7:9], None, id(I.loop_node)) + k[7:9] + (k[9] + (c & 0xFF,) if self.conf.get("bounded") else (),), (x, y) + v[2:])

    def verdict(self, rule, inst, ok, I, st, node, msg):
        """ok: True, False (definite) or None."""
        key = (rule, inst, self.loop if rule in ("contribution", "position") else 0)
        if ok is False and (st.trace or witness(1, st) is None):
            ok = None
        cur = self.results.get(key)
        if I.dry:
            return
        if ok is True:
            self.results.setdefault(key, True)
        elif ok is False:
            if not isinstance(cur, tuple):
                self.results[key] = (I.at(node) if hasattr(I, "at") else "EmbEncoder.py:%s" % getattr(node, "lineno", "?"), msg)
        elif not isinstance(cur, tuple):
            self.results[key] = None

    def rel(self, st, got, want):
        d = dom.sub(got, want)
        lo, hi = st.facts.bounds(d) if isinstance(d, Lin) else (d, d)
        if lo == hi == 0:
            return True
        if isinstance(d, Lin) and any(dom.ATOMS[i].name == "phi" for i in dom.deps(d, set())):
            return None
        return False if witness(d, st) is not None else None

    def on_append(self, I, st, oid, val, node):
        o = st.heap.get(oid)
        if not isinstance(o, ListO):
            return
        k, v = self.get(st)
        x, y, lx, ly, nt, nc = v
        cmd, shape, ends, mode, fl, pv, loop, sewn, armed, hist = k
        self.loops.add(loop)
        if o.label == "threads":
            self.put(st, k, (x, y, lx, ly, dom.add(nt, 1), nc))
            return
        if o.label != "events":
            return
        self.events += I.dry == 0
        e = None
        if isinstance(val, Ref) and isinstance(st[val], ListO) and st[val].star is None and len(st[val].pre) >= 3:
            e = st[val].pre[:3]
        elif isinstance(val, Tup) and len(val.items) >= 3:
            e = val.items[:3]
        src = self.names.get(cmd, cmd)
        c = None
        if e is not None:
            cs = []
            for w in (e[2].vals if isinstance(e[2], Choice) else (e[2],)):
                if isinstance(w, Lin):
                    w = dom.band(w, 0xFF, st.facts)
                    w = st.facts.simplify(w) if isinstance(w, Lin) else w
                cs.append(w & 0xFF if isinstance(w, int) else None)
            # of several possible commands the one that breaks the rule matters
            c = cs[0]
            for w in cs:
                if w is None or self.names.get(w, w) not in self.conf["out"]:
                    c = w
        name = self.names.get(c, c)
        allowed = self.conf["out"]
        self.verdict("vocabulary", "%s -> %s" % (src, name), None if c is None else name in allowed, I, st, node,
                     "encoding %s emits %s, which is not in the format's vocabulary" % (src, name))
        self.verdict("end", "after END", ends == 0, I, st, node, "%s is appended after END" % name)
        if c == self.C["END"]:
            ends = min(ends + 1, 2)
        inst = "%s from %s" % (name, src)
        if name == "SEQUIN_MODE":
            mode = not mode
        if name == "SEQUIN_EJECT":
            self.verdict("sequin", inst, mode, I, st, node, "SEQUIN_EJECT emitted outside sequin mode")
        if name in ("JUMP", "TRIM"):
            self.verdict("sequin", inst, not mode, I, st, node, "%s emitted inside sequin mode" % name)
        tc = self.conf["thread_change"]
        if name in ("COLOR_CHANGE", "NEEDLE_SET") or name == "STOP" and tc == "STOP" and src not in ("STOP", "FRAME_EJECT"):
            nc = dom.add(nc, 1)
            if tc == "COLOR_CHANGE":
                self.verdict("threads", inst, self.rel(st, nt, dom.add(nc, 1)), I, st, node,
                             "%s is emitted with a number of threads that is not one more than the number of changes" % name)
            elif tc == "STOP":
                self.verdict("threads", inst, self.rel(st, nt, nc), I, st, node,
                             "%s is emitted with a number of threads other than the number of changes" % name)
        if name in ("STITCH", "SEQUIN_EJECT"):
            lo, hi = st.facts.bounds(nt) if isinstance(nt, Lin) else (nt, nt)
            if tc == "NEEDLE_SET":
                lo, hi = st.facts.bounds(nc) if isinstance(nc, Lin) else (nc, nc)
            self.verdict("threads", "declared before %s" % inst, True if lo >= 1 else False if hi <= 0 else None, I, st, node,
                         "%s is emitted before any thread is declared" % name)
        ex, ey = (e[0], e[1]) if e is not None and dom.isnum(e[0]) and dom.isnum(e[1]) else (None, None)
        if ex is None:
            to = None
        elif name in MOVES:
            a, b = self.rel(st, ex, x), self.rel(st, ey, y)
            to = True if a and b else False if a is False or b is False else None
            self.moved(I, st, node, name, src, ex, ey, lx, ly)
            lx, ly = ex, ey
        else:
            a, b = self.rel(st, ex, lx), self.rel(st, ey, ly)
            to = True if a and b else False if a is False or b is False else None
            self.verdict("place", inst, to, I, st, node, "%s is emitted away from the current needle position" % name)
            # go on from the expression the code uses for the same place
            lx, ly = (ex, ey) if to else (lx, ly)
        letter = self.letter(name, c, src)
        if not shape or shape[-1] != letter:
            shape = shape + (letter,)
        if len(shape) > 10:
            shape = shape[:10]
        if letter in "sq" or letter == "j" and src == "SEQUIN_EJECT":
            sewn = True
        elif letter in "toC":
            sewn = False
        self.put(st, (cmd, shape, ends, mode, fl, to, loop, sewn, armed, hist), (x, y, lx, ly, nt, nc))

    def moved(self, I, st, node, name, src, ex, ey, lx, ly):
        pass

    def letter(self, name, c, src):
        tc = self.conf["thread_change"]
        if name == tc and not (name == "STOP" and src in ("STOP", "FRAME_EJECT")):
            return "C"
        return {"STITCH": "s", "JUMP": "j", "TRIM": "t", "STOP": "o", "END": "e", "SEQUIN_MODE": "m", "SEQUIN_EJECT": "q",
                "SLOW": "-", "FAST": "+", "COLOR_CHANGE": "?", "NEEDLE_SET": "?"}.get(name, "?")

    def done(self, I, st):
        k, v = self.get(st)
        cmd, shape, ends, mode, fl, to, loop, sewn, armed, hist = k
        if cmd is None:
            return
        src = self.names.get(cmd, "other")
        self.loop = loop
        self.iteration(I, st, src, "".join(shape), fl, to, v)
        if src == "STITCH_BREAK":
            armed = True
        elif src in ("STITCH", "NEEDLE_AT", "SEW_TO"):
            armed = False
        elif src == "SEQUIN_EJECT" and armed:
            armed = None
        self.put(st, (None, (), ends, mode, (), None, 0, sewn, armed, hist), (0, 0) + v[2:])

    def iteration(self, I, st, src, shape, fl, to, v):
        """One source command: allowed shapes of what it emits."""
        sewn, armed = fl
        conf = self.conf
        ctg = conf.get("sequin")
        final_to = False
        node = None
        if src in ("STITCH", "NEEDLE_AT", "SEW_TO"):
            pat, final_to = r"C?m?j?s", True
            if src == "SEW_TO":
                pat = r"C?(m?j)?s"
        elif src == "JUMP":
            pat = r"m?j" if armed is False else r"" if armed else r"(m?j)?"
            final_to = bool(shape)
        elif src in ("TRIM", "SEQUENCE_BREAK"):
            pat = r"m?t" if sewn else r""
        elif src in ("COLOR_CHANGE", "NEEDLE_SET"):
            lo, hi = st.facts.bounds(v[4]) if isinstance(v[4], Lin) else (v[4], v[4])
            pat = r"(m?t)?C" if lo >= 2 or conf["thread_change"] != "COLOR_CHANGE" else r"(m?t)?C?"
        elif src == "COLOR_BREAK":
            pat = r"(m?t)?C?"
        elif src == "STOP":
            pat = r"o"
        elif src == "FRAME_EJECT":
            pat = r"(m?t)?m?jo"
        elif src == "SLOW":
            pat = r"-" if conf.get("speeds", True) else r""
        elif src == "FAST":
            pat = r"\+" if conf.get("speeds", True) else r""
        elif src == "END":
            pat = r"e"
        elif src == "SEQUIN_MODE":
            pat = r"m" if ctg == "UTILIZE" else r"" if ctg else r"m?"
        elif src == "SEQUIN_EJECT":
            final_to = ctg != "REMOVE"
            pat = {"UTILIZE": r"C?m?j?s?m?s?q", "JUMP": r"C?m?j?s?j", "STITCH": r"C?m?j?s",
                   "REMOVE": r"C?m?j?s?m?", None: r"C?m?j?s?m?s?[qjs]?"}[ctg]
            if ctg is None:
                final_to = False
        elif src.startswith("CONTINGENCY_SEQUIN"):
            pat = r"m?"
        elif src.startswith("TIE_"):
            return
        else:
            pat = r""
        ok = re.fullmatch(pat, shape) is not None
        if not ok:
            self.verdict("contribution", src, False if "?" not in shape or not conf.get("loose") else None, I, st, node,
                         "%s emits %s" % (src, self.spell(shape)))
            return
        self.verdict("contribution", src, True, I, st, node, "")
        if final_to:
            self.verdict("position", src, to, I, st, node, "the last command emitted for %s is not at its point" % src)

    def spell(self, shape):
        n = {"s": "STITCH", "j": "JUMP", "t": "TRIM", "o": "STOP", "e": "END", "m": "SEQUIN_MODE", "q": "SEQUIN_EJECT",
             "-": "SLOW", "+": "FAST", "C": "thread change", "?": "another command"}
        return "[" + ", ".join(n[c] for c in shape) + "]" if shape else "nothing"

    def on_call(self, I, st, fn, args, kwargs, node):
        f = fn.fn if isinstance(fn, BoundV) else fn
        h = self.stub.get(getattr(f, "name", None))
        return h(I, st, fn, args, kwargs) if h is not None else None

    stub = {}


ALL = ("NO_COMMAND",) + CORE + FREE_SETTINGS + OUT + ("TIE_ON", "TIE_OFF", "MATRIX_TRANSLATE", "MATRIX_SCALE", "MATRIX_ROTATE",
                                    "MATRIX_SCALE_ORIGIN", "MATRIX_ROTATE_ORIGIN", "MATRIX_RESET", "SET_CHANGE_SEQUENCE",
                                    "CONTINGENCY_TIE_ON_NONE", "CONTINGENCY_TIE_OFF_NONE", "CONTINGENCY_TIE_ON_THREE_SMALL",
                                    "CONTINGENCY_TIE_OFF_THREE_SMALL", "CONTINGENCY_SEQUIN_REMOVE", "CONTINGENCY_SEQUIN_STITCH",
                                    "CONTINGENCY_SEQUIN_JUMP", "CONTINGENCY_SEQUIN_UTILIZE")


def run_encoder(root, conf, monitor=EncMon, step=None, pre=None):
    """-> (monitor, results, exceptions)"""
    I = load(root)
    C = I.constants("pyembroidery.EmbConstant")
    for n in ALL:
        if n not in C:
            raise Broken("constant %s not found" % n)
    tr = I.resolve("pyembroidery.EmbEncoder.Transcoder")
    if not isinstance(tr, ClsV):
        raise Broken("Transcoder not found")
    mon = monitor(C, conf)
    settings = dict(conf.get("settings", {}))
    if conf.get("thread_change"):
        settings["thread_change_command"] = C[conf["thread_change"]]
    if conf.get("sequin"):
        settings["sequin_contingency"] = C["CONTINGENCY_SEQUIN_" + conf["sequin"]]
    if conf.get("round"):
        settings["round"] = True
    if conf.get("explicit_trim"):
        settings["explicit_trim"] = True
    if conf.get("long"):
        settings["long_stitch_contingency"] = C["CONTINGENCY_LONG_STITCH_" + conf["long"]]
    if "speeds" in conf:
        settings["writes_speeds"] = conf["speeds"]
    for k in ("max_stitch", "max_jump", "full_jump"):
        if k in conf:
            settings[k] = conf[k]
    st = I.base.fork()
    src, st = new_obj(I, st, PAT)
    dst, st = new_obj(I, st, PAT)
    vocab = [C[c] if isinstance(c, str) else c for c in conf["vocab"]]
    mat = EncMat(mon, vocab, step)
    n = dom.sym("n", True, 0, INF)
    tt = thread_t(I)
    set_attr(st, src, "stitches", st.alloc(ListO("list", (), T(mat=mat), (), n, "source")))
    set_attr(st, src, "threadlist", star_list(st, tt, "srcthreads"))
    for a, lab in (("stitches", "events"), ("threadlist", "threads")):
        r = get_attr(st, dst, a)
        st[r] = st[r].rep(label=lab)
    d = st.alloc(DictO(settings, None))
    enc, st = new_obj(I, st, "pyembroidery.EmbEncoder.Transcoder", [d])
    mon.enc = enc
    mon.setup(st)
    # what is planned for one thread change: any thread, any needle, and a command other than the one the settings ask for
    plan = lambda other: T(objs=(TObj("list", "list", [(0, T(consts=frozenset([("int", other)]))), (1, T(num=(True, 0, 250))), (2, T(num=(True, 1, 250))), (3, tt)],
                        "plan"),))
    other = C["COLOR_CHANGE" if conf.get("thread_change") == "NEEDLE_SET" else "NEEDLE_SET"]

    def planned(I, st, fn, a, k):
        if not conf.get("bounded"):
            return [(st.alloc(DictO({}, plan(other))), st)]
        th, st = new_obj(I, st, THR)        # one and the same thread over and over
        return [(st.alloc(DictO(dict((n, st.alloc(ListO("list", (other, n, n % 5 + 1, th), None, (), 0, "plan"))) for n in range(6)), None)), st)]
    mon.stub = {"build_thread_change_sequence": planned,
                "lookahead_stitch": lambda I, st, fn, a, k: [(True, st.fork()), (False, st)]}
    I.mon = mon
    I.choice_ints = frozenset([C["NO_COMMAND"]] + [v & 0xFF for v in vocab])

    def key(s):
        g = s.ghost.get(("enc",))
        pos = [(s.facts.bounds(v)[0] if isinstance(v, Lin) else v) >= 1 for v in s[g].vals[4:6]]
        return (pos, tuple(repr(s[enc].attrs.get(k)) for k in ("state_trimmed", "state_jumping", "state_sequin_mode")),
                len(s.frames), s[g].kind if g is not None else None)
    I.part_key = key
    t = time.time()
    try:
        res, exc = I.run(I.resolve("pyembroidery.EmbEncoder.Transcoder.transcode"), [enc, src, dst], {}, st)
    finally:
        I.part_key = None
        I.mon = Monitor()
    mon.seconds = time.time() - t
    for v, s in res:
        k, vals = mon.get(s)
        I.dry = 0
        # the list may end inside an iteration (END)
        if k[0] is not None:
            mon.done(I, s)
        mon.verdict("end", "one END", k[2] == 1, I, s, None, "the encoded list ends with %s END commands" % (
            k[2] if k[2] < 2 else "several"))
        mon.verdict("end", "returns the destination", v == dst, I, s, None, "transcode does not return the destination pattern")
    return mon, res, exc


def report(ctx, name, mon, exc, rules):
    for (rule, inst, loop), r in sorted(mon.results.items(), key=str):
        if rule not in rules or loop and loop not in mon.loops:
            continue
        i = "%s: %s" % (name, inst)
        if r is True:
            ctx.ok(rule, i)
        elif r is None:
            ctx.unknown(rule, i, "not decided")
        else:
            ctx.bad(rule, i, "pyembroidery/" + r[0], r[1])
    ctx.count("appends to the encoded list", mon.events)
    ctx.note("%s: %.1f s" % (name, mon.seconds))


def run_confs(ctx, confs, rules, monitor=EncMon, step=None):
    def job(conf):
        def go(c):
            try:
                mon, res, exc = run_encoder(c.root, conf, monitor, step)
            except (AnalysisError, Budget) as e:
                for r in rules:
                    c.unknown(r, conf["name"], e)
                return
            report(c, conf["name"], mon, exc, rules)
            for s, e in exc:
                if e.definite and not s.trace and witness(1, s) is not None:
                    c.note("raises %s: %s" % (conf["name"], e))
            if os.environ.get("VERIF_DEBUG"):
                print(c.notes, len(res), flush=True)
        return go
    fork_map(ctx, [job(c) for c in confs])


def confs(tier="quick"):
    """Thread change command x sequin contingency, then settings that change what is emitted."""
    out = []

    def add(tc, sq, name="", extra=(), drop=(), **kw):
        o = set(OUT) - set(("COLOR_CHANGE", "NEEDLE_SET"))
        if tc != "STOP":
            o.add(tc)
        if sq != "UTILIZE":
            o -= set(("SEQUIN_MODE", "SEQUIN_EJECT"))
        if kw.get("speeds") is False:
            o -= set(("SLOW", "FAST"))
        out.append(dict(name="%s/%s%s" % (tc, sq, name), thread_change=tc, sequin=sq,
                        vocab=tuple(c for c in CORE if c not in drop) + tuple(extra) + (0xEE,), out=o, loop="transcode_main", **kw))
    add("COLOR_CHANGE", "UTILIZE", ", explicit trim", explicit_trim=True, drop=("STITCH_BREAK",))
    if tier == "thorough":
        add("COLOR_CHANGE", "JUMP", ", steps of at most 121", max_stitch=121, max_jump=121)
    for tc in ("COLOR_CHANGE", "NEEDLE_SET", "STOP"):
        for n, sq in enumerate(("UTILIZE", "JUMP", "STITCH", "REMOVE")):
            kw = {"speeds": False} if n % 2 else {}
            if tc == "COLOR_CHANGE" and sq == "UTILIZE":
                kw["drop"] = ("STITCH_BREAK",)
            add(tc, sq, **kw)
    add("COLOR_CHANGE", "JUMP", ", up to three commands", bounded=2)
    add("COLOR_CHANGE", "UTILIZE", ", up to three commands", bounded=2, explicit_trim=True)
    add("COLOR_CHANGE", "UTILIZE", ", up to two commands", bounded=1, any_first=True)
    add("STOP", "JUMP", ", up to two commands", bounded=1, any_first=True)
    add("NEEDLE_SET", "UTILIZE", ", up to two commands", bounded=1, any_first=True)
    add("NEEDLE_SET", "STITCH", ", up to three commands", bounded=2)
    add("STOP", "REMOVE", ", up to three commands", bounded=2)
    add("COLOR_CHANGE", "STITCH", ", up to three commands, steps of at most 121", bounded=2, max_stitch=121, max_jump=121)
    add("COLOR_CHANGE", "STITCH", ", rounded", round=True)
    add("COLOR_CHANGE", "JUMP", ", full jumps", full_jump=True)
    add("COLOR_CHANGE", "JUMP", ", long stitches sewn to", long="SEW_TO")
    return out
