"""Backward liveness of local names, per function body (syntax directed).

after[stmt]  = names live after the statement
head[loop]   = names live at the loop head
"""
import ast


class UseDef(ast.NodeVisitor):
    def __init__(self):
        self.use = set()
        self.defs = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.use.add(n.id)
        elif isinstance(n.ctx, ast.Del):
            self.use.add(n.id)
        else:
            self.defs.add(n.id)

    def visit_FunctionDef(self, n):
        self.defs.add(n.name)
        for d in n.decorator_list + n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.use.add(x.id)

    def visit_Lambda(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                self.use.add(x.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda
    visit_ClassDef = visit_FunctionDef if False else (lambda self, n: self.defs.add(n.name))

    def visit_AugAssign(self, n):
        self.visit(n.value)
        if isinstance(n.target, ast.Name):
            self.use.add(n.target.id)
            self.defs.add(n.target.id)
        else:
            self.visit(n.target)


def ud(*nodes):
    v = UseDef()
    for n in nodes:
        if n is None:
            continue
        if isinstance(n, list):
            for x in n:
                v.visit(x)
        else:
            v.visit(n)
    return v


class Liveness(object):
    def __init__(self, fnode):
        self.after = {}
        self.head = {}
        body = fnode.body if not isinstance(fnode, ast.Lambda) else []
        self.allnames = set(x.id for x in ast.walk(fnode) if isinstance(x, ast.Name))
        captured = set()
        for x in ast.walk(fnode):
            if x is not fnode and isinstance(x, (ast.FunctionDef, ast.Lambda)):
                captured |= set(y.id for y in ast.walk(x) if isinstance(y, ast.Name))
        self.captured = captured
        self.block(body, frozenset(), frozenset(), frozenset(), frozenset())

    def block(self, stmts, out, brk, cont, exc):
        live = set(out)
        for s in reversed(stmts):
            live = self.stmt(s, frozenset(live), brk, cont, exc)
        return frozenset(live)

    def stmt(self, s, out, brk, cont, exc):
        key = id(s)
        self.after[key] = self.after.get(key, frozenset()) | out
        if isinstance(s, ast.If):
            a = self.block(s.body, out, brk, cont, exc)
            b = self.block(s.orelse, out, brk, cont, exc)
            t = ud(s.test)
            return frozenset(a | b | t.use)
        if isinstance(s, (ast.For, ast.While)):
            head = frozenset(out)
            o = self.block(s.orelse, out, brk, cont, exc)
            if isinstance(s, ast.For):
                t = ud(s.target)
                it = ud(s.iter)
            else:
                t = ud(s.test)
            for _ in range(4):
                b = self.block(s.body, head, out, head, exc)
                if isinstance(s, ast.For):
                    n = frozenset((b - t.defs) | t.use | o | head)
                else:
                    n = frozenset(b | t.use | o | head)
                if n == head:
                    break
                head = n
            self.head[key] = self.head.get(key, frozenset()) | head
            if isinstance(s, ast.For):
                return frozenset(head | it.use)
            return head
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, out, brk, cont, exc)
            hs = frozenset()
            for h in s.handlers:
                hs |= self.block(h.body, fin, brk | fin, cont | fin, exc) - ({h.name} if h.name else set())
                if h.type is not None:
                    hs |= ud(h.type).use
            e = self.block(s.orelse, fin, brk | fin, cont | fin, exc)
            b = self.block(s.body, e | hs, brk | fin, cont | fin, exc | hs)
            # any point of the body may jump to a handler
            for x in s.body:
                for y in ast.walk(x):
                    if isinstance(y, ast.stmt):
                        self.after[id(y)] = self.after.get(id(y), frozenset()) | hs | fin
                        if id(y) in self.head:
                            self.head[id(y)] |= hs | fin
            return frozenset(b | hs | fin)
        if isinstance(s, ast.With):
            b = self.block(s.body, out, brk, cont, exc)
            u = set(b)
            for it in reversed(s.items):
                if it.optional_vars is not None:
                    u -= ud(it.optional_vars).defs
                u |= ud(it.context_expr).use
                if it.optional_vars is not None:
                    u |= ud(it.optional_vars).use
            return frozenset(u)
        if isinstance(s, ast.Return):
            return frozenset(ud(s.value).use | exc)
        if isinstance(s, ast.Raise):
            return frozenset(ud(s.exc).use | exc)
        if isinstance(s, ast.Break):
            return frozenset(brk)
        if isinstance(s, ast.Continue):
            return frozenset(cont)
        v = ud(s)
        if isinstance(s, ast.Assign):
            return frozenset((out - v.defs) | v.use)
        if isinstance(s, (ast.AugAssign, ast.Expr, ast.AnnAssign, ast.Delete, ast.FunctionDef)):
            if isinstance(s, ast.AnnAssign) and s.value is None:
                return out
            return frozenset((out - (v.defs - v.use)) | v.use)
        return frozenset(out | v.use)


_cache = {}


def liveness(fnode):
    r = _cache.get(id(fnode))
    if r is None:
        r = Liveness(fnode)
        _cache[id(fnode)] = r
    return r
