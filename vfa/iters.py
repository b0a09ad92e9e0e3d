"""Typestate of one-shot iterators: a generator expression, map or filter object is consumed once."""
import ast

CONSUMERS = {"list", "set", "tuple", "sorted", "sum", "any", "all", "max", "min", "dict", "frozenset", "join", "extend", "update", "zip", "enumerate", "map", "filter", "reversed"}


def one_shot(e):
    return isinstance(e, ast.GeneratorExp) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("map", "filter")


class Walk:
    def __init__(self, node):
        self.out = []      # (line, name)
        self.body(node.body if not isinstance(node, ast.Lambda) else [ast.Expr(node.body)], {})

    # state: {name: "F" fresh | "C" consumed}; None: unreachable

    def use(self, name, st, node):
        if st.get(name) == "C":
            self.out.append((node.lineno, name))
        elif name in st:
            st[name] = "C"

    def consumed(self, e, st):
        """The expression is iterated over."""
        if isinstance(e, ast.Name) and e.id in st:
            self.use(e.id, st, e)
        else:
            self.expr(e, st)

    def many(self, e, st):
        """Expression evaluated any number of times: a consumption in it happens again."""
        for _ in range(2):
            self.expr(e, st)

    def expr(self, e, st):
        if e is None or not isinstance(e, ast.AST):
            return
        if isinstance(e, ast.Lambda):
            inner = {k: v for k, v in st.items() if k not in {a.arg for a in e.args.args}}
            self.many(e.body, inner)
            return
        if isinstance(e, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            first = True
            hidden = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            inner = dict(st)
            for g in e.generators:
                if first:
                    self.consumed(g.iter, st)
                    inner = {k: v for k, v in st.items() if k not in hidden}
                else:
                    for _ in range(2):
                        self.consumed(g.iter, inner)
                first = False
                for c in g.ifs:
                    self.many(c, inner)
            for c in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.many(c, inner)
            for k in st:
                if k in inner:
                    st[k] = inner[k]
            return
        if isinstance(e, ast.Call):
            n = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else None
            self.expr(e.func, st)
            for a in e.args:
                if isinstance(a, ast.Name) and a.id in st and n in CONSUMERS:
                    self.use(a.id, st, a)
                elif isinstance(a, ast.Name) and a.id in st:
                    st.pop(a.id)          # escapes: nothing known any more
                elif isinstance(a, ast.Starred):
                    self.consumed(a.value, st)
                else:
                    self.expr(a, st)
            for k in e.keywords:
                if isinstance(k.value, ast.Name):
                    st.pop(k.value.id, None)
                else:
                    self.expr(k.value, st)
            return
        if isinstance(e, ast.Compare):
            self.expr(e.left, st)
            for o, c in zip(e.ops, e.comparators):
                if isinstance(o, (ast.In, ast.NotIn)):
                    self.consumed(c, st)
                else:
                    self.expr(c, st)
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, st)
            a, b = dict(st), dict(st)
            self.expr(e.body, a)
            self.expr(e.orelse, b)
            self.join(st, a, b)
            return
        if isinstance(e, ast.BoolOp):
            self.expr(e.values[0], st)
            for v in e.values[1:]:
                a = dict(st)
                self.expr(v, a)
                self.join(st, a, dict(st))
            return
        if isinstance(e, (ast.YieldFrom,)):
            self.consumed(e.value, st)
            return
        for c in ast.iter_child_nodes(e):
            self.expr(c, st)

    def join(self, st, a, b):
        """Consumed only when consumed on both sides."""
        st.clear()
        for k in a:
            if k in b:
                st[k] = "C" if a[k] == b[k] == "C" else "F"

    def bind(self, t, value, st):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                st.pop(n.id, None)
        if isinstance(t, ast.Name) and value is not None:
            if one_shot(value):
                st[t.id] = "F"
            elif isinstance(value, ast.IfExp) and one_shot(value.body) and one_shot(value.orelse):
                st[t.id] = "F"

    def body(self, stmts, st):
        """False when the end is not reached."""
        for s in stmts:
            if not self.stmt(s, st):
                return False
        return True

    def branches(self, st, *bodies):
        ends = []
        for b in bodies:
            x = dict(st)
            if self.body(b, x):
                ends.append(x)
        if not ends:
            return False
        cur = ends[0]
        for x in ends[1:]:
            y = {}
            self.join(y, cur, x)
            cur = y
        st.clear()
        st.update(cur)
        return True

    def loop(self, s, st):
        before = dict(st)
        x = dict(st)
        for _ in range(2):
            if isinstance(s, ast.While):
                self.expr(s.test, x)
            else:
                self.bind(s.target, None, x)
            if not self.body(s.body, x):
                break
        y = {}
        self.join(y, before, x)
        st.clear()
        st.update(y)
        self.body(s.orelse, st)
        return True

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for n in ast.walk(s):
                if isinstance(n, ast.Name):
                    st.pop(n.id, None)      # captured: nothing known
            return True
        if isinstance(s, ast.Assign):
            self.expr(s.value, st)
            if isinstance(s.value, ast.Name):
                st.pop(s.value.id, None)    # aliased
            for t in s.targets:
                self.bind(t, s.value, st)
            return True
        if isinstance(s, ast.AnnAssign):
            self.expr(s.value, st)
            self.bind(s.target, s.value, st)
            return True
        if isinstance(s, ast.AugAssign):
            self.consumed(s.value, st)
            self.bind(s.target, None, st)
            return True
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, st)
            return False
        if isinstance(s, (ast.Break, ast.Continue)):
            return False
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            return self.branches(st, s.body, s.orelse)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            if isinstance(s.iter, ast.Name) and s.iter.id in st and any(isinstance(n, (ast.Break, ast.Return)) for b in s.body for n in ast.walk(b)):
                st.pop(s.iter.id)     # may be resumed later
            self.consumed(s.iter, st)
            return self.loop(s, st)
        if isinstance(s, ast.While):
            return self.loop(s, st)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, None, st)
            return self.body(s.body, st)
        if isinstance(s, ast.Try):
            ends = [s.body + s.orelse] + [h.body for h in s.handlers]
            r = self.branches(st, *ends)
            return self.body(s.finalbody, st) and r
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, st)
        return True


def reuse(node):
    """Second consumptions of an exhausted iterator: [(line, variable)]."""
    try:
        return sorted(set(Walk(node).out))
    except RecursionError:
        return []
