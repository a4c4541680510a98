"""A small reader of OPL models: grounds one on data into a mixed integer programme, decided by HiGHS."""
import itertools
import json
import re

import numpy as np
from scipy.optimize import Bounds, LinearConstraint, milp
from scipy.sparse import coo_matrix

INF = float("inf")


class Wrong(Exception):
    """The model does not fit the data or itself."""


def need(cond, msg):
    if not cond:
        raise Wrong(msg)


class Unsupported(Exception):
    """A part of OPL that this reader does not know: no verdict."""


TOKEN = re.compile(r"\s+|//[^\n]*|/\*.*?\*/|(?P<num>\d+\.\d+(?:[eE][-+]?\d+)?|\d+(?:[eE][-+]?\d+)?)|(?P<id>[A-Za-z_]\w*)|"
                   r"(?P<str>\"[^\"]*\")|(?P<op>\.\.\.|\.\.|<=|>=|==|!=|=>|&&|\|\||[-+*/%()\[\]{},;:=<>!?.])", re.S)


def lex(text):
    out, k = [], 0
    while k < len(text):
        m = TOKEN.match(text, k)
        if not m:
            raise Unsupported("character %r" % text[k])
        if m.lastgroup:
            out.append((m.lastgroup, m.group(), m.start()))
        k = m.end()
    return out + [("end", "", len(text))]


class Lin:
    """A linear expression: constant plus coefficients of variables."""

    def __init__(self, c=0.0, v=None):
        self.c, self.v = c, v or {}

    def plus(self, o, f=1.0):
        v = dict(self.v)
        for k, x in o.v.items():
            v[k] = v.get(k, 0.0) + f * x
        return Lin(self.c + f * o.c, v)

    def times(self, o):
        if self.v and o.v:
            raise Unsupported("a product of variables")
        a, b = (self, o) if o.v else (o, self)
        return Lin(a.c * b.c, {k: a.c * x for k, x in b.v.items()})

    def value(self):
        if self.v:
            raise Unsupported("a variable where a number is needed")
        return self.c


class Reader:
    """Recursive descent over the tokens; statements are kept as closures over the environment of index variables."""

    def __init__(self, text):
        self.text, self.t, self.k = text, lex(text), 0
        self.decls, self.objective, self.constraints, self.scripts = [], None, [], []
        while self.peek() != "":
            self.statement()

    def peek(self, d=0):
        return self.t[min(self.k + d, len(self.t) - 1)][1]

    def kind(self, d=0):
        return self.t[min(self.k + d, len(self.t) - 1)][0]

    def next(self):
        self.k += 1
        return self.t[self.k - 1][1]

    def expect(self, *words):
        for w in words:
            if self.next() != w:
                raise Unsupported("%r where %r was expected" % (self.t[self.k - 1][1], w))

    def accept(self, w):
        if self.peek() == w:
            self.k += 1
            return True
        return False

    def block(self):
        """Skips { ... } and returns the text between."""
        self.expect("{")
        a, depth = self.t[self.k - 1][2] + 1, 1
        while depth:
            w = self.next()
            if w == "":
                raise Unsupported("a block without end")
            depth += (w == "{") - (w == "}")
        return self.text[a:self.t[self.k - 1][2]]

    def statement(self):
        w = self.peek()
        if w in ("execute", "main", "assert", "using", "include"):
            self.next()
            if w in ("using", "include", "assert"):
                while not self.accept(";"):
                    if self.next() == "":
                        raise Unsupported("a statement without end")
                return
            if self.kind() == "id":
                self.next()
            s = self.block()
            if w == "execute":
                self.scripts.append(s)
        elif w == "range" or (w in ("int", "float", "dvar", "dexpr") and self.kind() == "id"):
            self.declaration()
        elif w in ("minimize", "maximize"):
            self.next()
            e = self.expr()
            self.expect(";")
            self.objective = (1.0 if w == "minimize" else -1.0, e)
        elif w in ("subject", "constraints"):
            self.next()
            if w == "subject":
                self.expect("to")
            self.expect("{")
            while not self.accept("}"):
                self.constraints.append(self.constraint())
        else:
            raise Unsupported("a statement with %r" % w)

    def declaration(self):
        how = self.next()
        if how == "range":
            name = self.next()
            self.expect("=")
            a = self.expr()
            self.expect("..")
            b = self.expr()
            self.expect(";")
            self.decls.append(("range", name, a, b))
            return
        typ = how
        if how in ("dvar", "dexpr"):
            typ = self.next()
            if typ not in ("int", "float", "boolean"):
                raise Unsupported("type %r" % typ)
        if self.accept("+"):
            typ += "+"
        name, dims, bounds = self.next(), [], None
        while self.accept("["):
            var = None
            if self.kind() == "id" and self.peek(1) == "in":
                var = self.next()
                self.next()
            dims.append((var, self.setexpr()))
            self.expect("]")
        if how == "dvar":
            if self.accept("in"):
                a = self.expr()
                self.expect("..")
                bounds = (a, self.expr())
            self.expect(";")
            self.decls.append(("dvar", name, typ, dims, bounds))
            return
        self.expect("=")
        if self.accept("..."):
            self.decls.append(("data", name, typ, dims))
        elif self.peek() == "[":
            raise Unsupported("an array given in the model")
        else:
            self.decls.append(("calc", name, dims, self.expr()))
        self.expect(";")

    def setexpr(self):
        """A range: a name or a..b; the closure gives the list of its members."""
        if self.kind() == "id" and self.peek(1) in (")", "]", ",", ":", ";"):
            name = self.next()
            return lambda m, env: m.members(name)
        a = self.expr()
        self.expect("..")
        b = self.expr()
        return lambda m, env: list(range(int(a(m, env).value()), int(b(m, env).value()) + 1))

    def qualifiers(self):
        self.expect("(")
        parts = []
        while True:
            ordered = self.accept("ordered")
            names = [self.next()]
            while self.peek() == "," and self.kind(1) == "id" and self.peek(2) in (",", "in"):
                self.next()
                names.append(self.next())
            self.expect("in")
            s = self.setexpr()
            cond = self.logic() if self.accept(":") else None
            parts.append((names, s, ordered, cond))
            if not self.accept(","):
                break
        self.expect(")")

        def walk(m, env, k=0):
            if k == len(parts):
                yield env
                return
            names, s, ordered, cond = parts[k]
            for vals in itertools.product(s(m, env), repeat=len(names)):
                if ordered and any(a >= b for a, b in zip(vals, vals[1:])):
                    continue
                e = dict(env, **dict(zip(names, vals)))
                if cond is None or cond(m, e):
                    yield from walk(m, e, k + 1)
        return walk

    def constraint(self):
        if self.kind() == "id" and self.peek(1) == ":":
            self.next()
            self.next()
            return self.constraint()
        if self.accept(";"):
            return lambda m, env: None
        if self.accept("forall"):
            q, body = self.qualifiers(), self.constraint()

            def each(m, env):
                for e in q(m, env):
                    body(m, e)
            return each
        if self.accept("if"):
            self.expect("(")
            c = self.logic()
            self.expect(")")
            yes = self.constraint()
            no = self.constraint() if self.accept("else") else (lambda m, env: None)
            return lambda m, env: yes(m, env) if c(m, env) else no(m, env)
        if self.accept("{"):
            inner = []
            while not self.accept("}"):
                inner.append(self.constraint())

            def every(m, env):
                for f in inner:
                    f(m, env)
            return every
        es, ops = [self.expr()], []
        while self.peek() in ("<=", ">=", "=="):
            ops.append(self.next())
            es.append(self.expr())
        if not ops:
            raise Unsupported("a constraint with %r" % self.peek())
        self.expect(";")

        def add(m, env):
            vals = [e(m, env) for e in es]
            for a, op, b in zip(vals, ops, vals[1:]):
                m.row(a.plus(b, -1.0), op)
        return add

    # expressions: closures (model, environment) -> Lin
    def expr(self):
        e = self.term()
        while self.peek() in ("+", "-"):
            f = 1.0 if self.next() == "+" else -1.0
            e = (lambda a, b, f: lambda m, env: a(m, env).plus(b(m, env), f))(e, self.term(), f)
        return e

    def term(self):
        e = self.factor()
        while self.peek() in ("*", "/"):
            op, r = self.next(), self.factor()
            if op == "*":
                e = (lambda a, b: lambda m, env: a(m, env).times(b(m, env)))(e, r)
            else:
                e = (lambda a, b: lambda m, env: a(m, env).times(Lin(1.0 / b(m, env).value())))(e, r)
        return e

    def factor(self):
        if self.accept("-"):
            f = self.factor()
            return lambda m, env: f(m, env).times(Lin(-1.0))
        if self.accept("+"):
            return self.factor()
        if self.accept("("):
            e = self.expr()
            self.expect(")")
            return e
        if self.accept("sum"):
            q, body = self.qualifiers(), self.term()

            def total(m, env):
                s = Lin()
                for e in q(m, env):
                    s = s.plus(body(m, e))
                return s
            return total
        if self.kind() == "num":
            x = float(self.next())
            return lambda m, env: Lin(x)
        if self.kind() == "id" and self.peek() not in ("forall", "if", "else", "max", "min", "prod", "all", "item"):
            name, idx = self.next(), []
            if self.peek() == "(":
                if name != "card":
                    raise Unsupported("function %r" % name)
                self.next()
                s = self.setexpr()
                self.expect(")")
                return lambda m, env: Lin(float(len(s(m, env))))
            while self.accept("["):
                idx.append(self.expr())
                self.expect("]")
            return lambda m, env: m.get(name, [i(m, env).value() for i in idx], env)
        raise Unsupported("an expression with %r" % self.peek())

    def logic(self):
        e = self.conj()
        while self.accept("||"):
            e = (lambda a, b: lambda m, env: a(m, env) or b(m, env))(e, self.conj())
        return e

    def conj(self):
        e = self.comparison()
        while self.accept("&&"):
            e = (lambda a, b: lambda m, env: a(m, env) and b(m, env))(e, self.comparison())
        return e

    def comparison(self):
        if self.accept("!"):
            c = self.comparison()
            return lambda m, env: not c(m, env)
        if self.peek() == "(":
            mark = self.k
            try:
                self.next()
                c = self.logic()
                self.expect(")")
                return c
            except Unsupported:
                self.k = mark
        a, op = self.expr(), self.next()
        f = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y,
             "==": lambda x, y: x == y, "!=": lambda x, y: x != y}.get(op)
        if not f:
            raise Unsupported("a condition with %r" % op)
        b = self.expr()
        return lambda m, env: f(a(m, env).value(), b(m, env).value())


class Grounded:
    """The model on one set of data."""

    def __init__(self, reader, data):
        self.r, self.data = reader, data
        self.ranges, self.calcs, self.arrays, self.index = {}, {}, {}, {}
        self.lo, self.hi, self.integer, self.rows, self.booleans = [], [], [], [], []
        for d in reader.decls:
            getattr(self, "do_" + d[0])(*d[1:])
        for c in reader.constraints:
            c(self, {})
        if not reader.objective:
            raise Unsupported("no objective")
        sign, e = reader.objective
        self.objective = e(self, {}).times(Lin(sign))

    def members(self, name):
        if name not in self.ranges:
            raise Unsupported("the set %r" % name)
        return self.ranges[name]

    def do_range(self, name, a, b):
        self.ranges[name] = list(range(int(a(self, {}).value()), int(b(self, {}).value()) + 1))

    def do_data(self, name, typ, dims):
        need(name in self.data, "the model reads %r, which the data files do not have" % name)
        sets = [s(self, {}) for _, s in dims]

        def fill(v, k, key):
            if k == len(sets):
                need(not isinstance(v, list), "%r has more dimensions in the data than in the model" % name)
                need(not typ.startswith("int") or v == int(v), "%r is an integer in the model and %r in the data" % (name, v))
                self.arrays[(name,) + key] = v
                return
            need(isinstance(v, list) and len(v) == len(sets[k]), "%r is declared for %d members, the data have %s" % (name, len(sets[k]), len(v) if isinstance(v, list) else "one number"))
            for i, x in zip(sets[k], v):
                fill(x, k + 1, key + (i,))
        fill(self.data[name], 0, ())

    def do_calc(self, name, dims, e):
        self.calcs[name] = (dims, e)

    def do_dvar(self, name, typ, dims, bounds):
        sets = [s(self, {}) for _, s in dims]
        lo = 0.0 if typ.endswith("+") or typ == "boolean" else -INF
        hi = 1.0 if typ == "boolean" else INF
        for key in itertools.product(*sets):
            l, h = lo, hi
            if bounds:
                env = {v: i for (v, _), i in zip(dims, key) if v}
                l, h = max(lo, bounds[0](self, env).value()), min(hi, bounds[1](self, env).value())
            self.index[(name,) + key] = len(self.lo)
            self.lo.append(l)
            self.hi.append(h)
            self.integer.append(0 if typ.startswith("float") else 1)
        if len(dims) == 2 and typ != "float" and all(len(s) == len(sets[0]) for s in sets) and len(sets[0]) > 0:
            if all(self.lo[self.index[(name, a, b)]] == 0 and self.hi[self.index[(name, a, b)]] == 1 for a in sets[0] for b in sets[1]):
                self.booleans.append((name, sets))

    def get(self, name, idx, env):
        key = (name,) + tuple(int(i) if i == int(i) else i for i in idx)
        if not idx and name in env:
            return Lin(float(env[name]))
        if key in self.arrays:
            return Lin(float(self.arrays[key]))
        if key in self.index:
            return Lin(0.0, {self.index[key]: 1.0})
        if name in self.calcs:
            dims, e = self.calcs[name]
            if len(dims) != len(idx):
                raise Unsupported("%r with %d indices" % (name, len(idx)))
            return e(self, {v: i for (v, _), i in zip(dims, key[1:]) if v})
        if any(k[0] == name for k in itertools.chain(self.arrays, self.index)):
            raise Wrong("the model uses %s%s, which does not exist" % (name, list(key[1:])))
        raise Unsupported("the name %r" % name)

    def row(self, e, op):
        self.rows.append((e.v, -e.c if op != "<=" else -INF, -e.c if op != ">=" else INF))

    def matrix(self):
        r, c, v = [], [], []
        for k, (co, _, _) in enumerate(self.rows):
            for j, x in co.items():
                r.append(k)
                c.append(j)
                v.append(x)
        return coo_matrix((v, (r, c)), shape=(len(self.rows), len(self.lo))).tocsr()

    def solve(self):
        c = np.zeros(len(self.lo))
        for j, x in self.objective.v.items():
            c[j] = x
        m = milp(c, integrality=np.array(self.integer), bounds=Bounds(self.lo, self.hi),
                 constraints=LinearConstraint(self.matrix(), [a for _, a, _ in self.rows], [b for _, _, b in self.rows]))
        if m.status not in (0, 2):
            raise RuntimeError("HiGHS: " + m.message)
        return (m.fun + self.objective.c, m.x) if m.status == 0 else (None, None)

    def feasible(self, fixed):
        """Whether the other variables have values once these are fixed (they are continuous in the models this decides; otherwise a MILP)."""
        lo, hi = list(self.lo), list(self.hi)
        for j, x in fixed.items():
            if not lo[j] <= x <= hi[j]:
                return False
            lo[j] = hi[j] = x
        m = milp(np.zeros(len(lo)), integrality=np.array(self.integer), bounds=Bounds(lo, hi),
                 constraints=LinearConstraint(self.matrix(), [a for _, a, _ in self.rows], [b for _, _, b in self.rows]))
        if m.status not in (0, 2):
            raise RuntimeError("HiGHS: " + m.message)
        return m.status == 0


def parse_dat(text):
    """name=value; with numbers and [..] arrays, items separated by commas or spaces."""
    out = {}
    for m in re.finditer(r"(\w+)\s*=\s*([^;]*);", text):
        v = re.sub(r"\]\s*\[", "],[", m[2].strip())
        out[m[1]] = json.loads(v)
    return out
