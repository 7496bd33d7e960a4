"""Abstract interpreter for the repository's Python modules, over their syntax trees: values are constants, containers of values and
opaque values (terms with a known type).  Nothing of the modules is imported or run."""
import ast
import os

from absint import Undecided

OWN = "cqasm"


class PyRaise(Exception):
    def __init__(self, value):
        self.value = value


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Opq:
    """An unknown value: a term and its type name; truth: whether it is known to be true or false."""

    def __init__(self, term, cls=None, truth=None):
        self.term, self.cls, self.truth = term, cls, truth

    def __eq__(self, o):
        return isinstance(o, Opq) and o.term == self.term and o.cls == self.cls

    def __hash__(self):
        return hash((self.term, self.cls))

    def __repr__(self):
        return "<%s>" % (self.term,)


class NamedTup(tuple):
    """A tuple some of whose items have names, as sys.version_info."""
    names = ()

    def named(self, names):
        self.names = names
        return self


class BType:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, BType) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class Ext:
    """Something outside the analysed modules, known by its path; self_: the object it is bound to."""

    def __init__(self, path, self_=None):
        self.path, self.self_ = path, self_

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return self.path


class Builtin:
    def __init__(self, name):
        self.name = name


class Module:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns


class Func:
    def __init__(self, node, env, mod, cls=None):
        self.node, self.env, self.mod, self.cls = node, env, mod, cls


class Deco:
    def __init__(self, kind, fn, setter=None):
        self.kind, self.fn = kind, fn


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Cls:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, Cls) else [b]):
                if c not in out:
                    out.append(c)
        return out

    def __repr__(self):
        return self.name


class Inst:
    def __init__(self, cls, base=None):
        self.cls, self.attrs, self.base = cls, {}, base

    def __repr__(self):
        return "%s(%s)" % (self.cls.name, self.attrs if self.base is None else self.base)


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class PySet:
    """A set: its distinct elements, in the order they were added.  Iterating it gives the reverse of that order: the language promises none."""

    def __init__(self, xs=()):
        self.d = dict.fromkeys(xs)

    def order(self):
        return list(self.d)[::-1]

    def __eq__(self, o):
        return isinstance(o, PySet) and set(self.d) == set(o.d)

    __hash__ = None

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.d))


class Gens:
    """An iterator: what it has still to give."""

    def __init__(self, xs=()):
        self.xs = list(xs)

    def take(self):
        r, self.xs = self.xs, []
        return r

    def append(self, x):
        self.xs.append(x)

    def extend(self, x):
        self.xs.extend(x)


EXC = {"Exception": "BaseException", "TypeError": "Exception", "ValueError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
       "LookupError": "Exception", "AssertionError": "Exception", "AttributeError": "Exception", "RuntimeError": "Exception",
       "NotImplementedError": "RuntimeError", "UnicodeDecodeError": "ValueError", "UnicodeEncodeError": "ValueError", "StopIteration": "Exception",
       "OverflowError": "Exception", "ArithmeticError": "Exception", "BaseException": None, "ImportError": "Exception", "OSError": "Exception", "EnvironmentError": "OSError", "StopIteration": "Exception", "NameError": "Exception", "ZeroDivisionError": "ArithmeticError", "FileNotFoundError": "OSError"}
TYPES = ("str", "bytes", "int", "float", "bool", "complex", "list", "tuple", "dict", "object", "type", "set", "frozenset", "bytearray")
BUILTINS = ("len", "isinstance", "map", "zip", "range", "enumerate", "super", "getattr", "hasattr", "print", "all", "any", "sorted", "reversed", "iter",
            "next", "issubclass", "repr", "staticmethod", "classmethod", "property", "callable", "filter", "sum", "min", "max", "abs", "id", "setattr")


BASIC = {"str": str, "bytes": bytes, "int": int, "float": float, "bool": bool}


class Memo:
    """A function whose results are remembered."""

    def __init__(self, fn):
        self.fn, self.known = fn, {}

    def call(self, py, args, kw):
        try:
            k = (tuple((type(a).__name__, a) for a in args), tuple(sorted(kw.items())))
            if k not in self.known:
                self.known[k] = py.call(self.fn, args, kw)
            return self.known[k]
        except TypeError:
            py.throw("TypeError")


def enc_name(x):
    if not isinstance(x, str):
        raise Undecided("encoding %r" % (x,))
    x = x.lower().replace("_", "-")
    return {"utf8": "utf-8", "u8": "utf-8", "latin1": "latin-1", "iso-8859-1": "latin-1"}.get(x, x)


def concat(parts):
    out = []
    for p in parts:
        ps = p.term[1:] if isinstance(p, Opq) and p.term[0] == "concat" else (p,)
        for q in ps:
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif not (isinstance(q, str) and q == ""):
                out.append(q)
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    return Opq(("concat",) + tuple(out), "str", True if any(isinstance(x, str) for x in out) else None)


class Py:
    def __init__(self, root, ext, isa=None, values=None, own=(OWN,), star=None):
        """root: directory holding the package; ext(path, self, args, kwargs): calls out of the analysed modules; isa(opaque type name, path)."""
        self.root, self.ext, self.mods, self.isa_ext = root, ext, {}, isa
        self.seen, self.depth, self.steps = set(), 0, 0
        self.values, self.own, self.star = values or {}, own, star

    # ------------------------------------------------------------------------------------------------------------ modules
    def path_of(self, name):
        p = os.path.join(self.root, *name.split("."))
        for c in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.exists(c):
                return c
        return None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.path_of(name) if name.split(".")[0] in self.own else None
        if path is None:
            return Ext(name)
        m = Module(name, {"__name__": name, "__file__": self.values.get("__file__", Opq(("file", name), "str", True))})
        self.mods[name] = m
        with open(path, encoding="utf-8") as fh:
            tree = ast.parse(fh.read(), path)
        m.path = path
        self.block(tree.body, [m.ns], m)
        return m

    def imported(self, name):
        """The value 'import a.b.c' binds to the full dotted name."""
        return self.module(name)

    def dotted(self, name):
        parts = name.split(".")
        for k in range(1, len(parts) + 1):
            m = self.module(".".join(parts[:k]))
        return m

    # ----------------------------------------------------------------------------------------------------------- statements
    def block(self, body, env, mod):
        for s in body:
            self.stmt(s, env, mod)

    def tick(self):
        self.steps += 1
        if self.steps > 200000:
            raise Undecided("too many steps")

    def stmt(self, s, env, mod):
        self.tick()
        self.cur = (mod.path, s.lineno) if hasattr(mod, "path") else None
        if isinstance(s, ast.Expr):
            self.expr(s.value, env, mod)
        elif isinstance(s, ast.Return):
            raise _Return(self.expr(s.value, env, mod) if s.value else None)
        elif isinstance(s, ast.Assign):
            v = self.expr(s.value, env, mod)
            for t in s.targets:
                self.assign(t, v, env, mod)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.expr(s.value, env, mod), env, mod)
        elif isinstance(s, ast.AugAssign):
            import copy
            tgt = copy.copy(s.target)
            tgt.ctx = ast.Load()
            old = self.expr(tgt, env, mod)
            v = self.expr(s.value, env, mod)
            if isinstance(old, list) and isinstance(s.op, ast.Add):
                old.extend(self.iter(v))
                return
            self.assign(s.target, self.binop(type(s.op), old, v), env, mod)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.expr(s.test, env, mod)) else s.orelse, env, mod)
        elif isinstance(s, ast.For):
            it = self.expr(s.iter, env, mod)
            it = it if isinstance(it, Gens) else Gens(self.iter(it))
            while it.xs:
                x = it.xs.pop(0)
                self.assign(s.target, x, env, mod)
                try:
                    self.block(s.body, env, mod)
                except _Break:
                    break
                except _Continue:
                    continue
            else:
                self.block(s.orelse, env, mod)
        elif isinstance(s, ast.While):
            while self.truth(self.expr(s.test, env, mod)):
                try:
                    self.block(s.body, env, mod)
                except _Break:
                    break
                except _Continue:
                    continue
            else:
                self.block(s.orelse, env, mod)
        elif isinstance(s, ast.Break):
            raise _Break()
        elif isinstance(s, ast.Continue):
            raise _Continue()
        elif isinstance(s, (ast.Global, ast.Nonlocal)):
            for n in s.names:
                if isinstance(s, ast.Global):
                    tgt = mod.ns
                else:
                    tgt = next((e for e in reversed(env[:-1]) if n in e), None)
                    if tgt is None:
                        raise Undecided("nonlocal %s" % n)
                env[-1].setdefault("$outer", {})[n] = tgt
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Assert):
            if not self.truth(self.expr(s.test, env, mod)):
                self.throw("AssertionError")
        elif isinstance(s, ast.Raise):
            if s.exc is None:
                raise Undecided("bare raise")
            v = self.expr(s.exc, env, mod)
            if isinstance(v, BType) and v.name in EXC:
                v = Opq(("exception", v.name), v.name)
            raise PyRaise(v)
        elif isinstance(s, ast.Try):
            try:
                try:
                    self.block(s.body, env, mod)
                except PyRaise as x:
                    for h in s.handlers:
                        ts = [BType("BaseException")] if h.type is None else self.expr(h.type, env, mod)
                        ts = ts if isinstance(ts, (tuple, list)) else [ts]
                        if any(self.isinst(x.value, t) for t in ts):
                            if h.name:
                                env[-1][h.name] = x.value
                            self.block(h.body, env, mod)
                            break
                    else:
                        raise
                else:
                    self.block(s.orelse, env, mod)
            finally:
                self.block(s.finalbody, env, mod)
        elif isinstance(s, ast.Import):
            for a in s.names:
                m = self.dotted(a.name)
                if a.asname:
                    env[-1][a.asname] = m
                else:
                    top = self.module(a.name.split(".")[0])
                    env[-1][a.name.split(".")[0]] = top
        elif isinstance(s, ast.ImportFrom):
            base = s.module or ""
            if s.level:
                pk = mod.name.split(".")
                if not mod.path.endswith("__init__.py"):
                    pk = pk[:-1]
                pk = pk[:len(pk) - (s.level - 1)]
                base = ".".join(pk + ([base] if base else []))
            m = self.dotted(base)
            for a in s.names:
                if a.name == "*":
                    if not isinstance(m, Module):
                        if self.star:
                            self.star(m.path)
                            continue
                        raise Undecided("import * from %s" % base)
                    env[-1].update({k: v for k, v in m.ns.items() if not k.startswith("_")})
                else:
                    env[-1][a.asname or a.name] = self.attr(m, a.name)
        elif isinstance(s, ast.FunctionDef):
            v = Func(s, list(env), mod)
            for d in reversed(s.decorator_list):
                v = self.decorate(self.expr(d, env, mod), v)
            env[-1][s.name] = v
        elif isinstance(s, ast.ClassDef):
            ns = {}
            bases = [self.expr(b, env, mod) for b in s.bases]
            c = Cls(s.name, bases, ns, mod)
            self.block(s.body, list(env) + [ns], mod)
            c.env = list(env)
            for v in ns.values():
                f = v.fn if isinstance(v, Deco) else v
                if isinstance(f, Func):
                    f.cls = c
                    f.env = list(env)
            env[-1][s.name] = c
        elif isinstance(s, ast.Match):
            v = self.expr(s.subject, env, mod)
            for c in s.cases:
                b = {}
                if self.match(c.pattern, v, b, env, mod):
                    env[-1].update(b)
                    if c.guard is None or self.truth(self.expr(c.guard, env, mod)):
                        self.block(c.body, env, mod)
                        return
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env[-1].pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    o = self.expr(t.value, env, mod)
                    k = self.expr(t.slice, env, mod)
                    try:
                        del o[k]
                    except (KeyError, IndexError, TypeError) as x:
                        self.throw(type(x).__name__)
                else:
                    raise Undecided("del")
        else:
            raise Undecided("statement %s" % type(s).__name__)

    def match(self, p, v, b, env, mod):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.expr(p.value, env, mod)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, b, env, mod):
                return False
            if p.name:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, b, env, mod) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                return False
            stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not stars:
                return len(v) == len(p.patterns) and all(self.match(q, x, b, env, mod) for q, x in zip(p.patterns, v))
            i = stars[0]
            after = len(p.patterns) - i - 1
            if len(v) < len(p.patterns) - 1:
                return False
            if not all(self.match(q, x, b, env, mod) for q, x in zip(p.patterns[:i], v)):
                return False
            if p.patterns[i].name:
                b[p.patterns[i].name] = list(v[i:len(v) - after])
            return all(self.match(q, x, b, env, mod) for q, x in zip(p.patterns[i + 1:], v[len(v) - after:]))
        raise Undecided("match pattern %s" % type(p).__name__)

    def decorate(self, d, f):
        if isinstance(d, (Builtin, BType)) and d.name in ("staticmethod", "classmethod", "property"):
            return Deco(d.name, f)
        if isinstance(d, Ext) and d.path in ("typing.override", "typing_extensions.override", "abc.abstractmethod"):
            return f
        return self.call(d, [f], {})

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[-1].get("$outer", {}).get(t.id, env[-1])[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iter(v))
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    self.throw("ValueError")
                for x, y in zip(t.elts[:i], vs):
                    self.assign(x, y, env, mod)
                self.assign(t.elts[i].value, vs[i:len(vs) - after], env, mod)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - after:]):
                    self.assign(x, y, env, mod)
                return
            if len(vs) != len(t.elts):
                self.throw("ValueError")
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, env, mod)
            if isinstance(o, Inst):
                o.attrs[t.attr] = v
            elif isinstance(o, Cls):
                o.ns[t.attr] = v
            elif isinstance(o, Module):
                o.ns[t.attr] = v
            else:
                raise Undecided("assignment to an attribute of %r" % (o,))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env, mod)
            k = self.expr(t.slice, env, mod)
            if isinstance(o, (dict, list)):
                try:
                    o[k] = v
                except (IndexError, TypeError) as x:
                    self.throw(type(x).__name__)
            else:
                raise Undecided("item assignment")
        else:
            raise Undecided("assignment target %s" % type(t).__name__)

    def throw(self, cls):
        raise PyRaise(Opq(("exception", cls), cls))

    # ---------------------------------------------------------------------------------------------------------- expressions
    def lookup(self, n, env, mod):
        for e in reversed(env):
            if n in e.get("$outer", ()):
                e = e["$outer"][n]
            if n in e:
                return e[n]
        if n in TYPES or n in EXC:
            return BType(n)
        if n in BUILTINS:
            return Builtin(n)
        self.throw("NameError")

    def expr(self, e, env, mod):
        self.tick()
        f = getattr(self, "x_" + type(e).__name__, None)
        if f is None:
            raise Undecided("expression %s" % type(e).__name__)
        return f(e, env, mod)

    def x_Constant(self, e, env, mod):
        return e.value

    def x_Name(self, e, env, mod):
        return self.lookup(e.id, env, mod)

    def x_Attribute(self, e, env, mod):
        return self.attr(self.expr(e.value, env, mod), e.attr)

    def x_JoinedStr(self, e, env, mod):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None:
                    raise Undecided("format specification")
                x = self.expr(v.value, env, mod)
                if v.conversion == 114:
                    raise Undecided("repr")
                parts.append(self.str(x))
        return concat(parts)

    def x_List(self, e, env, mod):
        return self.elts(e.elts, env, mod)

    def x_Tuple(self, e, env, mod):
        return tuple(self.elts(e.elts, env, mod))

    def elts(self, es, env, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iter(self.expr(x.value, env, mod)))
            else:
                out.append(self.expr(x, env, mod))
        return out

    def x_Set(self, e, env, mod):
        return self.set(self.elts(e.elts, env, mod))

    def set(self, xs):
        try:
            return PySet(xs)
        except TypeError:
            self.throw("TypeError")

    def x_SetComp(self, e, env, mod):
        return self.set(self.x_ListComp(e, env, mod))

    def x_Yield(self, e, env, mod):
        for x in reversed(env):
            if "$gen" in x:
                x["$gen"].append(None if e.value is None else self.expr(e.value, env, mod))
                return None
        raise Undecided("yield")

    def x_YieldFrom(self, e, env, mod):
        for x in reversed(env):
            if "$gen" in x:
                x["$gen"].extend(self.iter(self.expr(e.value, env, mod)))
                return None
        raise Undecided("yield")

    def x_Dict(self, e, env, mod):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.expr(v, env, mod))
            else:
                d[self.expr(k, env, mod)] = self.expr(v, env, mod)
        return d

    def comp(self, gens, env, mod, leaf):
        if not gens:
            leaf(env)
            return
        g = gens[0]
        for x in list(self.iter(self.expr(g.iter, env, mod))):
            ns = {}
            e2 = list(env) + [ns]
            self.assign(g.target, x, e2, mod)
            if all(self.truth(self.expr(c, e2, mod)) for c in g.ifs):
                self.comp(gens[1:], e2, mod, leaf)

    def x_ListComp(self, e, env, mod):
        out = []
        self.comp(e.generators, env, mod, lambda en: out.append(self.expr(e.elt, en, mod)))
        return out

    def x_GeneratorExp(self, e, env, mod):
        return Gens(self.x_ListComp(e, env, mod))

    def x_DictComp(self, e, env, mod):
        out = {}

        def leaf(en):
            k = self.expr(e.key, en, mod)
            out[k] = self.expr(e.value, en, mod)
        self.comp(e.generators, env, mod, leaf)
        return out

    def x_IfExp(self, e, env, mod):
        return self.expr(e.body if self.truth(self.expr(e.test, env, mod)) else e.orelse, env, mod)

    def x_BoolOp(self, e, env, mod):
        v = None
        for x in e.values:
            v = self.expr(x, env, mod)
            if self.truth(v) == isinstance(e.op, ast.Or):
                return v
        return v

    def x_UnaryOp(self, e, env, mod):
        v = self.expr(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float)):
            return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
        raise Undecided("unary operator")

    def x_BinOp(self, e, env, mod):
        return self.binop(type(e.op), self.expr(e.left, env, mod), self.expr(e.right, env, mod))

    def binop(self, op, a, b):
        if op is ast.Add:
            if self.is_str(a) and self.is_str(b):
                return concat([a, b])
            if isinstance(a, (list, tuple, int, float, bytes)) and isinstance(b, (list, tuple, int, float, bytes)):
                try:
                    return a + b
                except TypeError:
                    self.throw("TypeError")
        elif op is ast.BitOr and isinstance(a, dict) and isinstance(b, dict):
            return {**a, **b}
        elif isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b,
                        ast.Mod: lambda: a % b, ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.Pow: lambda: a ** b}[op]()
            except KeyError:
                pass
            except ZeroDivisionError:
                self.throw("ArithmeticError")
        elif op is ast.Mod and isinstance(a, str):
            args = list(b) if isinstance(b, tuple) else [b]
            parts = a.split("%s")
            if len(parts) == len(args) + 1 and "%" not in "".join(parts):
                out = [parts[0]]
                for x, p in zip(args, parts[1:]):
                    out += [self.str(x), p]
                return concat(out)
        elif op is ast.BitOr:
            return Ext("typing.Union")
        raise Undecided("operator %s" % op.__name__)

    def x_Compare(self, e, env, mod):
        a = self.expr(e.left, env, mod)
        for op, r in zip(e.ops, e.comparators):
            b = self.expr(r, env, mod)
            if not self.cmp(type(op), a, b):
                return False
            a = b
        return True

    def cmp(self, op, a, b):
        if op in (ast.Is, ast.IsNot):
            r = self.same(a, b)
            return r == (op is ast.Is)
        if op in (ast.Eq, ast.NotEq):
            r = self.truth(self.eq(a, b))
            return r == (op is ast.Eq)
        if op in (ast.In, ast.NotIn):
            if isinstance(b, dict):
                r = any(self.truth(self.eq(a, k)) for k in b)
            elif isinstance(b, (list, tuple)):
                r = any(self.truth(self.eq(a, k)) for k in b)
            elif isinstance(b, PySet):
                r = a in b.d
            elif isinstance(b, (int, type(None))):
                self.throw("TypeError")
            elif isinstance(a, (str, bytes)) and type(a) is type(b):
                r = a in b
            else:
                raise Undecided("membership")
            return r == (op is ast.In)
        if isinstance(a, (int, float, str, bytes)) and isinstance(b, (int, float, str, bytes)) or (
                isinstance(a, tuple) and isinstance(b, tuple) and all(isinstance(x, (int, float, str, bytes, bool)) for x in a + b)):
            try:
                return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[op]()
            except TypeError:
                self.throw("TypeError")
        raise Undecided("comparison")

    def same(self, a, b):
        if isinstance(a, (BType, Ext)) or isinstance(b, (BType, Ext)):
            return a == b
        if isinstance(a, Opq) or isinstance(b, Opq):
            if a is b or a == b:
                return True
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                o = a if isinstance(a, Opq) else b
                if o.cls and o.cls != "bool":
                    return False
            raise Undecided("identity of an unknown value")
        if isinstance(a, (int, str, float, bytes)) and isinstance(b, (int, str, float, bytes)):
            return type(a) is type(b) and a == b
        return a is b

    def eq(self, a, b):
        if isinstance(a, Opq) or isinstance(b, Opq):
            if a == b:
                return True
            o, c = (a, b) if isinstance(a, Opq) else (b, a)
            if c is None and o.cls:
                return False
            if o.truth and isinstance(c, (str, bytes, int)) and not c:
                return False
            if o.cls in ("bytes", "str") and isinstance(c, (bytes, str)) and type(c).__name__ != o.cls:
                return False
            raise Undecided("equality of an unknown value")
        if isinstance(a, Inst) and isinstance(b, Inst) and a.base is not None and b.base is not None:
            return self.eq(a.base, b.base)
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            return len(a) == len(b) and all(self.truth(self.eq(x, y)) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return set(a) == set(b) and all(self.truth(self.eq(a[k], b[k])) for k in a)
        if isinstance(a, (int, str, float, bytes, type(None), BType, Ext)) and isinstance(b, (int, str, float, bytes, type(None), BType, Ext)):
            return a == b
        return a is b

    def x_Subscript(self, e, env, mod):
        o = self.expr(e.value, env, mod)
        if isinstance(o, (BType, Ext, Builtin)) or isinstance(o, Cls):
            return o  # a parametrised type
        if isinstance(e.slice, ast.Slice):
            g = lambda x: None if x is None else self.expr(x, env, mod)
            sl = slice(g(e.slice.lower), g(e.slice.upper), g(e.slice.step))
            o = o.base if isinstance(o, Inst) and o.base is not None else o
            if isinstance(o, (list, tuple, str, bytes)):
                return o[sl]
            raise Undecided("slice of an unknown value")
        k = self.expr(e.slice, env, mod)
        return self.item(o, k)

    def item(self, o, k):
        if isinstance(o, Inst) and o.base is not None:
            o = o.base
        if isinstance(o, dict) and not isinstance(k, Opq):
            if k not in o:
                self.throw("KeyError")
            return o[k]
        if isinstance(o, dict) and isinstance(k, Opq):
            if k in o:
                return o[k]
            if all(isinstance(x, Opq) for x in o):
                self.throw("KeyError")  # distinct terms: possibly different values
        if isinstance(o, (int, float, type(None), PySet)) or isinstance(o, (list, tuple, str, bytes)) and isinstance(k, (str, bytes, float, type(None))):
            self.throw("TypeError")
        if isinstance(o, (list, tuple, str, bytes)) and isinstance(k, int):
            if not -len(o) <= k < len(o):
                self.throw("IndexError")
            return o[k]
        raise Undecided("item of %r" % (o,))

    def x_Lambda(self, e, env, mod):
        return Func(e, list(env), mod)

    def x_NamedExpr(self, e, env, mod):
        v = self.expr(e.value, env, mod)
        self.assign(e.target, v, env, mod)
        return v

    def x_Starred(self, e, env, mod):
        raise Undecided("starred")

    def x_Call(self, e, env, mod):
        f = self.expr(e.func, env, mod)
        args = self.elts(e.args, env, mod)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.expr(k.value, env, mod))
            else:
                kw[k.arg] = self.expr(k.value, env, mod)
        if isinstance(f, Builtin) and f.name == "super" and not args:
            c, s = self.lookup("__class__", env, mod), self.lookup("__self__", env, mod)
            return Super(c, s)
        return self.call(f, args, kw)

    # ------------------------------------------------------------------------------------------------------------- objects
    def attr(self, o, n):
        if isinstance(o, Module):
            if n in o.ns:
                return o.ns[n]
            sub = o.name + "." + n
            if sub in self.mods:
                return self.mods[sub]
            if self.path_of(sub):
                return self.module(sub)
            return Ext(sub)  # a generated module
        if isinstance(o, Ext):
            if o.path + "." + n in self.values:
                return self.values[o.path + "." + n]
            return Ext(o.path + "." + n, o.self_)
        if isinstance(o, Super):
            if not isinstance(o.self_, (Inst, Cls)):
                self.throw("TypeError")
            mro = (o.self_.cls if isinstance(o.self_, Inst) else o.self_).mro()
            for c in mro[mro.index(o.cls) + 1:]:
                if isinstance(c, Cls):
                    if n in c.ns:
                        return self.bind(c.ns[n], o.self_, c)
                elif isinstance(c, Ext):
                    return Ext(c.path + "." + n, o.self_)
                elif isinstance(c, BType):
                    if n == "__new__":
                        return Builtin("%s.%s" % (c.name, n))  # a static method
                    if n == "__init__":
                        return Bound(Builtin("%s.%s" % (c.name, n)), o.self_)
                    raise Undecided("super().%s" % n)
            if n == "__new__":
                return Builtin("object.__new__")
            if n == "__init__":
                return Bound(Builtin("object." + n), o.self_)
            self.throw("AttributeError")
        if isinstance(o, Inst):
            for c in o.cls.mro():
                if isinstance(c, Cls) and n in c.ns and isinstance(c.ns[n], Deco) and c.ns[n].kind == "property":
                    return self.call(c.ns[n].fn, [o], {})
            if n in o.attrs:
                return o.attrs[n]
            if n == "__class__":
                return o.cls
            for c in o.cls.mro():
                if isinstance(c, Cls) and n in c.ns:
                    return self.bind(c.ns[n], o, c)
                if isinstance(c, Ext):
                    return Ext(c.path + "." + n, o)
            if o.base is not None:
                return Bound(Builtin("method." + n), o.base)
            self.throw("AttributeError")
        if isinstance(o, Cls):
            if n == "__name__":
                return o.name
            for c in o.mro():
                if isinstance(c, Cls) and n in c.ns:
                    v = c.ns[n]
                    if isinstance(v, Deco):
                        return v.fn if v.kind == "staticmethod" else Bound(v.fn, o) if v.kind == "classmethod" else v
                    return v
                if isinstance(c, Ext):
                    return Ext(c.path + "." + n)
                if isinstance(c, BType):
                    return Builtin("%s.%s" % (c.name, n))
            self.throw("AttributeError")
        if isinstance(o, BType):
            return Builtin("%s.%s" % (o.name, n))
        if isinstance(o, Opq) and (o.term, n) in self.values:
            return self.values[(o.term, n)]
        if isinstance(o, NamedTup) and n in o.names:
            return o[o.names.index(n)]
        if isinstance(o, (str, bytes, list, tuple, dict, int, float)) and not hasattr(o, n) or isinstance(o, PySet) and not hasattr(set, n):
            self.throw("AttributeError")
        if isinstance(o, Opq) and o.cls in BASIC and not hasattr(BASIC[o.cls], n):
            self.throw("AttributeError")
        if isinstance(o, (str, bytes, list, tuple, dict, int, float, PySet)) or isinstance(o, Opq):
            return Bound(Builtin("method." + n), o)
        if o is None:
            self.throw("AttributeError")
        raise Undecided("attribute %s of %r" % (n, o))

    def bind(self, v, self_, cls):
        if isinstance(v, Deco):
            if v.kind == "staticmethod":
                return v.fn
            if v.kind == "classmethod":
                return Bound(v.fn, self_.cls if isinstance(self_, Inst) else self_)
            return self.call(v.fn, [self_], {})
        return Bound(v, self_) if isinstance(v, (Func, Memo)) else v

    def truth(self, v):
        if isinstance(v, Opq):
            if v.truth is None:
                raise Undecided("condition on the unknown value %r" % (v,))
            return v.truth
        if isinstance(v, (Inst,)):
            if v.base is not None:
                return bool(v.base)
            for n in ("__bool__", "__len__"):
                if any(isinstance(c, Cls) and n in c.ns for c in v.cls.mro()):
                    return self.truth(self.call(self.attr(v, n), [], {}))
            return True
        if isinstance(v, (bool, int, float, str, bytes, list, tuple, dict, type(None))):
            return bool(v)
        if isinstance(v, PySet):
            return bool(v.d)
        return True

    def is_str(self, v):
        return isinstance(v, str) or isinstance(v, Opq) and v.cls == "str"

    def iter(self, v):
        if isinstance(v, Inst) and v.base is not None:
            v = v.base
        if isinstance(v, (list, tuple, dict)):
            return list(v)
        if isinstance(v, bytes):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, PySet):
            return v.order()
        if isinstance(v, Gens):
            return v.take()
        if isinstance(v, Inst) and any(isinstance(c, Cls) and "__iter__" in c.ns for c in v.cls.mro()):
            return self.iter(self.call(self.attr(v, "__iter__"), [], {}))
        if v is None or isinstance(v, (bool, int, float, Func, Bound, Builtin, BType, Cls, Module)) or isinstance(v, Opq) and v.cls in ("int", "float", "bool", "complex"):
            self.throw("TypeError")
        if isinstance(v, Inst) and not any(isinstance(c, Ext) for c in v.cls.mro()):
            self.throw("TypeError")
        raise Undecided("iteration over %r" % (v,))

    def isinst(self, v, t):
        if isinstance(t, (tuple, list)):
            return any(self.isinst(v, x) for x in t)
        if isinstance(t, BType):
            if t.name == "object":
                return True
            if isinstance(v, Opq):
                if v.cls is None:
                    raise Undecided("type of an unknown value")
                c = v.cls
                while c is not None:
                    if c == t.name:
                        return True
                    c = EXC.get(c, "int" if c == "bool" else None)
                return False
            if isinstance(v, Inst):
                return t in v.cls.mro()
            if t.name in EXC:
                return False
            return isinstance(v, {"str": str, "bytes": bytes, "int": int, "float": float, "bool": bool, "complex": complex, "list": list, "tuple": tuple,
                                  "dict": dict, "type": (BType, Cls), "set": PySet, "frozenset": frozenset, "bytearray": bytearray}[t.name])
        if isinstance(v, Gens) and isinstance(t, (Cls, Ext)):
            return False
        if isinstance(t, Cls):
            if isinstance(v, Inst):
                return t in v.cls.mro()
            return False
        if isinstance(t, Ext):
            if isinstance(v, Opq) and self.isa_ext:
                return self.isa_ext(v.cls, t.path)
            if isinstance(v, (str, bytes, int, float, list, tuple, dict, type(None))):
                return False
            if isinstance(v, Inst) and (t in v.cls.mro() or not any(isinstance(c, Ext) for c in v.cls.mro())):
                return t in v.cls.mro()
        if t is None or isinstance(t, (str, bytes, int, float, dict, Func, Bound, Inst, Module, PySet)):
            self.throw("TypeError")
        raise Undecided("isinstance(%r, %r)" % (v, t))

    def str(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, Opq):
            if (v.term, "str") in self.values:
                return self.values[(v.term, "str")]
            if v.cls == "str":
                return v
            return Opq(("str", v), "str", True if v.cls != "str" else None)
        if isinstance(v, (bool, int, float, type(None))):
            return str(v)
        if isinstance(v, bytes):
            return str(v)
        if isinstance(v, (list, tuple, dict)):
            try:
                return str(__import__("ast").literal_eval(repr(v)))
            except (ValueError, SyntaxError):
                return Opq(("str", id(v)), "str", True)
        if isinstance(v, Inst):
            for c in v.cls.mro():
                if isinstance(c, Cls):
                    for n in ("__str__", "__repr__"):
                        if n in c.ns:
                            return self.call(self.bind(c.ns[n], v, c), [], {})
        raise Undecided("str of %r" % (v,))

    def length(self, v):
        if isinstance(v, Inst) and v.base is not None:
            v = v.base
        if isinstance(v, (list, tuple, dict, str, bytes)):
            return len(v)
        if isinstance(v, PySet):
            return len(v.d)
        if isinstance(v, Gens):
            self.throw("TypeError")
        if isinstance(v, Inst):
            return self.call(self.attr(v, "__len__"), [], {})
        if isinstance(v, Opq) and v.cls in ("int", "float", "bool"):
            self.throw("TypeError")
        if isinstance(v, (int, float, type(None))):
            self.throw("TypeError")
        raise Undecided("length of an unknown value")

    def call(self, f, args, kw):
        self.depth += 1
        try:
            if self.depth > 60:
                raise Undecided("recursion")
            return self.call_(f, list(args), dict(kw))
        finally:
            self.depth -= 1

    def call_(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + args, kw)
        if isinstance(f, Func):
            return self.invoke(f, args, kw)
        if isinstance(f, Ext):
            if f.path in ("functools.lru_cache", "functools.cache"):
                return Memo(args[0]) if args and isinstance(args[0], (Func, Deco, Bound)) else Ext("functools.cache")
            if f.path in ("copy.copy", "copy.deepcopy") and args and isinstance(args[0], (list, dict)):
                return args[0].copy()
            if f.path in ("typing.cast",) and len(args) == 2:
                return args[1]
            return self.ext(f.path, f.self_, args, kw)
        if isinstance(f, Cls):
            return self.construct(f, args, kw)
        if isinstance(f, BType):
            return self.convert(f.name, args, kw)
        if isinstance(f, Builtin):
            return self.builtin(f.name, args, kw)
        if isinstance(f, Deco):
            return self.call(f.fn, args, kw)
        if isinstance(f, Inst):
            return self.call(self.attr(f, "__call__"), args, kw)
        if isinstance(f, Gens):
            self.throw("TypeError")
        if isinstance(f, Memo):
            return f.call(self, args, kw)
        if f is None or isinstance(f, (str, bytes, int, float, list, dict, tuple, PySet, Module, Opq)):
            self.throw("TypeError")
        raise Undecided("call of %r" % (f,))

    def invoke(self, f, args, kw):
        a = f.node.args
        ns = {}
        env = list(f.env) + [ns]
        if f.cls is not None:
            ns["__class__"] = f.cls
            ns["__self__"] = args[0] if args else None
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and a.vararg is None:
            self.throw("TypeError")
        for n, v in zip(names, args):
            ns[n] = v
        if a.vararg:
            ns[a.vararg.arg] = tuple(args[len(names):])
        rest = {}
        for k, v in kw.items():
            if k in names and k not in ns or k in [x.arg for x in a.kwonlyargs]:
                ns[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                self.throw("TypeError")
        if a.kwarg:
            ns[a.kwarg.arg] = rest
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in ns:
                ns[n] = self.expr(d, f.env, f.mod)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in ns and d is not None:
                ns[x.arg] = self.expr(d, f.env, f.mod)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in ns:
                self.throw("TypeError")
        if isinstance(f.node, ast.Lambda):
            return self.expr(f.node.body, env, f.mod)
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node))
        if gen:
            ns["$gen"] = Gens()
        self.seen.add("%s:%s" % (f.mod.name, (f.cls.name + "." if f.cls else "") + f.node.name))
        try:
            self.block(f.node.body, env, f.mod)
        except _Return as r:
            return ns["$gen"] if gen else r.v
        return ns["$gen"] if gen else None

    def construct(self, c, args, kw):
        for m in c.mro():
            if isinstance(m, Cls) and "__new__" in m.ns:
                fn = m.ns["__new__"]
                o = self.call(fn.fn if isinstance(fn, Deco) else fn, [c] + args, kw)
                break
        else:
            b = next((m for m in c.mro() if isinstance(m, BType) and m.name != "object"), None)
            if b is None and (args or kw) and not any(isinstance(m, Ext) or isinstance(m, Cls) and "__init__" in m.ns for m in c.mro()):
                self.throw("TypeError")
            o = Inst(c, None if b is None else self.convert(b.name, args, kw))
        for m in c.mro():
            if isinstance(m, Cls) and "__init__" in m.ns:
                self.call(m.ns["__init__"], [o] + args, kw)
                break
        return o

    def convert(self, t, args, kw):
        v = args[0] if args else None
        if t in EXC:
            return Opq(("exception", t), t)
        if isinstance(v, Inst) and v.base is not None and t != "str":
            v = v.base
        if t == "str":
            if not args and not kw:
                return ""
            if len(args) > 1 or kw:
                if any(isinstance(x, (int, list, tuple, dict, BType, Cls, type(None))) or isinstance(x, Opq) and x.cls != "str" for x in args[1:]):
                    self.throw("TypeError")
                return self.decode(v, args[1:], kw)
            return self.str(v)
        if t == "bytes":
            if self.is_str(v):
                return self.encode(v, args[1:], kw)
            if isinstance(v, Opq) and v.cls == "bytes" or isinstance(v, bytes):
                return v
        if t in ("int", "float", "bool"):
            if not args:
                return {"int": 0, "float": 0.0, "bool": False}[t]
            if isinstance(v, Opq):
                return v if v.cls == t else Opq((t, v), t)
            if t == "bool":
                return self.truth(v)
            try:
                return {"int": int, "float": float}[t](v)
            except (TypeError, ValueError, OverflowError) as x:
                self.throw(type(x).__name__)
        if t in ("set", "frozenset"):
            return self.set(self.iter(v) if args else [])
        if t in ("list", "tuple"):
            r = self.iter(v) if args else []
            return list(r) if t == "list" else tuple(r)
        if t == "dict":
            d = dict(v) if isinstance(v, dict) else {}
            if args and not isinstance(v, dict):
                for p in self.iter(v):
                    k, x = self.iter(p)
                    d[k] = x
            d.update(kw)
            return d
        if t == "object":
            return Opq(("object",), "object", True)
        if t == "complex":
            return Opq(("complex",) + tuple(args), "complex")
        if t == "type" and len(args) == 1:
            if isinstance(v, Inst):
                return v.cls
            if isinstance(v, Opq) and v.cls in TYPES:
                return BType(v.cls)
            if isinstance(v, (str, bytes, int, float, list, tuple, dict)):
                return BType(type(v).__name__)
        raise Undecided("conversion to %s" % t)

    def encode(self, v, args, kw):
        enc = enc_name(args[0] if args else kw.get("encoding", "utf-8"))
        err = args[1] if len(args) > 1 else kw.get("errors", "strict")
        if isinstance(v, str):
            try:
                return v.encode(enc, err)
            except (UnicodeError, LookupError):
                self.throw("UnicodeEncodeError")
        if v.term[0] == "decode" and v.term[2:] == (enc, err):
            return v.term[1]
        return Opq(("encode", v, enc, err), "bytes", v.truth)

    def decode(self, v, args, kw):
        enc = enc_name(args[0] if args else kw.get("encoding", "utf-8"))
        err = args[1] if len(args) > 1 else kw.get("errors", "strict")
        if isinstance(v, bytes):
            try:
                return v.decode(enc, err)
            except (UnicodeError, LookupError):
                self.throw("UnicodeDecodeError")
        if isinstance(v, Opq) and v.cls == "bytes":
            return Opq(("decode", v, enc, err), "str", v.truth)
        self.throw("TypeError")

    def builtin(self, n, args, kw):
        if n.startswith("method."):
            return self.method(n[7:], args[0], args[1:], kw)
        if n.endswith(".__new__"):
            # the constructor of a built-in base: the bound object is the class super() started from
            a = args
            if not a or not isinstance(a[0], Cls):
                self.throw("TypeError")
            c, rest = a[0], a[1:]
            b = n.split(".")[0]
            return Inst(c, None if b == "object" else self.convert(b, rest, kw))
        if n.endswith(".__init__"):
            return None
        if n == "len":
            return self.length(args[0])
        if n == "isinstance":
            return self.isinst(args[0], args[1])
        if n == "issubclass":
            a, b = args
            if isinstance(a, Cls):
                return b in a.mro()
            if isinstance(a, BType) and isinstance(b, BType):
                return a == b or b.name == "object" or a.name == "bool" and b.name == "int"
        if n == "map":
            return Gens(self.call(args[0], list(xs), {}) for xs in zip(*[self.iter(a) for a in args[1:]]))
        if n == "filter":
            return Gens(x for x in self.iter(args[1]) if self.truth(x if args[0] is None else self.call(args[0], [x], {})))
        if n == "zip":
            return Gens(tuple(x) for x in zip(*[self.iter(a) for a in args]))
        if n == "enumerate":
            return Gens(enumerate(self.iter(args[0]), *(args[1:] or [kw.get("start", 0)])))
        if n == "range":
            return list(range(*args))
        if n == "reversed":
            return Gens(reversed(self.iter(args[0])))
        if n == "iter":
            return args[0] if isinstance(args[0], Gens) else Gens(self.iter(args[0]))
        if n == "next":
            if not isinstance(args[0], Gens):
                self.throw("TypeError")
            if args[0].xs:
                return args[0].xs.pop(0)
            if len(args) > 1:
                return args[1]
            self.throw("StopIteration")
        if n == "all":
            return all(self.truth(x) for x in self.iter(args[0]))
        if n == "any":
            return any(self.truth(x) for x in self.iter(args[0]))
        if n == "super" and len(args) == 2:
            c, o = args
            if not isinstance(c, Cls) or not isinstance(o, (Cls, Inst)) or c not in (o.cls if isinstance(o, Inst) else o).mro():
                self.throw("TypeError")
            return Super(c, o)
        if n == "super" and len(args) == 1:
            if not isinstance(args[0], Cls):
                self.throw("TypeError")
            raise Undecided("unbound super")
        if n in ("getattr", "hasattr") and isinstance(args[1], str):
            try:
                v = self.attr(args[0], args[1])
                return v if n == "getattr" else True
            except PyRaise:
                if n == "hasattr":
                    return False
                if len(args) > 2:
                    return args[2]
                raise
        if n == "print":
            return None
        if n == "callable":
            return isinstance(args[0], (Func, Cls, Bound, Builtin, BType))
        if n in ("staticmethod", "classmethod", "property"):
            return Deco(n, args[0])
        parts = n.split(".")
        if n == "dict.fromkeys":
            return {k: args[1] if len(args) > 1 else None for k in self.iter(args[0])}
        if n in ("str.maketrans",):
            raise Undecided(n)
        if len(parts) == 2 and parts[0] in TYPES:
            return self.method(parts[1], args[0], args[1:], kw)
        if n == "sorted" and all(isinstance(x, (int, str)) for x in self.iter(args[0])) and not kw:
            return sorted(self.iter(args[0]))
        raise Undecided("builtin %s" % n)

    def method(self, n, o, args, kw):
        if self.is_str(o):
            if n == "encode":
                return self.encode(o, args, kw)
            if n == "join":
                out = []
                for i, x in enumerate(self.iter(args[0])):
                    if not self.is_str(x):
                        self.throw("TypeError")
                    out += ([o] if i else []) + [x]
                return concat(out)
            if n == "format" and isinstance(o, str) and not kw:
                parts = o.split("{}")
                if len(parts) == len(args) + 1 and not any(c in "".join(parts) for c in "{}"):
                    out = [parts[0]]
                    for x, p in zip(args, parts[1:]):
                        out += [self.str(x), p]
                    return concat(out)
                raise Undecided("format string")
        if isinstance(o, Opq):
            if o.cls == "bytes" and n == "decode":
                return self.decode(o, args, kw)
            if o.cls and not (o.cls in TYPES):
                return self.ext("%s.%s" % (o.cls, n), o, args, kw)
            raise Undecided("method %s of an unknown value" % n)
        if isinstance(o, bytes) and n == "decode":
            return self.decode(o, args, kw)
        if isinstance(o, list):
            if n == "append":
                o.append(args[0])
                return None
            if n == "extend":
                o.extend(self.iter(args[0]))
                return None
            if n == "insert":
                o.insert(*args)
                return None
            if n == "pop":
                if not o:
                    self.throw("IndexError")
                return o.pop(*args)
            if n == "copy":
                return list(o)
            if n == "reverse":
                o.reverse()
                return None
        if isinstance(o, PySet):
            if n == "add":
                o.d[args[0]] = None
                return None
            if n in ("discard", "remove"):
                if args[0] not in o.d and n == "remove":
                    self.throw("KeyError")
                o.d.pop(args[0], None)
                return None
            if n == "update":
                for a in args:
                    o.d.update(dict.fromkeys(self.iter(a)))
                return None
            if n == "copy":
                return PySet(o.d)
        if isinstance(o, (list, dict)) and n == "clear":
            o.clear()
            return None
        if isinstance(o, dict):
            if n == "get":
                return o.get(args[0], args[1] if len(args) > 1 else None)
            if n == "items":
                return [tuple(x) for x in o.items()]
            if n == "keys":
                return list(o)
            if n == "values":
                return list(o.values())
            if n == "update":
                o.update(args[0] if args else {})
                o.update(kw)
                return None
            if n == "pop":
                if args[0] in o:
                    return o.pop(args[0])
                if len(args) > 1:
                    return args[1]
                self.throw("KeyError")
            if n == "setdefault":
                return o.setdefault(*args)
        if isinstance(o, (str, bytes)) and all(isinstance(a, (str, bytes, int, tuple, type(None))) for a in args):
            if n in ("split", "strip", "lstrip", "rstrip", "lower", "upper", "startswith", "endswith", "replace", "splitlines", "isdigit", "find", "count",
                     "partition", "rpartition", "removeprefix", "removesuffix", "rsplit", "isidentifier", "isdecimal"):
                try:
                    return getattr(o, n)(*args, **kw)
                except (TypeError, ValueError) as x:
                    self.throw(type(x).__name__)
        if isinstance(o, (list, tuple)) and n in ("index", "count") and not any(isinstance(x, Opq) for x in list(o) + args):
            try:
                return getattr(o, n)(*args)
            except ValueError:
                self.throw("ValueError")
        raise Undecided("method %s of %r" % (n, o))
