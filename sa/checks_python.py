"""P23 serialized primitives agree between C++ and Python, P29 the Python interface."""
import os
import re

import cbor_model
import front
import models
from absint import AnyV, Arr, Atom, Undecided
from harness import *
from checks_overload import type_node, TYPES
from checks_version import version_obj
from pyabs import BType, Cls, Ext, Gens, Inst, Module, NamedTup, Opq, Py, PyRaise, concat

MOD = "cqasm.v3x"
TYP = "cqasm::v3x::types::"


def pyroot():
    return os.path.join(front.REPO, "python", "module")


def py_sizes(lo, hi=300):
    """The numbers of elements at which the Python code may start to behave differently: its integer constants above lo, and their successors."""
    import ast
    out = {int(x) for x in os.environ.get("VP_SIZES", "").split(",") if x}
    for d, _, fs in os.walk(pyroot()):
        for f in fs:
            if f.endswith(".py"):
                with open(os.path.join(d, f), encoding="utf-8") as fh:
                    out |= {n.value for n in ast.walk(ast.parse(fh.read())) if isinstance(n, ast.Constant) and type(n.value) is int}
    return sorted({c + d for c in out for d in (0, 1) if lo < c + d <= hi})[:12]


class PyCheck:
    """Runs the abstract interpreter of Python and turns its outcome into an obligation."""

    def __init__(self, C, rule):
        self.C, self.rule = C, rule

    def run(self, site, where, go, want):
        C = self.C
        C.paths += 1
        calls = []
        try:
            try:
                got = ("return",) + go(calls)
            except PyRaise as x:
                got = ("raise", x.value)
        except Undecided as x:
            C.undec(self.rule, site, str(x))
            return None
        except RecursionError:
            C.undec(self.rule, site, "recursion")
            return None
        C.valuations += 1
        bad = want(got, calls)
        if bad:
            C.fail(self.rule, site, where, bad)
        else:
            C.ok(self.rule, 1, site)
        return got


def anchor(path, name):
    """(file, line, function) of a definition in a Python file."""
    import ast
    full = os.path.join(pyroot(), path)
    if not os.path.exists(full):
        raise Broken("%s is gone" % path)
    with open(full, encoding="utf-8") as fh:
        t = ast.parse(fh.read())
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
            return (full, n.lineno, name)
    return (full, 1, name)


PATHS = {MOD + ".types", MOD + ".ast", MOD + ".semantic", MOD + ".values"}


# ---------------------------------------------------------------------------------------------------------------- P29
def p29(C):
    C.rule("tree", "parse_* and analyze_* hand the serialized tree of a successful call, byte for byte, to the reader of the matching kind of tree and return "
                   "what it reads")
    C.rule("errors", "a failed call returns every error text, in order and unchanged, and no tree")
    C.rule("json", "the *_to_json methods return the library's text unchanged")
    C.rule("call", "every method calls the library's method of its own name exactly once, with its own arguments in order")
    C.rule("history", "of two calls in a row, each gives what it would have given alone")
    path = os.path.join("cqasm", "v3x", "__init__.py")
    C.units = ["python/module/" + path]
    METHODS = [("parse_file", True, "ast"), ("parse_string", True, "ast"), ("analyze_file", False, "semantic"), ("analyze_string", False, "semantic"),
               ("parse_file_to_json", True, None), ("parse_string_to_json", True, None), ("analyze_file_to_json", False, None),
               ("analyze_string_to_json", False, None)]
    READER = {"ast": MOD + ".ast.Root.deserialize", "semantic": MOD + ".semantic.Program.deserialize"}
    KIND = {name: (static, kind) for name, static, kind in METHODS}
    LIB = "libqasm.V3xAnalyzer."
    seen = set()

    def start(calls, answers):
        def ext(p, self_, a, kw):
            if p == LIB + "__init__":
                calls.append((p, self_, a, kw))
                return None
            calls.append((p, self_, a, kw))
            if p.startswith(LIB):
                raw = answers[len([c for c in calls if c[0].startswith(LIB) and c[0] != LIB + "__init__"]) - 1] if answers else ""
                return list(raw) if isinstance(raw, list) else raw
            if p.endswith(".deserialize"):
                return Opq(("read", p) + tuple(a), "tree", True)
            raise Undecided("call of %s" % p)
        py = Py(pyroot(), ext)
        m = py.module(MOD)
        cls = m.ns.get("Analyzer") if isinstance(m, Module) else None
        if not isinstance(cls, Cls):
            raise Broken("the class Analyzer is gone from %s" % path)
        if Ext("libqasm.V3xAnalyzer") not in cls.mro():
            raise Undecided("Analyzer no longer derives from libqasm.V3xAnalyzer")
        return py, cls, py.call(cls, [], {})

    def one(got, lib, deser, o, name, args, raw):
        """What is wrong with one call, given its result and the outgoing calls made during it."""
        static, kind = KIND[name]
        if len(lib) != 1 or lib[0][0] != LIB + name:
            return "calls %s, required one call of libqasm.V3xAnalyzer.%s" % ([c[0] for c in lib], name)
        a, self_ = lib[0][2], lib[0][1]
        if self_ is None and not static:
            if not a or a[0] is not o:
                return "calls the library without the analyzer it was called on"
            a = a[1:]
        elif not static and self_ is not o:
            return "calls the library on another object"
        if list(a) != list(args) or lib[0][3]:
            return "passes %r, required %r" % (a, args)
        if kind is None:
            return None if type(got) is type(raw) and got == raw else "returns %r, required the library's text" % (got,)
        if len(raw) == 1:
            b = Opq(("encode", raw[0], "utf-8", "surrogateescape"), "bytes", True) if isinstance(raw[0], Opq) else raw[0].encode("utf-8", "surrogateescape")
            req = Opq(("read", READER[kind], b), "tree", True)
            return None if got == req else "returns %r, required %r" % (got, req)
        if deser:
            return "reads a tree although the call failed"
        return None if isinstance(got, list) and got == raw[1:] else "returns %s, required the %d error texts in order" % (repr(got)[:300], len(raw) - 1)

    E = lambda k: [""] + [Opq(("error", i), "str") for i in range(k)]
    ODD = ["", "Error at a.cq:1:1..2: x", "two\nlines", "\udcff\udc80", "\u00e9\u20ac", " ", "b'x'", "Error at a.cq:1:1..2: x"]
    TREES = [[Opq(("serialized",), "str", True)], ["\udcff\x01tree\udc80"], ["a"]]
    FAILS = [E(k) for k in [1, 2, 3, 7] + py_sizes(3)] + [[""] + [x] for x in ODD[:7]] + [[""] + ODD, ["", "same", "same", "same"], [""] + ["error %d" % (i % 23) for i in range(40)]]
    JSON = [Opq(("json",), "str"), "", "{\"errors\": []}", "\udcff\n"]

    def answers_of(name):
        return JSON if KIND[name][1] is None else TREES + FAILS
    for name, static, kind in METHODS:
        where = anchor(path, name)
        file_arg = "_file" in name
        arglists = [[Opq(("arg", 0), "str")]] + ([["a.cq"], [""]] if file_arg else [[Opq(("arg", 0), "str"), Opq(("arg", 1), "str")], ["", ""], ["text", "name.cq"], ["\u00e9\n"]])
        for args in arglists:
            for via in (("class", "instance") if static else ("instance",)):
                for raw in answers_of(name):
                    n = None if kind is None else len(raw) - 1
                    label = "%s through the %s, %d arguments%s" % (name, via, len(args), "" if n is None else ", success" if n == 0 else ", %d errors" % n)

                    def go(calls, args=args, via=via, raw=raw, name=name):
                        py, cls, o = start(calls, [raw])
                        r = py.call(py.attr(o if via == "instance" else cls, name), list(args), {})
                        seen.update(py.seen)
                        return (r, o)

                    def want(got, calls, args=args, raw=raw, name=name):
                        if got[0] == "raise":
                            return "raises %r" % (got[1],)
                        init = [c for c in calls if c[0] == LIB + "__init__"]
                        calls = [c for c in calls if c[0] != LIB + "__init__"]
                        if len(init) > 1:
                            return "initialises the library's analyzer more than once"
                        return one(got[1], [c for c in calls if c[0].startswith("libqasm.")], [c for c in calls if c[0].endswith("deserialize")], got[2], name, args, raw)
                    rule = "json" if kind is None else "tree" if n == 0 else "errors"
                    v0 = len(C.violations)
                    PyCheck(C, rule).run(label, where, go, want)
                    if len(C.violations) == v0:
                        C.ok("call", 1)
    # two calls in a row, on one analyzer and on two
    for n1, _, k1 in METHODS:
        for n2, _, k2 in METHODS:
            for same in (True, False):
                for r1 in ([JSON[0]] if k1 is None else [["first"], ["", "e1", "e2"]]):
                    for r2 in ([Opq(("json", 2), "str")] if k2 is None else [["second"], ["", "f1"]]):
                        for two in (False, True):
                            a1 = ["x.cq"]
                            a2 = ["x.cq"] if same else ["y.cq"]

                            def go(calls, n1=n1, n2=n2, a1=a1, a2=a2, r1=r1, r2=r2, two=two):
                                py, cls, o = start(calls, [r1, r2])
                                o2 = py.call(cls, [], {}) if two else o
                                x = py.call(py.attr(o, n1), list(a1), {})
                                x = list(x) if isinstance(x, list) else x
                                cut = len(calls)
                                y = py.call(py.attr(o2, n2), list(a2), {})
                                return (x, y, o, o2, cut)

                            def want(got, calls, n1=n1, n2=n2, a1=a1, a2=a2, r1=r1, r2=r2):
                                if got[0] == "raise":
                                    return "raises %r" % (got[1],)
                                x, y, o, o2, cut = got[1:]
                                for part, g, ob, nm, ar, rw in ((calls[:cut], x, o, n1, a1, r1), (calls[cut:], y, o2, n2, a2, r2)):
                                    part = [c for c in part if c[0] != LIB + "__init__"]
                                    bad = one(g, [c for c in part if c[0].startswith("libqasm.")], [c for c in part if c[0].endswith("deserialize")], ob, nm, ar, rw)
                                    if bad:
                                        return "in two calls in a row, %s: %s" % (nm, bad)
                                return None
                            PyCheck(C, "history").run("%s, then %s on %s with %s" % (n1, n2, "another analyzer" if two else "the same analyzer",
                                                                                     "the same text" if same else "another text"), anchor(path, n2), go, want)
    C.functions |= seen
    C.assumptions.append("SWIG decodes the library's strings with surrogateescape, as its Python 3 string typemap does; the generated readers are not analysed")
    return "other", ("Abstract interpretation of the Python interface over its syntax tree: library results are lists of opaque texts of every shape (success, and "
                     "1 to 7 errors), arguments opaque; the returned term and every outgoing call are compared with the required ones.")


# ---------------------------------------------------------------------------------------------------------------- P23
def sink_view(sink, val):
    out = []
    for k, kind, v in sink:
        out.append((conc(k, val) if k is not None else None, kind, sink_view(v, val) if isinstance(v, list) else num(conc(v, val)) if v is not None else None))
    return out


def num(x):
    return ("float", repr(x)) if isinstance(x, float) else x


def same_map(a, b):
    key = lambda l: sorted(l, key=lambda t: repr(t[0]))
    return key(a) == key(b)


def p23(C):
    C.load(["src/v3x/primitives.cpp", "src/v3x/instruction.cpp", "src/v3x/core_function.cpp", "src/v3x/types.cpp", "src/version.cpp"])
    C.rule("write", "the C++ writer stores the value of every primitive exactly, under the keys and in the representation both readers expect")
    C.rule("roundtrip", "what the C++ writer of a primitive writes, its C++ reader reads back as an equal value")
    C.rule("initial", "a new primitive starts as its fixed default value")
    C.rule("python-read", "the Python reader turns what the C++ writer writes into the equal Python value")
    C.rule("python-write", "the Python writer writes back the keys the readers expect, with equal values")
    C.rule("covered", "every kind of primitive the tree descriptions use has a reader and a writer on both sides")
    W = "cqasm::v3x::primitives::serialize"
    R = "cqasm::v3x::primitives::deserialize"
    INS = "cqasm::v3x::instruction::Instruction"
    FUN = "cqasm::v3x::function::CoreFunction"

    def writer(t):
        fs = C.functions_named(W, 2, lambda f: t == re.sub(r"^const |\s*&$", "", f["params"][0]["t"]).strip() and "body" in f)
        if len(fs) != 1:
            raise Broken("writer of %s: %d found" % (t, len(fs)))
        return fs[0]

    def reader(t):
        fs = C.functions_named(R, 1, lambda f: f["ret"] == t and "body" in f)
        if len(fs) != 1:
            raise Broken("reader of %s: %d found" % (t, len(fs)))
        return fs[0]
    I64 = [-(1 << 63), -(1 << 32), -(1 << 31) - 1, -(1 << 31), -129, -1, 0, 1, 23, 127, 255, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) + 7, (1 << 53) + 1, (1 << 63) - 1]
    DBL = [0.0, -0.0, 1.0, -1.5, 0.1, 1 / 3, 16777217.0, 1e300, 5e-324, float("inf"), 3.0000000000000004, 2147483648.5]
    COMP = [0, 1, 3, 255, 256, 65536, (1 << 31) - 1]
    dv = lambda n: Var(n, list(DBL))
    m = Str((Atom("text", True),))
    cases = []

    def case(label, t, mk, vs, want, py=None):
        cases.append((label, t, mk, vs, want, py))
    bx = Var("x", [False, True])
    ix = order_var("x", I64, -(1 << 63), (1 << 63) - 1)
    fx, fy, fz = dv("x"), dv("y"), dv("z")
    fy.dom, fz.dom = DBL[2:6], DBL[3:7]
    strs = [("any text", [], m, lambda env: (Atom("text", True),))]
    for s in string_shapes(lengths=(24, 300)):
        free = [v for v in s if isinstance(v, Var)]
        strs.append(("a text of %d bytes" % len(sbytes(s, {v: 0 for v in free})), free, sval(s), lambda env, s=s: sbytes(s, env)))
    for lab, vs, s, w in strs:
        case("string, " + lab, "std::string", lambda I, s=s: s, vs, lambda env, w=w: [(b"x", "binary", w(env))], ("Str", w))
    case("bool", "bool", lambda I: Fn.of(bx), [bx], lambda env: [(b"x", "bool", env[bx])])
    case("int", "long", lambda I: Fn.of(ix), [ix], lambda env: [(b"x", "int", env[ix])])
    case("float", "double", lambda I: Fn.of(fx), [fx], lambda env: [(b"x", "float", num(env[fx]))])

    def axis(I):
        o = Obj("cqasm::v3x::primitives::Axis")
        for n, v in (("x", fx), ("y", fy), ("z", fz)):
            o.f[n] = Cell(Fn.of(v))
        return o
    case("axis", "cqasm::v3x::primitives::Axis", axis, [fx, fy, fz],
         lambda env: [(b"x", "float", num(env[fx])), (b"y", "float", num(env[fy])), (b"z", "float", num(env[fz]))])
    for n in (0, 1, 2, 3, 6):
        vs = [order_var("v%d" % i, COMP if n < 3 and C.thorough or n < 2 else [0, 1, 65536, (1 << 31) - 1] if n == 2 else [0, 3, (1 << 31) - 1] if n == 3 else [0, 7 + i], 0, (1 << 31) - 1) for i in range(n)]
        case("version of %d components" % n, "cqasm::version::Version", lambda I, vs=vs: version_obj([Fn.of(v) for v in vs]), vs,
             lambda env, vs=vs: [(b"x", "array", [(None, "int", env[v]) for v in vs])])

    def label_types(I, ts):
        out = []
        for i, t in enumerate(ts):
            p = type_node(I, t, *([3 + i] if t in "VW" else []))
            p.c.v.label = "t%d%s" % (i, t)
            out.append(Cell(p))
        return out

    def ref(cls, fld, ts, ret=None, name=None):
        def mk(I):
            o = Obj(cls)
            o.f["name"] = Cell(m if name is None else Str.lit(name))
            o.f[fld] = Cell(Vec(label_types(I, ts), "any"))
            if ret:
                p = type_node(I, ret)
                p.c.v.label = "ret"
                o.f["return_type"] = Cell(p)
            return Ptr(Cell(o), "tree")
        return mk
    lab = lambda i, t: (Atom(("serialized", "t%d%s" % (i, t)), True),)
    IREF, FREF = "tree::base::Maybe<%s>" % INS, "tree::base::Maybe<%s>" % FUN
    for n in C.sizes(6, 300):
        case("version of %d components" % n, "cqasm::version::Version", lambda I, n=n: version_obj([7 + i for i in range(n)]), [],
             lambda env, n=n: [(b"x", "array", [(None, "int", 7 + i) for i in range(n)])])
    for ts in ["", "Q", "QQ", "VW", "QVBWbif", "ffffffff"] + [("QVBWbif" * n)[:n] for n in C.sizes(8, 300)]:
        case("instruction with the operands %r" % ts, IREF, ref(INS, "operand_types", ts), [],
             lambda env, ts=ts: [(b"name", "string", (Atom("text", True),)), (b"operand_types", "array", [(None, "binary", lab(i, t)) for i, t in enumerate(ts)])])
    for nm in (b"", b"X", b"a\0b", b"\0", b" X90 ", "h\u00e9".encode(), b"\xff\xfe", b"n" * 300):
        for ts in ("", "Q", "QQ"):
            case("instruction of the name %.12r with the operands %r" % (nm, ts), IREF, ref(INS, "operand_types", ts, None, nm), [],
                 lambda env, ts=ts, nm=nm: [(b"name", "string", nm), (b"operand_types", "array", [(None, "binary", lab(i, t)) for i, t in enumerate(ts)])])
            case("function of the name %.12r with the parameters %r" % (nm, ts), FREF, ref(FUN, "param_types", ts, "f", nm), [],
                 lambda env, ts=ts, nm=nm: [(b"name", "string", nm), (b"param_types", "array", [(None, "binary", lab(i, t)) for i, t in enumerate(ts)]),
                                            (b"return_type", "binary", (Atom(("serialized", "ret"), True),))])
    case("no instruction", IREF, lambda I: Ptr(None, "tree"), [], lambda env: [])
    for ts in ["", "f", "ib", "iffb"] + [("bif" * n)[:n] for n in C.sizes(4, 300)]:
        case("function with the parameters %r" % ts, FREF, ref(FUN, "param_types", ts, "f"), [],
             lambda env, ts=ts: [(b"name", "string", (Atom("text", True),)), (b"param_types", "array", [(None, "binary", lab(i, t)) for i, t in enumerate(ts)]),
                                 (b"return_type", "binary", (Atom(("serialized", "ret"), True),))])
    case("no function", FREF, lambda I: Ptr(None, "tree"), [], lambda env: [])

    def norm_obj(v):
        if isinstance(v, dict):
            return {k: norm_obj(x) for k, x in v.items() if not k.startswith("$") or k == "$base"}
        if isinstance(v, (list, tuple)):
            return type(v)(norm_obj(x) for x in v)
        return num(v)

    for label, t, mk, vs, want, py in cases:
        wf, rf = writer(t), reader(t)

        def body(I, mk=mk, wf=wf):
            sink = []
            w = cbor_model.writer("MapWriter", sink)
            x = Cell(mk(I))
            I.call_fn(wf, [x, w])
            return sink_cell(sink)
        C.verify("write", "writing " + label, body, lambda env, want=want: (lambda got: got[0] == "return" and same_map(unsink(got[1]), want(env))),
                 vars=vs, f=wf, hooks=cbor_model.HOOKS)

        def back(I, mk=mk, wf=wf, rf=rf):
            sink = []
            w = cbor_model.writer("MapWriter", sink)
            x = Cell(mk(I))
            I.call_fn(wf, [x, w])
            y = I.rv(I.call_fn(rf, [Cell(cbor_model.map_reader(sink))]))
            return Tup([Cell(x.v), Cell(y)])
        C.verify("roundtrip", "reading back " + label, back,
                 lambda env: (lambda got: got[0] == "return" and norm_obj(got[1][0]) == norm_obj(got[1][1])), vars=vs, f=rf, hooks=cbor_model.HOOKS)
    init = {"std::string": b"", "bool": False, "long": 0, "double": num(0.0), "cqasm::v3x::primitives::Axis": {"x": num(1.0), "y": num(0.0), "z": num(0.0)}}
    for t, v in init.items():
        fs = C.functions_named("cqasm::v3x::primitives::initialize", 0, lambda f: f["ret"] == t and "body" in f)
        if len(fs) != 1:
            raise Broken("initial value of %s: %d found" % (t, len(fs)))
        C.verify("initial", "new " + t, lambda I, f=fs[0]: I.rv(I.call_fn(f, [])),
                 lambda env, v=v: (lambda got: got[0] == "return" and {k: x for k, x in norm_obj(got[1]).items() if k != "@"} == v if isinstance(v, dict)
                                   else got[0] == "return" and num(got[1]) == v and type(num(got[1])) is type(v)), f=fs[0])
    python_side(C)
    return "other", ("C++ readers and writers are interpreted over abstract values into a recorded map and back; the Python ones over opaque values of exactly "
                     "the types the recorded maps hold. The key tables of both sides are compared through the values they produce.")


def sink_cell(sink):
    return Cell(Vec([Cell(Tup([Cell(k if k is not None else Str()), Cell(Str.lit(kind)), sink_cell(v) if isinstance(v, list) else Cell(v)])) for k, kind, v in sink]))


def unsink(l):
    return [(k or None, kind.decode(), unsink(v) if kind in (b"array", b"map") else num(v)) for k, kind, v in l]


def python_side(C):
    base = os.path.join("cqasm", "v3x", "primitives.py")
    rd, wr = anchor(base, "deserialize"), anchor(base, "serialize")
    NODE = MOD + ".types.Node"
    seen = set()

    def ext(p, self_, a, kw):
        if p == NODE + ".deserialize" and len(a) == 1 and not kw:
            return Opq(("node", a[0]), "node", True)
        if p == "node.serialize" and not a:
            return self_.term[1]
        raise Undecided("call of %s" % p)

    def isa(cls, path):
        if path == NODE:
            return cls == "node"
        raise Undecided("isinstance of %s" % path)

    def fresh():
        py = Py(pyroot(), ext, isa=isa)
        m = py.module(MOD + ".primitives")
        if not isinstance(m, Module):
            raise Broken("%s is gone" % base)
        return py, m

    def ty(py, m, name):
        if name == "InstructionRef":
            return py.attr(py.module(MOD + ".instruction"), "InstructionRef")
        return py.attr(m, name)
    B = Opq(("bytes",), "bytes", True)
    NAME = Opq(("name",), "str", True)
    T = [Opq(("type", i), "bytes", True) for i in range(302)]

    def plain(py, v):
        """The value a user sees."""
        if isinstance(v, Inst) and v.cls.name == "Version":
            return ("version", v.base)
        if isinstance(v, Inst) and v.cls.name == "InstructionRef":
            d = py.attr(v, "data")
            if d is None:
                return ("instruction", None)
            return ("instruction", py.attr(d, "name"), tuple(py.attr(d, "types")))
        return v
    node = lambda b: Opq(("node", b), "node", True)
    cases = [
        ("string", "Str", {"x": B}, Opq(("decode", B, "utf-8", "strict"), "str", True), None),
        ("text string", "Str", {"x": Opq(("t",), "str")}, Opq(("t",), "str"), {"x": Opq(("t",), "str")}),
        ("empty string", "Str", {"x": b""}, "", {"x": ""}),
        ("non-ASCII string", "Str", {"x": "é€".encode()}, "é€", {"x": "é€"}),
        ("true", "Bool", {"x": True}, True, {"x": True}), ("false", "Bool", {"x": False}, False, {"x": False}),
        ("int", "Int", {"x": Opq(("i",), "int")}, Opq(("i",), "int"), {"x": Opq(("i",), "int")}),
        ("zero", "Int", {"x": 0}, 0, {"x": 0}), ("smallest int", "Int", {"x": -(1 << 63)}, -(1 << 63), {"x": -(1 << 63)}),
        ("float", "Float", {"x": Opq(("f",), "float")}, Opq(("f",), "float"), {"x": Opq(("f",), "float")}),
        ("small float", "Float", {"x": 0.1}, 0.1, {"x": 0.1}),
        ("no instruction", "InstructionRef", {}, ("instruction", None), {}),
    ]
    for n in [0, 1, 2, 5] + py_sizes(3):
        l = [3 + 7 * i for i in range(n)]
        cases.append(("version of %d components" % n, "Version", {"x": l}, ("version", tuple(l)), {"x": l}))
    for n in [0, 1, 2, 3] + py_sizes(3):
        cases.append(("instruction with %d operands" % n, "InstructionRef", {"name": NAME, "operand_types": T[:n]},
                      ("instruction", NAME, tuple(node(b) for b in T[:n])), {"name": NAME, "operand_types": T[:n]}))
    for what, nm, ts in (("of an empty name", "", T[:2]), ("of an empty name and no operands", "", []), ("of a name with a zero byte", "a\0b", T[:1]), ("of a non-ASCII name", "\u00e9", T[:1]),
                         ("whose operands are of one type", NAME, [T[0], T[0]]), ("whose operands are of the types t u t", NAME, [T[0], T[1], T[0]]),
                         ("whose operands are of the types u t", NAME, [T[1], T[0]])):
        cases.append(("instruction " + what, "InstructionRef", {"name": nm, "operand_types": list(ts)},
                      ("instruction", nm, tuple(node(b) for b in ts)), {"name": nm, "operand_types": list(ts)}))
    for label, tn, val, want, again in cases:
        def go(calls, tn=tn, val=val):
            py, m = fresh()
            v = py.call(py.attr(m, "deserialize"), [ty(py, m, tn), dict(val)], {})
            seen.update(py.seen)
            return (plain(py, v),)
        PyCheck(C, "python-read").run("reading a " + label, rd, go, lambda got, calls, want=want: None if same_py(got[1], want) and got[0] == "return" else
                                      "gives %r, required %r" % (got[1], want))

        def go2(calls, tn=tn, val=val):
            py, m = fresh()
            t = ty(py, m, tn)
            v = py.call(py.attr(m, "deserialize"), [t, dict(val)], {})
            w = py.call(py.attr(m, "serialize"), [t, v], {})
            seen.update(py.seen)
            return (w,)
        req = again if again is not None else {"x": want}
        PyCheck(C, "python-write").run("writing a " + label, wr, go2, lambda got, calls, req=req: None if got[0] == "return" and same_py(got[1], req) else
                                       "gives %r, required %r" % (got[1], req))
    # the primitives of the trees
    used = {}
    for p in front.tree_files():
        with open(p) as fh:
            for i, line in enumerate(fh, 1):
                mm = re.match(r"\s+\w+\s*:\s*(?:external\s+)?cqasm::v3x::(primitives|instruction|function)::(\w+)\s*;", line)
                if mm:
                    used.setdefault(mm.group(2), (p, i))
    C.floor("kinds of primitives in the tree descriptions", len(used), 5)
    CPP = {"Str": "std::string", "Bool": "bool", "Int": "long", "Float": "double", "Version": "cqasm::version::Version",
           "InstructionRef": "tree::base::Maybe<cqasm::v3x::instruction::Instruction>", "Axis": "cqasm::v3x::primitives::Axis", "Complex": "std::complex<double>",
           "CoreFunctionRef": "tree::base::Maybe<cqasm::v3x::function::CoreFunction>"}
    SAMPLE = {"Str": {"x": B}, "Bool": {"x": True}, "Int": {"x": 1}, "Float": {"x": 1.5}, "Version": {"x": [3]}, "InstructionRef": {},
              "Axis": {"x": 1.0, "y": 0.0, "z": 0.0}, "Complex": {"r": 1.0, "i": 0.0}, "CoreFunctionRef": {}}
    for u, where in sorted(used.items()):
        if u not in CPP:
            C.undec("covered", u, "a kind of primitive this check does not know")
            continue
        for fn, n in (("serialize", 2), ("deserialize", 1)):
            have = C.functions_named("cqasm::v3x::primitives::" + fn, n, lambda f: "body" in f and CPP[u] == (f["ret"] if n == 1 else re.sub(r"^const |\s*&$", "", f["params"][0]["t"]).strip()))
            C.expect("covered", len(have) == 1, "%s of %s in C++" % (fn, u), where + (u,), "there is no %s for it" % fn)

        def go(calls, u=u):
            py, m = fresh()
            t = ty(py, m, u)
            v = py.call(py.attr(m, "deserialize"), [t, dict(SAMPLE[u])], {})
            return (py.call(py.attr(m, "serialize"), [t, v], {}),)
        PyCheck(C, "covered").run("%s in Python" % u, rd, go, lambda got, calls: None if got[0] == "return" else "the Python side refuses it: %r" % (got[1],))
    C.functions |= seen
    C.units += ["python/module/" + base, "python/module/cqasm/v3x/instruction.py"]


def same_py(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_py(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same_py(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


# ---------------------------------------------------------------------------------------------------------------- P30
def p30(C):
    C.rule("reference", "a reference made of nothing or of None is unresolved, one made of an instruction is that instruction, any other is the instruction with "
                        "the given name and types")
    C.rule("types", "the types of an instruction are the given ones in order, however they are given; what is not a type is refused")
    C.rule("shown", "an instruction prints as name(type, ...), a reference as its instruction or as unresolved")
    C.rule("version", "a version is the tuple of its components in order, given as numbers or as a text")
    C.rule("import", "importing the library leaves every entry of the loader path in place and appends its own directory, before the library itself is imported")
    ins = os.path.join("cqasm", "v3x", "instruction.py")
    pri = os.path.join("cqasm", "v3x", "primitives.py")
    lib = os.path.join("libqasm", "__init__.py")
    C.units = ["python/module/" + x for x in (ins, pri, lib)]
    NODE = MOD + ".types.Node"
    seen = set()

    def ext(p, self_, a, kw):
        raise Undecided("call of %s" % p)

    def isa(cls, path):
        if path == NODE:
            return cls == "node"
        raise Undecided("isinstance of %s" % path)

    def start():
        py = Py(pyroot(), ext, isa=isa)
        m = py.module(MOD + ".instruction")
        if not isinstance(m, Module) or not all(isinstance(m.ns.get(n), Cls) for n in ("Instruction", "InstructionRef")):
            raise Broken("the classes of %s are gone" % ins)
        return py, m.ns["Instruction"], m.ns["InstructionRef"]
    T = [Opq(("type", i), "node", True) for i in range(302)]
    NAME = Opq(("name",), "str", True)
    shape = lambda name, ts: concat([name, "("] + sum([([", "] if i else []) + [t if isinstance(t, str) else Opq(("str", t), "str", True)] for i, t in enumerate(ts)], []) + [")"])

    def view(py, o):
        seen.update(py.seen)
        return (py.attr(o, "name"), py.attr(o, "types"))
    where_i, where_r = anchor(ins, "Instruction"), anchor(ins, "InstructionRef")
    forms = {"a list": list, "a tuple": tuple, "an iterator": lambda ts: Gens(ts), "a reversed copy's reverse": lambda ts: Gens(list(ts))}
    for name in (NAME, "CNOT", ""):
        for n in [0, 1, 2, 3] + py_sizes(3):
            ts = tuple(T[:n])
            for form, mk in sorted(forms.items()):
                for target in ("instruction", "reference", "keywords", "keyword reference"):
                    def go(calls, name=name, ts=ts, mk=mk, target=target):
                        py, I, R = start()
                        kw = {"name": name, "types": mk(ts)} if "keyword" in target else {}
                        o = py.call(R if "reference" in target else I, [] if kw else [name, mk(ts)], kw)
                        d = py.attr(o, "data") if "reference" in target else o
                        return (view(py, d), py.str(o), py.str(d))

                    def want(got, calls, name=name, ts=ts):
                        if got[0] == "raise":
                            return "raises %r" % (got[1],)
                        if got[1] != (name, ts) or not isinstance(got[1][1], tuple):
                            return "holds %r, required %r" % (got[1], (name, ts))
                        if got[2] != shape(name, ts) or got[3] != shape(name, ts):
                            return "prints as %r, required %r" % (got[2], shape(name, ts))
                        return None
                    PyCheck(C, "types").run("%s %r of %d types given as %s" % (target, name, n, form), where_i, go, want)
    for label, args in (("no types", ["X"]), ("None as types", ["X", None])):
        for target in ("instruction", "reference"):
            def go(calls, args=args, target=target):
                py, I, R = start()
                o = py.call(R if target == "reference" else I, list(args), {})
                d = py.attr(o, "data") if target == "reference" else o
                return (view(py, d), py.str(o))
            PyCheck(C, "shown").run("%s of %s" % (target, label), where_i, go, lambda got, calls: None if got == ("return", ("X", ()), "X()") else "gives %r" % (got,))
    for label, bad in (("a text", "Q"), ("a number", 3), ("None", None), ("an instruction", "I"), ("a text of two letters", "QQ")):
        for k in range(3):
            for target in ("instruction", "reference"):
                def go(calls, bad=bad, k=k, target=target):
                    py, I, R = start()
                    b = py.call(I, ["Y"], {}) if bad == "I" else bad
                    ts = list(T[:2])
                    ts.insert(k, b)
                    o = py.call(R if target == "reference" else I, ["X", ts], {})
                    return (o,)
                PyCheck(C, "types").run("%s with %s at place %d of its types" % (target, label, k), where_i, go, lambda got, calls: None if got[0] == "raise" and
                                        getattr(got[1], "cls", None) == "TypeError" else "is accepted" if got[0] == "return" else "raises %r" % (got[1],))
    for label, args in (("nothing", []), ("None", [None])):
        def go(calls, args=args):
            py, I, R = start()
            o = py.call(R, list(args), {})
            return (py.attr(o, "data"), py.str(o))
        PyCheck(C, "reference").run("a reference made of " + label, where_r, go, lambda got, calls: None if got == ("return", None, "unresolved") else "gives %r" % (got,))
    for label, args, kw, name in (("an empty text", [""], {}, ""), ("an empty name given by keyword", [], {"name": ""}, ""), ("a text", ["X"], {}, "X"), ("zero", [0], {}, "0"),
                                  ("an empty list", [[]], {}, "[]"), ("no name but no types either", ["", None], {}, ""), ("None and no types", [None, []], {}, "None"),
                                  ("false", [False], {}, "False")):
        for target in ("instruction", "reference"):
            def go(calls, args=args, kw=kw, target=target):
                py, I, R = start()
                o = py.call(R if target == "reference" else I, list(args), dict(kw))
                return (view(py, py.attr(o, "data") if target == "reference" else o), py.str(o))
            PyCheck(C, "reference").run("%s %s made of %s" % ("an" if target == "instruction" else "a", target, label), where_r, go, lambda got, calls, name=name:
                                        None if got == ("return", (name, ()), name + "()") else "gives %r" % (got,))
    for n in [0, 1, 2] + py_sizes(3):
        def go(calls, n=n):
            py, I, R = start()
            i = py.call(I, ["X", list(T[:n])], {})
            o = py.call(R, [i], {})
            return (py.attr(o, "data") is i, py.str(o), shape("X", T[:n]))
        PyCheck(C, "reference").run("a reference made of an instruction of %d types" % n, where_r, go, lambda got, calls: None if got[0] == "return" and got[1] is True and
                                    got[2] == got[3] else "gives %r" % (got,))
    # versions
    wv = anchor(pri, "Version")
    for nums in ((3,), (3, 0), (3, 1, 4), (0,), (1, 10, 100, 1000), (12345678,), (3, 0, 0, 0, 0, 0)) + tuple(tuple(range(n)) for n in py_sizes(6)):
        for form, mk in (("a text", lambda v: ".".join(map(str, v))), ("a list", list), ("a tuple", tuple), ("an iterator", lambda v: Gens(v))):
            def go(calls, nums=nums, mk=mk):
                py = Py(pyroot(), ext, isa=isa)
                m = py.module(MOD + ".primitives")
                o = py.call(py.attr(m, "Version"), [mk(nums)], {})
                seen.update(py.seen)
                return (o,)

            def want(got, calls, nums=nums):
                v = got[1]
                if got[0] == "raise" or not isinstance(v, Inst) or v.cls.name != "Version":
                    return "gives %r" % (v,)
                return None if same_py(v.base, tuple(nums)) else "gives %r, required %r" % (v.base, tuple(nums))
            PyCheck(C, "version").run("the version %r given as %s" % (nums, form), wv, go, want)
    # import
    wl = (os.path.join(pyroot(), lib), 1, "libqasm")
    DIR = Opq(("dirname",), "str", True)
    PATH, PATHDIR = Opq(("path", "file"), "Path", True), Opq(("path", "dirname"), "Path", True)
    for old in (None, "", "/usr/lib", "/a:/b", "/a:", ":", ":/a", "/a::/b", "/a:/a", Opq(("path",), "str", True)):
        for ver in ((3, 12, 3, "final", 0), (3, 8, 0, "final", 0), (2, 7, 18, "final", 0), (4, 0, 0, "final", 0)):
            def go(calls, old=old, ver=ver):
                env = {"HOME": "/h"}
                if old is not None:
                    env["LD_LIBRARY_PATH"] = old
                stars = []

                def ext2(p, self_, a, kw):
                    if p in ("os.path.dirname", "os.path.abspath", "os.path.realpath") and len(a) == 1:
                        if a[0] == Opq(("file",), "str", True):
                            return DIR if p.endswith("dirname") else a[0]
                        if a[0] == DIR and not p.endswith("dirname"):
                            return DIR
                    if p == "pathlib.Path" and len(a) == 1 and a[0] == Opq(("file",), "str", True):
                        return PATH
                    if p in ("os.fspath", "os.path.dirname") and len(a) == 1 and a[0] in (PATH, PATHDIR):
                        return DIR if (a[0] == PATHDIR) == (p == "os.fspath") else Opq(("file",), "str", True) if p == "os.fspath" else Opq(("dirname", DIR), "str")
                    if p == "os.getenv":
                        return env.get(a[0], a[1] if len(a) > 1 else None)
                    raise Undecided("call of %s" % p)
                py = Py(pyroot(), ext2, values={"os.environ": env, "sys.version_info": NamedTup(ver).named(("major", "minor", "micro", "releaselevel", "serial")), "sys.version": "%d.%d.%d (main)" % ver[:3], "sys.hexversion": ver[0] << 24 | ver[1] << 16 | ver[2] << 8 | 0xf0, "__file__": Opq(("file",), "str", True), "os.pathsep": ":", (PATH.term, "parent"): PATHDIR, (PATHDIR.term, "str"): DIR, (PATH.term, "str"): Opq(("file",), "str", True)},
                        own=("libqasm",), star=lambda p: stars.append((p, dict(env))))
                m = py.module("libqasm")
                if not isinstance(m, Module):
                    raise Broken("%s is gone" % lib)
                C.functions.add("libqasm:<module>")
                return (stars, dict(env))

            def want(got, calls, old=old, ver=ver):
                if ver[0] != 3:
                    return None if got[0] == "raise" else "is imported by Python %d" % ver[0]
                if got[0] == "raise":
                    return "raises %r" % (got[1],)
                req = {"HOME": "/h", "LD_LIBRARY_PATH": concat([old, ":", DIR] if old else [DIR])}
                stars, env = got[1:]
                if [s[0] for s in stars] != ["libqasm.libqasm"]:
                    return "imports %r, required the names of libqasm.libqasm" % ([s[0] for s in stars],)
                if stars[0][1] != req or env != req:
                    return "leaves the environment %r, required %r" % (stars[0][1], req)
                return None
            PyCheck(C, "import").run("loader path %r, Python %d.%d" % (old, ver[0], ver[1]), wl, go, want)
    C.functions |= seen
    return "other", ("Abstract interpretation of the Python classes and of the package's import over opaque names and types: every way of making an instruction, a "
                     "reference and a version, and every state of the loader path.")
