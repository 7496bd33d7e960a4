"""Drivers for the cQASM v3 analyzer: syntactic trees with abstract leaves, a prepared analyzer, views of semantic trees."""
import json

from absint import AnyV, Arr, Atom, CStr, Cell, FnRef, Interp, It, Lam, MapV, Nat, Obj, OptV, Ptr, RefCell, Str, Stream, Tup, Undecided, Var, Vec, Fn, at
from checks_location import loc_obj
from harness import Broken, Violated
import models

SYN = "cqasm::v3x::syntactic::"
SEM = "cqasm::v3x::semantic::"
VAL = "cqasm::v3x::values::"
TYP = "cqasm::v3x::types::"
ANA = "cqasm::v3x::analyzer::Analyzer"
SL = "cqasm::annotations::SourceLocation"


# ---------------------------------------------------------------------------------------------------------- snapshots
def deep(x, memo):
    """Copies the mutable part of an abstract heap."""
    if x is None or isinstance(x, (bool, int, float, str, bytes, Fn, Str, Atom, FnRef, Var, tuple)):
        return x
    k = id(x)
    if k in memo:
        return memo[k][0]

    def put(y):
        memo[k] = (y, x)
        return y
    if isinstance(x, Cell):
        y = put(x.__class__.__new__(x.__class__))
        for c in type(x).__mro__:
            for s in getattr(c, "__slots__", ()):
                if s not in ("v", "__dict__") and hasattr(x, s):
                    setattr(y, s, deep(getattr(x, s), memo) if isinstance(getattr(x, s), (Cell, Obj, Ptr)) else getattr(x, s))
        if hasattr(x, "__dict__"):
            for s, w in x.__dict__.items():
                y.__dict__[s] = deep(w, memo)
        y.v = deep(x.v, memo)
        return y
    if isinstance(x, Obj):
        y = put(Obj(x.cls))
        y.f = {n: deep(c, memo) for n, c in x.f.items()}
        y.ann = {n: deep(c, memo) for n, c in x.ann.items()}
        for n, w in x.__dict__.items():
            if n not in ("f", "ann", "cls"):
                setattr(y, n, w)
        return y
    if isinstance(x, Vec):
        y = put(Vec([], x.kind))
        y.items = [deep(c, memo) for c in x.items]
        return y
    if isinstance(x, (Tup, Arr)):
        y = put(type(x)([]))
        y.items = [deep(c, memo) for c in x.items]
        return y
    if isinstance(x, MapV):
        y = put(MapV(x.kind))
        y.items = [(deep(a, memo), deep(b, memo)) for a, b in x.items]
        return y
    if isinstance(x, OptV):
        y = put(OptV(x.has))
        y.cell = deep(x.cell, memo)
        return y
    if isinstance(x, Ptr):
        y = put(Ptr(None, x.kind))
        y.c = deep(x.c, memo)
        return y
    if isinstance(x, AnyV):
        y = put(AnyV(x.t))
        y.cell = deep(x.cell, memo)
        return y
    if isinstance(x, Lam):
        return put(Lam(x.node, {n: deep(c, memo) for n, c in x.env.items()} if isinstance(x.env, dict) else x.env, deep(x.this, memo), x.unit))
    if isinstance(x, Nat):
        return put(x)
    if isinstance(x, CStr):
        return put(x)
    raise Undecided("snapshot of %s" % type(x).__name__)


def expr_view(v, val):
    if isinstance(v, Cell) or isinstance(v, Ptr):
        return value_view(v, val)
    if isinstance(v, AnyV):
        if not v.t.endswith("One<cqasm::v3x::values::ValueBase>"):
            return ("any of %s" % v.t,)
        return value_view(v.cell, val)
    return ("?", repr(v))


class V3:
    """Prepares analyzers by interpreting their construction and registration once."""
    SEMA = "cqasm::v3x::analyzer::SemanticAnalyzer"

    def __init__(self, C, stubs=None):
        self.C = C
        self.proto = {}
        self.stubs = stubs

    def prepare(self, name, build):
        if name not in self.proto:
            I = self.C.interp(self.stubs)
            ps = list(I.explore(build))
            if len(ps) != 1 or ps[0].kind != "return":
                if ps and all(p.kind in ("throw", "ub") for p in ps):
                    raise Violated("no %s can be made" % name, ps[0].where, "making %s ends in %s %s" % (name, ps[0].kind, ps[0].what or ps[0].value))
                raise Broken("preparing %s: %s" % (name, "; ".join("%s %s at %s" % (p.kind, p.what or p.value, p.where) for p in ps[:3])))
            self.C.functions |= I.functions_seen
            self.proto[name] = (ps[0].value, dict(I.globals), dict(I.statics))
        return self.proto[name]

    def fresh(self, I, name, build):
        v, g, s = self.prepare(name, build)
        memo = {}
        out = deep(v, memo)
        for k, c in g.items():
            I.globals.setdefault(k, deep(c, memo))
        for k, c in s.items():
            I.statics.setdefault(k, deep(c, memo))
        return out

    def build_analyzer(self, I, constants=True, functions=True, instructions=True):
        C = self.C
        ctor = C.function(ANA + "::Analyzer", 1, lambda f: "inits" in f and "Version" in f["params"][0]["t"])
        v = Obj("cqasm::version::Version")
        v.f["$base"] = Cell(Vec([3, 0]))
        a = Cell(I.construct_ctor(ctor, ANA, [Cell(v)]))
        for on, m in ((constants, "register_default_constants"), (functions, "register_default_functions"), (instructions, "register_default_instructions")):
            if on:
                I.call_fn(C.function(ANA + "::" + m), [], a)
        return a

    def analyzer(self, I):
        def build(J):
            a = self.build_analyzer(J)
            gi = [f for f in self.C.functions_named("cqasm::v3x::instruction::InstructionSet::get_instance")]
            if gi:
                J.call_fn(gi[0], [])
            return a
        return self.fresh(I, "analyzer", build)

    def bare(self, I):
        return self.fresh(I, "bare", lambda J: self.build_analyzer(J, False, False, False))

    def sema(self, I, a=None):
        a = a or self.analyzer(I)
        ctor = self.C.function(self.SEMA + "::SemanticAnalyzer", 1, lambda f: "inits" in f and "Analyzer" in f["params"][0]["t"])
        return Cell(I.construct_ctor(ctor, self.SEMA, [a]))

    def expr(self, I, mk, a=None):
        """Visits the expression built by mk; the std::any it yields."""
        s = self.sema(I, a)
        f = self.C.function(self.SEMA + "::visit_expression", 1)
        return I.rv(I.call_fn(f, [mk(B(I)).c], s))

    def analyze(self, I, program, a=None):
        """Runs Analyzer::analyze(Program&); returns the AnalysisResult object."""
        a = a or self.analyzer(I)
        f = self.C.function(ANA + "::analyze", 1, lambda f: "Program" in f["params"][0]["t"])
        return I.rv(I.call_fn(f, [program.c], a))


# ------------------------------------------------------------------------------------------------- syntactic trees
class B:
    """Builds syntactic trees; every node gets a source location of its own (line counts up)."""

    def __init__(self, I, locate=True):
        self.I, self.line, self.locate = I, 0, locate

    def node(self, cls, **fields):
        o = models.make_node(self.I, (cls if "::" in cls else SYN + cls), [])
        for k, v in fields.items():
            if k not in o.f:
                raise Broken("node %s has no field %s" % (cls, k))
            o.f[k] = Cell(self.val(v, o.f[k].v))
        if self.locate:
            self.line += 1
            o.ann[SL] = Cell(loc_obj(Str.lit("in.cq"), self.line, 1, self.line, 9))
        o.line = self.line
        return Ptr(Cell(o), "tree")

    def val(self, v, old):
        if isinstance(v, (list, tuple)):
            return Vec([Cell(x) for x in v], old.kind if isinstance(old, Vec) else "any")
        if v is None:
            return Ptr(None, "tree")
        if isinstance(v, (str, bytes)):
            return Str.lit(v if isinstance(v, str) else v.decode("latin-1"))
        if isinstance(v, Var):
            return Fn.of(v)
        return v

    # expressions
    def ident(self, n):
        return self.node("Identifier", name=n)

    def kw(self, n):
        return self.node("Keyword", name=n)

    def int(self, v):
        return self.node("IntegerLiteral", value=v)

    def float(self, v):
        return self.node("FloatLiteral", value=v)

    def bool(self, v):
        return self.node("BooleanLiteral", value=v)

    def lit(self, v):
        if isinstance(v, Ptr):
            return v
        d = v.dom[0] if isinstance(v, Var) else v
        return self.bool(v) if isinstance(d, bool) else self.int(v) if isinstance(d, int) else self.float(v) if isinstance(d, float) else self.ident(d)

    def un(self, cls, e):
        return self.node(cls, expr=self.lit(e))

    def bin(self, cls, a, b):
        a = self.lit(a)
        return self.node(cls, lhs=a, rhs=self.lit(b))

    def tern(self, c, a, b):
        return self.node("TernaryConditionalExpression", cond=self.lit(c), if_true=self.lit(a), if_false=self.lit(b))

    def call(self, name, *args, none=False):
        return self.node("FunctionCall", name=self.ident(name), arguments=None if none else self.elist(args))

    def elist(self, items):
        return self.node("ExpressionList", items=[self.lit(x) for x in items])

    def item(self, e):
        return self.node("IndexItem", index=self.lit(e))

    def range(self, a, b):
        return self.node("IndexRange", first=self.lit(a), last=self.lit(b))

    def index(self, name, *entries):
        es = [self.range(*e) if isinstance(e, tuple) else self.item(e) for e in entries]
        return self.node("Index", expr=self.lit(name), indices=self.node("IndexList", items=es))

    # statements
    def var(self, ty, name, size=None, annotations=()):
        return self.node("Variable", name=self.ident(name), typ=self.node("Type", name=self.kw(ty), size=None if size is None else self.int(size)),
                         annotations=list(annotations))

    def gate(self, name, params=(), inner=None, annotations=()):
        return self.node("Gate", name=self.ident(name), gate=inner, parameters=self.elist(params), annotations=list(annotations))

    def ginst(self, gate, *operands, annotations=()):
        return self.node("GateInstruction", gate=gate if isinstance(gate, Ptr) else self.gate(gate), operands=self.elist(operands),
                         annotations=list(annotations))

    def ng(self, name, operands, params=(), annotations=()):
        return self.node("NonGateInstruction", name=self.kw(name), operands=self.elist(operands), parameters=self.elist(params), annotations=list(annotations))

    def asm(self, name, code, annotations=()):
        return self.node("AsmDeclaration", backend_name=self.ident(name), backend_code=code, annotations=list(annotations))

    def version(self, items=(3, 0)):
        v = Obj("cqasm::version::Version")
        v.f["$base"] = Cell(Vec([Cell(Fn.of(x) if isinstance(x, Var) else x) for x in items]))
        return self.node("Version", items=v)

    def program(self, *stmts, version=(3, 0)):
        return self.node("Program", version=self.version(version), block=self.node("GlobalBlock", statements=list(stmts)))


# ----------------------------------------------------------------------------------------------------------- views
def where_of(o, val):
    c = o.ann.get(SL)
    if c is None:
        return None
    r = c.v.f["range"].v
    g = lambda p, q: at(r.f[p].v.f[q].v, val)
    return (g("first", "line"), g("first", "column"), g("last", "line"), g("last", "column"))


def deref(x):
    while isinstance(x, (Cell, Ptr)):
        x = x.v if isinstance(x, Cell) else x.c
        if x is None:
            return None
    return x


def txt(v, val):
    from absint import conc
    b = conc(v, val)
    return b.decode("latin-1") if isinstance(b, bytes) else b


def value_view(v, val):
    """A value as a tuple: ('int', 3), ('var', name), ('index', name, [i...])."""
    o = deref(v)
    if o is None:
        return None
    k = o.cls.split("::")[-1]
    if k in ("ConstBool", "ConstInt", "ConstFloat"):
        x = o.f["value"].v
        x = at(x, val) if isinstance(x, Fn) else x
        return (k[5:].lower(), x)
    if k == "VariableRef":
        return ("var", txt(deref(o.f["variable"]).f["name"], val))
    if k == "IndexRef":
        return ("index", txt(deref(o.f["variable"]).f["name"], val), tuple(value_view(c, val)[1] for c in o.f["indices"].v.items))
    return (k,)


def type_view(t, val):
    o = deref(t)
    s = o.f["size"].v
    return (o.cls.split("::")[-1], at(s, val) if isinstance(s, Fn) else s)


def gate_view(g, val):
    o = deref(g)
    if o is None:
        return None
    return (txt(o.f["name"], val), tuple(value_view(c, val) for c in o.f["parameters"].v.items), gate_view(o.f["gate"], val))


def ref_view(r, val):
    o = deref(r)
    if o is not None and o.cls.endswith("InstructionRef"):
        o = deref(o.f.get("$base") or next(iter(o.f.values())))
    if o is None:
        return None
    return (txt(o.f["name"], val), tuple(type_view(c, val)[0] for c in o.f["operand_types"].v.items))


def stmt_view(s, val):
    o = deref(s)
    k = o.cls.split("::")[-1]
    if k == "GateInstruction":
        return ("gate", ref_view(o.f["instruction_ref"], val), gate_view(o.f["gate"], val), tuple(value_view(c, val) for c in o.f["operands"].v.items))
    if k == "NonGateInstruction":
        return ("nongate", ref_view(o.f["instruction_ref"], val), txt(o.f["name"], val), tuple(value_view(c, val) for c in o.f["operands"].v.items),
                tuple(value_view(c, val) for c in o.f["parameters"].v.items))
    if k == "AsmDeclaration":
        return ("asm", txt(o.f["backend_name"], val), txt(o.f["backend_code"], val))
    return (k,)


def errors_view(errs, val, text=True):
    out = []
    for c in errs.items:
        o = deref(c)
        m = o.f.get("message_") or o.f.get("message")
        loc = o.f.get("location_")
        l = None
        lo = deref(loc) if loc is not None else None
        if lo is not None:
            r = lo.f["range"].v
            g = lambda p, q: at(r.f[p].v.f[q].v, val)
            l = (g("first", "line"), g("first", "column"), g("last", "line"), g("last", "column"))
        out.append((txt(m, val) if m is not None else None, l))
    return out


def result_view(r, val):
    """AnalysisResult as a dict: errors, statements, variables, version."""
    from absint import conc
    d = {"errors": errors_view(r.f["errors"].v, val)}
    root = deref(r.f["root"])
    if root is not None:
        blk = deref(root.f["block"])
        d["statements"] = [stmt_view(c, val) for c in blk.f["statements"].v.items] if blk is not None else None
        d["variables"] = [(txt(deref(c).f["name"], val), type_view(deref(c).f["typ"], val)) for c in root.f["variables"].v.items]
        ver = deref(root.f["version"])
        d["version"] = conc(ver.f["items"], val)["$base"] if ver is not None else None
        d["api_version"] = conc(root.f["api_version"], val)["$base"]
    return d


# ------------------------------------------------------------------------------------------------------ bulk programs
class Bulk:
    """Many statements analysed as one program; every statement owns the source lines of its nodes."""

    def __init__(self, C, V, rule, f, decls=(), prefix=None):
        self.C, self.V, self.rule, self.f, self.decls, self.prefix = C, V, rule, f, decls, prefix
        self.cases = []

    def add(self, label, build, want):
        """want: None (must be refused) | view of the statement it must become | callable(view or None, errors) -> bool"""
        self.cases.append((label, build, want))

    def run(self, chunk=120):
        for k in range(0, len(self.cases), chunk):
            self.run_chunk(self.cases[k:k + chunk])
        self.cases = []

    def run_chunk(self, cases):
        C = self.C
        info = {}

        def body(I):
            I.MAX_STEPS = 6_000_000
            b = B(I)
            st = [d(b) for d in self.decls]
            lines = []
            for label, build, want in cases:
                lo = b.line
                n = build(b)
                lines.append((lo + 1, b.line))
                st.append(n)
            info["lines"] = lines
            return self.V.analyze(I, b.program(*st))
        I = C.interp(self.V.stubs)
        ps = list(I.explore(body, budget=400.0))
        C.functions |= I.functions_seen
        C.paths += len(ps)
        where = (self.f["file"], self.f["line"], self.f["n"])
        for p in ps:
            val = {}
            if p.kind == "undecided" and len(cases) > 1:
                # isolate the construct that is outside the model
                m = (len(cases) + 1) // 2
                self.run_chunk(cases[:m])
                self.run_chunk(cases[m:])
                continue
            if p.kind == "undecided":
                C.undec(self.rule, cases[0][0], p.what)
                continue
            if p.kind != "return":
                if len(cases) > 1:
                    m = (len(cases) + 1) // 2
                    before = len(C.violations)
                    self.run_chunk(cases[:m])
                    self.run_chunk(cases[m:])
                    if len(C.violations) == before:
                        C.fail(self.rule, cases[0][0], p.where or where, "analysing a program of %d statements, %s to %s, ends with %s" % (
                            len(cases), cases[0][0], cases[-1][0], p.what or p.value))
                else:
                    C.fail(self.rule, cases[0][0], p.where or where, "analysing the statement ends with %s" % (p.what or p.value))
                continue
            r = p.value
            if deref(r.f["root"]) is None or deref(deref(r.f["root"]).f["block"]) is None:
                C.fail(self.rule, cases[0][0], where, "analysing a program of %d statements yields no block" % len(cases))
                continue
            errs = errors_view(r.f["errors"].v, val)
            by_line, stray = {}, []
            blk = deref(deref(r.f["root"]).f["block"])
            sts = [(stmt_view(c, val), where_of(deref(c), val)) for c in blk.f["statements"].v.items]
            got = [[[], []] for _ in cases]

            def owner(loc):
                if loc is None:
                    return None
                for i, (a, z) in enumerate(info["lines"]):
                    if a <= loc[0] <= z:
                        return i
                return None
            order = []
            for v, loc in sts:
                i = owner(loc)
                if i is None or loc[0] != info["lines"][i][1]:
                    stray.append("statement %s located at %s" % (v, loc))
                else:
                    got[i][0].append(v)
                    order.append(i)
            for m, loc in errs:
                i = owner(loc)
                if i is None:
                    stray.append("error %r located at %s" % (m, loc))
                else:
                    got[i][1].append(m)
            if order != sorted(order):
                stray.append("the statements are out of order")
            for s in stray[:3]:
                C.fail(self.rule, "place", where, s + " (in a program with %s)" % cases[0][0])
            n = 0
            for (label, build, want), (vs, es) in zip(cases, got):
                if callable(want):
                    good = want(vs, es)
                elif want is None:
                    good = not vs and len(es) == 1
                else:
                    good = vs == [want] and not es
                if good:
                    n += 1
                else:
                    C.fail(self.rule, label, where, "gives %s and the errors %s, required %s" % (
                        vs, es, "one error and no statement" if want is None else want if not callable(want) else "otherwise"))
            if n:
                C.ok(self.rule, n, cases[0][0])
