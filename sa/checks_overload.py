"""P09 overload resolution, P12 types and values, P13 instruction set."""
import itertools
import math
import os

import front
from absint import Atom, CppThrow, CStr
from harness import *
import models
from checks_semantic import (AERR, BOOLS, FLOATS, INTS, KIND, MAX, MIN, MODS, NON_GATES, ONE_Q, TWO_Q, const_value, conv, is_analysis_error, promotes, refused, same_float)
from v3x import *

TYPES = {"Q": "Qubit", "B": "Bit", "b": "Bool", "i": "Int", "f": "Float", "V": "QubitArray", "W": "BitArray"}
ELEM = {"V": "Q", "W": "B"}


def type_node(I, t, size=None):
    return Ptr(Cell(models.make_node(I, TYP + TYPES[t], [] if size is None else [size])), "tree")


def variable(I, t, size=None, name="v"):
    o = models.make_node(I, SEM + "Variable", [])
    o.f["name"] = Cell(Str.lit(name))
    o.f["typ"] = Cell(type_node(I, t, size))
    return Ptr(Cell(o), "tree")


def var_ref(I, t, size=None, v=None):
    o = models.make_node(I, VAL + "VariableRef", [])
    v = v or variable(I, t, size)
    o.f["variable"] = Cell(Ptr(v.c, "link"))
    return Ptr(Cell(o), "tree"), v


def index_ref(I, t, idx, size=5, v=None):
    o = models.make_node(I, VAL + "IndexRef", [])
    v = v or variable(I, t, size)
    o.f["variable"] = Cell(Ptr(v.c, "link"))
    o.f["indices"] = Cell(Vec([Cell(const_value(I, "i", i)) for i in idx], "any"))
    return Ptr(Cell(o), "tree"), v


# argument: ("c", type, Var or value) | ("v", type) | ("x", array type, n)
def arg_node(I, a):
    if a[0] == "c":
        return const_value(I, a[1], a[2])
    if a[0] == "v":
        return var_ref(I, a[1], 3 if a[1] in "VW" else 1)[0]
    return index_ref(I, a[1], range(a[2]))[0]


def arg_type(a):
    return a[1] if a[0] in "cv" else ELEM[a[1]] if a[2] == 1 else a[1]


def arg_promotes(a, p):
    """True/False; None: unspecified (variables of a classical type, which the language does not have)."""
    t = arg_type(a)
    if t == p:
        return True
    if t in "bif" and p in "bif":
        return promotes(t, p) if a[0] == "c" else None
    return False


def arg_view(a, p, env):
    if a[0] == "c":
        x = env[a[2]] if isinstance(a[2], Var) else a[2]
        return (KIND[p], conv(x, p))
    if a[0] == "v":
        return ("var", "v")
    return ("index", "v", tuple(range(a[2])))


def view_eq(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is None or x[0] != y[0]:
            return False
        if x[0] == "float":
            if not isinstance(x[1], float) or not same_float(x[1], y[1]):
                return False
        elif x != y or type(x[1]) is not type(y[1]):
            return False
    return True


PROBE09 = os.path.join(front.PROBES, "copies.cpp")
HOW = ["copied", "moved", "assigned", "move-assigned", "assigned to itself"]


def p09(C):
    C.load(front.source_units() + [PROBE09])
    V = V3(C)
    reg = C.functions_named(ANA + "::register_instruction", 2)[0]
    res = C.function(ANA + "::resolve_instruction", 2)
    res3 = C.function(ANA + "::resolve_instruction", 3)
    ov = [f for f in C.prog.functions.values() if f["sn"] == "cqasm::overload::OverloadResolver::resolve"]
    where = ov[0] if ov else res
    C.rule("applicable", "an overload is chosen only if the number of arguments is its own and each argument is of, or promotes to, its parameter's type")
    C.rule("last wins", "of several applicable overloads the one added last is chosen")
    C.rule("promoted", "the arguments come back in order, converted to the types of the chosen overload and otherwise unchanged")
    C.rule("names", "resolution by name is case-sensitive and sees exactly the overloads added under that name; failures are reported as errors")
    C.rule("scopes", "inner scopes hide outer ones for variables, and their end restores the outer meaning")

    def body_of(overloads, name, args, gate=False, order=None):
        def body(I):
            a = V.bare(I)
            for n, sp in overloads:
                I.call_fn(reg, [Cell(Str.lit(n)), Cell(OptV(True, Cell(Str.lit(sp))))], a)
            vec = Cell(Vec([Cell(arg_node(I, x)) for x in args], "any"))
            if gate:
                g = Ptr(Cell(models.make_node(I, SEM + "Gate", [])), "tree")
                g.c.v.f["name"] = Cell(Str.lit("g"))
                return I.call_fn(res3, [Cell(Str.lit(name)), Cell(g), vec], a)
            return I.call_fn(res, [Cell(Str.lit(name)), vec], a)
        return body

    def view(v, val):
        o = deref(v)
        return (ref_view(o.f["instruction_ref"], val)[0], ref_view(o.f["instruction_ref"], val)[1], tuple(value_view(c, val) for c in o.f["operands"].v.items))

    def want_of(overloads, name, args):
        def want(env):
            for n, sp in reversed(overloads):
                if n != name or len(sp) != len(args):
                    continue
                ok = [arg_promotes(a, p) for a, p in zip(args, sp)]
                if None in ok and False not in ok:
                    return None
                if all(ok):
                    exp = tuple(arg_view(a, p, env) for a, p in zip(args, sp))
                    return lambda got: got[0] == "return" and got[1][0] == n and got[1][1] == tuple(TYPES[p] for p in sp) and view_eq(got[1][2], exp)
            return refused(C)
        return want

    def run(rule, overloads, name, args, **k):
        vs = [a[2] for a in args if a[0] == "c" and isinstance(a[2], Var)]
        C.verify(rule, "%s(%s) with overloads %s" % (name, ", ".join("%s%s" % (x[0], x[1]) for x in args), " ".join("%s(%s)" % o for o in overloads)),
                 body_of(overloads, name, args, **k), want_of(overloads, name, args), vars=vs, f=where, view=view)
    cv = {"b": BOOLS, "i": [MIN, -1, 0, 1, 1 << 53, MAX], "f": [-0.0, 0.5, 1e300, math.inf, math.nan]}
    mk = lambda t, n: ("c", t, Var(n, cv[t]))
    allargs = [mk(t, "x") for t in "bif"] + [("v", t) for t in TYPES] + [("x", t, n) for t in "VW" for n in (1, 2)]
    for t in TYPES:
        for a in allargs:
            run("applicable", [("f", t)], "f", [a])
    for sp in ("", "i", "if", "Qif"):
        for n in range(5):
            args = [("v", "Q"), mk("b", "x1"), mk("i", "x2"), mk("f", "x3")]
            base = args[:0] if not sp else [("v", "Q") if c == "Q" else mk("b", "y%d" % k) for k, c in enumerate(sp)]
            for cand in (args[:n], base[:n], base + [mk("b", "z")] * 0 + args[:max(0, n - len(base))]):
                run("applicable", [("f", sp)], "f", cand)
    for sp in itertools.product("QVbif", repeat=2):
        for ar in itertools.product([("v", "Q"), ("v", "V"), mk("b", "x"), mk("i", "x"), mk("f", "x")], repeat=2):
            ar = [a if a[0] != "c" else ("c", a[1], Var("x%d" % k, cv[a[1]])) for k, a in enumerate(ar)]
            run("promoted", [("f", "".join(sp))], "f", ar)
    specs = ["b", "i", "f", "Q", "V", "ii", "ff", "fi", "if", ""]
    lists = [l for k in (2, 3) for l in itertools.permutations(specs if k == 2 or C.thorough else specs[:3] + ["ii", "ff"], k)]
    for l in lists:
        for ts in ("b", "i", "f", "bb", "bi", "ii", "if", "ff", "") if C.thorough else ("b", "i", "bi", "ii") if len(l) == 2 else ("b", "bi"):
            run("last wins", [("f", s) for s in l], "f", [mk(t, "x%d" % k) for k, t in enumerate(ts)], gate=len(l) == 2)
    # overloads of one arity: one that is tried first may fail at any of its parameters
    two = ["".join(p) for p in itertools.product("bif", repeat=2)]
    for l in itertools.permutations(two, 2):
        for ts in two if C.thorough else ("bb", "bi", "ib", "bf", "fb", "ii"):
            run("last wins", [("f", s) for s in l], "f", [mk(t, "x%d" % k) for k, t in enumerate(ts)])
    for l in itertools.permutations(["bbf", "bff", "fbb", "fff", "ibb", "iii", "Qbb", "bQb", "bbQ"], 2):
        for ts in ("bbb", "bib", "ibi", "iii", "bbi"):
            run("last wins", [("f", s) for s in l], "f", [mk(t, "x%d" % k) for k, t in enumerate(ts)])
    for l in itertools.permutations(["fi", "if", "ff", "bi", "ii"], 3):
        for ts in ("bb", "bi", "ib"):
            run("last wins", [("f", s) for s in l], "f", [mk(t, "x%d" % k) for k, t in enumerate(ts)])
    for k in (3, 4):    # different numbers of parameters, in every order
        for l in itertools.permutations(["", "i", "ii", "iii", "f"], k):
            for ts in ("", "b", "bb", "bbb"):
                run("last wins", [("f", s) for s in l], "f", [mk(t, "x%d" % j) for j, t in enumerate(ts)], gate=k == 3)
    for l in itertools.permutations(["Q", "V", "i"], 3):
        for a in (("v", "Q"), ("v", "V"), ("x", "V", 1), ("x", "V", 2)):
            run("last wins", [("f", s) for s in l], "f", [a])
    for n in C.sizes(3, 300):
        for gate in (False, True):
            run("last wins", [("f", "i")] + [("f", "Q")] * (n - 1), "f", [mk("b", "x")], gate=gate)
            run("last wins", [("g", "i")] * (n - 2) + [("f", "f"), ("f", "i")], "f", [mk("b", "x")], gate=gate)
            run("last wins", [("n%d" % k, "i") for k in range(n - 1)] + [("f", "i")], "f", [mk("b", "x")], gate=gate)
        for k in sorted({1, n // 2, n - 2, n - 1}):
            run("last wins", [("f", "Q")] * k + [("f", "i")] + [("f", "Q")] * (n - 1 - k), "f", [mk("b", "x")])
            run("last wins", [("f", "i")] * k + [("f", "f")] + [("f", "Q")] * (n - 1 - k), "f", [mk("b", "x")])
        run("promoted", [("f", "i" * n)], "f", [("c", "b", k % 2 == 0) for k in range(n)])
        run("applicable", [("f", "i" * (n - 1) + "Q")], "f", [("c", "b", True)] * n)
        run("applicable", [("f", "i" * n)], "f", [("c", "b", True)] * (n - 1))
    for n in ("f", "F", "g", "ff", ""):
        for gate in (False, True):
            for l in ([], [("f", "i")], [("f", "i"), ("g", "f")], [("F", "f"), ("f", "i")], [("f", "i"), ("g", "i"), ("f", "b")]):
                for t in "bif":
                    run("names", l, n, [mk(t, "x")], gate=gate)
    for n in C.sizes(2, 5000):
        long = "x" * (n - 1)
        for gate in (False, True):
            run("names", [(long + "a", "i"), (long + "b", "f")], long + "a", [mk("i", "x")], gate=gate)
            run("names", [(long + "b", "i")], long + "a", [mk("i", "x")], gate=gate)
            run("names", [(long + "a", "i")], long, [mk("i", "x")], gate=gate)
    # scopes
    push, pop = C.function(ANA + "::push_scope"), C.function(ANA + "::pop_scope")
    rv, rs = C.functions_named(ANA + "::register_variable", 2)[0], C.function(ANA + "::resolve_variable", 1)
    ops = [("push",), ("pop",), ("reg", "a"), ("reg", "b")]

    def sim(seq):
        st, out = [{}], []
        for k, o in enumerate(seq):
            if o[0] == "push":
                st.append({})
            elif o[0] == "pop":
                if len(st) == 1:
                    return None
                st.pop()
            elif o[1] in st[-1]:
                out.append(("dup", k))
            else:
                st[-1][o[1]] = k
        return out, tuple(next((s[n] for s in reversed(st) if n in s), None) for n in ("a", "b", "A"))
    for seq in (s for k in range(5 if not C.thorough else 6) for s in itertools.product(ops, repeat=k)):
        e = sim(seq)
        if e is None:
            continue

        def body(I):
            a = V.bare(I)
            dups = []
            for k, o in enumerate(seq):
                if o[0] == "push":
                    I.call_fn(push, [], a)
                elif o[0] == "pop":
                    I.call_fn(pop, [], a)
                else:
                    try:
                        I.call_fn(rv, [Cell(Str.lit(o[1])), Cell(const_value(I, "i", k))], a)
                    except CppThrow as t:
                        if not is_analysis_error(C, t.v.cls if hasattr(t, "v") else t.obj.cls):
                            raise
                        dups.append(("dup", k))
            out = []
            for n in ("a", "b", "A"):
                try:
                    out.append(value_view(I.call_fn(rs, [Cell(Str.lit(n))], a), {})[1])
                except CppThrow:
                    out.append(None)
            return dups, tuple(out)
        C.verify("scopes", " ".join("-".join(o) for o in seq) or "nothing", body, lambda env: ("return", e), f=rs, view=lambda v, val: v)
    layers(C, V, reg, res, res3)
    spelled(C, V, reg, res)
    copies(C, V, reg, res)
    return "other", "Resolution of calls against every small table of overloads and every kind of argument, by abstract interpretation; constants range over values."


def layers(C, V, reg, res, res3):
    """Overloads registered in scopes around one another: all of them count, those added last first, and a scope's end takes its instructions along."""
    C.rule("layers", "instructions and functions of the scopes around the current one stay applicable; of several applicable ones the one added last is chosen, and the "
                     "instructions of a scope end with it")
    push, pop = C.function(ANA + "::push_scope"), C.function(ANA + "::pop_scope")
    regf = C.function("probe_copies::register_function", 4)
    regt = C.function("probe_copies::register_function_of", 4)
    resf = C.function(ANA + "::resolve_function", 2)
    calls = [("m", "b"), ("m", "i"), ("m", "f"), ("n", "i")]
    ops = [("push",), ("pop",), ("m", "f"), ("m", "i"), ("n", "i")]
    fits = lambda t, p: t == p or promotes(t, p)

    def best(table, c, t):
        return next((k for n, p, k in reversed(table) if n == c and fits(t, p)), None)

    def sim(seq, function):
        st, out, inner = [[]], [], False
        for k, o in enumerate(seq):
            if o[0] == "push":
                st.append([])
            elif o[0] == "pop":
                if len(st) == 1 or function and inner:
                    return None                # (whether a function outlives the scope it was registered in is not specified)
                st.pop()
            else:
                inner = inner or len(st) > 1
                st[-1].append((o[0], o[1], k))
        return [best([x for s in st for x in s], c, t) for c, t in calls]
    value = {"b": True, "i": 1, "f": 0.5}
    for seq in (s for k in range(1, 5 if not C.thorough else 6) for s in itertools.product(ops, repeat=k)):
        for how in ("instruction", "gate", "function", "typed function"):
            func = how.endswith("function")
            e = sim(seq, func)
            if e is None or not any(o[0] in "mn" for o in seq):
                continue

            def body(I):
                a = V.bare(I)
                for k, o in enumerate(seq):
                    if o[0] == "push":
                        I.call_fn(push, [], a)
                    elif o[0] == "pop":
                        I.call_fn(pop, [], a)
                    elif how == "typed function":
                        I.call_fn(regt, [a, Cell(Str.lit(o[0])), Cell(Vec([Cell(type_node(I, o[1]))], "any")), Cell(k)])
                    elif how == "function":
                        I.call_fn(regf, [a, Cell(Str.lit(o[0])), Cell(Str.lit(o[1])), Cell(k)])
                    else:
                        I.call_fn(reg, [Cell(Str.lit(o[0])), Cell(OptV(True, Cell(Str.lit(o[1]))))], a)
                out = []
                for c, t in calls:
                    vec = Cell(Vec([Cell(const_value(I, t, value[t]))], "any"))
                    try:
                        if func:
                            out.append(value_view(I.rv(I.call_fn(resf, [Cell(Str.lit(c)), vec], a)), {})[1])
                        else:
                            g = Ptr(Cell(models.make_node(I, SEM + "Gate", [])), "tree")
                            g.c.v.f["name"] = Cell(Str.lit("g"))
                            o = deref(I.rv(I.call_fn(res, [Cell(Str.lit(c)), vec], a) if how == "instruction" else I.call_fn(res3, [Cell(Str.lit(c)), Cell(g), vec], a)))
                            out.append("".join(k for y in ref_view(o.f["instruction_ref"], {})[1] for k in TYPES if TYPES[k] == y))
                    except CppThrow as x:
                        if not is_analysis_error(C, x.obj.cls):
                            raise
                        out.append(None)
                return out
            w = e if func else [None if k is None else seq[k][1] for k in e]
            C.verify("layers", "%ss: %s" % (how, " ".join("-".join(o) for o in seq)), body, lambda env: ("return", w), f=resf if func else res, view=lambda v, val: v)


def spelled(C, V, reg, res):
    """One instruction registered and one asked for, whose names differ in any letter, or by a letter at either end."""
    x, y = byte_var("x"), byte_var("y")
    for d, u in (([b"ab"], [b"ab", x]), ([b"ab", x], [b"ab"]), ([b"ab"], [x, b"ab"]), ([x, b"ab"], [b"ab"]), ([x], [y]), ([b"a", x], [b"a", y]), ([x, b"a"], [y, b"a"]), ([b"a", x, b"b"], [b"ab"]), ([], [x]), ([x], [])):
        def body(I):
            a = V.bare(I)
            I.call_fn(reg, [Cell(sval(d)), Cell(OptV(True, Cell(Str.lit("Q"))))], a)
            o = deref(I.rv(I.call_fn(res, [Cell(sval(u)), Cell(Vec([Cell(arg_node(I, ("v", "Q")))], "any"))], a)))
            return o.f["name"].v if "name" in o.f else Str.lit("?")

        def want(env):
            a, b = sbytes(d, env), sbytes(u, env)
            return (lambda got: got[0] == "return") if a == b else refused(C)
        C.verify("names", "%s registered, %s asked for" % tuple("".join("*" if isinstance(z, Var) else z.decode() for z in w) or "''" for w in (d, u)), body, want,
                 vars=[z for z in d + u if isinstance(z, Var)], f=res)


def copies(C, V, reg, res):
    """What is made of an overload, a table or an analyzer by copying or moving it answers like the original; copies are independent."""
    C.rule("copies", "an overload, table or analyzer that is copied, moved or assigned answers as its source did, and a copy is independent of its source")
    P = "probe_copies::"
    one = lambda n, k=None: C.function(P + n, k)
    of, om, tag, params, typ = one("overload", 2), one("overload_made", 3), one("tag_of", 1), one("params_of", 1), one("type_of", 2)
    lists = ["", "b", "Qi", "VWf"]
    for how in range(5):
        for a, b in itertools.product(lists, repeat=2):
            def body(I):
                mk = lambda t, ts: Cell(I.rv(I.call_fn(of, [Cell(Str.lit(t)), Cell(Vec([Cell(type_node(I, x, *([4] if x in "VW" else []))) for x in ts], "any"))])))
                x, y = mk("source", a), mk("target", b)
                z = Cell(I.rv(I.call_fn(om, [Cell(how), x, y])))
                n = I.rv(I.call_fn(params, [z]))
                n = n if isinstance(n, int) else int(conc(n, {}))
                return (I.rv(I.call_fn(tag, [z])), [I.rv(I.call_fn(typ, [z, Cell(i)])) for i in range(n)])
            C.verify("copies", "overload (%s) %s%s" % (a, HOW[how], " over (%s)" % b if how in (2, 3) else ""), body,
                     lambda env: ("return", (b"source", tuple(TYPES[t] for t in a))), f=of,
                     view=lambda v, val: (conc(v[0], val), tuple(deref(x).cls.split("::")[-1] for x in v[1])))
    # tables
    T = "cqasm::v3x::resolver::"
    new_f = C.function(T + "ConstEvalCoreFunctionTable::ConstEvalCoreFunctionTable", 0)
    res_f = C.function(T + "ConstEvalCoreFunctionTable::resolve", 2)
    add_f, made_f = one("add_function", 4), one("functions_made", 3)
    add_i, made_i = C.function(T + "InstructionTable::add", 1), one("instructions_made", 3)
    made_a = one("analyzer_made", 3)
    INS = "cqasm::v3x::instruction::Instruction"
    ctor_i = [f for f in C.functions_named(INS + "::Instruction", 2)]
    new_i = C.function(T + "InstructionTable::InstructionTable", 0)
    res_i = C.function(T + "InstructionTable::resolve", 2)
    calls = [("f", "Q"), ("f", "i"), ("g", "Q"), ("h", "V")]
    sets = [[], [("f", "Q")], [("g", "Q"), ("f", "Q"), ("f", "i")]]

    def answers(table):
        return tuple(next((sp for n, sp in reversed(table) if n == c and sp == t), None) for c, t in calls)

    def ask(I, fn, self_):
        out = []
        for c, t in calls:
            try:
                o = deref(I.rv(I.call_fn(fn, [Cell(Str.lit(c)), Cell(Vec([Cell(arg_node(I, ("v", t) if t in TYPES and t != "i" else ("c", "i", 1)))], "any"))], self_)))
                out.append("".join(k for y in ref_view(o.f["instruction_ref"], {})[1] for k in TYPES if TYPES[k] == y))
            except CppThrow:
                out.append(None)
        return tuple(out)
    for how in range(5):
        for a, b in itertools.product(sets, repeat=2):
            if how not in (2, 3) and b:
                continue

            def table(I, what):
                t = Cell(I.construct_ctor(new_i, T + "InstructionTable", []))
                for n, sp in what:
                    fill(I, t, n, sp)
                return t

            def fill(I, t, n, sp):
                o = I.construct_ctor(ctor_i[0], INS, [Cell(Str.lit(n)), Cell(OptV(True, Cell(Str.lit(sp))))])
                I.call_fn(add_i, [Cell(o)], t)

            def body(I):
                x, y = table(I, a), table(I, b)
                z = Cell(I.rv(I.call_fn(made_i, [Cell(how), x, y])))
                first = ask(I, res_i, z)
                fill(I, z, "h", "V")
                second = ask(I, res_i, z)
                return (first, second, ask(I, res_i, x) if how in (0, 2) else None)
            C.verify("copies", "instruction table {%s} %s%s" % (" ".join("%s(%s)" % t for t in a), HOW[how], " over {%s}" % " ".join("%s(%s)" % t for t in b) if b else ""), body,
                     lambda env: ("return", (answers(a), answers(a + [("h", "V")]), answers(a) if how in (0, 2) else None)), f=add_i, view=lambda v, val: v)

            def fbody(I):
                def mk(what):
                    t = Cell(I.construct_ctor(new_f, T + "ConstEvalCoreFunctionTable", []))
                    for k, (nm, sp) in enumerate(what):
                        add(I, t, nm, sp, 10 + k)
                    return t

                def add(I, t, nm, sp, k):
                    I.call_fn(add_f, [t, Cell(Str.lit(nm)), Cell(Vec([Cell(type_node(I, x, *([3] if x in "VW" else []))) for x in sp], "any")), Cell(k)])

                def ask_f(I, t):
                    out = []
                    for c, ty in calls:
                        try:
                            arg = arg_node(I, ("v", ty) if ty != "i" else ("c", "i", 1))
                            out.append(value_view(I.call_fn(res_f, [Cell(Str.lit(c)), Cell(Vec([Cell(arg)], "any"))], t), {})[1])
                        except CppThrow:
                            out.append(None)
                    return tuple(out)
                x, y = mk(a), mk(b)
                z = Cell(I.rv(I.call_fn(made_f, [Cell(how), x, y])))
                first = ask_f(I, z)
                add(I, z, "h", "V", 99)
                return (first, ask_f(I, z), ask_f(I, x) if how in (0, 2) else None)

            def fanswers(table):
                return tuple(next((k for n, sp, k in reversed(table) if n == c and sp == t), None) for c, t in calls)
            ta = [(n, sp, 10 + k) for k, (n, sp) in enumerate(a)]
            C.verify("copies", "function table {%s} %s%s" % (" ".join("%s(%s)" % t for t in a), HOW[how], " over {%s}" % " ".join("%s(%s)" % t for t in b) if b else ""), fbody,
                     lambda env: ("return", (fanswers(ta), fanswers(ta + [("h", "V", 99)]), fanswers(ta) if how in (0, 2) else None)), f=res_f, view=lambda v, val: v)

            def abody(I):
                def mk(what):
                    n = V.bare(I)
                    for nm, sp in what:
                        I.call_fn(reg, [Cell(Str.lit(nm)), Cell(OptV(True, Cell(Str.lit(sp))))], n)
                    return n
                x, y = mk(a), mk(b)
                z = Cell(I.rv(I.call_fn(made_a, [Cell(how), x, y])))
                first = ask(I, res, z)
                I.call_fn(reg, [Cell(Str.lit("h")), Cell(OptV(True, Cell(Str.lit("V"))))], z)
                return (first, ask(I, res, z), ask(I, res, x) if how in (0, 2) else None)
            C.verify("copies", "analyzer of {%s} %s%s" % (" ".join("%s(%s)" % t for t in a), HOW[how], " over {%s}" % " ".join("%s(%s)" % t for t in b) if b else ""), abody,
                     lambda env: ("return", (answers(a), answers(a + [("h", "V")]), answers(a) if how in (0, 2) else None)), f=reg, view=lambda v, val: v)


# ------------------------------------------------------------------------------------------------------------ P12 types
def p12(C):
    C.load()
    V = V3(C)
    C.rule("specifier", "each type letter stands for its own type and any other is refused; a specifier lists its types in order")
    C.rule("check", "a type check holds exactly between types of the same kind")
    C.rule("size", "a value has as many elements as the variable or the index list it is made of; a constant has one")
    C.rule("type", "a constant is of its own type; a variable of its declared type; an index of one element is of the element type, of several of the array type")
    C.rule("promote", "exactly bool to int, bool to float and int to float are promoted, preserving the value and its location, and the type-level test agrees")
    C.rule("constant", "only constants pass where constants are required")
    C.rule("print", "every type prints as its keyword, or a name of its own; lists print in order")
    F = "cqasm::v3x::types::"
    tname = lambda v, val: deref(v).cls.split("::")[-1]
    f1 = C.function(F + "from_spec", 1, lambda f: "string" not in f["params"][0]["t"])
    f2 = C.function(F + "from_spec", 1, lambda f: "string" in f["params"][0]["t"])
    ch = byte_var("letter")
    sgn = lambda x: x - 256 if x > 127 else x
    C.verify("specifier", "a letter", lambda I: I.call_fn(f1, [Cell(I.conv_int(Fn.of(ch), "char"))]),
             lambda env: ("return", TYPES[chr(env[ch])]) if chr(env[ch]) in TYPES else ("throw",), vars=[ch], f=f1, view=tname)
    for sp in [""] + ["".join(p) for k in (1, 2, 3) for p in itertools.product("QBbifVW" if k < 3 else "QVi", repeat=k)]:
        C.verify("specifier", repr(sp), lambda I: I.call_fn(f2, [Cell(Str.lit(sp))]), lambda env: ("return", [TYPES[c] for c in sp]), f=f2,
                 view=lambda v, val: [tname(c, val) for c in v.items] if isinstance(v, Vec) else [tname(c, val) for c in v.v.items])
    for sp in ("Qx", "x", "qQ", " "):
        C.verify("specifier", repr(sp), lambda I: I.call_fn(f2, [Cell(Str.lit(sp))]), lambda env: ("throw",), f=f2)
    tc = C.function(F + "type_check", 2)
    for a, b in itertools.product(TYPES, repeat=2):
        C.verify("check", "%s against %s" % (a, b), lambda I: I.call_fn(tc, [Cell(type_node(I, a, 2)), Cell(type_node(I, b, 3))]), lambda env: ("return", a == b), f=tc)
    N = order_var("size", [0, 1, 2, 3, MAX], 0, MAX)
    ts = C.function(F + "size_of", 1)
    for t in TYPES:
        C.verify("size", "type %s" % t, lambda I: I.call_fn(ts, [Cell(type_node(I, t, Fn.of(N)))]), lambda env: ("return", env[N]), vars=[N], f=ts)
    G = "cqasm::v3x::values::"
    vs, vt, ve = C.function(G + "size_of", 1), C.function(G + "type_of", 1), C.function(G + "element_type_of", 1)
    vts = C.function(G + "types_of", 1)
    pr, cp = C.function(G + "promote", 2), C.function(G + "check_promote", 2)
    sized = lambda v, val: type_view(v, val)
    for t in "bif":
        C.verify("size", "constant %s" % t, lambda I: I.call_fn(vs, [Cell(const_value(I, t, 1))]), lambda env: ("return", 1), f=vs)
        C.verify("type", "constant %s" % t, lambda I: I.call_fn(vt, [Cell(const_value(I, t, 1))]), lambda env: ("return", TYPES[t]), f=vt, view=tname)
    for t in TYPES:
        C.verify("size", "variable %s" % t, lambda I: I.call_fn(vs, [Cell(var_ref(I, t, Fn.of(N))[0])]), lambda env: ("return", env[N]), vars=[N], f=vs)
        C.verify("type", "variable %s" % t, lambda I: I.call_fn(vt, [Cell(var_ref(I, t, Fn.of(N))[0])]), lambda env: ("return", (TYPES[t], env[N])), vars=[N], f=vt, view=sized)
        C.verify("type", "element of %s" % t, lambda I: I.call_fn(ve, [Cell(type_node(I, t, 3))]), lambda env: ("return", TYPES[ELEM[t]]) if t in ELEM else ("throw",), f=ve, view=tname)
    for t in "VW":
        for n in range(1, 5):
            C.verify("size", "%d indices of %s" % (n, t), lambda I: I.call_fn(vs, [Cell(index_ref(I, t, range(n), Fn.of(N))[0])]), lambda env: ("return", n), vars=[N], f=vs)
            C.verify("type", "%d indices of %s" % (n, t), lambda I: I.call_fn(vt, [Cell(index_ref(I, t, range(n), Fn.of(N))[0])]),
                     lambda env: ("return", TYPES[ELEM[t]] if n == 1 else TYPES[t]), vars=[N], f=vt, view=tname)
    args = [("c", t, 1) for t in "bif"] + [("v", t) for t in "QBVW"] + [("x", t, n) for t in "VW" for n in (1, 2)]
    for k in range(3):
        for l in itertools.product(args, repeat=k):
            C.verify("type", "types of %s" % (l,), lambda I: I.call_fn(vts, [Cell(Vec([Cell(arg_node(I, a)) for a in l], "any"))]),
                     lambda env: ("return", [TYPES[arg_type(a)] for a in l]), f=vts, view=lambda v, val: [tname(c, val) for c in (v.items if isinstance(v, Vec) else v.v.items)])
    from checks_semantic import DOM
    loc = lambda: loc_obj(Str.lit("f"), 4, 5, 6, 7)
    for t in "bif":
        for p in TYPES:
            x = Var("x", DOM[t])

            def body(I):
                v = const_value(I, t, x)
                deref(v).ann[SL] = Cell(loc())
                return I.call_fn(pr, [Cell(v), Cell(type_node(I, p, 1))])

            def want(env):
                if p not in "bif" or not promotes(t, p):
                    return ("return", None)
                w = conv(env[x], p)
                return lambda got: got[0] == "return" and got[1] is not None and got[1][0][0] == KIND[p] and got[1][1] == (4, 5, 6, 7) and \
                    (same_float(got[1][0][1], w) if p == "f" else got[1][0][1] == w)
            C.verify("promote", "constant %s to %s" % (t, p), body, want, vars=[x], f=pr,
                     view=lambda v, val: None if deref(v) is None else (value_view(v, val), where_of(deref(v), val)))
    for a in args[3:]:
        for p in TYPES:
            def body(I):
                v = arg_node(I, a)
                r = I.call_fn(pr, [Cell(v), Cell(type_node(I, p, 1))])
                return "same" if deref(r) is deref(v) else "empty" if deref(r) is None else "other"
            C.verify("promote", "%s to %s" % (a, p), body, lambda env: ("return", "same" if arg_type(a) == p else "empty"), f=pr, view=lambda v, val: v)
    for a, p in itertools.product(TYPES, repeat=2):
        C.verify("promote", "type %s to %s" % (a, p), lambda I: I.call_fn(cp, [Cell(type_node(I, a, 1)), Cell(type_node(I, p, 1))]),
                 lambda env: ("return", a == p or (a in "bif" and p in "bif" and promotes(a, p))), f=cp)
    c1 = C.function(G + "check_const", 1, lambda f: "Any" not in f["params"][0]["t"] and "Values" not in f["params"][0]["t"])
    c2 = [f for f in C.functions_named(G + "check_const", 1) if f is not c1][0]
    for a in args:
        C.verify("constant", "%s" % (a,), lambda I: (I.call_fn(c1, [Cell(arg_node(I, a))]), 0)[1], lambda env: ("return",) if a[0] == "c" else refused(C), f=c1)
    for k in range(4):
        for l in itertools.product([args[0], args[2], args[3], args[-1]], repeat=k):
            C.verify("constant", "%s" % (l,), lambda I: (I.call_fn(c2, [Cell(Vec([Cell(arg_node(I, a)) for a in l], "any"))]), 0)[1],
                     lambda env: ("return",) if all(a[0] == "c" for a in l) else refused(C), f=c2)
    po = C.function(F + "operator<<", 2, lambda f: "Any" not in f["params"][1]["t"] and "Types" not in f["params"][1]["t"])
    pl = [f for f in C.functions_named(F + "operator<<", 2) if f is not po]
    seen = {}

    def shown(I, f, v):
        st = Cell(Stream())
        I.call_fn(f, [st, Cell(v)])
        return st.v.buf
    for t in TYPES:
        def want(env):
            def ok(got):
                if got[0] != "return":
                    return False
                s = got[1]
                seen[t] = s
                return (s == TYPES[t].lower().encode() if "Array" not in TYPES[t] else TYPES[t][:-5].lower().encode() in s) and \
                    sum(1 for x in seen.values() if x == s) == 1
            return ok
        C.verify("print", "type %s" % t, lambda I: shown(I, po, type_node(I, t, 2)), want, f=po)
    C.verify("print", "no type", lambda I: shown(I, po, Ptr(None, "tree")), lambda env: lambda got: got[0] == "return" and got[1] not in seen.values(), f=po)
    if pl and len(seen) == len(TYPES):
        for k in range(4):
            for l in itertools.product("QVi", repeat=k):
                C.verify("print", "types %s" % "".join(l), lambda I: shown(I, pl[0], Vec([Cell(type_node(I, t, 2)) for t in l], "any")),
                         lambda env: ("return", b", ".join(seen[t] for t in l)), f=pl[0])
    return "other", "Exhaustive over kinds of types and values; sizes and constants are abstract."


# --------------------------------------------------------------------------------- P31 instructions and functions as values
def p31(C):
    C.load()
    C.rule("equal", "two instructions are equal exactly when their names and their operand types are, two functions when their names, parameter types and return "
                    "types are; != is the negation")
    C.rule("instruction", "an instruction prints as name(types), a reference as the instruction it holds or 'unresolved'")
    C.rule("function", "a function prints as name(types) -> type, a reference as the function it holds or 'unresolved'")
    C.rule("values", "values print in brackets, separated by ', ', in order; an absent value as NULL; types print joined by ', '; an axis as its three "
                     "components in brackets")
    NI, NF, NV = "cqasm::v3x::instruction::", "cqasm::v3x::function::", "cqasm::v3x::values::"
    CI, CF = NI + "Instruction", NF + "CoreFunction"
    F = "cqasm::v3x::types::"
    specs = [""] + ["".join(p) for k in (1, 2) for p in itertools.product("QBbifVW", repeat=k)] + ["QQV", "VQQ", "iii"]
    po = C.function(F + "operator<<", 2, lambda f: "Any" not in f["params"][1]["t"] and "Types" not in f["params"][1]["t"])
    ictor = C.function(CI + "::Instruction", 2, lambda f: "inits" in f)
    fctor = C.function(CF + "::CoreFunction", 3, lambda f: "inits" in f)

    def opt(x):
        return Cell(models.OptV(False)) if x is None else Cell(models.OptV(True, Cell(Str.lit(x))))

    def ins(I, n, sp):
        return Cell(I.construct_ctor(ictor, CI, [Cell(Str.lit(n)), opt(sp)]))

    def fun(I, n, sp, r):
        return Cell(I.construct_ctor(fctor, CF, [Cell(Str.lit(n)), Cell(Str.lit(sp)), Cell(ord(r))]))

    def shown(I, f, v):
        st = Cell(Stream())
        r = I.call_fn(f, [st, v])
        return st.v.buf if I.rv(r) is st.v else Str.lit("another stream")
    seen = {}
    for I0 in (C.interp(),):
        def collect(I):
            for t in TYPES:
                seen[t] = conc(shown(I, po, Cell(type_node(I, t, 1))), {})
            return 0
        list(I0.explore(collect))
    if len(seen) != len(TYPES):
        C.undec("instruction", "names of the types", "their printer was not interpreted")
        return "other", ""
    lst = lambda sp: b", ".join(seen[c] for c in sp)
    names = ["H", "h", "CNOT", "", "Rx", "U"]
    # equality
    ie = C.function(CI + "::operator==", 1)
    fe = C.function(CF + "::operator==", 1)

    def both(I, a, b, cls):
        return Tup([Cell(I.truth(models.binary(I, "==", a, b))), Cell(I.truth(models.binary(I, "!=", a, b)))])
    isp = [""] + list("QBbifVW") + ["QV", "VQ", "QQ", "VV", "QQV", "Qi"]
    for a, b in itertools.product([("H", s) for s in isp] + [("h", "Q"), ("", ""), ("HH", "Q")], repeat=2):
        C.verify("equal", "instructions %s(%s) and %s(%s)" % (a + b), lambda I: both(I, ins(I, *a), ins(I, *b), CI), lambda env: ("return", (a == b, a != b)), f=ie)
    C.verify("equal", "no operand types given", lambda I: both(I, ins(I, "H", None), ins(I, "H", ""), CI), lambda env: ("return", (True, False)), f=ie)
    fsp = [(n, s, r) for n in ("f", "g") for s in ("", "i", "f", "if", "fi", "ii") for r in "if"]
    for a, b in itertools.product(fsp, repeat=2):
        C.verify("equal", "functions %s(%s) %s and %s(%s) %s" % (a + b), lambda I: both(I, fun(I, *a), fun(I, *b), CF), lambda env: ("return", (a == b, a != b)), f=fe)
    # types of one kind that differ in their size, and texts that print alike
    def sized(I, sp):
        """An instruction whose operand types have the given sizes."""
        o = ins(I, "H", "")
        o.v.f["operand_types"].v = Vec([Cell(type_node(I, t, n)) for t, n in sp], "any")
        return o
    lists = [[(t, n)] for t in "VWQ" for n in (1, 2, 3)] + [[("V", 2), ("V", k)] for k in (2, 3)] + [[("V", 3), ("V", 2)], []]
    for a, b in itertools.product(lists, repeat=2):
        C.verify("equal", "instructions of the types %s and %s" % (a, b), lambda I: both(I, sized(I, a), sized(I, b), CI), lambda env: ("return", (a == b, a != b)), f=ie)
    for a, b in ((("H(qubit", "Q"), ("H", "Q")), (("H()", ""), ("H", "")), (("H(qubit, qubit)", ""), ("H", "QQ")), (("H ", "Q"), ("H", "Q")), (("a\0b", "Q"), ("a\0c", "Q")),
                 (("a\0b", "Q"), ("a", "Q")), (("x" * 300 + "a", "Q"), ("x" * 300 + "b", "Q"))):
        C.verify("equal", "instructions %.20r(%s) and %.20r(%s)" % (a + b), lambda I: both(I, ins(I, *a), ins(I, *b), CI), lambda env: ("return", (False, True)), f=ie)
        C.verify("equal", "functions %.20r(%s) and %.20r(%s)" % (a + b), lambda I: both(I, fun(I, a[0], "", "i"), fun(I, b[0], "", "i"), CF), lambda env:
                 ("return", (a[0] == b[0], a[0] != b[0])), f=fe)
    # printing
    one = lambda ns, cls: C.function(ns + "operator<<", 2, lambda f: models.base_type(f["params"][1]["t"]) == cls)
    ref = lambda ns, cls: C.function(ns + "operator<<", 2, lambda f: models.base_type(f["params"][1]["t"]) != cls)
    ip, ir, fp, fr = one(NI, CI), ref(NI, CI), one(NF, CF), ref(NF, CF)
    edge = lambda c: Cell(Ptr(c, "tree"))
    for n in names:
        for sp in specs if n == "CNOT" else ("", "Q", "VV"):
            text = ("%s(" % n).encode() + lst(sp) + b")"
            C.verify("instruction", "%s(%s)" % (n, sp), lambda I: shown(I, ip, ins(I, n, sp)), lambda env: ("return", text), f=ip)
            C.verify("instruction", "reference to %s(%s)" % (n, sp), lambda I: shown(I, ir, edge(ins(I, n, sp))), lambda env: ("return", text), f=ir)
        for sp in ("", "f", "ii", "bif"):
            for r in "bif":
                text = ("%s(" % n).encode() + lst(sp) + b") -> " + seen[r]
                C.verify("function", "%s(%s) %s" % (n, sp, r), lambda I: shown(I, fp, fun(I, n, sp, r)), lambda env: ("return", text), f=fp)
                C.verify("function", "reference to %s(%s) %s" % (n, sp, r), lambda I: shown(I, fr, edge(fun(I, n, sp, r))), lambda env: ("return", text), f=fr)
    C.verify("instruction", "no instruction", lambda I: shown(I, ir, Cell(Ptr(None, "tree"))), lambda env: ("return", b"unresolved"), f=ir)
    C.verify("function", "no function", lambda I: shown(I, fr, Cell(Ptr(None, "tree"))), lambda env: ("return", b"unresolved"), f=fr)
    # values
    ops = C.functions_named(NV + "operator<<", 2)
    vp = [f for f in ops if "Any" not in f["params"][1]["t"] and "Values" not in f["params"][1]["t"]]
    vl = [f for f in ops if f not in vp]
    if len(vp) != 1 or len(vl) != 1:
        raise Broken("the printers of values were not found")

    def label(I, c, k):
        deref(c).label = ("value", k)
        return c
    kinds = [("c", "b", True), ("c", "i", 3), ("c", "f", 0.5), ("v", "Q"), ("v", "W"), ("x", "V", 2)]
    dump = lambda i: conc(Str((Atom(("text", ("value", i)), True),)), {})

    def listed(l):
        p = [91]
        for n, i in enumerate(l):
            p += ([44, 32] if n else []) + [Atom(("text", ("value", i)), True)]
        return conc(Str(tuple(p + [93])), {})
    for i, a in enumerate(kinds):
        C.verify("values", "a value %s" % (a,), lambda I: shown(I, vp[0], Cell(label(I, arg_node(I, a), i))), lambda env: ("return", dump(i)), f=vp[0])
    C.verify("values", "no value", lambda I: shown(I, vp[0], Cell(Ptr(None, "tree"))), lambda env: ("return", b"NULL"), f=vp[0])
    for k in range(4):
        for l in itertools.product(range(len(kinds)), repeat=k):
            if k == 3 and len(set(l)) == 3 and l != tuple(sorted(l)) and l != (5, 3, 0):
                continue
            C.verify("values", "the values %s" % (l,), lambda I: shown(I, vl[0], Cell(Vec([Cell(label(I, arg_node(I, kinds[i]), i)) for i in l], "any"))),
                     lambda env: ("return", listed(l)), f=vl[0])
    for n in C.sizes(3, 300):
        l = tuple((j * 5 + j // 6) % len(kinds) for j in range(n))
        C.verify("values", "%d values" % n, lambda I: shown(I, vl[0], Cell(Vec([Cell(label(I, arg_node(I, kinds[i]), i)) for i in l], "any"))),
                 lambda env: ("return", listed(l)), f=vl[0])
        sp, other = ("QBbifVW" * n)[:n], ("QBbifVW" * n)[:n - 1] + "?"
        other = other.replace("?", "Q" if sp[-1] != "Q" else "V")
        specs.append(sp)
        for x, y in ((sp, sp), (sp, other), (sp, sp[:-1]), (sp[:-1], sp)):
            C.verify("equal", "instructions of %d operands" % n, lambda I: both(I, ins(I, "H", x), ins(I, "H", y), CI), lambda env: ("return", (x == y, x != y)), f=ie)
            C.verify("equal", "functions of %d parameters" % n, lambda I: both(I, fun(I, "f", x, "i"), fun(I, "f", y, "i"), CF), lambda env: ("return", (x == y, x != y)), f=fe)
        for m in ("n" * n,):
            for y in (m, m[:-1], m[:-1] + "m"):
                C.verify("equal", "names of %d characters" % n, lambda I: both(I, ins(I, m, "Q"), ins(I, y, "Q"), CI), lambda env: ("return", (m == y, m != y)), f=ie)
                C.verify("equal", "function names of %d characters" % n, lambda I: both(I, fun(I, m, "i", "i"), fun(I, y, "i", "i"), CF), lambda env: ("return", (m == y, m != y)), f=fe)
        text = ("%s(" % ("n" * n)).encode() + lst(sp) + b")"
        C.verify("instruction", "%d operands and characters" % n, lambda I: shown(I, ip, ins(I, "n" * n, sp)), lambda env: ("return", text), f=ip)
        C.verify("function", "%d parameters and characters" % n, lambda I: shown(I, fp, fun(I, "n" * n, sp, "i")), lambda env: ("return", text + b" -> " + seen["i"]), f=fp)
    tl = [f for f in C.functions_named(F + "operator<<", 2) if f is not po]
    C.verify("values", "no type", lambda I: shown(I, po, Cell(Ptr(None, "tree"))), lambda env: lambda got: got[0] == "return" and got[1] not in seen.values(), f=po)
    for sp in specs:
        C.verify("values", "the types %r" % sp, lambda I: shown(I, tl[0], Cell(Vec([Cell(type_node(I, t, 1)) for t in sp], "any"))), lambda env: ("return", lst(sp)), f=tl[0])
    ax = C.function("cqasm::v3x::primitives::operator<<", 2)
    for x, y, z in ((1.0, 0.0, 0.0), (0.5, -2.0, 3.25), (1e300, 5e-324, 0.1)):
        def axis(I):
            o = Obj("cqasm::v3x::primitives::Axis")
            o.f.update(x=Cell(x), y=Cell(y), z=Cell(z))
            return shown(I, ax, Cell(o))
        C.verify("values", "axis %s" % ((x, y, z),), axis, lambda env: ("return", b"[" + b", ".join(models.float_shortest(q) for q in (x, y, z)) + b"]"), f=ax)
    return "other", "Every pair of a family of instructions and functions; every operand specifier of up to two types; lists of up to three values of every kind."


# ------------------------------------------------------------------------------------------------- P13 instruction set
def p13(C):
    C.load()
    IS = "cqasm::v3x::instruction::InstructionSet"
    gi = C.function(IS + "::get_instance")
    C.rule("predicates", "the classification predicates agree with each other and with the instruction set: each gate has one number of qubits, and no name is "
                         "two kinds of instruction")
    C.rule("parameters", "every instruction's parameter types are those the language gives it, whatever overload they are read from; unknown names are refused")
    C.rule("operands", "every gate takes single qubits and arrays alike on each of its operands, every overload with the same parameters")
    C.rule("complete", "the lists of gates and the tables of gates hold the same names")

    def inst(I):
        r = I.call_fn(gi, [])
        return r if isinstance(r, Cell) else Cell(r)

    def m(I, name, *args, n=None):
        return I.rv(I.call_fn(C.function(IS + "::" + name, len(args)), [Cell(a) for a in args], inst(I)))
    names = list(ONE_Q) + list(TWO_Q) + list(NON_GATES) + list(MODS)
    odd = ["", "h", "CNOt", "CNOTs", "Rxx", "R", "1q", "1q_", "1q_X", "2q", "2q_X", "2q_CNOT", "q1_X", "11q", " X", "x1q", "Measure", "inver", "in", "pows", "control", "ctrl ", "waits"]
    spec = {
        "is_single_qubit_named_gate": lambda n: n in ONE_Q, "is_two_qubit_named_gate": lambda n: n in TWO_Q, "is_named_gate": lambda n: n in ONE_Q or n in TWO_Q,
        "is_single_qubit_gate_composition": lambda n: n.startswith("1q"), "is_two_qubit_gate_composition": lambda n: n.startswith("2q"),
        "is_gate_composition": lambda n: n.startswith(("1q", "2q")), "is_single_qubit_gate": lambda n: n in ONE_Q or n.startswith("1q"),
        "is_two_qubit_gate": lambda n: n in TWO_Q or n.startswith("2q"), "is_gate": lambda n: n in ONE_Q or n in TWO_Q or n.startswith(("1q", "2q")),
        "is_measure": lambda n: n == "measure", "is_reset": lambda n: n == "reset", "is_init": lambda n: n == "init", "is_barrier": lambda n: n == "barrier",
        "is_wait": lambda n: n == "wait", "is_non_gate": lambda n: n in NON_GATES, "is_inv_gate_modifier": lambda n: n == "inv",
        "is_pow_gate_modifier": lambda n: n == "pow", "is_ctrl_gate_modifier": lambda n: n == "ctrl",
        "is_single_qubit_gate_modifier": lambda n: n in ("inv", "pow"), "is_two_qubit_gate_modifier": lambda n: n == "ctrl", "is_gate_modifier": lambda n: n in MODS,
    }
    for p, sp in spec.items():
        fs = C.functions_named(IS + "::" + p, 1)
        if not fs:
            C.notes.append("no predicate %s" % p)
            continue
        for n in names + odd:
            C.verify("predicates", "%s(%r)" % (p, n), lambda I: m(I, p, Str.lit(n)), lambda env: ("return", sp(n)), f=fs[0])
    C.floor("predicates", C.rules["predicates"]["obligations"], 500)

    def opt(v, val):
        return None if not v.has else conc(v.cell, val).decode()
    pt = lambda s: s or None
    getters = {"get_named_gate_param_types": {n: pt(s) for n, s in list(ONE_Q.items()) + list(TWO_Q.items())},
               "get_gate_modifier_param_types": {n: pt(s) for n, s in MODS.items()}}
    getters["get_instruction_param_types"] = dict(getters["get_named_gate_param_types"], **getters["get_gate_modifier_param_types"])
    for g, tab in getters.items():
        f = C.function(IS + "::" + g, 1)
        for n in names + odd:
            if n in NON_GATES and g == "get_instruction_param_types":
                want = lambda env: lambda got: got[0] == "return" and (got[1] or "") in NON_GATES[n]
            else:
                want = lambda env: ("return", tab[n]) if n in tab else refused(C)
            C.verify("parameters", "%s(%r)" % (g, n), lambda I: m(I, g, Str.lit(n)), want, f=f, view=opt)
    f = C.function(IS + "::get_non_gate_param_types", 1)
    for n in names + odd:
        C.verify("parameters", "get_non_gate_param_types(%r)" % n, lambda I: m(I, "get_non_gate_param_types", Str.lit(n)),
                 lambda env: (lambda got: got[0] == "return" and (got[1] or "") in NON_GATES[n]) if n in NON_GATES else refused(C), f=f, view=opt)
    f = C.function(IS + "::get_non_gate_param_types_with_param_count", 2)
    K = order_var("count", [0, 1, 2, 3, 4], 0, (1 << 64) - 1)
    for n in names + odd:
        C.verify("parameters", "get_non_gate_param_types_with_param_count(%r)" % n, lambda I: m(I, "get_non_gate_param_types_with_param_count", Str.lit(n), Fn.of(K)),
                 lambda env: ("return", next((pt(s) for s in NON_GATES.get(n, ()) if len(s) == env[K]), None)), vars=[K], f=f, view=opt)
    # the tables themselves
    I = C.interp()
    tabs = {}

    def read(J):
        for g in ("get_named_gate_map", "get_non_gate_map", "get_gate_modifier_map", "get_single_qubit_named_gate_list", "get_two_qubit_named_gate_list", "get_non_gate_list"):
            v = m(J, g)
            if isinstance(v, MapV) and not g.endswith("_list"):
                tabs[g] = [(txt(a, {}), J.rv(b)) for a, b in v.items]
            else:
                tabs[g] = [txt(a[0] if isinstance(a, tuple) else a, {}) for a in (v.items if hasattr(v, "items") else v)]
        return 0
    ps = list(I.explore(read))
    C.functions |= I.functions_seen
    if len(ps) != 1 or ps[0].kind != "return":
        C.undec("operands", "the tables", ps[0].what if ps else "no path")
        return "other", ""

    def pair(v):
        a, b = [I.rv(x) for x in v.items]
        o = lambda y: "" if not y.has else txt(y.cell, {})
        return o(a), o(b)
    where = (gi["file"], gi["line"], gi["n"])
    gates = {}
    for n, v in tabs["get_named_gate_map"]:
        gates.setdefault(n, []).append(pair(v))
    for n, sp in list(ONE_Q.items()) + list(TWO_Q.items()):
        k = 1 if n in ONE_Q else 2
        need = {"".join(x) for x in itertools.product("QV", repeat=k)}
        got = gates.get(n, [])
        C.expect("operands", {o for _, o in got} == need and {p for p, _ in got} == {sp} and len(got) == len(need), n, where,
                 "%s has the overloads %s, required %s with parameters %r" % (n, got, sorted(need), sp))
    ng = {}
    for n, v in tabs["get_non_gate_map"]:
        ng.setdefault(n, []).append(pair(v))
    for n, sps in NON_GATES.items():
        need = {(s, o) for s in sps for o in (("BQ", "BV", "WQ", "WV") if n == "measure" else ("Q", "V"))}
        C.expect("operands", set(ng.get(n, [])) == need and len(ng[n]) == len(need), n, where, "%s has the overloads %s, required %s" % (n, ng.get(n), sorted(need)))
    one, two, non = set(tabs["get_single_qubit_named_gate_list"]), set(tabs["get_two_qubit_named_gate_list"]), set(tabs["get_non_gate_list"])
    for n in sorted(set(gates) | one | two):
        C.expect("complete", (n in gates) and ((n in one) + (n in two) == 1), n, where, "%s: in the table %s, in the single-qubit list %s, in the two-qubit list %s" % (n, n in gates, n in one, n in two))
    for n in sorted(set(ng) | non):
        C.expect("complete", n in ng and n in non and n not in gates, n, where, "%s: in the table %s, in the list %s" % (n, n in ng, n in non))
    for n in sorted({n for n, _ in tabs["get_gate_modifier_map"]} | set(MODS)):
        C.expect("complete", n in MODS and n in dict(tabs["get_gate_modifier_map"]) and n not in gates and n not in ng, n, where, "gate modifier %s" % n)
    return "other", "Every predicate and getter on every name of the language and on confusable ones; the tables read from the abstractly constructed instance."
