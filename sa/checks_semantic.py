"""P10 constant arithmetic, P11 operators, P12 types, P14 instruction acceptance, P16 errors, P19 indices, P20 names, P25 reuse."""
import math

from absint import Atom, CppThrow
from harness import *
import models
from v3x import *

MIN, MAX = -(1 << 63), (1 << 63) - 1
INTS = [MIN, MIN + 1, -(1 << 32), -65, -64, -63, -3, -2, -1, 0, 1, 2, 3, 31, 32, 33, 62, 63, 64, 65, 1 << 31, 1 << 32, 1 << 62, MAX - 1, MAX]
FLOATS = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 2.0, -2.0, 3.7, -3.7, 1e308, -1e308, 5e-324, math.inf, -math.inf, math.nan]
BOOLS = [False, True]
DOM = {"b": BOOLS, "i": INTS, "f": FLOATS}
CLS = {"b": "ConstBool", "i": "ConstInt", "f": "ConstFloat"}
KIND = {"b": "bool", "i": "int", "f": "float"}
AERR = "cqasm::error::Error"


def wrap(x):
    x &= (1 << 64) - 1
    return x - (1 << 64) if x >> 63 else x


class Bad(Exception):
    pass


def cdiv(a, b):
    if b == 0:
        raise Bad
    q = abs(a) // abs(b)
    return wrap(q if (a < 0) == (b < 0) else -q)


def cmod(a, b):
    if b == 0:
        raise Bad
    r = abs(a) % abs(b)
    return -r if a < 0 else r


def shamt(f):
    def g(a, b):
        if not 0 <= b < 64:
            raise Bad
        return wrap(f(a, b))
    return g


def fdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a == 0 or math.isnan(a):
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)


def fmul(a, b):
    return a * b


def npf(name, n=1):
    import numpy as np

    def f(*a):
        with np.errstate(all="ignore"):
            return float(getattr(np, name)(*[np.float64(x) for x in a]))
    f.approx = True
    return f


def cmpop(s):
    return {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
            ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}[s]


def spec():
    """name -> list of (parameter types, result type, meaning); the overloads in the order in which they are preferred."""
    S = {}

    def add(name, *ov):
        S[name] = list(ov)
    add("operator-", ("i", "i", lambda a: wrap(-a)), ("f", "f", lambda a: -a), ("ii", "i", lambda a, b: wrap(a - b)), ("ff", "f", lambda a, b: a - b))
    add("operator+", ("ii", "i", lambda a, b: wrap(a + b)), ("ff", "f", lambda a, b: a + b))
    add("operator*", ("ii", "i", lambda a, b: wrap(a * b)), ("ff", "f", fmul))
    add("operator/", ("ii", "i", cdiv), ("ff", "f", fdiv))
    add("operator%", ("ii", "i", cmod))
    add("operator**", ("ff", "f", npf("power", 2)))
    for s in ("==", "!=", "<", "<=", ">", ">="):
        add("operator" + s, ("bb", "b", cmpop(s)), ("ii", "b", cmpop(s)), ("ff", "b", cmpop(s)))
    add("operator~", ("i", "i", lambda a: ~a))
    add("operator&", ("ii", "i", lambda a, b: a & b))
    add("operator|", ("ii", "i", lambda a, b: a | b))
    add("operator^", ("ii", "i", lambda a, b: a ^ b))
    add("operator<<", ("ii", "i", shamt(lambda a, b: a << b)))
    add("operator>>", ("ii", "i", shamt(lambda a, b: a >> b)))
    add("operator!", ("b", "b", lambda a: not a))
    add("operator&&", ("bb", "b", lambda a, b: a and b))
    add("operator||", ("bb", "b", lambda a, b: a or b))
    add("operator^^", ("bb", "b", lambda a, b: a != b))
    pick = lambda c, a, b: a if c else b
    add("operator?:", ("bbb", "b", pick), ("bii", "i", pick), ("bff", "f", pick))
    for f, n in (("sqrt", "sqrt"), ("exp", "exp"), ("log", "log"), ("sin", "sin"), ("cos", "cos"), ("tan", "tan"), ("sinh", "sinh"), ("cosh", "cosh"),
                 ("tanh", "tanh"), ("asin", "arcsin"), ("acos", "arccos"), ("atan", "arctan"), ("asinh", "arcsinh"), ("acosh", "arccosh"), ("atanh", "arctanh")):
        add(f, ("f", "f", npf(n)))
    add("abs", ("i", "i", lambda a: wrap(abs(a))), ("f", "f", lambda a: abs(a)))
    return S


RANK = "bif"


def promotes(t, p):
    return RANK.index(t) <= RANK.index(p)


def conv(x, p):
    return bool(x) if p == "b" else int(x) if p == "i" else float(x)


def same_float(a, b, approx=False):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if approx:
        return a == b or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-300) or (abs(a) < 1e-9 and abs(b) < 1e-9)
    return a == b and math.copysign(1, a) == math.copysign(1, b)


def const_value(I, t, v):
    o = models.make_node(I, VAL + CLS[t], [])
    o.f["value"] = Cell(Fn.of(v) if isinstance(v, Var) else v)
    return Ptr(Cell(o), "tree")


def is_analysis_error(C, cls):
    return C.interp().is_a(cls, AERR)


def refused(C):
    return lambda got: got[0] == "throw" and is_analysis_error(C, got[1])


def function_cases(S):
    import itertools
    for name, ov in sorted(S.items()):
        arities = sorted({len(o[0]) for o in ov})
        for n in sorted(set(arities) | {a + 1 for a in arities} | {0}):
            if n > 3 and "?:" not in name:
                continue
            for ts in (itertools.product("bif", repeat=n) if n < 4 else [("b", "i", "i", "i")]):
                yield name, "".join(ts), next((o for o in ov if len(o[0]) == n and all(promotes(t, p) for t, p in zip(ts, o[0]))), None)


ARITHMETIC = ("src/v3x/core_function.cpp", "include/libqasm/v3x/core_function.hpp", "src/v3x/resolver.cpp", "include/libqasm/v3x/resolver.hpp", "src/v3x/values.cpp",
              "include/libqasm/v3x/values.hpp", "src/v3x/register_consteval_core_functions.cpp", "include/libqasm/v3x/register_consteval_core_functions.hpp",
              "src/v3x/analyzer.cpp", "include/libqasm/v3x/analyzer.hpp", "src/v3x/semantic_analyzer.cpp")


def domains(C):
    """The values the arithmetic is examined on: the fixed ones, and those around every constant the code mentions."""
    ints, floats = C.numbers(ARITHMETIC)
    wi = {s * c + d for c in ints | {int(x) for x in floats if math.isfinite(x) and x < 2.0 ** 62} for s in (1, -1) for d in (-1, 0, 1)} - set(INTS)
    wi = [x for x in sorted(wi, key=abs) if MIN <= x <= MAX]
    wf = {s * y for c in floats | {float(x) for x in ints} for s in (1, -1) for y in (c, math.nextafter(c, math.inf), math.nextafter(c, -math.inf), c + 0.5, c - 0.5)}
    wf = [x for x in sorted(wf - set(FLOATS), key=abs) if x]
    return {"b": BOOLS, "i": INTS + (wi if len(wi) <= 40 else wi[:20] + wi[-20:]), "f": FLOATS + (wf if len(wf) <= 60 else wf[:30] + wf[-30:])}


def p10(C):
    C.load()
    V = V3(C)
    D = domains(C)
    S = spec()
    C.rule("value", "a constant function or operator yields exactly the specified value, of the specified type, for every constant argument: integers wrap "
                    "at 64 bits, nothing traps or is undefined")
    C.rule("refuse", "division and modulo by zero, and shifts by an amount outside 0..63, are reported as errors; so is any call no overload accepts")
    rf = C.function(ANA + "::resolve_function")
    for name, ts, ov in function_cases(S):
        if ov is None and len(ts) > 2 and "?:" not in name:
            continue
        small = len(ts) == 3
        vs = [Var("a%d" % i, D[t] if not small or t == "b" else DOM[t][::3] + ([MIN, MAX] if t == "i" else [])) for i, t in enumerate(ts)]

        def body(I, name=name, ts=ts, vs=vs):
            a = V.analyzer(I)
            args = Vec([Cell(const_value(I, t, v)) for t, v in zip(ts, vs)], "any")
            return I.call_fn(rf, [Cell(Str.lit(name)), Cell(args)], a)

        def want(env, ov=ov, vs=vs):
            if ov is None:
                return refused(C)
            p, r, fn = ov
            try:
                w = fn(*[conv(env[v], q) for v, q in zip(vs, p)])
            except Bad:
                return refused(C)

            def ok(got):
                if got[0] != "return" or got[1][0] != KIND[r]:
                    return False
                g = got[1][1]
                if r == "f":
                    return isinstance(g, float) and same_float(g, float(w), getattr(fn, "approx", False))
                return type(g) is type(w) and g == w
            return ok
        C.verify("value" if ov else "refuse", "%s(%s)" % (name, ts), body, want, vars=vs, f=rf, view=value_view)
    for n in range(3):
        def body(I, n=n):
            a = V.analyzer(I)
            return I.call_fn(rf, [Cell(Str((Atom("fname", True),))), Cell(Vec([Cell(const_value(I, "i", 1)) for _ in range(n)], "any"))], a)

        def want(env, n=n):
            return refused(C) if not any(f for k, f in env["facts"].items() if f and "fname" in repr(k)) else None
        C.verify("refuse", "an unknown function with %d arguments" % n, body, want, f=rf, view=value_view)
    return "other", "Value-set abstract interpretation of registration, overload resolution, promotion and the functors themselves."


# ------------------------------------------------------------------------------------------------- P14 acceptance rules
ONE_Q = {"H": "", "I": "", "mX90": "", "mY90": "", "mZ90": "", "Rn": "fffff", "Rx": "f", "Ry": "f", "Rz": "f", "S": "", "Sdag": "", "T": "", "Tdag": "",
         "U": "fff", "X": "", "X90": "", "Y": "", "Y90": "", "Z": "", "Z90": ""}
TWO_Q = {"CNOT": "", "CR": "f", "CRk": "i", "CZ": "", "SWAP": ""}
MODS = {"inv": "", "pow": "f", "ctrl": ""}
NON_GATES = {"measure": ("", "fff"), "reset": ("",), "init": ("",), "barrier": ("",), "wait": ("i",)}
DECLS = [("qubit", "q", None), ("qubit", "q1", 1), ("qubit", "qq", 3), ("qubit", "qr", 2), ("bit", "b", None), ("bit", "b1", 1), ("bit", "bb", 3), ("bit", "br", 2)]
KINDS = {"qubit": ("Qubit", "QubitArray"), "bit": ("Bit", "BitArray")}
VARS = {n: (KINDS[t][s is not None], s or 1) for t, n, s in DECLS}
OPERANDS = ["q", "q1", "qq", "qr", ("qq", 0), ("qq", 2), ("qq", 0, 2), ("qr", (0, 1)), ("qq", (0, 2)), "b", "b1", "bb", ("bb", 1), ("bb", 0, 2), ("bb", (0, 2)),
            1, 2.5, "pi"]
CONSTS = {"pi": math.pi, "eu": math.e, "tau": 2 * math.pi, "true": True, "false": False}


def decls():
    return [lambda b, t=t, n=n, s=s: b.var(t, n, s) for t, n, s in DECLS]


def op_node(b, o):
    return b.index(*o) if isinstance(o, tuple) else b.lit(o)


def op_flat(o):
    out = []
    for x in o[1:]:
        out += list(range(x[0], x[1] + 1)) if isinstance(x, tuple) else [x]
    return out


def op_type(o):
    """(type name, number of elements)"""
    if isinstance(o, tuple):
        k, s = VARS[o[0]]
        n = len(op_flat(o))
        return (k if n != 1 else k.replace("Array", ""), n)
    if isinstance(o, str):
        if o in VARS:
            return VARS[o]
        o = CONSTS.get(o)
        if o is None:
            return None
    return ({bool: "Bool", int: "Int", float: "Float"}[type(o)], 1)


def op_value(o):
    if isinstance(o, tuple):
        return ("index", o[0], tuple(op_flat(o)))
    if isinstance(o, str):
        if o in VARS:
            return ("var", o)
        o = CONSTS[o]
    return ({bool: "bool", int: "int", float: "float"}[type(o)], o)


def is_qubits(o):
    return op_type(o) is not None and op_type(o)[0].startswith("Qubit")


def is_bits(o):
    return op_type(o) is not None and op_type(o)[0].startswith("Bit")


def params_ok(spec, ps):
    """The promoted parameters, or None."""
    if len(spec) != len(ps):
        return None
    out = []
    for t, p in zip(spec, ps):
        k = op_type(p)
        if k is None or k[0] not in ("Bool", "Int", "Float"):
            return None
        k = k[0][0].lower()
        if not promotes(k, t):
            return None
        out.append((KIND[t], conv(op_value(p)[1], t)))
    return tuple(out)


def gate_spec(g):
    """g = (name, params, inner) -> (view, resolution name, number of qubits) or None."""
    name, ps, inner = g
    if inner is None:
        if name in ONE_Q:
            sp, n = ONE_Q[name], 1
        elif name in TWO_Q:
            sp, n = TWO_Q[name], 2
        else:
            return None
        p = params_ok(sp, ps)
        return p is not None and ((name, p, None), name, n, name) or None
    i = gate_spec(inner)
    if i is None or i[2] != 1 or name not in MODS:
        return None
    p = params_ok(MODS[name], ps)
    if p is None:
        return None
    n = 2 if name == "ctrl" else 1
    return ((name, p, i[0]), "%dq_%s" % (n, i[3]), n, i[3])


def gate_node(b, g):
    name, ps, inner = g
    return b.gate(name, [op_node(b, p) for p in ps], gate_node(b, inner) if inner else None)


def gate_want(g, ops):
    s = gate_spec(g)
    if s is None or len(ops) != s[2] or not all(is_qubits(o) for o in ops) or len({op_type(o)[1] for o in ops}) != 1:
        return None
    return ("gate", (s[1], tuple(op_type(o)[0] for o in ops)), s[0], tuple(op_value(o) for o in ops))


def non_gate_want(name, ops, ps):
    p = next((q for q in (params_ok(sp, ps) for sp in NON_GATES[name]) if q is not None), None)
    if p is None:
        return None
    if name == "measure":
        if len(ops) != 2 or not is_bits(ops[0]) or not is_qubits(ops[1]) or op_type(ops[0])[1] != op_type(ops[1])[1]:
            return None
    elif len(ops) != 1 or not is_qubits(ops[0]):
        return None
    return ("nongate", (name, tuple(op_type(o)[0] for o in ops)), name, tuple(op_value(o) for o in ops), p)


def good_params(sp):
    return tuple({"f": 0.5, "i": 3}[c] for c in sp)


def p14(C):
    import itertools
    C.load()
    V = V3(C)
    C.rule("operands", "a gate is accepted exactly with its number of qubit operands, all of one size; measure exactly with as many bits as qubits; reset, init, "
                       "barrier and wait with one qubit operand; and each becomes the instruction that was written")
    C.rule("parameters", "each gate and instruction is accepted exactly with its parameters, promoted to their declared types")
    C.rule("modifiers", "inv, pow and ctrl apply to single-qubit gates, alone or combined; ctrl makes a two-qubit gate, which takes no further modifier")
    fg = C.function("cqasm::v3x::analyzer::SemanticAnalyzer::visit_gate_instruction", 1)
    fn = C.function("cqasm::v3x::analyzer::SemanticAnalyzer::visit_non_gate_instruction", 1)
    fm = C.function("cqasm::v3x::analyzer::SemanticAnalyzer::visit_gate", 1)
    ops = OPERANDS if C.thorough else [o for o in OPERANDS if o not in (("qq", 2), "br")]
    few = ["q", "qq", ("qq", 0, 2), "b", 1]

    def combos(full):
        for n in range(4):
            for c in itertools.product(ops if full and n < 3 else few if n < 3 else few[:3:2], repeat=n):
                yield c
    # operands
    K = Bulk(C, V, "operands", fg, decls())
    full = {"H", "CNOT"} if not C.thorough else set(ONE_Q) | set(TWO_Q)
    for name, sp in list(ONE_Q.items()) + list(TWO_Q.items()) + [(n, "") for n in ("nosuch", "h", "cnot", "Sdg", "Tdg", "Xdag", "Sdagdag", "sdag", "CX", "CNOTs", "H1", "x90")]:
        g = (name, good_params(sp), None)
        for c in combos(name in full):
            K.add("%s %s" % (name, list(c)), lambda b, g=g, c=c: b.ginst(gate_node(b, g), *[op_node(b, o) for o in c]), gate_want(g, c))
    for g in [("inv", (), ("X", (), None)), ("ctrl", (), ("X", (), None)), ("ctrl", (), ("inv", (), ("Rx", (0.5,), None))), ("pow", (2,), ("U", (1, 2, 3), None))]:
        for c in combos(C.thorough or g[0] == "ctrl" and g[2][0] == "X"):
            K.add("%s %s" % (g, list(c)), lambda b, g=g, c=c: b.ginst(gate_node(b, g), *[op_node(b, o) for o in c]), gate_want(g, c))
    K.run()
    K = Bulk(C, V, "operands", fn, decls())
    for name, sps in NON_GATES.items():
        for sp in sps:
            ps = good_params(sp)
            for c in combos(C.thorough or (name == "measure" and not sp)):
                K.add("%s%s %s" % (name, ps, list(c)), lambda b, n=name, p=ps, c=c: b.ng(n, [op_node(b, o) for o in c], p), non_gate_want(name, c, ps))
    K.run()
    # parameters
    vals = [True, 2, 0.25, "pi", "q", "bb", ("qq", 0), "nosuch", -3, 0, -0.5]
    K = Bulk(C, V, "parameters", fm, decls())
    for name, sp in list(ONE_Q.items()) + list(TWO_Q.items()):
        base = good_params(sp)
        lists = {base[:k] for k in range(len(base))} | {base + (1,), base + (1, 2)}
        for i in range(len(base)):
            for v in vals:
                lists.add(base[:i] + (v,) + base[i + 1:])
        if len(sp) == 3:
            lists |= set(itertools.product(vals[:3], repeat=3))
        for ps in sorted(lists | {base}, key=repr):
            g = (name, ps, None)
            o = ("q",) if name in ONE_Q else (("qq", 0), ("qq", 1))
            K.add("%s%s" % (name, ps), lambda b, g=g, o=o: b.ginst(gate_node(b, g), *[op_node(b, x) for x in o]), gate_want(g, o))
    K.run()
    K = Bulk(C, V, "parameters", fn, decls())
    for name, sps in NON_GATES.items():
        lists = {("nothing",)} - {("nothing",)}
        for sp in sps:
            base = good_params(sp)
            lists |= {base, base + (1,)}
            for i in range(len(base)):
                lists |= {base[:i] + (v,) + base[i + 1:] for v in vals} | ({base[:i]} if i else set())
        if name != "wait":
            lists.add(())
        for ps in sorted(lists, key=repr):
            o = ("b", "q") if name == "measure" else ("qq",)
            K.add("%s%s" % (name, ps), lambda b, n=name, o=o, ps=ps: b.ng(n, [op_node(b, x) for x in o], [op_node(b, x) for x in ps]), non_gate_want(name, o, ps))
    K.run()
    # modifiers
    K = Bulk(C, V, "modifiers", fm, decls())
    mods = [("inv", ()), ("pow", (2,)), ("pow", (0.5,)), ("ctrl", ())]
    bad = [("pow", ()), ("pow", ("q",)), ("pow", (1, 2)), ("inv", (1,)), ("ctrl", (1,)), ("nosuch", ())]
    depth = 4 if C.thorough else 3
    bases = [("X", (), None), ("Rx", (1,), None), ("CNOT", (), None), ("CR", (1,), None), ("Rx", (), None), ("nosuch", (), None)]
    seqs = [m for d in range(depth + 1) for m in itertools.product(mods, repeat=d)] + [(m,) for m in bad] + [(mods[0], m) for m in bad] + [(m, mods[0]) for m in bad]
    for base in bases:
        for ms in seqs:
            g = base
            for m, ps in reversed(ms):
                g = (m, ps, g)
            for o in ((("qq", 0),), (("qq", 0), ("qq", 1)), (("qq", 0), ("qq", 1), ("qr", 0))):
                K.add("%s %s" % (g, list(o)), lambda b, g=g, o=o: b.ginst(gate_node(b, g), *[op_node(b, x) for x in o]), gate_want(g, o))
    for n in [k for k in (6, 9)] + [min(k, 90) for k in C.sizes(depth)]:
        for base in bases:
            for ms in ([mods[0]] * n, [mods[k % 3] for k in range(n)], [mods[3]] + [mods[k % 3] for k in range(n - 1)], [mods[0]] * (n - 1) + [mods[3]]):
                g = base
                for m, ps in reversed(ms):
                    g = (m, ps, g)
                for o in ((("qq", 0),), (("qq", 0), ("qq", 1))):
                    K.add("%d modifiers %s of %s %s" % (n, ms[:2], base, list(o)), lambda b, g=g, o=o: b.ginst(gate_node(b, g), *[op_node(b, x) for x in o]), gate_want(g, o))
    K.run()
    # names that differ from an instruction's in any letter, or by a letter at either end
    x, x0 = byte_var("x", LETTERS), byte_var("x", [c for c in LETTERS if not 48 <= c <= 57])
    table = dict(ONE_Q, **TWO_Q)
    for name in list(table) if C.thorough else ["H", "X90", "mX90", "CNOT", "SWAP", "Rx", "CR", "U", "S", "Sdag"]:
        for shape in ([name.encode(), x], [name[:-1].encode(), x if len(name) > 1 else x0], [x0, name[1:].encode()], [x0, name.encode()]):
            o = ("q",) if name in ONE_Q else (("qq", 0), ("qq", 1))

            def body(I):
                b = B(I)
                return V.analyze(I, b.program(*[d(b) for d in decls()], b.ginst(b.gate(sval(shape), [op_node(b, p) for p in good_params(table[name])]), *[op_node(b, p) for p in o])))

            def want(env):
                n = sbytes(shape, env).decode()
                g = (n, good_params(table[name]), None)
                w = gate_want(g, o)
                return lambda got: got[0] == "return" and got[1] == (("ok", w) if w is not None else ("refused", 1))
            C.verify("operands", "a gate called %s" % "".join("*" if isinstance(z, Var) else z.decode() for z in shape), body, want, vars=[z for z in shape if isinstance(z, Var)], f=fm,
                     view=lambda r, val: (lambda d: ("ok", d["statements"][0]) if len(d["statements"]) == 1 and not d["errors"] else ("refused", len(d["errors"])) if not d["statements"] else ("mixed",))(
                         result_view(r, val)))
    # arrays of any size
    for n in C.sizes(3, 5000):
        K = Bulk(C, V, "operands", fg, decls() + [lambda b: b.var("qubit", "qn", n), lambda b: b.var("qubit", "qm", n), lambda b: b.var("qubit", "qo", n + 1), lambda b: b.var("bit", "bn", n)])
        K.add("a gate on %d qubits" % n, lambda b: b.ginst("X", "qn"), lambda vs, es: len(vs) == 1 and not es)
        K.add("a gate on twice %d qubits" % n, lambda b: b.ginst("CNOT", "qn", "qm"), lambda vs, es: len(vs) == 1 and not es)
        K.add("a gate on %d and %d qubits" % (n, n + 1), lambda b: b.ginst("CNOT", "qn", "qo"), None)
        K.add("a measurement of %d qubits" % n, lambda b: b.ng("measure", ["bn", "qn"]), lambda vs, es: len(vs) == 1 and not es)
        K.add("a measurement of %d qubits into %d bits" % (n + 1, n), lambda b: b.ng("measure", ["bn", "qo"]), None)
        K.run()
    return "other", ("Every gate and instruction crossed with operand lists of every kind and size, parameter lists and modifier chains, analysed through the "
                     "registered tables by abstract interpretation; each accepted statement compared with the specified instruction.")


# ----------------------------------------------------------------------------------------------------- P11 expressions
UNARY = {"UnaryMinusExpression": "operator-", "BitwiseNotExpression": "operator~", "LogicalNotExpression": "operator!"}
BINARY = {"PowerExpression": "operator**", "ProductExpression": "operator*", "DivisionExpression": "operator/", "ModuloExpression": "operator%",
          "AdditionExpression": "operator+", "SubtractionExpression": "operator-", "ShiftLeftExpression": "operator<<", "ShiftRightExpression": "operator>>",
          "CmpGtExpression": "operator>", "CmpLtExpression": "operator<", "CmpGeExpression": "operator>=", "CmpLeExpression": "operator<=",
          "CmpEqExpression": "operator==", "CmpNeExpression": "operator!=", "BitwiseAndExpression": "operator&", "BitwiseXorExpression": "operator^",
          "BitwiseOrExpression": "operator|", "LogicalAndExpression": "operator&&", "LogicalXorExpression": "operator^^",
          "LogicalOrExpression": "operator||"}
SMALL = {"b": BOOLS, "i": [-7, -2, -1, 0, 1, 2, 5], "f": [-2.5, -0.5, 0.0, 0.5, 3.0]}
SMALL3 = {"b": BOOLS, "i": [-2, 0, 5], "f": [-0.5, 3.0]}


def pick_overload(S, name, ts):
    return next((o for o in S.get(name, ()) if len(o[0]) == len(ts) and all(promotes(t, p) for t, p in zip(ts, o[0]))), None)


def outcome(C, S, name, ts, xs):
    """What the call yields: a predicate over the observed outcome."""
    ov = pick_overload(S, name, ts)
    if ov is None:
        return refused(C)
    p, r, fn = ov
    try:
        w = fn(*[conv(x, q) for x, q in zip(xs, p)])
    except Bad:
        return refused(C)

    def ok(got):
        if got[0] != "return" or got[1] is None or got[1][0] != KIND[r]:
            return False
        g = got[1][1]
        if r == "f":
            return isinstance(g, float) and same_float(g, float(w), getattr(fn, "approx", False))
        return type(g) is type(w) and g == w
    ok.value = (r, w)
    return ok


def p11(C):
    import itertools
    C.load()
    V = V3(C)
    S = spec()
    ve = C.function(V3.SEMA + "::visit_expression", 1)
    C.rule("operator", "every operator node evaluates its operands as written, in order, and applies its own operator to them")
    C.rule("call", "a function call passes its arguments in order to the function of that name; the ternary operator selects by its condition")
    C.rule("literal", "a literal denotes the value it was read as; the predefined constants denote theirs")
    C.rule("nested", "the value of a compound expression is that of its parts, evaluated independently")

    def run(rule, label, mk, want, vs):
        C.verify(rule, label, lambda I: V.expr(I, mk), want, vars=vs, f=ve, view=expr_view)
    dom = DOM if C.thorough else SMALL
    for cls, op in list(UNARY.items()):
        for t in "bif":
            v = Var("x", dom[t])
            run("operator", "%s %s" % (cls, t), lambda b, v=v: b.un(cls, v), lambda env, v=v, t=t: outcome(C, S, op, t, [env[v]]), [v])
    for cls, op in BINARY.items():
        for t, u in itertools.product("bif", repeat=2):
            v, w = Var("x", dom[t]), Var("y", dom[u])
            run("operator", "%s %s%s" % (cls, t, u), lambda b, v=v, w=w: b.bin(cls, v, w),
                lambda env, v=v, w=w, t=t, u=u: outcome(C, S, op, t + u, [env[v], env[w]]), [v, w])
    for ts in itertools.product("bif", repeat=3):
        vs = [Var(n, SMALL3[t]) for n, t in zip("cxy", ts)]
        run("call", "ternary %s" % "".join(ts), lambda b: b.tern(*vs), lambda env: outcome(C, S, "operator?:", "".join(ts), [env[v] for v in vs]), vs)
    for name in sorted(n for n in S if not n.startswith("operator")):
        for t in "bif":
            v = Var("x", SMALL[t])
            run("call", "%s(%s)" % (name, t), lambda b: b.call(name, v), lambda env: outcome(C, S, name, t, [env[v]]), [v])
        run("call", "%s()" % name, lambda b: b.call(name, none=True), lambda env: refused(C), [])
    # functions of several arguments exist as operators only: call them by name to see the order
    for t, u in itertools.product("bif", repeat=2):
        v, w = Var("x", SMALL[t]), Var("y", SMALL[u])
        run("call", "operator-(%s, %s)" % (t, u), lambda b: b.call("operator-", v, w), lambda env: outcome(C, S, "operator-", t + u, [env[v], env[w]]), [v, w])
    for n in ("nosuch", "Sin", "operator"):
        run("call", "%s(1)" % n, lambda b: b.call(n, 1), lambda env: refused(C), [])
    for t in "bif":
        v = Var("x", DOM[t])
        run("literal", "literal %s" % KIND[t], lambda b: b.lit(v),
            lambda env: lambda got: got[0] == "return" and got[1][0] == KIND[t] and type(got[1][1]) is type(env[v]) and
            (same_float(got[1][1], env[v]) if t == "f" else got[1][1] == env[v]), [v])
    x = byte_var("x", LETTERS)
    for name in (sorted(n for n in S if not n.startswith("operator")) if C.thorough else ("sin", "sqrt", "acos", "abs", "log")):
        for shape in ([name.encode(), x], [x, name.encode()], [name[:-1].encode(), x], [x, name[1:].encode()]):
            run("call", "a function called %s" % "".join("*" if isinstance(z, Var) else z.decode() for z in shape), lambda b: b.call(sval(shape), 0.5),
                lambda env: outcome(C, S, n, "f", [0.5]) if (n := sbytes(shape, env).decode()) in S else refused(C), [x])
    for n, x in CONSTS.items():
        run("literal", n, lambda b: b.ident(n), lambda env: ("return", op_value(n)), [])
        for o in (n.upper(), n.capitalize(), n + " "):
            run("literal", o, lambda b: b.ident(o), lambda env: refused(C), [])
    # nesting: every operator under every other one, on either side
    classes = list(BINARY.items())
    for cls, op in classes:
        for cls2, op2 in classes if C.thorough else classes[::3]:
            for side in (0, 1):
                t = "b" if "Logical" in cls2 else "i"
                x, y, z = [SMALL[t][-1], SMALL[t][0], SMALL["i"][-2]] if t == "i" else [True, False, 2]

                def want(env):
                    inner = outcome(C, S, op2, t + t, [x, y])
                    if not hasattr(inner, "value"):
                        return refused(C)
                    r, w = inner.value
                    a = [(r, w), ("i", z)][::1 if side == 0 else -1]
                    return outcome(C, S, op, a[0][0] + a[1][0], [a[0][1], a[1][1]])

                def mk(b):
                    i = b.bin(cls2, x, y)
                    return b.bin(cls, i, z) if side == 0 else b.bin(cls, z, i)
                run("nested", "%s in %s, side %d" % (cls2, cls, side), mk, want, [])
    # every kind of node in every place of every kind of node, by an evaluator of its own
    def ev(e):
        """(type, value) or None if it must be refused."""
        if not isinstance(e, tuple):
            return ("b" if isinstance(e, bool) else "i" if isinstance(e, int) else "f", e)
        parts = [ev(x) for x in e[2:]]
        if any(p is None for p in parts):
            return None
        name = {"u": UNARY, "b": BINARY}.get(e[0], {}).get(e[1], e[1])
        o = outcome(C, S, name, "".join(p[0] for p in parts), [p[1] for p in parts])
        return getattr(o, "value", None)

    def tree(b, e):
        if not isinstance(e, tuple):
            return b.lit(e)
        xs = [tree(b, x) for x in e[2:]]
        return b.un(e[1], *xs) if e[0] == "u" else b.bin(e[1], *xs) if e[0] == "b" else b.tern(*xs) if e[0] == "t" else b.call(e[1], *xs)

    def check(label, e):
        w = ev(e)

        def want(env):
            if w is None:
                return refused(C)
            return lambda got: got[0] == "return" and got[1] is not None and got[1][0] == KIND[w[0]] and \
                (same_float(got[1][1], float(w[1]), True) if w[0] == "f" else type(got[1][1]) is type(w[1]) and got[1][1] == w[1])
        run("nested", label, lambda b: tree(b, e), want, [])
    tern, tern2 = ("t", "operator?:", True, 10, 20), ("t", "operator?:", False, 30, 40)
    inner = {"a minus": ("u", "UnaryMinusExpression", 7), "a complement": ("u", "BitwiseNotExpression", 6), "a not": ("u", "LogicalNotExpression", False),
             "a difference": ("b", "SubtractionExpression", 9, 4), "a comparison": ("b", "CmpLtExpression", 2, 3), "a conjunction": ("b", "LogicalAndExpression", True, True),
             "a true choice": tern, "a false choice": tern2, "a call": ("c", "sqrt", 9.0), "a choice of truths": ("t", "operator?:", False, True, False),
             "a choice of choices": ("t", "operator?:", False, tern, tern2), "a call of a call": ("c", "abs", ("c", "cos", 0.0)), "a negated minus": ("u", "UnaryMinusExpression", ("u", "UnaryMinusExpression", 3)),
             "a zero": 0, "a falsehood": False, "a fraction": 2.5}
    outer = [("u", c, None) for c in UNARY] + [("b", c, None, 3) for c in BINARY] + [("b", c, 11, None) for c in BINARY] + [("b", c, True, None) for c in BINARY if "Logical" in c] + \
        [("b", c, None, False) for c in BINARY if "Logical" in c] + \
        [("t", "operator?:", None, 5, 6), ("t", "operator?:", True, None, 6), ("t", "operator?:", False, 5, None), ("t", "operator?:", False, None, 6), ("t", "operator?:", True, 5, None),
         ("t", "operator?:", True, None, False), ("t", "operator?:", False, None, 2.0), ("c", "sin", None), ("c", "exp", None), ("c", "nosuch", None)]
    for o in outer:
        for n, i in inner.items():
            k = o.index(None)
            check("%s in place %d of %s" % (n, k - 1, o[1]), o[:k] + (i,) + o[k + 1:])
    for n, i in inner.items():
        for m, j in inner.items():
            check("a choice of %s and %s" % (n, m), ("t", "operator?:", n < m, i, j))
            if C.thorough:
                for c in BINARY:
                    check("%s of %s and %s" % (c, n, m), ("b", c, i, j))
    deep = [(lambda x: ("u", "UnaryMinusExpression", x)), (lambda x: ("b", "AdditionExpression", x, 1)), (lambda x: ("b", "SubtractionExpression", 1, x)),
            (lambda x: ("t", "operator?:", True, x, 0)), (lambda x: ("t", "operator?:", False, 0, x)), (lambda x: ("c", "abs", x))]
    for n in (6, 12) + tuple(min(k, 90) for k in C.sizes(12)):
        for k, w in enumerate(deep):
            e = 3
            for _ in range(n):
                e = w(e)
            check("%s, %d deep" % (("minus", "sum", "difference", "choice", "other choice", "call")[k], n), e)
    return "other", "Every operator, function and literal node evaluated by abstract interpretation of the semantic analyzer on every operand type."


# -------------------------------------------------------------------------------------------------------- P19 indices
def light(V, n=1):
    """An analyzer that knows the constants, the functions and the gate H."""
    def build(J):
        a = V.build_analyzer(J, True, True, False)
        f = V.C.functions_named(ANA + "::register_instruction", 2)[0]
        for t in ("Q", "V"):
            J.call_fn(f, [Cell(Str.lit("H")), Cell(OptV(True, Cell(Str.lit(t))))], a)
        J.call_fn(V.C.function("cqasm::v3x::instruction::InstructionSet::get_instance"), [])
        return a
    return lambda I: V.fresh(I, "light", build)


def first_stmt(r, val):
    """('ok', operand view) or ('refused', number of errors)"""
    blk = deref(deref(r.f["root"]).f["block"])
    st = [stmt_view(c, val) for c in blk.f["statements"].v.items]
    es = errors_view(r.f["errors"].v, val)
    if st and not es:
        return ("ok", st[0][3] if len(st) == 1 else st)
    return ("refused", len(es)) if not st else ("mixed", st, es)


def p19(C):
    C.load()
    V = V3(C)
    A = light(V)
    vi = C.function(V3.SEMA + "::visit_index", 1)
    C.rule("item", "an index selects exactly that element of its array; one below zero or at or beyond the size is refused, whatever the size")
    C.rule("range", "a range selects its elements in order, both ends included; an empty range, or one that leaves the array, is refused, however large")
    C.rule("list", "a list of indices and ranges selects their elements in the order written, and is refused if one part of it is")
    C.rule("base", "only arrays can be indexed, and only with constant integers (or what promotes to them)")

    def prog(decl, mk):
        def body(I):
            b = B(I)
            return V.analyze(I, b.program(decl(b), b.ginst("H", mk(b))), A(I))
        return body

    def need(elems):
        return ("return", ("refused", 1)) if elems is None else ("return", ("ok", (("index", "q", tuple(elems)),)))
    N = order_var("size", [1, 2, 5, MAX], 1, MAX)
    i = order_var("index", [MIN, -1, 0, 1, 2, 4, 5, MAX - 1, MAX], MIN, MAX)
    C.verify("item", "q[index] of a qubit[size]", prog(lambda b: b.var("qubit", "q", N), lambda b: b.index("q", i)),
             lambda env: need([env[i]] if 0 <= env[i] < env[N] else None), vars=[N, i], f=vi, view=first_stmt)
    a = order_var("first", [MIN, -1, 0, 1, 2, 3, MAX], MIN, MAX)
    z = order_var("last", [MIN, -1, 0, 1, 2, 3, MAX], MIN, MAX)
    for n in (1, 3) if not C.thorough else (1, 2, 3, 4):
        C.verify("range", "q[first:last] of a qubit[%d]" % n, prog(lambda b: b.var("qubit", "q", n), lambda b: b.index("q", (a, z))),
                 lambda env: need(range(env[a], env[z] + 1) if 0 <= env[a] <= env[z] < n else None), vars=[a, z], f=vi, view=first_stmt)
    for n in C.sizes(4, 5000):
        for lo, hi in ((1, n), (0, n), (0, n - 1), (n, n), (n, n + 1), (n + 1, n + 2), (n + 3, n + 3)):
            C.verify("range", "q[%d:%d] of a qubit[%d]" % (lo, hi, n + 3), prog(lambda b: b.var("qubit", "q", n + 3), lambda b: b.index("q", (lo, hi))),
                     lambda env: need(range(lo, hi + 1) if hi < n + 3 else None), f=vi, view=first_stmt)
        for k in (n - 1, n, n + 1):
            C.verify("item", "q[%d] of a qubit[%d]" % (k, n + 1), prog(lambda b: b.var("qubit", "q", n + 1), lambda b: b.index("q", k)),
                     lambda env: need([k] if k <= n else None), f=vi, view=first_stmt)
    for n in C.sizes(3):
        for bad in (False, True):
            C.verify("list", "%d indices%s" % (n, ", the last too large" if bad else ""), prog(lambda b: b.var("qubit", "q", 3), lambda b: b.index("q", *([k % 3 for k in range(n - 1)] + [3 if bad else 1]))),
                     lambda env: need(None if bad else [k % 3 for k in range(n - 1)] + [1]), f=vi, view=first_stmt)
    C.verify("range", "q[first:last] close to the largest integer", prog(lambda b: b.var("qubit", "q", MAX), lambda b: b.index("q", (MAX - 2, MAX - 1))),
             lambda env: need([MAX - 2, MAX - 1]), f=vi, view=first_stmt)
    import itertools
    parts = [0, 2, 3, -1, (0, 1), (1, 2), (2, 2), (2, 1), (1, 3), (-1, 0), (0, MAX), (-2, -1)]

    def flat(ps, n):
        out = []
        for p in ps:
            if isinstance(p, tuple):
                if not 0 <= p[0] <= p[1] < n:
                    return None
                out += range(p[0], p[1] + 1)
            else:
                if not 0 <= p < n:
                    return None
                out.append(p)
        return out
    K = Bulk(C, V, "list", vi, [lambda b: b.var("qubit", "q", 3)])
    for k in (1, 2, 3):
        for ps in itertools.product(parts if k < 3 or C.thorough else parts[:6], repeat=k):
            e = flat(ps, 3)
            w = None if e is None else ("gate", ("H", ("Qubit" if len(e) == 1 else "QubitArray",)), ("H", (), None), (("index", "q", tuple(e)),))
            K.add("q%s" % (list(ps),), lambda b, ps=ps: b.ginst("H", b.index("q", *ps)), w)
    K.run()
    K = Bulk(C, V, "base", vi, decls())
    Q = lambda v, kind="Qubit": ("gate", ("H", (kind,)), ("H", (), None), (v,))
    ix = [(True, 1), (False, 0), (1.0, None), ("pi", None), ("true", 1), ("q", None), ("bb", None), ("nosuch", None), (("qq", 0), None)]
    for x, e in ix:
        K.add("qq[%s]" % (x,), lambda b, x=x: b.ginst("H", b.node("Index", expr=b.ident("qq"), indices=b.node("IndexList", items=[b.item(op_node(b, x))]))),
              None if e is None else Q(("index", "qq", (e,))))
        for s in (0, 1):
            ends = (x, 2) if s == 0 else (0, x)
            w = None if e is None else (e, 2) if s == 0 else (0, e)
            K.add("qq[%s:%s]" % ends, lambda b, ends=ends: b.ginst("H", b.node("Index", expr=b.ident("qq"), indices=b.node("IndexList", items=[
                b.node("IndexRange", first=op_node(b, ends[0]), last=op_node(b, ends[1]))]))),
                None if w is None else Q(("index", "qq", tuple(range(w[0], w[1] + 1))), "Qubit" if w[0] == w[1] else "QubitArray"))
    K.add("qq[1 + 1]", lambda b: b.ginst("H", b.node("Index", expr=b.ident("qq"), indices=b.node("IndexList", items=[b.item(b.bin("AdditionExpression", 1, 1))]))),
          Q(("index", "qq", (2,))))
    K.add("qq[-1]", lambda b: b.ginst("H", b.node("Index", expr=b.ident("qq"), indices=b.node("IndexList", items=[b.item(b.un("UnaryMinusExpression", 1))]))), None)
    for n in ("q", "pi", "true", "nosuch", "b", "QQ"):
        K.add("%s[0]" % n, lambda b, n=n: b.ginst("H", b.index(n, 0)), None)
        K.add("%s[0:0]" % n, lambda b, n=n: b.ginst("H", b.index(n, (0, 0))), None)
    K.add("q1[0]", lambda b: b.ginst("H", b.index("q1", 0)), Q(("index", "q1", (0,))))
    K.add("q1[1]", lambda b: b.ginst("H", b.index("q1", 1)), None)
    K.add("bb[0]", lambda b: b.ginst("H", b.index("bb", 0)), None)
    K.run()
    return "other", "Index expressions over order types of sizes and indices, and over every combination of entries, by abstract interpretation."


# ---------------------------------------------------------------------------------------------------------- P20 names
def scopes(C, V):
    """Names declared in scopes around one another: the innermost one counts, and leaving a scope brings the outer one back."""
    import itertools
    C.rule("scopes", "of the declarations of a name in scopes around one another the innermost counts, while its scope is open")
    reg = C.function(ANA + "::register_variable", 2)
    res = C.function(ANA + "::resolve_variable", 1)
    push, pop = C.function(ANA + "::push_scope", 0), C.function(ANA + "::pop_scope", 0)
    DEPTH = 4 if C.thorough else 3

    def name(I, x):
        return Cell(Str.lit(x))
    for declared in itertools.product((False, True), repeat=DEPTH + 1):
        for other in (None, 0, DEPTH):
            def body(I):
                a = V.bare(I)
                out = []

                def look():
                    for n in ("v", "w"):
                        try:
                            out.append(value_view(I.rv(I.call_fn(res, [name(I, n)], a)), {}))
                        except CppThrow as x:
                            out.append(True if is_analysis_error(C, x.obj.cls) else x.obj.cls)
                for k, d in enumerate(declared):
                    if k:
                        I.call_fn(push, [], a)
                    if d:
                        I.call_fn(reg, [name(I, "v"), Cell(const_value(I, "i", k))], a)
                    if other == k:
                        I.call_fn(reg, [name(I, "w"), Cell(const_value(I, "i", 100 + k))], a)
                    look()
                for k in range(DEPTH):
                    I.call_fn(pop, [], a)
                    look()
                return out

            def want(env):
                v, w, at = None, None, []
                st = []
                out = []
                for k, d in enumerate(declared):
                    v = k if d else v
                    w = 100 + k if other == k else w
                    st.append((v, w))
                    out += [v, w]
                for k in range(DEPTH):
                    st.pop()
                    out += list(st[-1])
                return ("return", [True if x is None else ("int", x) for x in out])
            C.verify("scopes", "declared in scopes %s%s" % ([k for k, d in enumerate(declared) if d], "" if other is None else ", another in scope %d" % other), body, want, f=res,
                     view=lambda r, val: r)


LETTERS = [c for c in range(128) if chr(c).isalnum() or c == 95]


def spelling(C, V, vv, A):
    """One name declared and one used, which differ in any letter, or by a letter at either end."""
    fill = b"aB_3c"
    x, y = byte_var("x", LETTERS), byte_var("y", LETTERS)
    x0, y0 = byte_var("x", [c for c in LETTERS if not 48 <= c <= 57]), byte_var("y", [c for c in LETTERS if not 48 <= c <= 57])
    cases = [([fill, x], [fill]), ([fill], [fill, x]), ([x0, fill], [fill]), ([fill], [x0, fill]), ([b"q"], [b"q", x]), ([b"q", x], [b"q"]), ([x0], [y0]), ([b"a", x, b"b"], [b"ab"]),
             ([b"ab"], [b"a", x, b"b"]), ([b"a", x, b"b"], [b"a", y, b"b"]), ([b"ab", x], [b"ab", y]), ([x0, b"ab"], [y0, b"ab"]), ([x0, b"1"], [b"a", y])]
    for d, u in cases:
        fv = [z for z in d + u if isinstance(z, Var)]
        lab = " ".join("".join("*" if isinstance(z, Var) else z.decode() for z in w) for w in (d, u))
        for how in ("use", "declare"):
            def body(I, d=d, u=u, how=how):
                b = B(I)
                du, uu = sval(d), sval(u)
                return V.analyze(I, b.program(b.var("qubit", du), b.ginst("H", b.ident(uu)) if how == "use" else b.var("qubit", uu)), A(I))

            def view(r, val):
                k = result_view(r, val)
                return (len(k["errors"]), [v[0] for v in k["variables"]], [st[3][0][1] for st in k["statements"]])

            def want(env, d=d, u=u, how=how):
                dn, un = (sbytes(z, env).decode() for z in (d, u))
                if dn in CONSTS or un in CONSTS and how == "declare":
                    return lambda got: True
                if how == "use":
                    return ("return", (0, [dn], [un]) if dn == un else (1, [dn], []))
                return ("return", (1, [dn], []) if dn == un else (0, [dn, un], []))
            C.verify("declare" if how == "use" else "redeclare", "%s, %s" % (lab, how), body, want, vars=fv, f=vv, view=view)


def p20(C):
    import itertools
    C.load()
    V = V3(C)
    vv = C.function(V3.SEMA + "::visit_variable", 1)
    C.rule("declare", "a name stands for the last thing declared under exactly that spelling, from its declaration on; using any other name is an error")
    C.rule("redeclare", "declaring a name twice, or the name of a predefined constant, is an error at the second declaration, and the first one stands")
    C.rule("type", "a declaration makes a variable of the declared type and size, in declaration order; sizes below one and unknown types are refused")
    names = ["q", "Q", "qq", "pi"]

    def sim(seq):
        decl, errs, sts = {n: None for n in CONSTS}, [], []
        vs = []
        for k, (op, n) in enumerate(seq):
            if op == "d":
                if n in decl:
                    errs.append(k)
                else:
                    decl[n] = "v"
                    vs.append(n)
            elif decl.get(n) == "v":
                sts.append((k, n))
            else:
                errs.append(k)
        return vs, errs, sts
    def run(seqs, rule):
        for seq in seqs:
            def body(I, seq=seq):
                b = B(I)
                body.lines = []
                st = []
                for op, n in seq:
                    lo = b.line + 1
                    st.append(b.var("qubit", n) if op == "d" else b.ginst("H", n))
                    body.lines.append((lo, b.line))
                return V.analyze(I, b.program(*st), A(I))

            def view(r, val):
                d = result_view(r, val)
                at_ = lambda l: next((k for k, (x, y) in enumerate(body.lines) if l and x <= l[0] <= y), None)
                blk = deref(deref(r.f["root"]).f["block"])
                locs = [where_of(deref(c), val) for c in blk.f["statements"].v.items]
                return (sorted(at_(l) if at_(l) is not None else -1 for m, l in d["errors"]), [(at_(l), s[3][0][1]) for l, s in zip(locs, d["statements"])],
                        [v[0] for v in d["variables"]])

            def want(env, seq=seq):
                vs, errs, sts = sim(seq)
                return lambda got: got[0] == "return" and got[1][0] == errs and got[1][1] == sts and got[1][2] == vs
            C.verify(rule, " ".join("%s %s" % x for x in seq), body, want, f=vv, view=view)
    A = light(V)
    ops = [(o, n) for n in names[:3] for o in "du"]
    run([s for k in (1, 2, 3) for s in itertools.product(ops, repeat=k)] if C.thorough else
        [s for k in (1, 2) for s in itertools.product(ops, repeat=k)] +
        [s for s in itertools.product(ops[:4], repeat=3)], "declare")
    run([(("d", n), ("u", n)) for n in list(CONSTS) + ["PI", "True", "operator-", "sin", "H"]], "redeclare")
    run([(("d", "q"), ("d", x), ("u", "q"), ("u", x)) for x in ("q", "qb", "Q", "q1", "pi")], "redeclare")
    for n in C.sizes(4):
        run([[("d", "q%d" % k) for k in range(n)] + [("u", "q%d" % k) for k in range(n)] + [("d", "q%d" % k) for k in range(n)]], "declare")
        run([(("d", "a" * n), ("d", "a" * (n - 1) + "b"), ("u", "a" * n), ("u", "a" * (n - 1) + "b"), ("u", "a" * (n + 1)), ("u", "a" * (n - 1)), ("d", "a" * n))], "redeclare")
    spelling(C, V, vv, A)
    scopes(C, V)
    N = order_var("size", [MIN, -1, 0, 1, 2, 7, MAX], MIN, MAX)
    for t in ("qubit", "bit"):
        def body(I, t=t):
            b = B(I)
            return V.analyze(I, b.program(b.var(t, "x", N)), A(I))
        C.verify("type", "%s[size] x" % t, body, lambda env, t=t: ("return", ([], [("x", (KINDS[t][1], env[N]))]) if env[N] > 0 else (1, [])), vars=[N], f=vv,
                 view=lambda r, val: ([], result_view(r, val)["variables"]) if not r.f["errors"].v.items else (len(r.f["errors"].v.items), []))
    K = [("qubit", None), ("bit", None), ("qubit", 2), ("bit", 1)]
    for k in (1, 2, 3):
        for ts in itertools.product(K, repeat=k):
            def body(I, ts=ts):
                b = B(I)
                return V.analyze(I, b.program(*[b.var(t, "x%d" % j, n) for j, (t, n) in enumerate(ts)]), A(I))
            C.verify("type", "declarations %s" % (ts,), body,
                     lambda env, ts=ts: ("return", ([], [("x%d" % j, (KINDS[t][n is not None], n or 1)) for j, (t, n) in enumerate(ts)])), f=vv,
                     view=lambda r, val: (result_view(r, val)["errors"], result_view(r, val)["variables"]))
    for t in ("int", "Qubit", "float", "", "bool", "qubi", "bits"):
        def body(I, t=t):
            b = B(I)
            return V.analyze(I, b.program(b.var(t, "x")), A(I))
        C.verify("type", "%s x" % t, body, lambda env: ("return", 1), f=vv, view=lambda r, val: len(r.f["errors"].v.items))
    return "other", "All sequences of declarations and uses of confusable names up to a length, sizes over order types, by abstract interpretation."


# --------------------------------------------------------------------------------------------------------- P16 errors
def stmt_kinds():
    """label -> (builder(b, k), view it must become or None)"""
    H = lambda v: ("gate", ("H", ("Qubit",)), ("H", (), None), (v,))
    return {
        "gate": (lambda b, k: b.ginst("H", "q"), H(("var", "q"))),
        "unknown gate": (lambda b, k: b.ginst("nosuch", "q"), None),
        "undeclared operand": (lambda b, k: b.ginst("H", "nosuch"), None),
        "bad index": (lambda b, k: b.ginst("H", b.index("qq", 3)), None),
        "bad parameter": (lambda b, k: b.ginst(b.gate("Rx", ["q"]), "q"), None),
        "bad operand": (lambda b, k: b.ginst("H", "b"), None),
        "bad sizes": (lambda b, k: b.ginst("CNOT", "q", "qq"), None),
        "measure": (lambda b, k: b.ng("measure", ["b", b.index("qq", 1)]),
                    ("nongate", ("measure", ("Bit", "Qubit")), "measure", (("var", "b"), ("index", "qq", (1,))), ())),
        "bad measure": (lambda b, k: b.ng("measure", ["bb", "q"]), None),
        "wait": (lambda b, k: b.ng("wait", ["qq"], [k]), lambda k: ("nongate", ("wait", ("QubitArray",)), "wait", (("var", "qq"),), (("int", k),))),
        "bad wait": (lambda b, k: b.ng("wait", ["qq"], [0.5]), None),
        "asm": (lambda b, k: b.asm("backend", "code %d" % k), lambda k: ("asm", "backend", "code %d" % k)),
        "declaration": (lambda b, k: b.var("bit", "v%d" % k), lambda k: ("declares", "v%d" % k)),
        "redeclaration": (lambda b, k: b.var("bit", "q"), None),
    }


def more_kinds():
    """Further ways for a statement to be invalid, and a few valid ones of the same shape."""
    H = lambda v: ("gate", ("H", ("Qubit",)), ("H", (), None), (v,))
    div = lambda b: b.bin("DivisionExpression", 1, 0)
    return {
        "parameter that fails": (lambda b, k: b.ginst(b.gate("Rx", [div(b)]), "q"), None),
        "undeclared parameter": (lambda b, k: b.ginst(b.gate("Rx", ["nosuch"]), "q"), None),
        "failing parameter of a gate without": (lambda b, k: b.ginst(b.gate("X", [div(b)]), "q"), None),
        "undeclared parameter of a gate without": (lambda b, k: b.ginst(b.gate("X", ["nosuch"]), "q"), None),
        "parameter of a gate without": (lambda b, k: b.ginst(b.gate("X", [1]), "q"), None),
        "failing parameter under a modifier": (lambda b, k: b.ginst(b.gate("inv", [], b.gate("Rx", [div(b)])), "q"), None),
        "undeclared exponent": (lambda b, k: b.ginst(b.gate("pow", ["nosuch"], b.gate("X")), "q"), None),
        "failing exponent": (lambda b, k: b.ginst(b.gate("pow", [div(b)], b.gate("X")), "q"), None),
        "unknown gate under a modifier": (lambda b, k: b.ginst(b.gate("inv", [], b.gate("nosuch")), "q"), None),
        "unknown modifier": (lambda b, k: b.ginst(b.gate("nosuch", [], b.gate("X")), "q"), None),
        "control without a second operand": (lambda b, k: b.ginst(b.gate("ctrl", [], b.gate("X")), "q"), None),
        "two bad operands": (lambda b, k: b.ginst("CNOT", "nosuch", "neither"), None),
        "bad gate and bad operand": (lambda b, k: b.ginst("nosuch", "neither"), None),
        "failing wait": (lambda b, k: b.ng("wait", ["qq"], [div(b)]), None),
        "undeclared wait": (lambda b, k: b.ng("wait", ["qq"], ["nosuch"]), None),
        "wait with two parameters": (lambda b, k: b.ng("wait", ["qq"], [1, 2]), None),
        "index that fails": (lambda b, k: b.ginst("H", b.index("qq", div(b))), None),
        "undeclared index": (lambda b, k: b.ginst("H", b.index("qq", "nosuch")), None),
        "index of an undeclared variable": (lambda b, k: b.ginst("H", b.index("nosuch", 0)), None),
        "index of a scalar": (lambda b, k: b.ginst("H", b.index("q", 0)), None),
        "reversed range": (lambda b, k: b.ginst("H", b.index("qq", (1, 0))), None),
        "undeclared measure": (lambda b, k: b.ng("measure", ["nosuch", "q"]), None),
        "measure out of range": (lambda b, k: b.ng("measure", ["b", b.index("qq", 3)]), None),
        "init of a bit": (lambda b, k: b.ng("init", ["b"]), None),
        "empty array": (lambda b, k: b.var("qubit", "e%d" % k, 0), None),
        "qubit declared": (lambda b, k: b.var("qubit", "v%d" % k), lambda k: ("declares", "v%d" % k)),
        "qubit array declared": (lambda b, k: b.var("qubit", "v%d" % k, 2), lambda k: ("declares", "v%d" % k)),
        "bit array declared": (lambda b, k: b.var("bit", "v%d" % k, 3), lambda k: ("declares", "v%d" % k)),
        "reset": (lambda b, k: b.ng("reset", ["qq"]), ("nongate", ("reset", ("QubitArray",)), "reset", (("var", "qq"),), ())),
        "two-qubit gate": (lambda b, k: b.ginst("CNOT", "q", b.index("qq", 0)),
                           ("gate", ("CNOT", ("Qubit", "Qubit")), ("CNOT", (), None), (("var", "q"), ("index", "qq", (0,))))),
    }


def p16(C):
    import itertools
    C.load()
    V = V3(C)
    fp = C.function(V3.SEMA + "::visit_program", 1)
    fa = C.function(ANA + "::analyze", 1, lambda f: "ParseResult" in f["params"][0]["t"])
    C.rule("statements", "every invalid statement yields exactly one error, located in it and in program order, and never becomes part of the tree; every valid "
                         "one does, whatever surrounds it")
    C.rule("version", "a program of any other language version than the analyzer's yields an error at its version, besides the errors of its statements")
    C.rule("parse errors", "the errors of a failed parse are passed on unchanged and in order, with no tree, and nothing is analysed")
    kinds = stmt_kinds()
    D = decls()

    def seq_view(info):
        def view(r, val):
            d = result_view(r, val)
            own = lambda l: next((k for k, (x, y) in enumerate(info["lines"]) if l and x <= l[0] <= y), None)
            root = deref(r.f["root"])
            if root is None or deref(root.f["block"]) is None:
                return ([own(l) for m, l in d["errors"]], None, None, False)
            blk = deref(root.f["block"])
            locs = [where_of(deref(c), val) for c in blk.f["statements"].v.items]
            wf = models.well_formed(C.interp(), root)
            return ([own(l) for m, l in d["errors"]], [(own(l), s) for l, s in zip(locs, d["statements"])], [v[0] for v in d["variables"]][len(DECLS):], wf)
        return view

    def check(seq):
        info = {}

        def body(I):
            I.MAX_STEPS = 20_000_000
            b = B(I)
            st = [d(b) for d in D]
            info["lines"] = []
            for k, n in enumerate(seq):
                lo = b.line + 1
                st.append(kinds[n][0](b, k))
                info["lines"].append((lo, b.line))
            return V.analyze(I, b.program(*st))

        def want(env):
            errs = [k for k, n in enumerate(seq) if kinds[n][1] is None]
            good = [(k, kinds[n][1](k) if callable(kinds[n][1]) else kinds[n][1]) for k, n in enumerate(seq) if kinds[n][1] is not None]
            sts = [g for g in good if g[1][0] != "declares"]
            vs = [g[1][1] for g in good if g[1][0] == "declares"]
            return lambda got: got[0] == "return" and got[1][0] == errs and got[1][1] == sts and got[1][2] == vs and (errs or got[1][3])
        C.verify("statements", "; ".join(seq[:20]) or "nothing", body, want, f=fp, view=seq_view(info))
    names = list(kinds)
    extra = more_kinds()
    kinds.update(extra)
    for n in extra:
        check((n,))
        for o in names if C.thorough else ("gate", "bad index", "declaration"):
            check((n, o))
            check((o, n))
    if C.thorough:
        for s in itertools.product(extra, repeat=2):
            check(s)
    check(())
    for n in names:
        check((n,))
    for s in itertools.product(names, repeat=2):
        check(s)
    triples = list(itertools.product(names, repeat=3))
    for s in triples if C.thorough else triples[::37]:
        check(s)
    check(tuple(extra))
    check(tuple(names))
    check(tuple(reversed(names)))
    for n in C.sizes(len(names)):
        check((names * n)[:n])
        check(("unknown gate",) * n + ("gate",))
        check(("gate",) * n + ("bad index",) * 2)
    # versions
    a, m = order_var("major", [0, 2, 3, 4, 31], 0, (1 << 31) - 1), order_var("minor", [0, 1, 2], 0, (1 << 31) - 1)
    p = order_var("patch", [0, 1], 0, (1 << 31) - 1)
    for items in ((a,), (a, m), (a, m, p), (), (3, 0, 0, 0), (-1,), (3, -1)):
        for bad in (False, True):
            info = {}

            def body(I):
                b = B(I)
                st = [b.var("qubit", "q"), b.ginst("nosuch" if bad else "H", "q")]
                info["bad"] = b.line
                pr = b.program(*st, version=items)
                info["v"] = deref(pr.c.v.f["version"].v).line
                return V.analyze(I, pr)

            def view(r, val):
                d = result_view(r, val)
                return ([("version" if l and l[0] == info["v"] else "statement" if l and l[0] <= info["bad"] else l) for x, l in d["errors"]],
                        len(d["statements"]), d["version"], d["api_version"])

            def want(env):
                xs = [env[x] if isinstance(x, Var) else x for x in items]
                ok = (xs + [0] * 4)[:4] == [3, 0, 0, 0]
                return lambda got: got[0] == "return" and got[1][0] == ([] if ok else ["version"]) + (["statement"] if bad else []) and \
                    got[1][1] == (0 if bad else 1) and got[1][3] == [3, 0] and (got[1][2] == xs if ok else True)
            C.verify("version", "version %s%s" % (".".join(str(getattr(x, "name", x)) for x in items), " with a bad statement" if bad else ""), body, want,
                     vars=[x for x in items if isinstance(x, Var)], f=fp, view=view)
    # parse results
    for n in list(range(4)) + C.sizes(3):
        for tree in (False, True):
            def body(I):
                pr = I.zero("cqasm::v3x::parser::ParseResult")
                pr = pr if isinstance(pr, Obj) else I.rv(pr)
                b = B(I)
                if tree:
                    pr.f["root"].v = b.program(b.var("qubit", "q"), b.ginst("nosuch", "q"))
                ctor = C.function("cqasm::error::Error::Error", 2, lambda f: "inits" in f and "Annotatable" in f["params"][1]["t"])
                for k in range(n):
                    e = I.construct_ctor(ctor, "cqasm::error::Error", [Cell(Str((Atom("message%d" % k, True),))), Cell(Ptr(None, "raw"))])
                    pr.f["errors"].v.items.append(Cell(I.rv(e)))
                an = V.analyzer(I)
                r = I.rv(I.call_fn(fa, [Cell(pr)], an))
                same = len(r.f["errors"].v.items) == n and all(
                    deref(x).f["message_"].v.p == (Atom("message%d" % k, True),) for k, x in enumerate(r.f["errors"].v.items)) if n else None
                return (same, deref(r.f["root"]) is None, len(r.f["errors"].v.items))
            if n == 0 and not tree:
                continue
            C.verify("parse errors", "%d parse errors%s" % (n, ", with a partial tree" if tree else ""), body,
                     lambda env: ("return", (True, True, n)) if n else ("return", (None, False, 1)), f=fa, view=lambda v, val: v)
    return "other", "Every sequence of valid and invalid statements up to a length, versions over order types, and failed parses, by abstract interpretation."


# ------------------------------------------------------------------------------------------------------------ P25 reuse
def shape(x, names=None):
    """Structure of an abstract heap up to the identity of its cells."""
    names = {} if names is None else names
    if isinstance(x, (Cell, Obj, Vec, MapV, Tup, Arr, OptV, Ptr, AnyV, Lam)):
        k = id(x)
        if k in names:
            return ("#", names[k])
        names[k] = len(names)
        names.setdefault("keep", []).append(x)
    if isinstance(x, Cell):
        return ("c", shape(x.v, names))
    if isinstance(x, Obj):
        return ("o", x.cls, tuple((n, shape(c, names)) for n, c in x.f.items()), tuple((n, shape(c, names)) for n, c in x.ann.items()))
    if isinstance(x, (Vec, Tup, Arr)):
        return (type(x).__name__, tuple(shape(c, names) for c in x.items))
    if isinstance(x, MapV):
        return ("m", tuple((shape(a, names), shape(b, names)) for a, b in x.items))
    if isinstance(x, OptV):
        return ("?", x.has, shape(x.cell, names) if x.has else None)
    if isinstance(x, Ptr):
        return ("p", None if x.c is None else shape(x.c, names))
    if isinstance(x, AnyV):
        return ("any", x.t, shape(x.cell, names))
    if isinstance(x, Lam):
        return ("lam", id(x.node))
    if isinstance(x, Fn):
        return ("fn", repr(x))
    return x if isinstance(x, (int, float, str, bytes, bool, type(None), tuple)) else repr(x)


def diff(a, b, path=""):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + ("." + a[1] if a[0] == "o" and isinstance(a[1], str) else "") + "/" + (x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else str(i)))
            if d:
                return d
    return "%s: %s -> %s" % (path[-120:], str(a)[:80], str(b)[:80])


def p25(C):
    import itertools
    C.load()
    V = V3(C)
    f = C.function(ANA + "::analyze", 1, lambda f: "Program" in f["params"][0]["t"])
    C.rule("restored", "analysing a program leaves the analyzer exactly as it was: no declaration, statement, mapping or scope of it stays behind")
    C.rule("repeatable", "the result for a program does not depend on the programs analysed before with the same analyzer, nor is an earlier result changed by later ones")
    C.rule("copies", "a copy of an analyzer is independent of the original, and gives the same results")
    progs = {
        "empty": lambda b: b.program(),
        "declares q": lambda b: b.program(b.var("qubit", "q", 2), b.ginst("H", "q")),
        "declares q as bit": lambda b: b.program(b.var("bit", "q"), b.var("qubit", "r"), b.ng("measure", ["q", "r"])),
        "uses q": lambda b: b.program(b.ginst("H", "q")),
        "redeclares": lambda b: b.program(b.var("qubit", "q"), b.var("qubit", "q"), b.ginst("X", "q")),
        "wrong version": lambda b: b.program(b.var("qubit", "q"), version=(9,)),
        "asm": lambda b: b.program(b.asm("x", "y")),
        "modifiers": lambda b: b.program(b.var("qubit", "q", 3), b.ginst(b.gate("ctrl", [], b.gate("pow", [2], b.gate("X"))), b.index("q", 0), b.index("q", (1, 1)))),
    }

    def view(r, val):
        d = result_view(r, val)
        return (d["errors"], d["statements"], d["variables"], d["version"])
    small = list(progs)
    for n in C.sizes(4):
        progs["%d variables, statements and errors" % n] = lambda b, n=n: b.program(*[b.var("qubit", "q%d" % k) for k in range(n)], *[b.ginst("H" if k % 2 else "nosuch", "q%d" % k) for k in range(2 * n)])
    alone = {}
    for n, mk in progs.items():
        st = {}

        def body(I):
            I.MAX_STEPS = 20_000_000
            a = V.analyzer(I)
            g0 = shape([a.v] and a)
            r = V.analyze(I, mk(B(I)), a)
            st["d"] = diff(g0, shape(a))
            st["r"] = view(r, {})
            return st["d"]
        C.verify("restored", n, body, lambda env: ("return", None), f=f, view=lambda v, val: v)
        alone[n] = st.get("r")
    seqs = list(itertools.product(small, repeat=2)) + (list(itertools.product(small, repeat=3)) if C.thorough else [])
    seqs += [tuple(itertools.islice(itertools.cycle(small), n)) for n in C.sizes(3, 120)]
    seqs += [s for n in progs if n not in small for s in ((n, n), (n, small[0]), (small[1], n))]
    for seq in seqs:
        def body(I):
            I.MAX_STEPS = 20_000_000
            a = V.analyzer(I)
            rs = [V.analyze(I, progs[n](B(I)), a) for n in seq]
            return [view(r, {}) for r in rs]
        C.verify("repeatable", "; ".join(seq[:8]), body, lambda env: ("return", [alone[n] for n in seq]), f=f, view=lambda v, val: v)
    cc = [x for x in C.functions_named(ANA + "::Analyzer", 1) if "Analyzer" in x["params"][0]["t"]]
    for n, mk in progs.items():
        def body(I):
            a = V.analyzer(I)
            c = Cell(I.copy(a))
            s0 = shape(a)
            reg = C.functions_named(ANA + "::register_instruction", 2)[0]
            I.call_fn(reg, [Cell(Str.lit("mine")), Cell(OptV(True, Cell(Str.lit("Q"))))], c)
            rv = C.functions_named(ANA + "::register_variable", 2)[0]
            I.call_fn(rv, [Cell(Str.lit("mine")), Cell(const_value(I, "i", 1))], c)
            d = diff(s0, shape(a))
            return (d, view(V.analyze(I, mk(B(I)), c), {}))
        C.verify("copies", n, body, lambda env: ("return", (None, alone[n])), f=f, view=lambda v, val: v)
    return "other", "Structural comparison of the analyzer before and after abstractly interpreting an analysis, and of results across sequences of programs."


# --------------------------------------------------------------------------------------------- P28 the tree of a success
def p28(C):
    import itertools
    C.load()
    V = V3(C)
    D = decls()
    fg = C.function(V3.SEMA + "::visit_gate_instruction", 1)
    fn = C.function(V3.SEMA + "::visit_non_gate_instruction", 1)
    fa = C.function(V3.SEMA + "::visit_asm_declaration", 1)
    fv = C.function(V3.SEMA + "::visit_variable", 1)
    C.rule("located", "every statement, gate, value, index and variable of the result carries the source location of the very construct it came from")
    C.rule("annotations", "annotations stay attached, in order, to what they annotate, with their interface, operation and operands")
    C.rule("text", "names and raw code pass through unchanged, whatever they contain")
    C.rule("linked", "an operand refers to the declared variable itself; the tree is complete: nothing required is missing, nothing is owned twice, no link dangles")
    C.rule("covered", "the program's block has a location that covers all of its statements")

    def line(x, val):
        w = where_of(deref(x), val)
        return None if w is None else w[0] if (w[1], w[2], w[3]) == (1, w[0], 9) else w

    def prog(info, mk, *extra):
        def body(I):
            b = B(I)
            ds = [d(b) for d in D]
            info["vars"] = ds
            s = mk(b)
            info["s"] = s
            r = V.analyze(I, b.program(*ds, *(s if isinstance(s, list) else [s])))
            return r
        return body

    def errs(r):
        return len(r.f["errors"].v.items)

    def only(r, k=0):
        return deref(deref(deref(r.f["root"]).f["block"]).f["statements"].v.items[k])
    # located
    def sl(p):
        """Lines of a syntactic expression list, with those of index entries."""
        out = []
        for c in deref(p).f["items"].v.items:
            o = deref(c)
            e = (o.line,)
            if o.cls.endswith("::Index"):
                for i in deref(o.f["indices"]).f["items"].v.items:
                    io = deref(i)
                    n = 1
                    if io.cls.endswith("IndexRange"):
                        lo, hi = [deref(io.f[k]).f["value"].v for k in ("first", "last")]
                        n = hi - lo + 1
                    e += (io.line,) * n
            out.append(e)
        return out

    def vl(vec, val):
        return [(line(c, val),) + (tuple(line(i, val) for i in deref(c).f["indices"].v.items) if deref(c).cls.endswith("IndexRef") else ()) for c in vec.items]

    def gl(g):
        o = deref(g)
        return None if o is None else (o.line, sl(o.f["parameters"]), gl(o.f["gate"]))

    def gv(g, val):
        o = deref(g)
        return None if o is None else (line(g, val), vl(o.f["parameters"].v, val), gv(o.f["gate"], val))
    def chain(g, val):
        """The names of a gate and of those it modifies."""
        out = []
        while deref(g) is not None:
            n = deref(g).f["name"]
            out.append(txt(n if isinstance(n.v, Str) else deref(n).f["name"], val))
            g = deref(g).f["gate"]
        return out
    ops1 = [["q"], ["qq"], [("qq", 0)], [("qq", 0, 2)], [("qq", (0, 2))], [("qq", (0, 1), 2)]]
    gates = [("H", (), None), ("Rx", (1,), None), ("Rx", (0.5,), None), ("Rx", ("pi",), None), ("U", (True, 1, 0.5), None), ("inv", (), ("X", (), None)),
             ("pow", (2,), ("inv", (), ("Rx", (1,), None)))]
    for k in (2, 3, 4) if C.thorough else (2, 3):       # modifiers upon modifiers, equal ones too
        for ms in itertools.product(("inv", "pow"), repeat=k):
            g = ("X" if ms[-1] == "inv" else "S", (), None)
            for j, x in enumerate(ms):
                g = (x, (j + 2,) if x == "pow" else (), g)
            gates.append(g)
    two = [("CNOT", (), None), ("CRk", (True,), None), ("ctrl", (), ("pow", (2,), ("Rx", (1,), None)))]
    cases = [(g, o) for g in gates for o in ops1] + [(g, o) for g in two for o in (["q", "q1"], [("qq", 0, 1), ("qr", (0, 1))])]
    for g, o in cases:
        info = {}

        def view(r, val):
            s = only(r)
            n = deref(info["s"])
            return ((line(s, val), gv(s.f["gate"], val), vl(s.f["operands"].v, val), chain(s.f["gate"], val)), (n.line, gl(n.f["gate"]), sl(n.f["operands"]), chain(n.f["gate"], val)))
        C.verify("located", "%s %s" % (g, o), prog(info, lambda b: b.ginst(gate_node(b, g), *[op_node(b, x) for x in o])),
                 lambda env: lambda got: got[0] == "return" and got[1][0] == got[1][1], f=fg, view=view)
    exprs = {"a parenthesised sum": lambda b: b.bin("AdditionExpression", 1, 2), "a unary minus": lambda b: b.un("UnaryMinusExpression", 1), "a call": lambda b: b.call("sqrt", 4),
             "a conditional": lambda b: b.tern(True, 1, 2)}
    for n, e in exprs.items():
        info = {}

        def view(r, val):
            s = only(r)
            return (gv(s.f["gate"], val)[1], sl(deref(deref(info["s"]).f["gate"]).f["parameters"]))
        C.verify("located", "Rx of " + n, prog(info, lambda b: b.ginst(b.gate("Rx", [e(b)]), "q")), lambda env: lambda got: got[0] == "return" and got[1][0] == got[1][1], f=fg, view=view)
    for name, o, ps in [("measure", ["b", "q"], []), ("measure", ["bb", "qq"], [1, 2, 0.5]), ("measure", [("bb", 0, 2), ("qq", (0, 1))], []), ("reset", [("qq", 1)], []),
                        ("init", ["qq"], []), ("barrier", ["q"], []), ("wait", ["qq"], [3]), ("wait", ["q"], [True])]:
        info = {}

        def view(r, val):
            s = only(r)
            n = deref(info["s"])
            return ((line(s, val), vl(s.f["operands"].v, val), vl(s.f["parameters"].v, val)), (n.line, sl(n.f["operands"]), sl(n.f["parameters"])))
        C.verify("located", "%s%s %s" % (name, ps, o), prog(info, lambda b: b.ng(name, [op_node(b, x) for x in o], ps)),
                 lambda env: lambda got: got[0] == "return" and got[1][0] == got[1][1], f=fn, view=view)
    info = {}
    C.verify("located", "variables", prog(info, lambda b: []),
             lambda env: lambda got: got[0] == "return" and got[1][0] == got[1][1], f=fv,
             view=lambda r, val: ([line(c, val) for c in deref(r.f["root"]).f["variables"].v.items], [deref(deref(d).f["name"]).line for d in info["vars"]]))
    info = {}
    C.verify("located", "asm", prog(info, lambda b: b.asm("x", "y")), lambda env: lambda got: got[0] == "return" and got[1][0] == got[1][1], f=fa,
             view=lambda r, val: (line(only(r), val), deref(info["s"]).line))
    # annotations
    NAMED = {"distinct": lambda k: ("if%d" % k, "op%d" % k), "alike": lambda k: ("if", "op"), "of one interface": lambda k: ("if", "op%d" % (k % 2)),
             "of one operation": lambda k: ("if%d" % (k % 2), "op"), "unnamed": lambda k: ("", ""), "in descending order": lambda k: ("if%d" % (9 - k), "op%d" % (9 - k)),
             "that differ in case": lambda k: ("IF" if k % 2 else "if", "oP" if k % 3 else "Op")}

    def ann(b, k, ops, names=NAMED["distinct"]):
        return b.node("AnnotationData", interface=b.ident(names(k)[0]), operation=b.ident(names(k)[1]), operands=b.elist(ops))

    def annv(o, val):
        return [(txt(deref(c).f["interface"], val), txt(deref(c).f["operation"], val), tuple(value_view(x, val) for x in deref(c).f["operands"].v.items), line(c, val))
                for c in o.f["annotations"].v.items]
    lists = [[], [()], [(1,), (2, 0.5)], [(), ("q", "pi"), (True,)]]
    lists += [[(1,)] * n for n in C.sizes(3)] + [[(1, 0.5) * n] for n in C.sizes(2, 400)]
    shapes = {"gate instruction": lambda b, a: b.ginst("H", "q", annotations=a), "gate": lambda b, a: b.ginst(b.gate("H", annotations=a), "q"),
              "inner gate": lambda b, a: b.ginst(b.gate("inv", inner=b.gate("X", annotations=a)), "q"), "variable": lambda b, a: b.var("qubit", "nv", annotations=a),
              "gate instruction with parameters": lambda b, a: b.ginst(b.gate("Rx", [1]), "qq", annotations=a),
              "gate with parameters": lambda b, a: b.ginst(b.gate("Rx", [1], annotations=a), ("q")),
              "gate of two qubits": lambda b, a: b.ginst("CNOT", "q", "q1", annotations=a),
              "array": lambda b, a: b.var("bit", "nv", 3, annotations=a), "asm": lambda b, a: b.asm("x", "y", annotations=a)}
    for name, o, ps in [("measure", ["b", "q"], []), ("measure", ["bb", "qq"], [1, 2, 0.5]), ("reset", [("qq", 1)], []), ("init", ["qq"], []),
                        ("barrier", ["q"], []), ("wait", ["qq"], [3])]:
        shapes["%s%s" % (name, ps or "")] = lambda b, a, name=name, o=o, ps=ps: b.ng(name, [op_node(b, x) for x in o], ps, annotations=a)
    flds = {"gate instruction": lambda r: only(r), "gate": lambda r: deref(only(r).f["gate"]), "inner gate": lambda r: deref(deref(only(r).f["gate"]).f["gate"]),
            "variable": lambda r: deref(deref(r.f["root"]).f["variables"].v.items[-1])}
    flds["array"], flds["gate with parameters"] = flds["variable"], flds["gate"]
    alike = [[(), ()], [(1,), (1,)], [(1,), (2, 0.5), (1,)]]
    for n, L, kind in [(n, L, "distinct") for n in shapes for L in lists] + [(n, L, kind) for n in (shapes if C.thorough else ("gate instruction", "inner gate", "variable", "asm", "measure"))
                                                                              for L in alike for kind in NAMED]:
            info = {}
            names = NAMED[kind]

            def mk(b):
                a = [ann(b, k, ops, names) for k, ops in enumerate(L)]
                info["a"] = [deref(x).line for x in a]
                return shapes[n](b, a)
            C.verify("annotations", "%d annotations %s of a %s" % (len(L), kind, n), prog(info, mk),
                     lambda env: ("return", [names(k) + (tuple(op_value(x) for x in ops), info["a"][k]) for k, ops in enumerate(L)]),
                     f=C.function(V3.SEMA + "::visit_annotation_data", 1), view=lambda r, val: annv(flds.get(n, only)(r), val))
    for bad in ([["nosuch"]], [[1], ["nosuch", 2]], [["nosuch", "nosuch2"]]):
        info = {}

        def mk(b):
            return b.ginst("H", "q", annotations=[ann(b, k, ops) for k, ops in enumerate(bad)])
        C.verify("annotations", "annotations with errors %s" % bad, prog(info, mk),
                 lambda env: ("return", sum(1 for l in bad for x in l if isinstance(x, str))), f=fg, view=lambda r, val: errs(r))
    # text
    nm, code = Str((Atom("name", True),)), Str((Atom("code", True),))
    C.verify("text", "asm", prog({}, lambda b: b.node("AsmDeclaration", backend_name=b.node("Identifier", name=nm), backend_code=code)),
             lambda env: ("return", (nm.p, code.p)), f=fa, view=lambda r, val: (only(r).f["backend_name"].v.p, only(r).f["backend_code"].v.p))
    for cd in ("", " ", "\n", "\n x \n\n", "\r\n\tx\r\n ", "a\0b", "\0", "'", "''x''", "\\n\\", "\u00e9 \u20ac", "//x", "/* x */", "CODE code") + tuple("c\n" * (n // 2) + "c" * (n % 2) for n in C.sizes(20, 5000)):
        for nm_ in ("B", "b", "_x1", "asm"):
            C.verify("text", "asm(%s) of the code %.20r" % (nm_, cd), prog({}, lambda b: b.asm(nm_, cd)), lambda env: ("return", (nm_, cd.encode().decode("latin-1"))), f=fa,
                     view=lambda r, val: (txt(only(r).f["backend_name"], val), txt(only(r).f["backend_code"], val)))
    for nm_ in ("Q", "_", "a_very_long_name_of_a_variable", "x" * 300) + tuple("n" * n for n in C.sizes(20, 5000)):
        C.verify("text", "variable %.20r" % nm_, prog({}, lambda b: b.var("bit", nm_, 2)), lambda env: ("return", (0, nm_)), f=fv,
                 view=lambda r, val: (errs(r), None if errs(r) else txt(deref(deref(r.f["root"]).f["variables"].v.items[-1]).f["name"], val)))
    C.verify("text", "variable", prog({}, lambda b: b.node("Variable", name=b.node("Identifier", name=nm), typ=b.node("Type", name=b.kw("bit"), size=None), annotations=[])),
             lambda env: lambda got: got[0] == "return" and got[1] in ((0, nm.p), (1, None)), f=fv,
             view=lambda r, val: (errs(r), None if errs(r) else deref(deref(r.f["root"]).f["variables"].v.items[-1]).f["name"].v.p))
    # linked
    K = stmt_kinds()
    good = [n for n in K if K[n][1] is not None]
    for seq in itertools.product(good, repeat=2):
        def body(I):
            b = B(I)
            r = V.analyze(I, b.program(*[d(b) for d in D], *[K[n][0](b, k) for k, n in enumerate(seq)]))
            root = deref(r.f["root"])
            own = {id(deref(c)): txt(deref(c).f["name"], {}) for c in root.f["variables"].v.items}
            links = []
            for c in deref(root.f["block"]).f["statements"].v.items:
                if "operands" in deref(c).f:
                    for o in deref(c).f["operands"].v.items:
                        links.append(own.get(id(deref(deref(o).f["variable"]))))
            return (errs(r), models.well_formed(I, root), None in links)
        C.verify("linked", "; ".join(seq), body, lambda env: ("return", (0, True, False)), f=fg, view=lambda v, val: v)
    # covered
    fc = C.function(ANA + "::add_statement_to_current_scope", 1)
    cs = [[order_var("%s%d" % (n, k), [1, 2, 3], 0) for n in ("line", "col", "lastline", "lastcol")] for k in range(2)]
    for which in itertools.product(range(3), repeat=2):
        vs = []

        def body(I):
            b = B(I)
            st = [b.asm("a", "b"), b.asm("c", "d")]
            for k, w in enumerate(which):
                l, c, ll, lc = cs[k][0], cs[k][1], cs[k][0], cs[k][1]
                f = [Fn.of(cs[k][0]), 2, 3, 9] if w == 0 else [2, Fn.of(cs[k][1]), 2, 9] if w == 1 else [1, 5, Fn.of(cs[k][2]), Fn.of(cs[k][3])]
                deref(st[k]).ann[SL] = Cell(loc_obj(Str.lit("in.cq"), *f))
            return V.analyze(I, b.program(*st))
        for k, w in enumerate(which):
            vs += [cs[k][0]] if w == 0 else [cs[k][1]] if w == 1 else cs[k][2:]

        def locs(env):
            out = []
            for k, w in enumerate(which):
                f = [env[cs[k][0]], 2, 3, 9] if w == 0 else [2, env[cs[k][1]], 2, 9] if w == 1 else [1, 5, env[cs[k][2]], env[cs[k][3]]]
                out.append(f)
            return out

        def want(env):
            L = locs(env)
            if any(tuple(l[:2]) > tuple(l[2:]) for l in L):
                return None
            lo = min((l[0], l[1]) for l in L)
            hi = max((l[2], l[3]) for l in L)
            return ("return", lo + hi)
        C.verify("covered", "statements located as %s" % (which,), body, want, vars=vs, f=fc,
                 view=lambda r, val: where_of(deref(deref(r.f["root"]).f["block"]), val))
    return "other", "Field-by-field comparison of syntactic and semantic trees produced by abstract interpretation of the analyzer."
