"""P07 versions."""
from checks_text import lengths_for
from harness import *
from absint import CppThrow
import models

V = "cqasm::version::Version"
LONG_MAX = (1 << 63) - 1
INT_MAX = (1 << 31) - 1


def comps(d):
    return d["$base"] if isinstance(d, dict) else d


def version_obj(items):
    o = Obj(V)
    o.f["$base"] = Cell(Vec([Cell(x) for x in items]))
    return o


def p07(C):
    C.load(["src/version.cpp"])
    C.rule("parse", "dot-separated decimal numbers become exactly those components in order, an empty text no component; anything without a number in some "
                    "component, and any negative or too large number, is refused with an exception")
    C.rule("compare", "versions compare as zero-padded sequences: ==, !=, <, <=, >, >= and <=> agree with it, hence form a total order")
    C.rule("print", "a version prints as its components joined with dots")
    sctor = C.function(V + "::Version", 1, lambda f: "inits" in f and "string" in f["params"][0]["t"])
    cctor = C.function(V + "::Version", 1, lambda f: "inits" in f and f["params"][0]["t"].replace(" ", "") == "constchar*")
    cmp_ = C.function(V + "::compare")
    out = C.function("cqasm::version::operator<<", 2)
    digit = list(range(48, 58))

    def parse(b):
        if not b:
            return []
        try:
            return [int(x) for x in b.split(b".")] if all(x.isdigit() for x in b.split(b".")) else None
        except ValueError:
            return None

    def want_parse(b):
        p = parse(b)
        if p is not None:
            if any(x > INT_MAX for x in p):
                return lambda got: got[0] == "throw" and "range" in got[1]
            return lambda got: got[0] == "return" and comps(got[1]) == p
        # malformed: a component with no leading number, or a negative one
        import re
        for x in b.split(b"."):
            m = re.match(rb"[ \t\n\v\f\r]*([+-]?)[0-9]+", x)
            if not m or (m.group(1) == b"-" and int(m.group(0)) != 0):
                return lambda got: got[0] == "throw" and got[1].startswith("std::")
        return ("any",)
    D = lambda n: byte_var(n, digit)
    B = lambda n: byte_var(n)
    shapes = [[], [B("c0")], [B("c0"), B("c1")], [D("a"), b".", D("b")], [D("a"), b".", D("b"), b".", D("c")], [D("a"), D("b"), D("c")],
              [D("a"), B("x"), D("b")], [b"1.", B("x"), b".2"], [b"1.2", B("x")], [B("x"), b"1.2"], [b"10.", B("x")], [B("x"), b".7"],
              [b"1.2.3.4.5.6.7.8.", D("a")], [b"2147483647.", D("a")], [b"214748364", D("a")], [b"1.214748364", D("a")], [b"99999999999", D("a")],
              [b"0.0.", D("a")], [b"0", D("a"), b".00", D("b")], [b"-", B("x")], [b"3.-", B("x")], [b"3.", B("x"), B("y")], [b".", B("x")], [b"12345", B("x"), b"678"]]
    for L in lengths_for(C, [sctor], 300):
        shapes.append([(b"1." * L)[:L - 1], D("a")] if L % 2 else [(b"1." * L)[:L - 2], D("a"), D("b")])
        shapes.append([b"1" + b"0" * max(0, min(L, 9) - 3), D("a"), b".2" * 5])
    for s in shapes:
        free = [v for v in s if isinstance(v, Var)]
        nm = "/".join(v.name if isinstance(v, Var) else repr(v)[1:24] for v in s) or "empty"
        C.verify("parse", "parsing %s" % nm, lambda I, s=s: I.construct_ctor(sctor, V, [Cell(sval(s))]), lambda env, s=s: want_parse(sbytes(s, env)), vars=free, f=sctor)
    for s in ([], [D("a"), b".", D("b")]):
        free = [v for v in s if isinstance(v, Var)]
        C.verify("parse", "parsing a C string", lambda I, s=s: I.construct_ctor(cctor, V, [CStr(sval(s))]), lambda env, s=s: want_parse(sbytes(s, env)), vars=free, f=cctor)
    # comparisons
    vals = [0, 1, 2, (1 << 31) - 1, LONG_MAX]
    for n in range(4):
        for m in range(4):
            for dom in (vals,):
                vs = [order_var("a%d" % i, dom, 0, LONG_MAX) for i in range(n)] + [order_var("b%d" % i, dom, 0, LONG_MAX) for i in range(m)]
                if n + m > 4:
                    dom2 = [0, 1, LONG_MAX]
                    for v in vs:
                        v.dom = list(dom2)
                A, Bv = vs[:n], vs[n:]

                def sides(I):
                    return Cell(version_obj([Fn.of(v) for v in A])), Cell(version_obj([Fn.of(v) for v in Bv]))

                def want(env):
                    a, b = [env[v] for v in A], [env[v] for v in Bv]
                    k = max(len(a), len(b))
                    a, b = a + [0] * (k - len(a)), b + [0] * (k - len(b))
                    return ("return", (a > b) - (a < b))
                C.verify("compare", "compare, %d against %d components" % (n, m), lambda I: I.call_fn(cmp_, [sides(I)[1]], sides(I)[0]), want, vars=vs, f=cmp_)

                def wantops(env):
                    s = want(env)[1]
                    return ("return", (s == 0, s != 0, s < 0, s <= 0, s > 0, s >= 0))
                if n + m <= 4 or C.thorough:
                    def ops(I):
                        a, b = sides(I)
                        return Tup([Cell(I.rv(models.binary(I, op, a, b))) for op in ("==", "!=", "<", "<=", ">", ">=")])
                    C.verify("compare", "operators, %d against %d components" % (n, m), ops, wantops, vars=vs, f=cmp_)
    for L in [8, 20] + C.sizes(20, 200):
        for i in (0, L // 2, L - 1):
            a = order_var("a", vals, 0, LONG_MAX)
            base = [1] * L

            def body(I, i=i, base=base, a=a):
                x = list(base)
                x[i] = Fn.of(a)
                return Tup([Cell(I.rv(I.call_fn(cmp_, [Cell(version_obj(base))], Cell(version_obj(x))))),
                            Cell(I.rv(I.call_fn(cmp_, [Cell(version_obj(x))], Cell(version_obj(base)))))])
            C.verify("compare", "compare, %d components, position %d" % (L, i), body,
                     lambda env, a=a: ("return", ((env[a] > 1) - (env[a] < 1), (env[a] < 1) - (env[a] > 1))), vars=[a], f=cmp_)
    # printing
    for n in (0, 1, 2, 3, 9):
        vs = [order_var("a%d" % i, [0, 7, 10, LONG_MAX], 0, LONG_MAX) for i in range(min(n, 3))]
        rest = list(range(4, 4 + n - len(vs)))

        def body(I, vs=vs, rest=rest):
            st = Cell(Stream())
            I.call_fn(out, [st, Cell(version_obj([Fn.of(v) for v in vs] + rest))])
            return st.v
        C.verify("print", "printing %d components" % n, body, lambda env, vs=vs, rest=rest: ("return", b".".join(b"%d" % x for x in [env[v] for v in vs] + rest)),
                 vars=vs, f=out)
    return "other", ("Value-set abstract interpretation of both constructors, the comparison, the operators derived from it and the printer, over texts "
                     "with free bytes at the positions that matter and components of every order type.")
