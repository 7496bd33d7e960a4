"""P03 source ranges, P04 printing of source locations."""
from absint import Atom
from harness import *
import models

NS = "cqasm::annotations::SourceLocation"
BIG = [1, 255, 256, (1 << 31), (1 << 32) - 1]


def index_obj(line, col):
    o = Obj(NS + "::Index")
    o.f["line"], o.f["column"] = Cell(line), Cell(col)
    return o


def range_obj(a, b, c, d):
    o = Obj(NS + "::Range")
    o.f["first"], o.f["last"] = Cell(index_obj(a, b)), Cell(index_obj(c, d))
    return o


def loc_obj(name, a, b, c, d):
    o = Obj(NS)
    o.f["file_name"] = Cell(OptV(False) if name is None else OptV(True, Cell(name)))
    o.f["range"] = Cell(range_obj(a, b, c, d))
    return o


def rng_of(d):
    return (d["first"]["line"], d["first"]["column"], d["last"]["line"], d["last"]["column"])


def ovars(names, dom):
    return [order_var(n, dom) for n in names]


def p03(C):
    C.load(["src/annotations.cpp"])
    C.rule("ctor", "a range never ends before it starts: the last position is the later of the two given, the first is kept")
    C.rule("expand", "expanding a location moves its ends outwards just enough to contain the given position")
    C.rule("name", "a location keeps its file name and range; an empty file name counts as no file name")
    C.rule("order", "indices and ranges compare lexicographically by line then column, equality compares every component")
    C.rule("locorder", "locations order by their range alone and are equal when both file name and range are")
    ctor = C.function(NS + "::Range::Range", 2, lambda f: "inits" in f and f["params"][0]["t"].endswith("Index &"))
    exp = C.function(NS + "::expand_to_include")
    lctor = C.function(NS + "::SourceLocation", 2)
    for dom in ([0, 1, 2, 3, 10], BIG):
        vs = ovars(("fl", "fc", "ll", "lc"), dom)
        fl, fc, ll, lc = vs

        def body(I):
            return I.construct_ctor(ctor, NS + "::Range", [Cell(index_obj(Fn.of(fl), Fn.of(fc))), Cell(index_obj(Fn.of(ll), Fn.of(lc)))])

        def want(env):
            a, b = (env[fl], env[fc]), (env[ll], env[lc])
            return lambda got: got[0] == "return" and rng_of(got[1]) == a + max(a, b)
        C.verify("ctor", "Range(first, last)", body, want, vars=vs, f=ctor)
        vs6 = vs + ovars(("il", "ic"), dom)
        il, ic = vs6[4:]

        def body2(I):
            o = Cell(loc_obj(Str((Atom("file", True),)), Fn.of(fl), Fn.of(fc), Fn.of(ll), Fn.of(lc)))
            I.call_fn(exp, [Cell(index_obj(Fn.of(il), Fn.of(ic)))], o)
            return o.v

        def want2(env):
            a, b, i = (env[fl], env[fc]), (env[ll], env[lc]), (env[il], env[ic])
            if b < a:
                return None
            return lambda got: got[0] == "return" and rng_of(got[1]["range"]) == min(a, i) + max(b, i) and got[1]["file_name"] == (Atom("file", True),)
        C.verify("expand", "expand_to_include", body2, want2, vars=vs6, f=exp)
        for name in (None, Str(), Str((Atom("file", True),))):
            def body3(I, name=name):
                r = range_obj(Fn.of(fl), Fn.of(fc), Fn.of(ll), Fn.of(lc))
                n = OptV(False) if name is None else OptV(True, Cell(name))
                return I.construct_ctor(lctor, NS, [Cell(n), Cell(r)])
            kept = (Atom("file", True),) if name is not None and name.p else None
            C.verify("name", "SourceLocation(%s, range)" % ("no name" if name is None else "a name" if name.p else "an empty name"), body3,
                     lambda env, kept=kept: (lambda got: got[0] == "return" and got[1]["file_name"] == kept and
                                             rng_of(got[1]["range"]) == (env[fl], env[fc], env[ll], env[lc])), vars=vs, f=lctor)
    for s in ([byte_var("n0")], [byte_var("n0"), byte_var("n1", CLASS_REPS)]):
        C.verify("name", "SourceLocation with a name of %d bytes" % len(s),
                 lambda I, s=s: I.construct_ctor(lctor, NS, [Cell(OptV(True, Cell(sval(s)))), Cell(range_obj(1, 2, 3, 4))]),
                 lambda env, s=s: (lambda got: got[0] == "return" and got[1]["file_name"] == sbytes(s, env)), vars=s, f=lctor)
    cmpw = {"==": lambda a, b: a == b, "<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b,
            "!=": lambda a, b: a != b}
    where = {"file": C.prog.records[NS]["file"], "line": C.prog.records[NS]["line"], "n": NS}
    for dom in ([0, 1, 2], [7, 300, (1 << 32) - 1]):
        a = ovars(("al", "ac", "bl", "bc"), dom)
        for op in cmpw:
            C.verify("order", "Index %s Index" % op,
                     lambda I, op=op: models.binary(I, op, Cell(index_obj(Fn.of(a[0]), Fn.of(a[1]))), Cell(index_obj(Fn.of(a[2]), Fn.of(a[3])))),
                     lambda env, op=op: ("return", cmpw[op]((env[a[0]], env[a[1]]), (env[a[2]], env[a[3]]))), vars=a, f=where)
        b = ovars(("a1", "a2", "a3", "a4", "b1", "b2", "b3", "b4"), dom[:2])
        for op in cmpw:
            C.verify("order", "Range %s Range" % op,
                     lambda I, op=op: models.binary(I, op, Cell(range_obj(*map(Fn.of, b[:4]))), Cell(range_obj(*map(Fn.of, b[4:])))),
                     lambda env, op=op: ("return", cmpw[op](tuple(env[v] for v in b[:4]), tuple(env[v] for v in b[4:]))), vars=b, f=where)
            for n1, n2 in ((None, None), ("x", "x"), ("x", "y"), (None, "x")):
                def body4(I, op=op, n1=n1, n2=n2):
                    return models.binary(I, op, Cell(loc_obj(n1 and Str.lit(n1), *map(Fn.of, b[:4]))), Cell(loc_obj(n2 and Str.lit(n2), *map(Fn.of, b[4:]))))

                def want4(env, op=op, n1=n1, n2=n2):
                    x, y = tuple(env[v] for v in b[:4]), tuple(env[v] for v in b[4:])
                    if op in ("==", "!="):
                        return ("return", (x == y and n1 == n2) == (op == "=="))
                    return ("return", cmpw[op](x, y))
                C.verify("locorder", "SourceLocation %s SourceLocation, names %s and %s" % (op, n1, n2), body4, want4, vars=b, f=where)
    return "other", ("Value-set abstract interpretation of the constructors, expand_to_include and the comparison operators (defaulted ones by their "
                     "member-wise meaning over the declared fields); lines and columns range over order-type domains refined with every constant "
                     "the code compares them with, plus representatives of every integer width.")


def location_text(name, fl, fc, ll, lc):
    s = name
    if fl == 0:
        return s
    s += b":%d" % fl
    if fc == 0:
        if ll > fl:
            s += b"..%d" % ll
        return s
    s += b":%d" % fc
    if ll == fl:
        if lc > fc:
            s += b"..%d" % lc
    elif ll > fl:
        s += b"..%d:%d" % (ll, lc)
    return s


def p04(C):
    C.load(["src/annotations.cpp"])
    C.rule("print", "a location prints as name[:line[..line]|:line:column[..[line:]column]], zero meaning unknown and a missing name a placeholder")
    pr = C.function("cqasm::annotations::operator<<", 2)
    for dom in ([0, 1, 2, 3, 10], [0, 9, 10, 99, 100, (1 << 31), (1 << 32) - 1]):
        vs = ovars(("fl", "fc", "ll", "lc"), dom)
        for name in (None, Str((Atom("file", True),)), Str.lit("a b:1.cq")):
            def body(I, name=name):
                st = Cell(Stream())
                r = I.call_fn(pr, [st, Cell(loc_obj(name, *map(Fn.of, vs)))])
                if I.rv(r) is not st.v:
                    raise UB("the stream operator does not return its stream")
                return st.v

            def want(env, name=name):
                t = location_text(b"", *(env[v] for v in vs))
                if name is None:
                    return ("return", b"<unknown file name>" + t)
                c = name.concrete()
                if c is not None:
                    return ("return", c + t)
                w = (Atom("file", True),) + ((t,) if t else ())
                return lambda got: got[0] == "return" and (got[1] == w)
            C.verify("print", "printing with %s" % ("no file name" if name is None else "a file name"), body, want, vars=vs, f=pr)
    return "other", ("Value-set abstract interpretation of the stream operator for every order type of the four coordinates (including zero and every "
                     "constant the code compares with), with an absent, an arbitrary and a literal file name; the text is compared with the specified one.")
