"""P05 error objects, P06 results."""
import json

from absint import Atom, CppThrow
from consts import int_constants
from checks_location import BIG, NS, loc_obj, location_text, ovars, range_obj, rng_of
from checks_text import json_decodes, lengths_for, url
from harness import *
import models

ERR = "cqasm::error::Error"
UNKNOWN = b"<unknown error message>"


def node(loc=None):
    o = Obj("tree::annotatable::Annotatable")
    if loc is not None:
        o.ann[NS] = Cell(loc)
    return Cell(o)


def strict_json(b):
    def pairs(l):
        if len({k for k, _ in l}) != len(l):
            raise ValueError("duplicate key")
        return dict(l)
    return json.loads(b.decode("latin-1"), object_pairs_hook=pairs)


def error_doc(msg, loc):
    """The diagnostic object for a message and (name, fl, fc, ll, lc) or None."""
    pos = loc[1:] if loc else (0, 0, 0, 0)
    d = {"range": {"start": {"line": pos[0], "character": pos[1]}, "end": {"line": pos[2], "character": pos[3]}},
         "message": msg.decode("latin-1"), "severity": 1}
    if loc and loc[0] is not None:
        z = {"line": 0, "character": 0}
        d["relatedInformation"] = [{"location": {"uri": "file:///" + url(loc[0]).decode("latin-1"), "range": {"start": z, "end": z}},
                                    "message": UNKNOWN.decode()}]
    return d


def ctor(C, kind):
    fs = C.functions_named(ERR + "::Error", None, lambda f: "inits" in f)
    pick = {"node": lambda f: len(f["params"]) == 2 and f["params"][1]["t"].endswith("*"),
            "loc": lambda f: len(f["params"]) == 2 and "shared_ptr" in f["params"][1]["t"],
            "range": lambda f: len(f["params"]) == 3}[kind]
    fs = [f for f in fs if pick(f)]
    if len(fs) != 1:
        raise Broken("error constructor %s: %d found" % (kind, len(fs)))
    return fs[0]


def make(I, C, msg, loc=None, kind="range"):
    """An error object built by the real constructor."""
    if kind == "range":
        name = OptV(False) if loc[0] is None else OptV(True, Cell(loc[0]))
        return I.construct_ctor(ctor(C, "range"), ERR, [Cell(msg), Cell(name), Cell(range_obj(*loc[1:]))])
    if kind == "loc":
        p = Ptr(None, "smart") if loc is None else Ptr(Cell(loc_obj(*loc)), "smart")
        return I.construct_ctor(ctor(C, "loc"), ERR, [Cell(msg), Cell(p)])
    return I.construct_ctor(ctor(C, "node"), ERR, [Cell(msg), Ptr(node(loc_obj(*loc)) if loc else None)])


def p05(C):
    C.load(["src/error.cpp", "src/utils.cpp", "src/annotations.cpp"])
    C.rule("location", "an error takes its location from the given node, location or range, and a later context never replaces it")
    C.rule("what", "the text of an error is 'Error', ' at ' and its location if it has one, ': ' and its message; an empty message reads as unknown")
    C.rule("json", "the JSON form is a valid object with exactly the error's range, message, severity and, for a known file, its URL")
    what = C.function(ERR + "::what")
    tj = C.function(ERR + "::to_json")
    ctxf = C.function(ERR + "::context")
    pr = C.function("cqasm::error::operator<<", 2)
    m = Str((Atom("msg", True),))
    fname = Str((Atom("file", True),))
    vs = ovars(("fl", "fc", "ll", "lc"), [0, 1, 2, 70000])
    V = [Fn.of(v) for v in vs]

    def loc_text(env, name):
        t = location_text(b"", *(env[v] for v in vs))
        if name is None:
            return (b"<unknown file name>" + t,)
        return (Atom("file", True),) + ((t,) if t else ())

    def glue(*ps):
        out = []
        for p in ps:
            if isinstance(p, bytes) and out and isinstance(out[-1], bytes):
                out[-1] += p
            elif p != b"":
                out.append(p)
        return out[0] if len(out) == 1 and isinstance(out[0], bytes) else tuple(out)
    ordered = lambda env: (env[vs[0]], env[vs[1]]) <= (env[vs[2]], env[vs[3]])
    for msg in (m, Str()):
        mt = Atom("msg", True) if msg.p else UNKNOWN
        for kind, loc in (("range", (fname,)), ("range", (None,)), ("loc", (fname,)), ("loc", (None,)), ("loc", None), ("node", (fname,)), ("node", (None,)), ("node", None)):
            def body(I, msg=msg, kind=kind, loc=loc):
                e = Cell(make(I, C, msg, (loc[0],) + tuple(V) if loc else None, kind))
                return Tup([models.to_string(I, I.call_fn(what, [], e)), models.to_string(I, I.call_fn(what, [], e))])

            def want(env, kind=kind, loc=loc, mt=mt):
                if loc and not ordered(env):
                    return None
                t = glue(b"Error", *((b" at ",) + loc_text(env, loc[0]) if loc else ()), b": ", mt)
                return ("return", (t, t))
            C.verify("what", "text of an error built from %s%s" % (kind, "" if msg.p else " with an empty message"), body, want, vars=vs if loc else (), f=what)
    # streaming an error prints its text
    def bodys(I):
        st = Cell(Stream())
        I.call_fn(pr, [st, Cell(make(I, C, m, (fname, 1, 2, 3, 4), "loc"))])
        return st.v
    C.verify("what", "streaming an error", bodys, lambda env: ("return", (b"Error at ", Atom("file", True), b":1:2..3:4: ", Atom("msg", True))), f=pr)
    # location precedence
    firsts = [None] + [(n,) + q for n in ("a", None, "") for q in ((1, 2, 3, 4), (0, 0, 0, 0), (7, 0, 7, 0))]
    for first in firsts:
        for kind in (("loc", "node") if first is None else ("range", "loc", "node")):
            for second in (None, ("b", 5, 6, 7, 8), (None, 5, 6, 7, 8), ("a", 0, 0, 0, 0), (None, 0, 0, 0, 0)):
                def body(I, first=first, kind=kind, second=second):
                    conv = lambda l: (Str.lit(l[0]) if l[0] is not None else None,) + l[1:] if l else None
                    e = Cell(make(I, C, m, conv(first), kind))
                    I.call_fn(ctxf, [node(loc_obj(*conv(second)) if second else None)], e)
                    I.call_fn(ctxf, [node(loc_obj(Str.lit("c"), 9, 9, 9, 9))], e)
                    return e.v.f["location_"].v

                def want(env, first=first, second=second):
                    w = first or second or ("c", 9, 9, 9, 9)
                    return lambda got: got[0] == "return" and got[1] is not None and (got[1]["file_name"] or None) == (w[0].encode() if w[0] else None) and rng_of(got[1]["range"]) == w[1:]
                C.verify("location", "context after construction from %s (%s), node %s" % (kind, "at %r" % (first,) if first else "unlocated", "at %r" % (second,) if second else "unlocated"),
                         body, want, f=ctxf)
    # a text or JSON asked for earlier leaves the later ones as they would be without it
    for kind in ("loc", "node", "range"):
        for first in (None, ("a", 1, 2, 3, 4)):
            if kind == "range" and first is None:
                continue
            for second in (None, ("b", 5, 6, 7, 8)):
                for asked in (what, tj):
                    for copied in (False, True):
                        def body(I, first=first, second=second, kind=kind, asked=asked, copied=copied):
                            conv = lambda l: (Str.lit(l[0]),) + l[1:] if l else None
                            e = Cell(make(I, C, Str.lit("m"), conv(first), kind))
                            I.call_fn(asked, [], e)
                            if copied:
                                e = Cell(I.copy(e.v))
                            I.call_fn(ctxf, [node(loc_obj(*conv(second)) if second else None)], e)
                            return Tup([models.to_string(I, I.call_fn(what, [], e)), I.call_fn(tj, [], e)])

                        def want(env, first=first, second=second):
                            w = first or second

                            def ok(got):
                                if got[0] != "return":
                                    return False
                                text = b"Error" + (b" at %s:%d:%d..%d:%d" % ((w[0].encode(),) + w[1:]) if w else b"") + b": m"
                                return got[1][0] == text and strict_json(got[1][1]) == error_doc(b"m", (w[0].encode(),) + w[1:] if w else None)
                            return ok
                        C.verify("what", "%s of a%s, located by %s (%s), then by a node %s" % (asked["n"], " copied error" if copied else "n error", kind, first, second),
                                 body, want, f=what)
    # JSON
    for kind in ("loc", "range", "node"):
        for name in (None, b"a/b c.cq"):
            def body(I, kind=kind, name=name):
                e = Cell(make(I, C, Str.lit('say "hi"\n'), (Str.lit(name) if name else None,) + tuple(V), kind))
                return I.call_fn(tj, [], e)

            def want(env, name=name):
                if not ordered(env):
                    return None

                def ok(got):
                    try:
                        return got[0] == "return" and strict_json(got[1]) == error_doc(b'say "hi"\n', (name,) + tuple(env[v] for v in vs))
                    except Exception:
                        return False
                return ok
            C.verify("json", "JSON of an error built from %s, file %s" % (kind, name), body, want, vars=vs, f=tj)
    shapes = [[], [byte_var("m0")], [byte_var("m0", CLASS_REPS), byte_var("m1", CLASS_REPS)]]
    for n in lengths_for(C, [tj]):
        fill = (b"q{}\"" * n)[:n]
        shapes += [[byte_var("m0"), fill[1:]], [fill[:-1], byte_var("m%d" % (n - 1))]]
    for s in shapes:
        free = [v for v in s if isinstance(v, Var)]
        for loc in (None, (b"f", 1, 2, 3, 4)):
            def body(I, s=s, loc=loc):
                return I.call_fn(tj, [], Cell(make(I, C, sval(s), (Str.lit(loc[0]),) + loc[1:] if loc else None, "loc")))

            def want(env, s=s, loc=loc):
                b = sbytes(s, env)

                def ok(got):
                    try:
                        return got[0] == "return" and strict_json(got[1]) == error_doc(b or UNKNOWN, loc)
                    except Exception:
                        return False
                return ok
            C.verify("json", "JSON of a message of %d bytes%s" % (sum(len(x) if isinstance(x, bytes) else 1 for x in s), ", located" if loc else ""),
                     body, want, vars=free, f=tj)
        if free and len(s) <= 2:
            def body(I, s=s):
                return I.call_fn(tj, [], Cell(make(I, C, Str.lit("m"), (sval(s), 1, 2, 3, 4), "loc")))

            def want(env, s=s):
                def ok(got):
                    try:
                        return got[0] == "return" and strict_json(got[1]) == error_doc(b"m", (sbytes(s, env), 1, 2, 3, 4))
                    except Exception:
                        return False
                return ok
            C.verify("json", "JSON of a file name of %d bytes" % sum(len(x) if isinstance(x, bytes) else 1 for x in s), body, want, vars=free, f=tj)
    return "other", ("Value-set abstract interpretation of the three error constructors, context, what, the stream operator and to_json over every "
                     "order type of the four coordinates, absent/arbitrary file names and messages with free bytes; the JSON text is parsed and compared "
                     "with the specified document.")


RESULTS = (("cqasm::v3x::parser::ParseResult", "cqasm::v3x::syntactic::Root"), ("cqasm::v3x::analyzer::AnalysisResult", "cqasm::v3x::semantic::Program"))


def result_obj(I, C, cls, root, errs):
    o = Obj(cls)
    for b in C.prog.records[cls].get("bases", ()):
        raise Broken("%s has a base class" % cls)
    if root is not None:
        root.label = "root"
    o.f["root"] = Cell(Ptr(Cell(root), "tree") if root is not None else Ptr(None, "tree"))
    o.f["errors"] = Cell(Vec([Cell(e) for e in errs]))
    return o


def p06(C):
    C.load()
    C.rule("strings", "a result without errors renders as the serialized tree alone; otherwise the first string is empty and the others are every error's text, in order")
    C.rule("json", "a result with errors renders as {\"errors\": [...]} holding every error's JSON in order, one without errors as the tree's JSON")
    C.rule("unwrap", "unwrapping hands out the tree when there is no error, and otherwise writes every error in order and throws")
    counts = list(range(0, 4)) + [9, 17] + ([33, 100] if C.thorough else [])
    probe = [C.function(cls + "::" + m) for cls, _ in RESULTS for m in ("to_strings", "to_json")]
    for c in int_constants(C.prog, probe):
        counts += [x for x in (c - 1, c, c + 1) if 0 <= x <= 150]
    counts += C.sizes(max(counts), 150)
    for cls, rootcls in RESULTS:
        ts, tj = C.function(cls + "::to_strings"), C.function(cls + "::to_json")
        uw = C.functions_named(cls + "::unwrap")
        short_ = cls.split("::")[-1]
        for n in sorted(set(counts)):
            locs = [(None if i % 3 == 2 else Str((Atom("file%d" % i, True),)), i + 1, 2, i + 1, 5) for i in range(n)]
            texts = []
            for i, l in enumerate(locs):
                pos = location_text(b"", *l[1:]) if True else b""
                nm = b"<unknown file name>" if l[0] is None else Atom("file%d" % i, True)
                texts.append(((b"Error at " + nm + pos + b": ",) if l[0] is None else (b"Error at ", nm, pos + b": ")) + (Atom("msg%d" % i, True),))
            for kind in ("with a tree", "without a tree"):
                if n == 0 and kind == "without a tree":
                    continue

                def res(I, n=n, kind=kind):
                    errs = [make(I, C, Str((Atom("msg%d" % i, True),)), locs[i], "loc") for i in range(n)]
                    root = models.make_node(I, rootcls, []) if kind == "with a tree" else None
                    return Cell(result_obj(I, C, cls, root, errs))

                def want(env, n=n, texts=texts):
                    if n:
                        return ("return", [b""] + texts)
                    return lambda got: got[0] == "return" and isinstance(got[1], list) and len(got[1]) == 1 and got[1][0] == (Atom(("serialized", "root"), True),)
                C.verify("strings", "%s %s, %d errors" % (short_, kind, n), lambda I, res=res, ts=ts: I.call_fn(ts, [], res(I)), want, f=ts)

                def bodyj(I, n=n, kind=kind, tj=tj):
                    errs = [make(I, C, Str.lit("m%d\"" % i), (None if i % 2 else Str.lit("f%d" % i), 1, 2, i + 3, 4), "loc") for i in range(n)]
                    root = models.make_node(I, rootcls, []) if kind == "with a tree" else None
                    return I.call_fn(tj, [], Cell(result_obj(I, C, cls, root, errs)))

                def wantj(env, n=n):
                    if n:
                        doc = {"errors": [error_doc(b"m%d\"" % i, (None if i % 2 else b"f%d" % i, 1, 2, i + 3, 4)) for i in range(n)]}

                        def ok(got):
                            try:
                                return got[0] == "return" and strict_json(got[1]) == doc
                            except Exception:
                                return False
                        return ok
                    return ("return", (Atom(("dump_json", "root"), True),))
                C.verify("json", "%s %s, %d errors" % (short_, kind, n), bodyj, wantj, f=tj)

                for u in uw:
                    def bodyu(I, n=n, res=res, u=u):
                        st, r = Cell(Stream()), res(I)
                        try:
                            v = I.rv(I.call_fn(u, [st], r))
                        except CppThrow as t:
                            return Tup([Str.lit("threw"), Str.lit(t.obj.cls), st.v])
                        return Tup([Str.lit("returned"), Str.lit("root" if v.c is r.v.f["root"].v.c else "other"), st.v])

                    def wantu(env, n=n, texts=texts):
                        if not n:
                            return ("return", (b"returned", b"root", b""))

                        def ok(got):
                            if got[0] != "return" or got[1][:2] != (b"threw", b"cqasm::v3x::analyzer::AnalysisFailed"):
                                return False
                            out = got[1][2] if isinstance(got[1][2], tuple) else (got[1][2],)
                            at_ = [i for i, x in enumerate(out) if isinstance(x, Atom) and str(x.key).startswith("msg")]
                            return [out[i].key for i in at_] == ["msg%d" % i for i in range(n)]
                        return ok
                    C.verify("unwrap", "%s %s, %d errors" % (short_, kind, n), bodyu, wantu, f=u)
    C.floor("result classes", len(RESULTS), 2)
    return "other", ("Value-set abstract interpretation of to_strings, to_json and unwrap of both result classes for error lists of the lengths "
                     "%s (every length around a constant of the code included), with opaque messages and file names." % sorted(set(counts)))
