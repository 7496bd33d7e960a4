"""P24 the entry points of the library agree with one another."""
import json
import os

import antlr_model
import front
import models
from absint import Atom, CppThrow, Str, Undecided
from checks_syntactic import tree_view
from harness import *
from v3x import V3, deref, result_view

PROBE = os.path.join(front.PROBES, "api.cpp")
PARSER = "cqasm::v3x::parser::"
ANALYZER = "cqasm::v3x::analyzer::Analyzer"

GOOD = "version 3.0;qubit[2] q;bit[2] b;@a.b(1)\nH q[0];inv.X q[1];Rx(pi/2) q[0:1];b[0]=measure q[1];asm(back) '''x'''\n"
PROGRAMS = [
    ("a valid program", GOOD.encode()),
    ("an empty program", b"version 3.0"),
    ("a program without its version", b"qubit q"),
    ("a syntax error", b"version 3.0;qubit[2] q;H q[0"),
    ("a lexical error", b"version 3.0;qubit q;\\ H q"),
    ("a literal out of range", b"version 3.0;qubit[99999999999999999999] q;H q[0]"),
    ("an analysis error", b"version 3.0;qubit q;H z"),
    ("several analysis errors", b"version 3.0\nqubit q\nH z\nX q, q\nqubit q\nb = measure q\nH q\n"),
    ("another version", b"version 1.0;qubit q;H z"),
    ("bytes that are no text", b"version 3.0;// \xff\xfe"),
    ("a text of no bytes", b""),
]
NAMES = [None, "", "f.cq", "dir/with \"quote\".cq"]


DEFAULT = "cqasm::v3x::default_analyzer"


class Api:
    def __init__(self, C):
        self.C = C
        self.v3 = V3(C)
        self.made = C.function(DEFAULT, 1)

    def default_analyzer(self, I, obj, args, e):
        """The analyzer it makes, interpreted once for each version (it takes nothing else)."""
        key = models.to_string(I, args[0])
        if key.concrete() != b"3.0":
            return I.call_fn(self.made, args)
        return self.v3.fresh(I, "default", lambda J: Cell(J.rv(J.call_fn(self.made, [Cell(key)]))))

    def interp(self, files=None):
        I = self.C.interp({DEFAULT: self.default_analyzer} if self.C.quick_default else None)
        I.obj_hooks = antlr_model.HOOKS
        I.MAX_STEPS = 20_000_000
        I.files_in = files or {}
        return I

    def text(self, I, s):
        """A result text with the trees it stands for."""
        keep = {getattr(o, "label", id(o)): o for o in getattr(I.world, "keep", [])}
        out = []
        for p in s.p:
            if isinstance(p, Atom) and isinstance(p.key, tuple) and p.key[0] in ("serialized", "dump_json"):
                o = keep[p.key[1]]
                o = next((x for k, x in keep.items() if k == p.key[1]), o)
                out.append((p.key[0], self.tree(o)))
            elif isinstance(p, int):
                if out and isinstance(out[-1], bytes):
                    out[-1] += bytes([p])
                else:
                    out.append(bytes([p]))
            else:
                raise Undecided("text %r" % (p,))
        return tuple(out)

    def tree(self, o):
        o = deref(Cell(o)) if isinstance(o, Obj) else o
        if o.cls.startswith("cqasm::v3x::semantic::"):
            r = Obj("result")
            r.f["errors"] = Cell(Vec([]))
            r.f["root"] = Cell(Ptr(Cell(o), "tree"))
            d = result_view(r, {})
            return (o.cls, repr(d))
        return (o.cls, repr(tree_view(o, {})))

    def view(self, I, v):
        v = I.rv(v)
        if isinstance(v, Str):
            return self.text(I, v)
        if isinstance(v, Vec):
            return [self.text(I, I.rv(c)) for c in v.items]
        if isinstance(v, Ptr):
            return ("tree", self.tree(I.rv(v.c))) if v.c is not None else ("tree", None)
        if isinstance(v, Obj) and "errors" in v.f:
            root = I.rv(v.f["root"])
            errs = [self.text(I, models.render(I, c, None)) if False else repr(error_view(I, c)) for c in v.f["errors"].v.items]
            return ("result", self.tree(I.rv(root.c)) if isinstance(root, Ptr) and root.c is not None and not errs else None, errs)
        raise Undecided("result %r" % (v,))

    def run(self, body, files=None, told=False):
        """('return', view) | ('throw', class) | ('undecided', why); with told, an exception comes with what was written to stderr"""
        I = self.interp(files)
        I.files_in = files or {}

        def go(I):
            try:
                return self.view(I, body(I))
            except CppThrow as x:
                st = I.globals.get("std::cerr")
                return ("$throw", (x.obj.cls, self.text(I, st.v.buf) if st else ()) if told else x.obj.cls)
        ps = list(I.explore(go, budget=300.0))
        self.C.functions |= I.functions_seen
        self.C.paths += len(ps)
        if len(ps) != 1 or ps[0].kind == "undecided":
            return ("undecided", "; ".join(str(p.what) for p in ps if p.kind == "undecided") or "%d outcomes" % len(ps))
        p = ps[0]
        if p.kind != "return":
            return ("other", "%s %s" % (p.kind, p.what or getattr(p.value, "cls", "")))
        if isinstance(p.value, tuple) and p.value and p.value[0] == "$throw":
            return ("throw", p.value[1])
        return ("return", p.value)


def error_view(I, c):
    o = deref(c)
    from v3x import errors_view
    name = None
    lo = deref(o.f["location_"]) if "location_" in o.f else None
    if lo is not None:
        fn = lo.f["file_name"].v
        name = I.rv(fn.cell) if isinstance(fn, OptV) and fn.has is True else fn if isinstance(fn, Str) else None
    return (errors_view(Vec([c]), {}), repr(name))


def opt(name):
    return Cell(OptV(False) if name is None else OptV(True, Cell(Str.lit(name))))


def p24(C):
    C.load([front.rel(u) for u in front.source_units()] + [PROBE])
    C.rule("siblings", "every entry point yields exactly what parsing its text and, where it analyses, analysing it with the default analyzer yields")
    C.rule("files", "an entry point that takes a file yields what its sibling yields for the contents of the file; a name that is no file yields an error")
    C.rule("names", "the file name an entry point takes is the one errors report, an empty one counting as none")
    C.rule("configuration", "an analyzer without defaults knows the default constants and functions and no instruction but those registered")
    C.rule("bindings", "every name offered to web clients is bound to the method of that name")
    if PROBE in C.prog.bad_units:
        C.fail("siblings", "default arguments", (os.path.join(front.REPO, "include/libqasm/v3x/cqasm_python.hpp"), 1, None),
               "a client of the documented interface does not compile any more: %s" % C.prog.bad_units[PROBE][-600:])
        return "other", "the documented interface does not compile"
    C.quick_default = True
    A = Api(C)

    def fn(n):
        return C.function("probe::" + n)

    def api(qn, n, pred=None):
        return C.function(qn, n, pred)
    psf, pff = api(PARSER + "parse_string", 2), api(PARSER + "parse_file", 2)
    ana = api(ANALYZER + "::analyze", 1, lambda f: "ParseResult" in f["params"][0]["t"])
    dflt = api("cqasm::v3x::default_analyzer", 1)
    RES = {"parse": PARSER + "ParseResult", "analyze": "cqasm::v3x::analyzer::AnalysisResult"}
    memo = {}

    def analysis(I, data, name, path=None, analyzer=True):
        src = [Cell(Str.lit(path)), opt(name)] if path is not None else [Cell(Str.lit(data)), opt(name)]
        r = Cell(I.rv(I.call_fn(pff if path is not None else psf, src)))
        if not analyzer:
            return r
        a = A.default_analyzer(I, None, [Cell(Str.lit("3.0"))], None)
        a = a if isinstance(a, Cell) else Cell(a)
        return Cell(I.rv(I.call_fn(ana, [r], a)))

    def oracle(kind, out, data, name, path=None, files=None):
        """What the combination of the parts yields: out is strings, json, result or tree."""
        key = (kind, out, data, name, path)
        if key not in memo:
            def body(I):
                r = analysis(I, data, name, path, kind == "analyze")
                if out == "result":
                    return r
                if out == "tree":
                    if r.v.f["errors"].v.items:
                        ss = I.rv(I.call_fn(C.function(RES[kind] + "::to_strings"), [], r)).items[1:]
                        st = I.global_var("std::cerr")
                        st.v.buf = Str(tuple(x for k, t in enumerate(ss) for x in ((10,) if k else ()) + I.rv(t).p))
                        models.throw(I, "cqasm::v3x::analyzer::AnalysisFailed")
                    return r.v.f["root"].v
                return I.call_fn(C.function(RES[kind] + "::to_" + out), [], r)
            memo[key] = A.run(body, files, out == "tree")
        return memo[key]

    def compare(rule, label, f, got, want, loose=False):
        if "undecided" in (got[0], want[0]):
            C.undec(rule, label, got[1] if got[0] == "undecided" else want[1])
        elif got == want:
            C.ok(rule, 1, label)
        else:
            C.fail(rule, label, (f["file"], f["line"], f["n"]), "gives %s, required %s" % (short(got), short(want)))
        C.valuations += 1
    S = lambda x: Cell(Str.lit(x))
    V = "V3xAnalyzer::"
    thr = C.thorough
    progs = PROGRAMS
    # -- texts
    for pl, data in progs:
        names = NAMES if thr or pl in ("a syntax error", "several analysis errors", "a valid program") else NAMES[1:3]
        if pl in ("a syntax error", "an analysis error"):
            names = names + ["n" * n for n in C.sizes(20, 20000)]
        for name in names:
            lab = "%s, %s" % (pl, "no file name" if not name else "file name %s" % name)
            for kind in ("parse", "analyze"):
                for out in ("strings", "json"):
                    mn = kind + "_string" + ("_to_json" if out == "json" else "")
                    f = api(V + mn, 2)
                    want = oracle(kind, out, data, name or None)
                    if name is None:
                        got = A.run(lambda I, mn=mn, data=data: I.call_fn(fn(mn), [S(data)]))
                    elif kind == "parse":
                        got = A.run(lambda I, f=f, data=data, name=name: I.call_fn(f, [S(data), S(name)]))
                    else:
                        ct = api(V + "V3xAnalyzer", 2)
                        got = A.run(lambda I, f=f, data=data, name=name, ct=ct: I.call_fn(
                            f, [S(data), S(name)], Cell(I.construct_ctor(ct, "V3xAnalyzer", [S("3.0"), False]))))
                    compare("siblings" if not name else "names", "%s: %s" % (mn, lab), f, got, want)
            if name is not None:
                for kind in ("parse", "analyze"):
                    f = fn("web_" + kind)
                    got = A.run(lambda I, f=f, data=data, name=name: I.call_fn(f, [S(data), S(name)]))
                    compare("siblings", "EmscriptenWrapper::%s_string_to_json: %s" % (kind, lab), api("EmscriptenWrapper::%s_string_to_json" % kind, 2), got,
                            oracle(kind, "json", data, name or None))
            for pn, out, f in (("library_string", "tree", api("cqasm::v3x::analyze_string", 3)),
                               ("default_string", "result", api(ANALYZER + "::analyze_string", 2))):
                got = A.run(lambda I, pn=pn, data=data, name=name: I.call_fn(fn(pn), [S(data), opt(name)]), None, out == "tree")
                compare("siblings" if not name else "names", "%s: %s" % (f["sn"], lab), f, got, oracle("analyze", out, data, name))
    # -- files
    for pl, data in progs:
        if not thr and pl in ("an empty program", "a program without its version", "a literal out of range", "a text of no bytes"):
            continue
        path = "some/prog.cq"
        files = {path: data}
        for kind in ("parse", "analyze"):
            for out in ("strings", "json"):
                mn = kind + "_file" + ("_to_json" if out == "json" else "")
                got = A.run(lambda I, mn=mn: I.call_fn(fn(mn), [S(path)]), files)
                want = oracle(kind, out, data, None)
                compare("files", "%s: %s" % (mn, pl), api(V + mn, 1), got, want)
        for name in [None, "", path, "prog.cq", "other.cq", "cq"] if thr or pl in ("a syntax error", "several analysis errors", "an analysis error", "a valid program") else [path, "other.cq"]:
            got = A.run(lambda I, name=name: Cell(I.rv(I.call_fn(pff, [S(path), opt(name)]))), files)
            compare("names", "parse_file: %s, %s" % (pl, "file name %s" % name if name else "no file name"), pff, got, oracle("parse", "result", data, name or None))
        got = A.run(lambda I: I.call_fn(fn("library_file"), [S(path)]), files, True)
        compare("files", "analyze_file: " + pl, api("cqasm::v3x::analyze_file", 2), got, oracle("analyze", "tree", data, None))
        got = A.run(lambda I: I.call_fn(fn("default_file"), [S(path)]), files)
        compare("files", "Analyzer::analyze_file: " + pl, api(ANALYZER + "::analyze_file", 1), got, oracle("analyze", "result", data, path))
    for lab, path, files in (("a missing file", "none.cq", {}), ("a directory", "dir", {"dir": None}), ("a file of no name", "", {})):
        def has_error(v):
            return v[0] == "throw" and not v[1].startswith("$") or v[0] == "return" and (
                isinstance(v[1], list) and len(v[1]) > 1 and v[1][0] == () or isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], bytes)
                and v[1][0].startswith(b'{"errors"') or isinstance(v[1], tuple) and v[1] and v[1][0] == "result" and v[1][2])
        for mn in ("parse_file", "parse_file_to_json", "analyze_file", "analyze_file_to_json", "default_file", "library_file"):
            f = fn(mn)
            got = A.run(lambda I, f=f, path=path: I.call_fn(f, [S(path)]), files)
            if got[0] == "undecided":
                C.undec("files", "%s: %s" % (mn, lab), got[1])
            else:
                C.expect("files", bool(has_error(got)), "%s: %s" % (mn, lab), (f["file"], f["line"], f["n"]), "gives %s, required an error" % short(got))
    inputs(C, "files")
    # -- configurations
    ct = api(V + "V3xAnalyzer", 2)
    an = api(V + "analyze_string", 2)
    for lab, data in (("instructions", b"version 3.0\nqubit q\nH q\nRx(sin(pi)) q\nfoo q\nbarrier q\n"),
                      ("functions", b"version 3.0\nqubit[2] q\nRx(nope(1)) q\nRx(sin(true)) q[1/0]\nCNOT q[0], q[1]\n")):
        for without in (False, True):
            def want(I, data=data, without=without):
                a = Cell(I.construct_ctor(api(ANALYZER + "::Analyzer", 1, lambda f: "inits" in f and "Version" in f["params"][0]["t"]), ANALYZER, [version3(I)]))
                I.call_fn(api(ANALYZER + "::register_default_constants", 0), [], a)
                I.call_fn(api(ANALYZER + "::register_default_functions", 0), [], a)
                if not without:
                    I.call_fn(api(ANALYZER + "::register_default_instructions", 0), [], a)
                r = Cell(I.rv(I.call_fn(ana, [Cell(I.rv(I.call_fn(psf, [S(data), opt(None)])))], a)))
                return I.call_fn(C.function(RES["analyze"] + "::to_strings"), [], r)
            got = A.run(lambda I, data=data, without=without: I.call_fn(an, [S(data), S("")], Cell(I.construct_ctor(ct, "V3xAnalyzer", [S("3.0"), without]))))
            compare("configuration", "%s, %s the defaults" % (lab, "without" if without else "with"), ct, got, A.run(want))
        def wantr(I, data=data):
            a = Cell(I.construct_ctor(api(ANALYZER + "::Analyzer", 1, lambda f: "inits" in f and "Version" in f["params"][0]["t"]), ANALYZER, [version3(I)]))
            I.call_fn(api(ANALYZER + "::register_default_constants", 0), [], a)
            I.call_fn(api(ANALYZER + "::register_default_functions", 0), [], a)
            reg = api(ANALYZER + "::register_instruction", 2)
            I.call_fn(reg, [S("H"), Cell(OptV(True, S("Q")))], a)
            r = Cell(I.rv(I.call_fn(ana, [Cell(I.rv(I.call_fn(psf, [S(data), opt(None)])))], a)))
            return I.call_fn(C.function(RES["analyze"] + "::to_strings"), [], r)
        got = A.run(lambda I, data=data: I.call_fn(fn("registered"), [S(data), S("H"), S("Q")]))
        compare("configuration", "%s, with one registered instruction" % lab, api(V + "register_instruction", 2), got, A.run(wantr))
    for v in ("3.0", "3.1", "4", "", "2.9", "3", "3.0.0"):
        def mk(f):
            def body(I):
                I.call_fn(f, [S(v)]) if f is dflt else I.construct_ctor(ct, "V3xAnalyzer", [S(v), False])
                return Str.lit("made")
            return body
        ok = v in ("3.0", "3", "3.0.0")
        of_file, of_text = fn("library_file_of"), fn("library_string_of")
        valid = b"version 3.0\nqubit q\nH q\n"
        for f, body in ((api("cqasm::v3x::analyze_file", 2), lambda I: (I.call_fn(of_file, [S("p.cq"), S(v)]), Str.lit("made"))[1]),
                        (api("cqasm::v3x::analyze_string", 3), lambda I: (I.call_fn(of_text, [S(valid), opt(None), S(v)]), Str.lit("made"))[1])):
            got = A.run(body, {"p.cq": valid})
            if got[0] == "undecided":
                C.undec("configuration", "%s for version %r" % (f["n"], v), got[1])
                continue
            C.expect("configuration", got == (("return", (b"made",)) if ok else ("throw", "std::invalid_argument")), "%s for version %r" % (f["n"], v),
                     (f["file"], f["line"], f["n"]), "gives %s" % short(got))
        for f in (dflt, ct):
            got = A.run(mk(f))
            if got[0] == "undecided":
                C.undec("configuration", "version %r" % v, got[1])
                continue
            C.expect("configuration", got == (("return", (b"made",)) if ok else ("throw", "std::invalid_argument")), "%s for version %r" % (f["n"], v),
                     (f["file"], f["line"], f["n"]), "gives %s" % short(got))
    # -- web version and bindings
    gv = api("cqasm::get_version", 0)
    I0 = A.run(lambda I: Str(models.to_string(I, I.call_fn(gv, [])).p))
    compare("siblings", "EmscriptenWrapper::get_version", api("EmscriptenWrapper::get_version", 0), A.run(lambda I: I.call_fn(fn("web_version"), [])), I0)
    bindings(C)
    return "other", ("Whole-program abstract interpretation of every entry point (native, Python-facing and web) over programs of every outcome class, with and "
                     "without file names, from texts and from files, against the composition of the parts; the bindings by a syntax-tree query.")


def inputs(C, rule, files=True):
    """The text that reaches the parser is the text given, or the contents of the file, byte for byte."""
    psf, pff = C.function(PARSER + "parse_string", 2), C.function(PARSER + "parse_file", 2)
    shapes = string_shapes(lengths=[5, 300] + C.sizes(300, 5000)) + [[b"version 3.0", byte_var("c11"), b"H q", byte_var("c15")], [byte_var("c0"), b"\r\n\n\t;// /* \x27 */", byte_var("c20")],
                                                               [b"\xef\xbb\xbfv"], [b"v\x1a\n"], [b"\0"], [b"a\0b\0"]]
    for s in shapes:
        vs = [x for x in s if isinstance(x, Var)]
        for f in (psf, pff) if files else (psf,):
            def body(I):
                I.obj_hooks = antlr_model.HOOKS
                I.input_seen = []
                I.files_in = {"p.cq": sval(s)}
                I.call_fn(f, [Cell(sval(s)) if f is psf else Cell(Str.lit("p.cq")), opt(None)])
                return I.input_seen[0] if len(I.input_seen) == 1 else Str.lit("%d inputs" % len(I.input_seen))
            C.verify(rule, "%s: the text %s" % (f["n"], "".join("*" if isinstance(x, Var) else repr(x)[2:-1][:20] for x in s)), body, lambda env, s=s: ("return", sbytes(s, env)), vars=vs, f=f)


def version3(I):
    o = Obj("cqasm::version::Version")
    o.f["$base"] = Cell(Vec([Cell(3), Cell(0)]))
    return Cell(o)


def bindings(C):
    em = [u for u in C.prog.by_unit if u.endswith("emscripten_wrapper.cpp")]
    seen = {}

    def walk(x, f):
        if isinstance(x, dict):
            if x.get("k") == "call" and x.get("n", "").endswith("class_<EmscriptenWrapper>::function") and len(x["a"]) == 2:
                nm, t = x["a"]
                if nm.get("k") == "str":
                    tgt = t.get("e", t)
                    tgt = tgt.get("f", tgt)
                    seen[bytes(nm["v"]).decode()] = (tgt.get("n") if isinstance(tgt, dict) else None, x["l"], f)
            for v in x.values():
                walk(v, f)
        elif isinstance(x, list):
            for v in x:
                walk(v, f)
    for u in em:
        for f in C.prog.by_unit[u].values():
            walk(f.get("body"), f)
    for n in ("get_version", "parse_string_to_json", "analyze_string_to_json"):
        if n not in seen:
            C.fail("bindings", n, (os.path.join(front.REPO, "emscripten/emscripten_wrapper.hpp"), 1, None), "the name is not bound")
            continue
    for n, (t, l, f) in sorted(seen.items()):
        if t is None:
            C.undec("bindings", n, "bound to something this query does not resolve")
        else:
            C.expect("bindings", t == "EmscriptenWrapper::" + n, n, (f["file"], l, f["n"]), "bound to %s" % t)
