"""Syntax: token rules, grammar and tree construction, decided together against a reference written from the language definition."""
import itertools

from absint import Cell, Obj, OptV, Ptr, Str, Undecided, Vec, at
import antlr_model
import grammar
import spec_syntax as S
from harness import Broken, byte_var, order_var
from v3x import SL, deref, errors_view, txt, where_of
import models

PARSE = "cqasm::v3x::parser::parse_string"


def tree_view(x, val):
    """The tuple form of a syntactic tree, as spec_syntax builds it."""
    while isinstance(x, (Cell, Ptr)):
        if isinstance(x, Ptr) and x.c is None:
            return None
        x = x.v if isinstance(x, Cell) else x.c
    if isinstance(x, Vec):
        return tuple(tree_view(c, val) for c in x.items)
    if isinstance(x, Str):
        b = txt(x, val)
        return b.encode("latin-1").decode("utf-8", "replace") if isinstance(b, str) else b
    if isinstance(x, Obj):
        if x.cls == "cqasm::version::Version":
            return tree_view(x.f["$base"], val)
        return (x.cls.split("::")[-1], where_of(x, val), tuple(sorted((n, tree_view(c, val)) for n, c in x.f.items() if not n.startswith("$"))))
    return at(x, val) if hasattr(x, "at") or x.__class__.__name__ == "Fn" else x


def strip_loc(t):
    """Without the locations the reference leaves open."""
    if isinstance(t, tuple) and len(t) == 3 and isinstance(t[0], str) and isinstance(t[2], tuple):
        return (t[0], tuple((n, strip_loc(c)) for n, c in t[2]))
    if isinstance(t, tuple):
        return tuple(strip_loc(c) for c in t)
    return t


def locs(t, path="", out=None):
    """(path, class, location) of every node."""
    out = [] if out is None else out
    if isinstance(t, tuple) and len(t) == 3 and isinstance(t[0], str) and isinstance(t[2], tuple):
        out.append((path, t[0], t[1]))
        for n, c in t[2]:
            locs(c, path + "/" + n, out)
    elif isinstance(t, tuple):
        for i, c in enumerate(t):
            locs(c, "%s[%d]" % (path, i), out)
    return out


class Syn:
    def __init__(self, C):
        self.C = C
        C.load()
        self.f = C.function(PARSE, 2)
        C.assumptions = ["ANTLR builds lexers and parsers that follow the grammar files: longest match, first rule; precedence by order of alternatives; "
                         "alternatives and loops preferred in order"]

    def interp(self):
        I = self.C.interp()
        I.obj_hooks = antlr_model.HOOKS
        I.MAX_STEPS = 20_000_000
        return I

    def run(self, text, fname=None, view=None, hook=None):
        """Outcome of parse_string: ('tree', view) | ('errors', [...]) | ('other', what) | ('undecided', why)."""
        I = self.interp()
        if hook:
            I.token_hook = hook
        data = text if isinstance(text, bytes) else text.encode("utf-8")

        def body(I):
            o = OptV(fname is not None)
            if fname is not None:
                o.cell = Cell(Str.lit(fname))
            return I.call_fn(self.f, [Cell(Str.lit(data)), Cell(o)])
        ps = list(I.explore(body, budget=300.0))
        self.C.functions |= I.functions_seen
        self.C.paths += len(ps)
        if len(ps) != 1 and not hook:
            und = [p for p in ps if p.kind == "undecided"]
            return ("undecided", und[0].what if und else "%d outcomes" % len(ps), None)
        p = ps[0]
        if p.kind == "undecided":
            return ("undecided", p.what, None)
        if p.kind != "return":
            return ("other", "%s %s" % (p.kind, p.what or getattr(p.value, "cls", p.value)), p.where)
        r = I.rv(p.value)
        errs = errors_view(r.f["errors"].v, {})
        if errs:
            return ("errors", errs, r)
        return ("tree", (view or tree_view)(r.f["root"], {}), r)

    def where(self):
        return (self.f["file"], self.f["line"], self.f["n"])


def reference(text):
    try:
        return ("tree", S.parse(text))
    except S.Refused as e:
        return ("errors", (e.line, e.col))


def statements(tree):
    return dict(dict(tree[2])["block"][2])["statements"]


class Sentences:
    """Statements parsed many at a time; each must become the reference's tree."""

    def __init__(self, syn, rule, what=strip_loc):
        self.syn, self.rule, self.what = syn, rule, what
        self.todo = []

    def add(self, text):
        self.todo.append(text)

    def run(self, chunk=150):
        good = []
        for t in self.todo:
            r = reference("version 3.0;" + t)
            if r[0] == "tree":
                good.append((t, r[1]))
            else:
                self.single(t)
        for k in range(0, len(good), chunk):
            self.some(good[k:k + chunk])
        self.todo = []

    def single(self, t):
        C = self.syn.C
        text = "version 3.0;" + t
        ref = reference(text)
        got = self.syn.run(text)
        if got[0] == "undecided":
            C.undec(self.rule, t, got[1])
        elif ref[0] == "errors":
            C.expect(self.rule, got[0] == "errors", t, self.syn.where(), "is not a sentence of the language, but gives %s" % (got[:2],))
        else:
            ok = got[0] == "tree" and self.what(got[1]) == self.what(ref[1])
            C.expect(self.rule, ok, t, self.syn.where(), "becomes %s, required %s" % diff(self.what, got, ref))

    def some(self, items):
        if len(items) == 1:
            return self.single(items[0][0])
        # one statement per line, so that every statement keeps its columns
        text = "version 3.0\n" + "\n".join(t for t, _ in items)
        ref = reference(text)
        got = self.syn.run(text)
        if ref[0] != "tree":
            raise Broken("reference refuses the combined program")
        if got[0] == "tree" and self.what(got[1]) == self.what(ref[1]):
            self.syn.C.ok(self.rule, len(items), items[0][0])
            return
        m = (len(items) + 1) // 2
        C = self.syn.C
        before = len(C.violations) + len(C.undecided)
        self.some(items[:m])
        self.some(items[m:])
        if len(C.violations) + len(C.undecided) == before:
            if got[0] == "undecided":
                C.undec(self.rule, "%d statements" % len(items), got[1])
            else:
                C.fail(self.rule, "%d statements, from %s" % (len(items), items[0][0]), self.syn.where(),
                       "each alone becomes what is required, all together %s, required %s" % diff(self.what, got, ref))


def diff(what, got, ref):
    if got[0] != "tree":
        return (got[:2], "its tree")
    a, b = what(got[1]), what(ref[1])
    return first_diff(a, b)


def first_diff(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and (not x or not isinstance(x[0], str) or x[0] == y[0]):
                    return first_diff(x, y)
                return (x, y) if isinstance(x, tuple) else (a, b)
    return (a, b)


BIN = ["**", "*", "/", "%", "+", "-", "<<", ">>", ">", "<", ">=", "<=", "==", "!=", "&", "^", "|", "&&", "^^", "||"]
UN = ["-", "+", "~", "!"]


def p18(C):
    C.rule("pairs", "of two operators in a row the one that binds tighter groups first; equal ones group by associativity, power and conditional to the right")
    C.rule("prefix", "prefix operators bind tighter than every binary operator, on either side of it, and nest")
    C.rule("conditional", "the conditional operator binds loosest and associates to the right; its middle operand is a full expression")
    C.rule("nesting", "parentheses override grouping and leave no trace; grouping is the same inside arguments, indices and ranges")
    C.rule("triples", "three operators in a row group by the same precedences")
    syn = Syn(C)
    q = Sentences(syn, "pairs")
    for a, b in itertools.product(BIN, BIN):
        q.add("g a %s b %s c" % (a, b))
    q.run()
    q = Sentences(syn, "prefix")
    for u, b in itertools.product(UN, BIN):
        q.add("g %s a %s b" % (u, b))
        q.add("g a %s %s b" % (b, u))
        q.add("g a %s %s b %s c" % (b, u, b))
    for u, v in itertools.product(UN, UN):
        q.add("g %s %s a" % (u, v))
        q.add("g %s %s a ** b" % (u, v))
    for u in UN:
        for tail in ("f(a)", "a[1]", "(a + b)", "1", "1.5", "true", "a ? b : c"):
            q.add("g %s %s" % (u, tail))
    q.run()
    q = Sentences(syn, "conditional")
    for b in BIN:
        q.add("g a %s b ? c : d" % b)
        q.add("g a ? b %s c : d" % b)
        q.add("g a ? b : c %s d" % b)
    for t in ("a ? b : c ? d : e", "a ? b ? c : d : e", "(a ? b : c) ? d : e", "a ? b : (c ? d : e)", "- a ? b : c", "a ? - b : ! c", "a ? b : c ? d : e ? f : h",
              "a ? b, c : d", "a ? b", "a ? : b", "? a : b", "a ? b :", "a : b"):
        q.add("g " + t)
    q.run()
    q = Sentences(syn, "nesting")
    for a, b in itertools.product(BIN, BIN):
        if a in ("**", "*", "-", "<<", "==", "&", "&&", "||", "^^") and b in ("**", "*", "-", "<", "!=", "|", "^", "||"):
            q.add("g (a %s b) %s c" % (a, b))
            q.add("g a %s (b %s c)" % (a, b))
    for b in BIN:
        for t in ("f(a %s b, c)", "q[a %s b]", "q[a %s b : c %s d]", "q[1, a %s b]", "((a %s b))", "((a)) %s ((b))", "f(a) %s q[1]", "q[1:2] %s f()"):
            q.add("g " + t.replace("%s", b))
        q.add("Rx(a %s b) q" % b)
        q.add("pow(a %s b).X q" % b)
        q.add("wait(a %s b) q" % b)
        q.add("g a %s b, c" % b)
    q.run()
    q = Sentences(syn, "triples")
    reps = BIN if C.thorough else ["**", "*", "/", "+", "-", "<<", ">", "<=", "==", "&", "^", "|", "&&", "^^", "||"]
    n = 0
    for a, b, c in itertools.product(reps, reps, reps):
        n += 1
        if C.thorough or n % 3 == 0 or len({a, b, c}) < 3:
            q.add("g a %s b %s c %s d" % (a, b, c))
    for n in C.sizes(3, 70):
        for b in BIN:
            q.add("g " + (" %s " % b).join(["a"] * (n + 1)))
            q.add("g " + "".join("a %s " % (b if k % 2 else "+") for k in range(n)) + "a")
        for u in UN:
            q.add("g " + (u + " ") * n + "a ** b")
        q.add("g " + "a ? b : " * n + "c")
        q.add("g " + "(" * n + "a" + ") + b" * n)
        q.add("g " + "a * (b + " * n + "c" + ")" * n)
    q.run()
    C.floor("groupings", sum(r["obligations"] for r in C.rules.values()), 1500)
    return "other", ("The precedence and associativity that the grammar's order of alternatives induces, and the trees the visitor builds for it, for every pair of "
                     "operators and triples of them, against an independent precedence table.")


# ------------------------------------------------------------------------------------------------------ P21 locations
PLACES = [
    # every construct, with its tokens pulled apart
    "qubit q", "qubit[1] q", "qubit[0] q", "qubit[007] q", "bit[0] b", "bit[2] b", "qubit[2] q", "qubit  [ 12 ]   q_long", "bit[3]b", "\tbit\t[\t1\t]\tb", "qubit [\t3 ] q /* c */", "H q", "  H  q , r", "inv . X q", "inv.inv .pow ( 2 ). ctrl. X  q",
    "pow(1.5).X q[0]", "ctrl.X q[0], q[1]", "Rx ( pi / 2 ) q", "b = measure q", "b[0:1]  =  measure   q[0:1]", "b = measure ( 1 , 2, 3 ) q", "reset q", "  init q",
    "barrier  q[1,2,3]", "wait ( 3 ) q", "asm ( Backend ) ''' code '''", "g a+b", "g a  -  b", "g a * - b", "g ~ a", "g ! a", "g - a", "g + a", "g +a + + b",
    "g a ? b : c", "g f()", "g f ( a , b )", "g q [ 1 ]", "g q[1:2, 3]", "g q[i+1]", "g true, false , 1, 1.5 , 0x", "g ( a )", "g ((a + b) * c)", "g a ** b ** c",
    "g a <<1", "g a>>1", "g a&&b || c ^^ d", "g a & b|c^d", "g a<b, a>b, a<=b, a>=b, a==b, a!=b", "g a /b, a%b", "g pi, longer_identifier_name",
    "g 00012, 3., .5, 1.0e-3", "X q // comment", "/* a */ X /* b */ q", "/* \u00e9\u4e16 */ X q", "/* two\nlines */ X q", "g a /* x\n y */ + /* z\n */ b",
]


def p21(C):
    C.rule("located", "every type, variable, statement, gate and expression carries the position of its own name, keyword or operator: from the token's first "
                      "character (lines and columns from one) to right behind its last; a sized type extends to its bracket")
    C.rule("positions", "the same holds wherever the token stands, however far down or to the right")
    C.rule("file", "every location names the file it was given, and none if the name is empty or absent")
    C.rule("errors", "a syntax error is located at the token or character that cannot be continued, in the file it was given")
    syn = Syn(C)
    where = syn.where()

    def compare(rule, text, fname=None, shift=None):
        ref, got = reference(text), syn.run(text, fname)
        if got[0] == "undecided":
            return C.undec(rule, text, got[1])
        if ref[0] != "tree":
            raise Broken("reference refuses %r" % text)
        if got[0] != "tree":
            return C.fail(rule, text, got[2] if got[0] == "other" else where, "gives %s" % (got[:2],))
        a, b = locs(got[1]), locs(ref[1])
        if [x[:2] for x in a] != [x[:2] for x in b]:
            return C.undec(rule, text, "the tree is not the required one (property P27)")
        for (path, cls, l), (_, _, want) in zip(a, b):
            if want is not None:
                C.expect(rule, l == want, "%s: %s" % (cls, "no location" if l is None else "wrong location"), where,
                         "in %r, the %s at %s is located at %s, required %s" % (text, cls, path, l, want))
        return got
    n = 0
    for t in PLACES:
        t = t.replace(", 0x", "")
        for pre in ("version 3.0\n", "\n\n  version  3 ;", "version 3.0\r\n\n\n      " + " " * 290):
            compare("located", pre + t)
            n += 1
    compare("located", "version 3.0" + "\n" * 300 + "\n".join(t.replace(", 0x", "") for t in PLACES))
    C.floor("programs", n, 100)

    # every token moved by any amount
    dl = order_var("lines down", [0, 1, 254, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 400], 0, (1 << 32) - 400)
    dc = order_var("columns right", [0, 1, 254, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 400], 0, (1 << 32) - 400)
    ds = order_var("offset", [0, 1, 255, 65536, 1 << 32, 1 << 40], 0, 1 << 40)
    from absint import Fn, lift
    for t in ("qubit[3] q", "g a + f(b)", "b = measure q", "inv.pow(2).X q[0:1]", "reset q", "g a ? -b : !c", "wait(3) q", "version"):
        text = "version 3.0;" + t if t != "version" else "version 3.0"
        ref = [x for x in locs(S.parse(text)) if x[2] is not None]

        def body(I):
            I.obj_hooks = antlr_model.HOOKS
            I.token_hook = lambda tok, what: {
                "getLine": lambda: lift(lambda v: tok.line + v, Fn.of(dl)), "getCharPositionInLine": lambda: lift(lambda v: tok.col + v, Fn.of(dc)),
                "getStartIndex": lambda: lift(lambda v: tok.start + v, Fn.of(ds)), "getStopIndex": lambda: lift(lambda v: tok.stop + v, Fn.of(ds))}.get(what, lambda: None)()
            o = OptV(False)
            return I.call_fn(syn.f, [Cell(Str.lit(text)), Cell(o)])

        def view(out, val):
            r = out.f["errors"].v
            if r.items:
                return "errors"
            return [x[1:] for x in locs(tree_view(out.f["root"], val)) if x[2] is not None]
        have = {x[0] for x in ref}

        def want(env):
            w = [(c, (l[0] + env[dl], l[1] + env[dc], l[2] + env[dl], l[3] + env[dc])) for _, c, l in ref]
            return lambda got: got[0] == "return" and got[1] != "errors" and [x for x in got[1]] == w
        C.verify("positions", t, body, want, vars=[dl, dc, ds], f=syn.f, view=view, rounds=1)

    # file names
    def files(node, out):
        while isinstance(node, (Cell, Ptr)):
            if isinstance(node, Ptr) and node.c is None:
                return out
            node = node.v if isinstance(node, Cell) else node.c
        if isinstance(node, Vec):
            for c in node.items:
                files(c, out)
        elif isinstance(node, Obj):
            if SL in node.ann:
                fn = node.ann[SL].v.f["file_name"].v
                out.append((node.cls.split("::")[-1], txt(fn.cell, {}) if isinstance(fn, OptV) and fn.has else None))
            for n, c in node.f.items():
                if not n.startswith("$"):
                    files(c, out)
        return out
    text = "version 3.0\n" + "\n".join(t.replace(", 0x", "") for t in PLACES)
    for fname in (None, "", "a.cq", "/a b/\u00fc.cq", "<unknown>"):
        got = syn.run(text, fname, view=lambda root, val: files(root, []))
        if got[0] != "tree":
            C.undec("file", repr(fname), got[:2])
            continue
        w = fname or None
        w = w.encode("utf-8").decode("latin-1") if w else None
        for cls, f in got[1]:
            C.expect("file", f == w, cls, where, "a %s parsed from the file %r is located in the file %r" % (cls, fname, f))
    # errors
    bad = ["q q q", "H", "H q,", "qubit[1", "qubit[] q", "qubit[1.5] q", "bit", "X q r", "inv X q", "pow.X q", "ctrl. q[0], q[1]", "b = q", "measure q", "reset", "wait q",
           "asm(B) x", "asm() ''' '''", "g a +", "g a b", "g )", "g (a", "g a ? b", "g 1.2.3", "g q[", "g q[]", "g q[1:]", "g f(,)", "H q H q", "version 3.0", "@", "H q $ r",
           "H q \u00e9", "H q\rX", "'", "''' x", "g \"s\"", "q = = measure r", "3 = 4", "qubit qubit", "qubit measure", "bit reset", "X 99999999999999999999", "X 1.0e999",
           "qubit[9223372036854775808] q", "X q[9223372036854775808]", "X 9223372036854775807, 9223372036854775808"]
    L, P = antlr_model.grammars()
    big = "9" * 19
    full = ["version %s" % big, "  version 3.%s" % big, "version %s.%s; H q" % (big, big), "\n\n version   3.0000000000000%s\n" % big, "version 0003.%s" % ("1" + "0" * 19),
            "version 333333333333333333.9223372036854775808", "version 9223372036854775807.%s" % big, "version 9223372036854775808.1"]
    bad += ["X %s" % big, "b[0, %s] = measure q" % big, "H q[1:%s]" % big, "bit[%s] b" % big, "g 1 + %s * 2" % big, "inv.pow(%s).X q" % big, "wait(%s) q" % big, "X f(1.0e999, 2)", "X 1 - 2.5e777"]
    for pre, t in list(itertools.product(("version 3.0\n", "version 3.0; H q;\n\n   "), bad)) + [("", t) for t in full]:
        for fname in (None, "", "f.cq"):
            text = pre + t + "\n"
            got = syn.run(text, fname)
            if got[0] == "undecided":
                C.undec("errors", text, got[1])
                continue
            try:
                S.parse(text)
                raise Broken("reference accepts %r" % text)
            except S.Refused:
                pass
            # where the sentence can no longer be continued
            toks, errs = L.tokens(text)
            tree, far = P.parse(toks)
            lit = next(((e.line, e.col, e.line, e.col) for e in [refusal(text)] if e.args[0] in ("integer", "float", "version")), None)
            if errs and (tree is not None or errs[0][0] <= far):
                w = (errs[0][1], errs[0][2] + 1, errs[0][1], errs[0][2] + 1)
            elif tree is None:
                k = toks[far]
                size = 0 if k.name == "EOF" else len(k.text)
                w = (k.line, k.col + 1, k.line, k.col + 1 + size)
            else:
                w = lit
            es = got[1] if got[0] == "errors" else None
            ok = es is not None and len(es) == 1 and es[0][1] == w
            C.expect("errors", ok, t, where, "%r gives %s, required one error at %s" % (text, got[:2], w))
            if ok:
                e0 = deref(got[2].f["errors"].v.items[0])
                lo = deref(e0.f["location_"])
                fn = lo.f["file_name"].v
                have = txt(fn.cell, {}) if fn.has else None
                C.expect("errors", have == (fname or None), t, where, "the error for %r in the file %r names the file %r" % (t, fname, have))
    return "other", "Every construct at several places, with symbolic offsets of all token positions, and the errors of sentences broken in every position."


def refusal(text):
    try:
        S.parse(text)
    except S.Refused as e:
        return e


# ------------------------------------------------------------------------------------------------ P22 tokens, literals
def p22(C):
    C.rule("tokens", "every text is split into the tokens of the language: longest match, keywords only as whole words, comments and blanks dropped")
    C.rule("integers", "a decimal integer of any number of digits denotes its value if it fits 64 bits and is refused otherwise, wherever it stands")
    C.rule("floats", "a decimal fraction denotes the double nearest to it, and is refused if it exceeds the range of double")
    C.rule("words", "true and false denote themselves; names, keywords and raw texts keep their spelling")
    C.rule("version", "a version denotes its one or two decimal components, each in range")
    syn = Syn(C)
    where = syn.where()
    # all texts: both automata, side by side
    L, _ = antlr_model.grammars()
    R = grammar.Lexer(grammar.g4.Grammar(S.TOKENS))
    lex = "src/v3x/CqasmLexer.g4"
    names = {}
    cmds = lambda r: tuple(sorted((c, a if c not in ("pushMode", "mode") else "V") for c, a in r.commands if c != "channel")) or (("skip", None),) if r.commands else ()
    if len(L.modes) != len(R.modes):
        C.undec("tokens", "modes", "the lexer has %d modes" % len(L.modes))
    pairs = [("", "")]
    seen_modes = set()
    states = 0
    while pairs:
        ml, mr = pairs.pop()
        if (ml, mr) in seen_modes or ml not in L.starts:
            continue
        seen_modes.add((ml, mr))
        chars = sorted(set(L.alphabet()) | set(R.alphabet()))
        start = (L.start(ml), R.start(mr))
        seen, todo = {start: ""}, [start]
        while todo and states < 60000:
            a, b = todo.pop(0)
            states += 1
            for c in chars:
                x, y = L.step(a, c) if a else (), R.step(b, c) if b else ()
                if not x and not y:
                    continue
                path = seen[(a, b)] + chr(c)
                rx, ry = L.accepts(x), R.accepts(y)
                line = rx.line if rx else 0
                if (rx is None) != (ry is None):
                    C.fail("tokens", "%s in mode %r" % (ry.name if ry else rx.name, mr or "default"), (lex, line, "lexer"),
                           "the text %r is %s, required %s" % (path, "a " + rx.name if rx else "no token", "a " + ry.name if ry else "none"))
                    if len(C.violations) > 20:
                        todo = []
                        break
                    continue
                if rx:
                    want = names.setdefault(ry.name, rx.name)
                    C.expect("tokens", want == rx.name, ry.name, (lex, line, "lexer"), "the text %r is a %s, other texts of that kind are a %s" % (path, rx.name, want))
                    C.expect("tokens", cmds(rx) == cmds(ry), ry.name, (lex, line, "lexer"), "after %r the lexer does %s, required %s" % (path, rx.commands, ry.commands))
                    for (c1, m1), (c2, m2) in zip(rx.commands, ry.commands):
                        if c1 == c2 == "pushMode":
                            pairs.append((m1, m2))
                if (x, y) not in seen:
                    seen[(x, y)] = path
                    todo.append((x, y))
    if len(set(names.values())) != len(names):
        dup = [n for n in names.values() if list(names.values()).count(n) > 1]
        C.fail("tokens", "distinct", (lex, 1, "lexer"), "different kinds of tokens share a rule: %s" % sorted(set(dup)))
    C.floor("lexer states", states, 100)
    C.notes.append("%d pairs of lexer states compared" % states)
    # integers
    b63 = 1 << 63
    vals = sorted({v for k in range(0, 64) for v in (2**k - 1, 2**k, 2**k + 1)} | {10**k + d for k in range(0, 25) for d in (-1, 0, 1)} | {b63 - 1, b63, b63 + 1, 1 << 64, (1 << 64) - 1,
                                                                                                                                (1 << 64) + 5, 1 << 65, 1 << 128})
    q = Sentences(syn, "integers", lambda t: t)
    for v in vals:
        for z in ("", "0", "000"):
            s = z + str(v)
            q.add("g %s" % s)
            if z == "":
                q.add("g -%s" % s)
                q.add("g q[%s]" % s)
                q.add("qubit[%s] q" % s)
                q.add("bit[%s] q" % s)
    for s in ("0" * 40, "0" * 40 + "7", "1" * 400, "0" * 400 + "1"):
        q.add("g " + s)
    q.run()
    # floats
    q = Sentences(syn, "floats", lambda t: t)
    mant = ["0.0", "1.", ".5", "1.5", "3.14159265358979323846", "123456789.123456789", "00.1", "1.0000000000000001", "9007199254740993.0", "0.1", "2.", "1." + "0" * 50 + "1",
            "9" * 30 + ".5", ".0", "0.", "000.000", "4.35", "1.7976931348623157", "2.2250738585072014", "5.5",
            "9007199254740993.0000000001", "9007199254740993." + "0" * 30 + "1", "1.00000000000000011102230246251565404236316680908203125" + "0" * 9 + "1"]
    # digits that matter behind a given number of them
    mant += ["9007199254740993." + "0" * max(0, n - 18) + "1" for n in C.sizes(18, 400)]
    exps = ["", "e0", "E0", "e1", "e+1", "e-1", "E-10", "e22", "e23", "e-22", "e100", "e-100", "e300", "e-290", "e308", "e309", "e+400", "e-400", "e007", "e99999"]
    for m, x in itertools.product(mant, exps):
        s = m + x
        v = float(s)
        if 0 < v < 2.3e-308:
            continue  # subnormal numbers: left open
        q.add("g " + s)
    q.run()
    # words
    q = Sentences(syn, "words")
    words = ["true", "false", "True", "FALSE", "truer", "_true", "false_", "t", "x", "_", "__", "q1", "Q", "aVeryLongIdentifier" * 5, "pi", "e", "E", "e1", "E5", "nan", "inf_", "measured", "resets", "init_",
             "barriers", "waits", "inverse", "power", "ctrls", "qubits", "bits", "asm_", "versions", "Measure", "QUBIT", "version_", "_version", "Z90", "mX90"]
    for w in words:
        q.add("g %s" % w)
        q.add("%s q" % w)
        q.add("g %s(1)" % w)
        q.add("g %s[0]" % w)
        q.add("qubit %s" % w)
    raw = ["", " ", "a", "'", "''", "a'b", "''a", "\"", "\n", "a\nb", "\r\n", "\\n", "//x", "/* x */", "\u00e9\u4e16\U0001F600", "version 3", "''x''y''", "a" * 1000]
    for r in raw:
        if "\n" not in r:
            q.add("asm(B)'''%s'''" % r)
    q.run()
    for r in raw:
        text = "version 3.0;asm(B)'''%s'''; H q" % r
        ref, got = reference(text), syn.run(text)
        if got[0] == "undecided":
            C.undec("words", text, got[1])
        else:
            C.expect("words", got[0] == ref[0] and (ref[0] != "tree" or strip_loc(got[1]) == strip_loc(ref[1])), "raw text %r" % r[:20], where,
                     "becomes %s, required %s" % diff(strip_loc, got, ref) if ref[0] == "tree" else "is accepted as %s" % (got[1],))
    # versions
    for s in ["3", "3.0", "3.1", "2.0", "1", "0", "0.0", "03.00", "10.20", "9223372036854775807", "9223372036854775808", "3.9223372036854775807", "3.9223372036854775808", "99999999999999999999.1",
              "3.", ".3", "3.0.1", "3 .0", "3. 0", "x", "-3", "3.0a", "3a", "", "3\n.0", "3,0", "3e1", "3.0;4.0"]:
        for sp in (" ", "\t", "   ", ""):
            text = "version%s%s\nH q" % (sp, s)
            ref, got = reference(text), syn.run(text)
            if got[0] == "undecided":
                C.undec("version", text, got[1])
                continue
            ok = got[0] == ref[0] and (ref[0] != "tree" or strip_loc(got[1]) == strip_loc(ref[1]))
            C.expect("version", ok, "version %s" % s, where, "%r gives %s, required %s" % (text, short(got[:2]), short(ref)))
    return "other", ("The token automata of the grammar and of the reference compared state by state, hence for every text; literal conversions on boundary values of "
                     "both sides of every limit.")


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


# ---------------------------------------------------------------------------------------------------- P27 sentences
ITEMS = {"ID": "q", "INT": "1", "MUL": "*", "MINUS": "-", "LNOT": "!", "LP": "(", "RP": ")", "LB": "[", "RB": "]", "COMMA": ",", "COLON": ":", "QM": "?", "DOT": ".", "EQ": "=",
         "MEASURE": "measure", "RESET": "reset", "WAIT": "wait", "INV": "inv", "POW": "pow", "CTRL": "ctrl", "QUBIT": "qubit", "BIT": "bit", "ASM": "asm", "RAW": "'''x'''", "SEMI": ";", "NL": "\n",
         "VERSION": "version 3", "BARRIER": "barrier", "INIT": "init", "FLOAT": "1.5", "BOOL": "true", "QUOTES": "'''"}


def p27(C):
    C.rule("statements", "every program becomes the tree it spells: every statement once and in order, with all its parts in their places")
    C.rule("separators", "statements are separated by line breaks or semicolons, in any number; comments and blanks stand anywhere between tokens")
    C.rule("language", "the grammar admits exactly the sentences of the language")
    C.rule("edits", "a program with one token removed, doubled, replaced or inserted is accepted exactly if it is a sentence, and becomes that sentence's tree")
    C.rule("refused", "anything else yields exactly one error and no tree")
    syn = Syn(C)
    where = syn.where()
    gpar = "src/v3x/CqasmParser.g4"
    q = Sentences(syn, "statements")
    exprs = ["q", "q[0]", "q[0:2]", "q[0, 2:3, 1]", "1", "1.5", "true", "f(1, x)", "f()", "-x", "!x", "~x", "+x", "(x)", "x + y", "x ? y : z", "x ** y", "f(g(x), h())", "q[f(x)]", "q[x ? y : z]",
             "f(x ? y : z)", "q[(x):(y)]"]
    for a in exprs:
        for t in ("H %s", "b = measure %s", "%s = measure q", "b = measure(%s) q", "reset %s", "init %s", "barrier %s", "wait(%s) q", "wait(1) %s", "Rx(%s) q", "pow(%s).X q", "g f(%s)", "g a[%s]",
                  "inv.Rx(%s) q", "ctrl.inv.pow(2).Rx(%s) q, r"):
            q.add(t % a)
        for b in exprs[:14]:
            for t in ("CX %s, %s", "R(%s, %s) q", "b = measure(%s, %s) q", "g f(%s, %s)", "g a[%s, %s]", "g a[%s:%s]", "%s = measure %s", "wait(%s) %s", "pow(%s).pow(%s).X q"):
                q.add(t % (a, b))
    for n in range(0, 6):
        l = ", ".join("x%d" % i for i in range(n))
        for t in ("g %s", "g f(%s)", "G(%s) q", "b = measure(%s) q", "g q[%s]"):
            q.add(t % l)
    for n in C.sizes(5):
        l = ", ".join("x%d" % i for i in range(n))
        for t in ("g %s", "g f(%s)", "G(%s) q", "b = measure(%s) q", "g q[%s]"):
            q.add(t % l)
        k = min(n, 120)
        for t in ("inv." * k + "X q", "pow(2)." * k + "X q", "g " + "-" * k + "x", "g " + "!" * k + "x", "g " + "(" * k + "x" + ")" * k, "g " + "f(" * k + "x" + ")" * k, "g " + "x + " * k + "x",
                  "g " + "x ? y : " * k + "x", "g " + "n" * n, "n" * n + " q", "g " + "n" * n + "[0]", "qubit " + "n" * n, "g " + "n" * n + "(1)", "qubit[%d] q" % n, "bit[%d] q" % n,
                  "g q[%d]" % n, "g q[%d:%d]" % (n, n + 1), "g %d" % n, "g %d.0" % n, "asm(%s) '''x'''" % ("n" * n), "asm(B) '''%s'''" % ("x" * n)):
            q.add(t)
        q.run(60)
        for i in range(n):
            q.add("H q%d" % i)
        q.run(n)
    for ty in ("qubit", "bit"):
        for s in ("", "[1]", "[ 17 ]", "[0]", "[]", "[n]", "[-1]", "[1.0]", "[1][2]", "(1)"):
            for n in ("q", "_", "Q9", "measure", "1", ""):
                q.add("%s%s %s" % (ty, s, n))
    mods = ["inv.", "ctrl.", "pow(2).", "pow(a, b).", "pow().", "inv", "inv().", "ctrl(1).", "X."]
    for k in range(0, 4):
        for ms in itertools.product(mods if k < 3 else mods[:3], repeat=k):
            q.add("".join(ms) + "X q")
    for t in ("asm(B) ''' x '''", "asm(B)''''''", "asm (B) '''a'''", "asm() '''a'''", "asm(B,C) '''a'''", "asm(1) '''a'''", "asm(measure) '''a'''", "asm B '''a'''", "asm(B) a", "asm(B) 'a'",
              "asm(B)", "asm(B) '''a''' '''b'''", "measure q", "b = reset q", "b = measure", "= measure q", "b measure q", "b = H q", "b == measure q", "X", "X,", "X q,", "X , q", "X(q)", "X() q",
              "X(1)(2) q", "X (1) (2)", "X (q)", "X (q), r", "X (q) + r", "X (1), (2) q", "g (a)(b)", "(a) q", "1 q", "q[0]", "q[0] r", "f(x)", "f(x) = measure q", "x + y = measure q",
              "1 = measure 2", "reset", "reset q, r", "reset (q)", "reset(1) q", "init(1) q", "barrier(1) q", "barrier q, r", "wait q", "wait() q", "wait(1, 2) q", "wait(1)", "wait(1) q, r", "wait 1 q",
              "b = measure (1, 2, 3) q", "b = measure (q)", "b = measure (q) + 1", "b = measure (q)[0]", "b = measure ((q))", "b = measure (1)(2)", "b = measure (1) (2) + 3", "b = measure (1, 2)"):
        q.add(t)
    for op in ("**", "*", "/", "%", "+", "-", "<<", ">>", ">", "<", ">=", "<=", "==", "!=", "&", "^", "|", "&&", "^^", "||"):
        q.add("g a %s b" % op)
        q.add("H q[a %s b]" % op)
        q.add("b = measure(a %s 2) q" % op)
    q.run(60)
    # the text itself
    import checks_api
    checks_api.inputs(C, "language", files=False)
    # separators, blanks and comments
    parts = ["qubit[2] q", "bit b", "H q[0]", "inv.X q", "b = measure q", "asm(B) ''' \n '''", "reset q"]
    seps = ["\n", ";", "\n\n", ";;", " ; ", "\r\n", ";\n", "\n;\n", " // c\n", " /* c */;", "/* a\nb */\n", ";/**/;", ";//\n", "\t\n\t", "//;\n", "/*;*/\n"]
    progs = []
    for s in seps:
        progs.append("version 3.0" + s + s.join(parts))
        progs.append(s + "version 3.0" + s + s.join(parts) + s)
        progs.append("version 3.0" + s)
        progs.append(s + "version 3")
        progs.append("version 3.0" + s + "H q" + s + s + s + "H r")
    for w in (" ", "\t", "  ", "/**/", "/* x */", " /* \n */ ", "/* * / ** */", "/*/*/", " \t "):
        for t in ("qubit{}[{}2{}]{} q", "H{} q{},{}r", "inv{}.{}X{} q", "pow{}({}2{}){}.{}X{} q", "b{}={}measure{} q", "b{}={}measure{}({}1{}){}q", "wait{}({}1{}){}q", "asm{}({}B{}){}'''x'''", "g a{}+{}b", "g f{}({}a{},{}b{})",
                  "g q{}[{}1{}:{}2{}]", "g a{}?{}b{}:{}c", "g -{}a", "{}H q{}", "ctrl{}.{}inv{}.{}Rx{}({}a{}){} q"):
            progs.append("version 3.0;" + t.replace("{}", w))
    progs += ["", "\n", "version", "version 3.0", "version 3.0 version 3.0", "H q", "version 3.0 H q", "version 3.0; H q H r", "version 3.0;; H q;;", "version 3.0, H q", "/* version 3.0", "version 3.0 // x",
              "// version 3.0", "version 3.0\n/* unterminated", "version 3.0; H q; version 3.0", "version 3.0;\x0cH q", "version 3.0;\rH q", "version 3.0\r", "version 3.0;H\u00a0q", "\ufeffversion 3.0", "version 3.0; h /*/ q /*/, r",
              "version 3.0; H q /* a */ /* b */; X q", "version 3.0; asm(B) '''a''' ; asm(C) '''b'''", "version 3.0; H q // a // b\n X q", "version 3.0;" + "H q;" * 200, "version 3.0;" + "\n" * 500 + "H q"]
    for text in progs:
        ref, got = reference(text), syn.run(text)
        if text.startswith("\ufeff"):
            continue
        if got[0] == "undecided":
            C.undec("separators", text[:60], got[1])
            continue
        ok = got[0] == ref[0] and (ref[0] != "tree" or strip_loc(got[1]) == strip_loc(ref[1])) and (ref[0] == "tree" or len(got[1]) == 1 and deref(got[2].f["root"]) is None)
        C.expect("separators", ok, text[:80], where, "%r gives %s, required %s" % (text[:200], short(got[:2]), short(ref)))
    # the languages: which tokens continue a sentence, up to a length
    L, P = antlr_model.grammars()
    SP = grammar.Parser(grammar.g4.Grammar(S.GRAMMAR))
    SL_ = grammar.Lexer(grammar.g4.Grammar(S.TOKENS))
    kinds = {}
    for k, s in ITEMS.items():
        a, ea = L.tokens(s)
        b, eb = SL_.tokens(s)
        if ea or eb or len(a) != len(b):
            C.undec("language", k, "the token %r (property P22)" % s)
            continue
        kinds[k] = (a[:-1], b[:-1])
    head = ([t for t in L.tokens("version 3.0\n")[0][:-1]], [t for t in SL_.tokens("version 3.0\n")[0][:-1]])
    eof = (L.tokens("")[0][-1:], SL_.tokens("")[0][-1:])

    def status(par, toks):
        tree, far = par.parse(toks)
        return (tree is not None, tree is not None or far >= len(toks) - 1)
    small = ["ID", "INT", "MUL", "MINUS", "LP", "RP", "LB", "RB", "COMMA", "COLON", "QM", "DOT", "EQ", "MEASURE", "RESET", "WAIT", "INV", "POW", "QUBIT", "ASM", "RAW", "NL"]
    levels = [((), list(kinds))]
    frontier = [()]
    depth = 0
    limit = 400000 if C.thorough else 45000
    n = 0
    while frontier and n < limit:
        depth += 1
        nxt = []
        for pre in frontier:
            for k in (list(kinds) if depth <= 3 else small):
                if k not in kinds:
                    continue
                seq = pre + (k,)
                a = head[0] + [t for x in seq for t in kinds[x][0]] + eof[0]
                b = head[1] + [t for x in seq for t in kinds[x][1]] + eof[1]
                sa, sb = status(P, a), status(SP, b)
                n += 1
                if sa == sb:
                    C.ok("language")
                    if sa[1]:
                        nxt.append(seq)
                else:
                    text = " ".join(ITEMS[x] for x in seq)
                    C.fail("language", text, (gpar, 1, "parser"), "%r: the grammar %s, required: %s" % (
                        text, "accepts it" if sa[0] else "can continue it" if sa[1] else "refuses it", "a sentence" if sb[0] else "the beginning of one" if sb[1] else "none"))
                if n >= limit or len(C.violations) > 30:
                    break
            if n >= limit or len(C.violations) > 30:
                break
        frontier = nxt
        if len(C.violations) > 30:
            break
    C.notes.append("token strings up to length %d compared (%d)" % (depth, n))
    C.floor("token strings", n, 20000)
    # one-token edits of programs
    base = ["qubit[2] q", "bit b", "H q[0], r", "inv.pow(2).Rx(a, b) q", "b[0] = measure(1, x) q[0:1]", "wait(1) q", "asm(B) '''x'''", "g a ? f(-b) : c[1, 2:3] * (d)", "reset q; init q", "barrier q"]
    alltok = [s for k, s in ITEMS.items()] + ["+", "**", "&&", "==", "~"]
    cand = set()
    for t in base:
        ws = [x.s for x in S.tokens(t)[:-1]]
        for i in range(len(ws)):
            cand.add(" ".join(ws[:i] + ws[i + 1:]))
            cand.add(" ".join(ws[:i] + [ws[i]] + ws[i:]))
            if i + 1 < len(ws):
                cand.add(" ".join(ws[:i] + [ws[i + 1], ws[i]] + ws[i + 2:]))
        for i in range(len(ws) + 1):
            for x in alltok:
                cand.add(" ".join(ws[:i] + [x] + ws[i:]))
                if i < len(ws):
                    cand.add(" ".join(ws[:i] + [x] + ws[i + 1:]))
    good = Sentences(syn, "edits")
    every = 1 if C.thorough else 9
    for i, t in enumerate(sorted(cand)):
        text = "version 3.0;" + t
        ref = reference(text)
        toks, errs = L.tokens(text)
        tree, far = P.parse(toks)
        if ref[0] == "tree" and "\n" not in t and ";" not in t:
            good.add(t)
            continue
        if i % every == 0:
            got = syn.run(text)
            if got[0] == "undecided":
                C.undec("refused", t, got[1])
            elif ref[0] == "errors":
                C.expect("refused", got[0] == "errors" and len(got[1]) == 1 and deref(got[2].f["root"]) is None, t, where, "gives %s" % short(got[:2]))
            else:
                C.expect("edits", got[0] == "tree" and strip_loc(got[1]) == strip_loc(ref[1]), t, where, "becomes %s, required %s" % diff(strip_loc, got, ref))
        else:
            C.expect("edits", (tree is not None and not errs) == (ref[0] == "tree"), t, (gpar, 1, "parser"), "the grammar %s %r, required otherwise" % ("refuses" if tree is None else "accepts", t))
    good.run()
    return "other", ("Trees of sentences covering every alternative of the grammar in every position, and the language of the grammar compared with the reference on every token "
                     "string up to the recorded length.")
