"""The ANTLR runtime as the repository uses it: streams, a lexer and parser that follow the current grammars, tokens, terminal nodes and contexts."""
from absint import Cell, Obj, Ptr, Str, Stream, UB, Undecided, Vec
import front
import grammar
import models
from models import throw, to_string

PARSER = "cqasm::v3x::parser::CqasmParser"
_G = {}


def grammars():
    if "g" not in _G:
        _G["g"] = grammar.load(front.REPO)
    return _G["g"]


def literal(s):
    if not all(isinstance(x, int) for x in s.p):
        return None
    return bytes(s.p)


def data(I, o):
    if "$data" not in o.f:
        a = o.f["$args"].v.items
        st = pointee(I, a[0]) if a else None
        o.f["$data"] = Cell(models.rest_of(I, st) if isinstance(st, Stream) else to_string(I, a[0]) if a else Str())
        check_utf8(I, o)
    return o.f["$data"].v


def check_utf8(I, o):
    s = o.f["$data"].v
    seen = getattr(I, "input_seen", None)
    if seen is not None:
        seen.append(s)             # only what the parser is given is asked for
        throw(I, "antlr4::ParseCancellationException", "the input is known")
    b = literal(s)
    if b is None:
        raise Undecided("parsing an abstract text")
    try:
        b.decode("utf-8")
    except UnicodeDecodeError:
        throw(I, "antlr4::IllegalArgumentException", "UTF-8 string contains an illegal byte sequence")


def pointee(I, x):
    v = I.rv(x)
    return I.rv(v.c) if isinstance(v, Ptr) else v


def listeners(o):
    return o.f.setdefault("$listeners", Cell(["console"])).v


def notify(I, o, tok, line, col, msg):
    n = 0
    for l in list(listeners(o)):
        if l == "console":
            continue
        n += 1
        lo = I.rv(l)
        f = target(I, lo.cls, "syntaxError", 6)
        if f is None:
            raise Undecided("%s has no syntaxError" % lo.cls)
        I.call_fn(f, [Ptr(Cell(o)), Ptr(tok), line, col, Str.lit(msg), Ptr(None)], l)
    return n


def target(I, cls, name, n):
    todo = [cls]
    while todo:
        r = I.prog.records.get(todo.pop(0))
        if not r:
            continue
        for m in r.get("methods", ()):
            f = I.prog.functions.get(m["key"])
            if m["n"] == name and f and len(f["params"]) == n:
                return f
        todo += r["bases"]
    return None


def tok_cell(I, t):
    if not hasattr(t, "cell"):
        o = Obj("antlr4::CommonToken")
        o.tok = t
        t.cell = Cell(o)
    return t.cell


def context(I, n):
    """The context object of a parse-tree node."""
    if isinstance(n, grammar.Tok):
        o = Obj("antlr4::tree::TerminalNodeImpl")
        o.tok = n
        return Cell(o)
    o = Obj("%s::%sContext" % (PARSER, n.cls))
    acc, kids = {}, []
    L, P = grammars()
    for k in n.kids:
        c = context(I, k)
        kids.append(c)
        if isinstance(k, grammar.Tok):
            acc.setdefault(k.name, []).append(c)
        else:
            acc.setdefault(rule_of(k.cls), []).append(c)
    o.f["$acc"] = Cell(acc)
    o.f["$kids"] = Cell(kids)
    return Cell(o)


def rule_of(cls):
    if "labels" not in _G:
        L, P = grammars()
        m = {}
        for r in P.g.rules:
            for a in r.alts:
                m[grammar.cap(a.label or r.name)] = r.name
        _G["labels"] = m
    return _G["labels"][cls]


def tokens_of(n, out):
    for k in n.f["$kids"].v:
        o = k.v
        if hasattr(o, "tok"):
            out.append(o.tok)
        else:
            tokens_of(o, out)
    return out


def program(I, o, sn, obj, args, e):
    if not o.cls.endswith("CqasmParser"):
        return NotImplemented
    name = sn.split("::")[-1]
    stream = pointee(I, o.f["$args"].v.items[0])
    lexer = pointee(I, stream.f["$args"].v.items[0])
    chars = pointee(I, lexer.f["$args"].v.items[0])
    text = literal(data(I, chars)).decode("utf-8")
    try:
        L, P = grammars()
        key = (name, text)
        if key not in _G:
            toks, errs = L.tokens(text)
            tree, far = P.parse(toks, name)
            _G[key] = (toks, errs, tree, far)
        toks, errs, tree, far = _G[key]
    except (grammar.GrammarGap, grammar.g4.GrammarError) as x:
        raise Undecided("grammar: %s" % x)
    hook = getattr(I, "token_hook", None)
    for t in toks:
        if hasattr(t, "cell"):
            del t.cell
    for idx, line, col, bad in errs:
        if tree is None and idx > far:
            break
        notify(I, lexer, None, line, col, "token recognition error at: '%s'" % bad)
    if tree is None:
        t = toks[far]
        if not notify(I, o, tok_cell(I, t), t.line, t.col, "mismatched input '%s'" % t.text):
            raise UB("a syntax error reaches no listener: the parser drops tokens and carries on", I.where())
        raise Undecided("error recovery of the parser")
    return Ptr(context(I, tree))


def tok_method(what):
    def go(I, o, sn, obj, args, e):
        if not hasattr(o, "tok"):
            return NotImplemented
        t = o.tok
        hook = getattr(I, "token_hook", None)
        if hook:
            r = hook(t, what)
            if r is not None:
                return r
        return {"getLine": t.line, "getCharPositionInLine": t.col, "getStartIndex": t.start, "getStopIndex": t.stop,
                "getType": t.type & ((1 << 64) - 1)}[what]
    return go


def get_text(I, o, sn, obj, args, e):
    if hasattr(o, "tok"):
        return Str.lit(o.tok.text.encode("utf-8"))
    if "$kids" in o.f:
        return Str.lit("".join(t.text for t in tokens_of(o, [])).encode("utf-8"))
    return NotImplemented


def get_symbol(I, o, sn, obj, args, e):
    return Ptr(tok_cell(I, o.tok)) if hasattr(o, "tok") else NotImplemented


def edge(first):
    def go(I, o, sn, obj, args, e):
        if "$kids" not in o.f:
            return NotImplemented
        ts = tokens_of(o, [])
        return Ptr(tok_cell(I, ts[0 if first else -1])) if ts else Ptr(None)
    return go


def remove_listeners(I, o, sn, obj, args, e):
    if not o.cls.startswith("cqasm::v3x::parser::Cqasm"):
        return NotImplemented
    del listeners(o)[:]
    return models.VOID


def add_listener(I, o, sn, obj, args, e):
    if not o.cls.startswith("cqasm::v3x::parser::Cqasm"):
        return NotImplemented
    p = I.rv(args[0])
    if p.c is None:
        throw(I, "antlr4::NullPointerException", "listener cannot be null.")
    listeners(o).append(p.c)
    return models.VOID


def load_file(I, o, sn, obj, args, e):
    if not o.cls.startswith("antlr4::"):
        return NotImplemented
    path = to_string(I, args[0])
    files = getattr(I, "files_in", {})
    key = literal(path)
    key = key.decode() if key is not None else None
    if key not in files:
        raise Undecided("reading the file %r" % (path,))
    if files[key] is None:
        throw(I, "std::ios_base::failure", "Error reading the file")
    o.f["$data"] = Cell(files[key] if isinstance(files[key], Str) else Str.lit(files[key]))
    check_utf8(I, o)
    return models.VOID


def load_text(I, o, sn, obj, args, e):
    if not o.cls.startswith("antlr4::"):
        return NotImplemented
    st = pointee(I, args[0])
    o.f["$data"] = Cell(models.rest_of(I, st) if isinstance(st, Stream) else to_string(I, args[0]))
    check_utf8(I, o)
    return models.VOID


HOOKS = {"program": program, "getText": get_text, "getSymbol": get_symbol, "removeErrorListeners": remove_listeners,
         "addErrorListener": add_listener, "loadFromFile": load_file, "load": load_text, "getStart": edge(True), "getStop": edge(False)}
for _n in ("getLine", "getCharPositionInLine", "getStartIndex", "getStopIndex", "getType"):
    HOOKS[_n] = tok_method(_n)
