"""P01 text encoders, P02 case folding and raw text, P08 string escapes."""
from consts import int_constants
from harness import *


def lengths_for(C, fs, cap=2100):
    """Lengths beyond the exhaustive ones: around every constant in the code, plus two large ones."""
    out = {5, 9, 70, 300}
    for c in int_constants(C.prog, fs):
        for x in (c - 1, c, c + 1):
            if 3 <= x <= cap:
                out.add(x)
    out = sorted(out)
    return out if len(out) <= 60 else out[:30] + out[-30:]


def string_function(C, rule, f, oracle, shapes, call=None):
    for s in shapes:
        n = sum(len(x) if isinstance(x, (bytes, str)) else 1 for x in s)
        free = [v for v in s if isinstance(v, Var)]
        name = "%s on strings of length %d, free bytes %s" % (f["n"].split("::")[-1], n, ",".join(v.name for v in free) or "none")
        C.verify(rule, name, (call or (lambda I, x: I.rv(I.call_fn(f, [Cell(x)])))) and
                 (lambda I, s=s: (call(I, sval(s)) if call else I.rv(I.call_fn(f, [Cell(sval(s))])))),
                 lambda env, s=s: oracle(sbytes(s, env)), vars=free, f=f)


UNRESERVED = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~")


def url(b):
    return b"".join(bytes([c]) if c in UNRESERVED else b"%%%02X" % c for c in b)


def json_enc(b):
    return b"".join(b"\\u%04X" % c if c in (34, 92) or c <= 31 else bytes([c]) for c in b)


def json_decodes(b):
    """Accepts any JSON encoding of b that leaves bytes needing no escape alone."""
    import json

    def ok(got):
        if got[0] != "return" or not isinstance(got[1], bytes):
            return False
        g = got[1]
        i = j = 0
        simple = {98: 8, 102: 12, 110: 10, 114: 13, 116: 9, 34: 34, 92: 92, 47: 47}
        while i < len(g):
            c = g[i]
            if c == 92:
                if i + 1 >= len(g):
                    return False
                e = g[i + 1]
                if e == 117:
                    h = g[i + 2:i + 6]
                    try:
                        v = int(h, 16) if len(h) == 4 else -1
                    except ValueError:
                        return False
                    i += 6
                elif e in simple:
                    v = simple[e]
                    i += 2
                else:
                    return False
                if v < 0 or v > 127:
                    return False
            elif c == 34 or c <= 31:
                return False
            else:
                v = c
                i += 1
            if j >= len(b) or b[j] != v:
                return False
            if c == 92 and not (v in (34, 92, 127) or v <= 31):
                return False
            j += 1
        return j == len(b)
    return ok


def p01(C):
    C.load(["src/utils.cpp"])
    C.rule("url", "url_encode keeps the unreserved characters and writes every other byte as % and two upper-case hex digits")
    C.rule("json", "json_encode escapes the quote, the backslash and control characters and passes every other byte through unchanged")
    u, j = C.function("cqasm::utils::url_encode"), C.function("cqasm::utils::json_encode")
    string_function(C, "url", u, lambda b: ("return", url(b)), string_shapes(lengths=lengths_for(C, [u])))
    string_function(C, "json", j, json_decodes, string_shapes(lengths=lengths_for(C, [j])))
    return "other", EXPL % "url_encode and json_encode"


EXPL = ("Partitioned value-set abstract interpretation of the type-checked syntax trees of %s: the abstract input stands for every string of "
        "up to two bytes, for three bytes with one free and two class representatives, and for longer strings (lengths around every constant in "
        "the code, and 5, 9, 70, 300) with a free byte at the start, the middle and the end; the resulting value set is compared with the "
        "specification for every valuation.")


def lower(b):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in b)


def p02(C):
    C.load(["src/utils.cpp"])
    C.rule("lower", "to_lowercase changes exactly the letters A to Z and nothing else")
    C.rule("equal", "equal_case_insensitive holds exactly for strings of equal length whose bytes agree up to the case of ASCII letters")
    lo, eqf = C.function("cqasm::utils::to_lowercase"), C.function("cqasm::utils::equal_case_insensitive")
    string_function(C, "lower", lo, lambda b: ("return", lower(b)), string_shapes(lengths=lengths_for(C, [lo])))
    reps = CLASS_REPS
    pairs = []
    a, b = byte_var("a0"), byte_var("b0")
    pairs += [([], []), ([], [b]), ([a], []), ([a], [b]), ([a, b"x"], [b]), ([a], [b, b"x"]), ([a, b"\0"], [b])]
    a1, b1 = byte_var("a1", reps), byte_var("b1", reps)
    for n in lengths_for(C, [eqf]):
        fill = (b"aZ9_" * n)[:n]
        for i in sorted({0, n // 2, n - 1}):
            pairs.append(([fill[:i], a, fill[i + 1:]], [fill.swapcase()[:i], b, fill.swapcase()[i + 1:]]))
        pairs.append(([fill[:-1], a1], [fill]))
        pairs.append(([fill, a1], [fill]))
        pairs.append(([fill], [fill, b1]))
        pairs.append(([fill[:1]], [fill]))
    a2, b2, a3, b3 = (byte_var(x, [0, 64, 65, 90, 91, 96, 97, 122, 123, 193, 225]) for x in ("a2", "b2", "a3", "b3"))
    pairs.append(([a2, a3], [b2, b3]))
    for x, y in pairs:
        free = [v for v in x + y if isinstance(v, Var)]
        nm = "equal_case_insensitive on lengths %d and %d" % tuple(sum(len(q) if isinstance(q, bytes) else 1 for q in z) for z in (x, y))
        C.verify("equal", nm, lambda I, x=x, y=y: I.rv(I.call_fn(eqf, [Cell(sval(x)), Cell(sval(y))])),
                 lambda env, x=x, y=y: ("return", lower(sbytes(x, env)) == lower(sbytes(y, env))), vars=free, f=eqf)
    return "other", EXPL % "to_lowercase and equal_case_insensitive"


ESC = {b"\\t": b"\t", b"\\n": b"\n", b"\\r": b"\r", b"\\'": b"'", b'\\"': b'"', b"\\\\": b"\\"}


def p08(C):
    C.load(["src/utils.cpp", "src/string_builder.cpp"])
    C.rule("raw", "removing the triple quotes of a raw string yields exactly the text between them")
    C.rule("escape", "the six escape sequences produce their character, any other sequence is appended as written")
    C.rule("append", "text pieces are appended in order and unchanged")
    r = C.function("cqasm::utils::remove_triple_quotes")
    shapes = [[b"'''"] + s + [b"'''"] for s in string_shapes(lengths=lengths_for(C, [r]))]
    string_function(C, "raw", r, lambda b: ("return", b[3:-3]), shapes)
    pe = C.function("cqasm::syntactic::StringBuilder::push_escape")
    ps = C.function("cqasm::syntactic::StringBuilder::push_string")

    def builder(I, calls):
        o = Obj("cqasm::syntactic::StringBuilder")
        o.f["stream"] = Cell(Stream())
        c = Cell(o)
        for fn, x in calls:
            I.call_fn(fn, [Cell(sval(x))], c)
        return o.f["stream"].v
    esc_shapes = [[], [byte_var("e0")], [byte_var("e0"), byte_var("e1")], [b"\\", byte_var("e1"), byte_var("e2", CLASS_REPS)],
                  [b"\\x", byte_var("e2"), byte_var("e3", CLASS_REPS)], [b"\\u00", byte_var("e4"), b"1"]]
    for s in esc_shapes:
        free = [v for v in s if isinstance(v, Var)]
        C.verify("escape", "push_escape of %d bytes" % sum(len(q) if isinstance(q, bytes) else 1 for q in s),
                 lambda I, s=s: builder(I, [(ps, [b"ab"]), (pe, s), (ps, [b"yz"])]),
                 lambda env, s=s: ("return", b"ab" + ESC.get(sbytes(s, env), sbytes(s, env)) + b"yz"), vars=free, f=pe)
    for s in string_shapes(lengths=lengths_for(C, [ps])):
        free = [v for v in s if isinstance(v, Var)]
        C.verify("append", "push_string of %d bytes" % sum(len(q) if isinstance(q, bytes) else 1 for q in s),
                 lambda I, s=s: builder(I, [(ps, s), (ps, [b"-"]), (ps, s)]),
                 lambda env, s=s: ("return", sbytes(s, env) + b"-" + sbytes(s, env)), vars=free, f=ps)
    return "other", EXPL % "remove_triple_quotes, StringBuilder::push_string and push_escape"
