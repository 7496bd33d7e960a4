"""Reference for cQASM 3 syntax, written from the language definition and independent of the repository: tokens, and the tree of every program.

Trees are tuples (class, location or None, ((field, value), ...)); locations are (line, column, line, column), one-based, end exclusive."""
import re

# The token language, in the notation of token rules; names are this module's own.
TOKENS = r"""
lexer grammar Spec;
WS: [ \t]+ -> skip;
LINE_COMMENT: '//' ~[\r\n]* -> skip;
BLOCK_COMMENT: '/*' .*? '*/' -> skip;
NL: '\r'?'\n';
SEMI: ';'; COLON: ':'; COMMA: ','; DOT: '.'; EQ: '='; LB: '['; RB: ']'; LP: '('; RP: ')'; PLUS: '+'; MINUS: '-'; QUOTES: '\'\'\'';
BNOT: '~'; LNOT: '!'; POWER: '**'; MUL: '*'; DIV: '/'; MOD: '%'; SHL: '<<'; SHR: '>>'; GT: '>'; LT: '<'; GE: '>='; LE: '<='; EQEQ: '=='; NE: '!=';
BAND: '&'; BXOR: '^'; BOR: '|'; LAND: '&&'; LXOR: '^^'; LOR: '||'; QM: '?';
VERSION: 'version' -> pushMode(V);
MEASURE: 'measure'; RESET: 'reset'; INIT: 'init'; BARRIER: 'barrier'; WAIT: 'wait'; INV: 'inv'; POW: 'pow'; CTRL: 'ctrl'; QUBIT: 'qubit'; BIT: 'bit'; ASM: 'asm';
BOOL: 'true' | 'false';
INT: [0-9]+;
FLOAT: [0-9]+ '.' [0-9]+ ([eE] [-+]? [0-9]+)? | [0-9]+ '.' ([eE] [-+]? [0-9]+)? | '.' [0-9]+ ([eE] [-+]? [0-9]+)?;
ID: [a-zA-Z_] [a-zA-Z_0-9]*;
RAW: '\'\'\'' .*? '\'\'\'';
mode V;
VWS: [ \t]+ -> skip;
VNUM: [0-9]+ ('.' [0-9]+)? -> popMode;
"""

KEYWORDS = {k: k.upper() for k in ("version", "measure", "reset", "init", "barrier", "wait", "inv", "pow", "ctrl", "qubit", "bit", "asm")}
PUNCT = {"**": "POWER", "<<": "SHL", ">>": "SHR", ">=": "GE", "<=": "LE", "==": "EQEQ", "!=": "NE", "&&": "LAND", "^^": "LXOR", "||": "LOR", ";": "SEMI",
         ":": "COLON", ",": "COMMA", ".": "DOT", "=": "EQ", "[": "LB", "]": "RB", "(": "LP", ")": "RP", "+": "PLUS", "-": "MINUS", "~": "BNOT", "!": "LNOT",
         "*": "MUL", "/": "DIV", "%": "MOD", ">": "GT", "<": "LT", "&": "BAND", "^": "BXOR", "|": "BOR", "?": "QM"}
_RE = re.compile(r"""(?P<ws>[ \t]+|//[^\r\n]*|/\*.*?\*/)|(?P<NL>\r?\n)|(?P<RAW>'''.*?''')|(?P<QUOTES>''')
 |(?P<FLOAT>(?:[0-9]+\.[0-9]+|[0-9]+\.|\.[0-9]+)(?:[eE][-+]?[0-9]+)?)|(?P<INT>[0-9]+)|(?P<ID>[a-zA-Z_][a-zA-Z_0-9]*)
 |(?P<P>\*\*|<<|>>|>=|<=|==|!=|&&|\^\^|\|\||[;:,.=\[\]()+\-~!*/%<>&^|?])""", re.X | re.S)
_VRE = re.compile(r"(?P<ws>[ \t]+)|(?P<VNUM>[0-9]+(?:\.[0-9]+)?)")


class Refused(Exception):
    def __init__(self, what, line=None, col=None):
        Exception.__init__(self, what)
        self.line, self.col = line, col


class T:
    def __init__(self, k, s, line, col):
        self.k, self.s, self.line, self.col = k, s, line, col

    def loc(self):
        return (self.line, self.col, self.line, self.col + len(self.s))


def tokens(text):
    out, pos, line, col, version = [], 0, 1, 1, False
    while pos < len(text):
        m = (_VRE if version else _RE).match(text, pos)
        if not m:
            raise Refused("character", line, col)
        k, s = m.lastgroup, m.group()
        if k == "P":
            k = PUNCT[s]
        elif k == "ID":
            k = KEYWORDS.get(s, "BOOL" if s in ("true", "false") else "ID")
        if k != "ws":
            out.append(T(k, s, line, col))
        version = k == "VERSION" or version and k != "VNUM"
        for c in s:
            line, col = (line + 1, 1) if c == "\n" else (line, col + 1)
        pos = m.end()
    out.append(T("EOF", "", line, col))
    return out


def N(cls, loc, **f):
    return (cls, loc, tuple(sorted(f.items())))


# Binary operators by precedence, loosest first; all associate to the left except the power and the conditional operator.
LEVELS = [{"LOR": "LogicalOrExpression"}, {"LXOR": "LogicalXorExpression"}, {"LAND": "LogicalAndExpression"}, {"BOR": "BitwiseOrExpression"},
          {"BXOR": "BitwiseXorExpression"}, {"BAND": "BitwiseAndExpression"}, {"EQEQ": "CmpEqExpression", "NE": "CmpNeExpression"},
          {"GT": "CmpGtExpression", "LT": "CmpLtExpression", "GE": "CmpGeExpression", "LE": "CmpLeExpression"},
          {"SHL": "ShiftLeftExpression", "SHR": "ShiftRightExpression"}, {"PLUS": "AdditionExpression", "MINUS": "SubtractionExpression"},
          {"MUL": "ProductExpression", "DIV": "DivisionExpression", "MOD": "ModuloExpression"}]
INT_MAX = (1 << 63) - 1


class P:
    def __init__(self, text):
        self.t, self.i = tokens(text), 0

    @property
    def k(self):
        return self.t[self.i].k

    def la(self, n):
        return self.t[min(self.i + n, len(self.t) - 1)].k

    def take(self, k=None):
        t = self.t[self.i]
        if k and t.k != k:
            raise Refused("expected %s" % k, t.line, t.col)
        self.i += 1 if t.k != "EOF" else 0
        return t

    def seps(self):
        n = 0
        while self.k in ("NL", "SEMI"):
            self.take()
            n += 1
        return n

    def program(self):
        self.seps()
        self.take("VERSION")
        v = self.take("VNUM")
        items = []
        for i, p in enumerate(v.s.split(".")):
            items.append(self.integer(p, v.line, v.col + (len(v.s) - len(p) if i else 0)))
        stmts = []
        while True:
            n = self.seps()
            if self.k == "EOF":
                break
            if not n:
                raise Refused("separator", self.t[self.i].line, self.t[self.i].col)
            stmts.append(self.statement())
        return N("Program", None, version=N("Version", v.loc(), items=tuple(items)), block=N("GlobalBlock", None, statements=tuple(stmts)))

    def integer(self, s, line, col):
        if int(s) > INT_MAX:
            raise Refused("integer", line, col)
        return int(s)

    def ident(self, s):
        return N("Identifier", None, name=s)

    def statement(self):
        k = self.k
        if k in ("QUBIT", "BIT"):
            t = self.take()
            size, loc = None, t.loc()
            if self.k == "LB":
                self.take()
                n = self.take("INT")
                size = N("IntegerLiteral", None, value=self.integer(n.s, n.line, n.col))
                e = self.take("RB")
                loc = loc[:2] + e.loc()[2:]
            n = self.take("ID")
            return N("Variable", n.loc(), name=self.ident(n.s), annotations=(), typ=N("Type", loc, name=N("Keyword", None, name=t.s), size=size))
        if k in ("RESET", "INIT", "BARRIER"):
            t = self.take()
            return self.nongate(t, (), (self.expr(),))
        if k == "WAIT":
            t = self.take()
            self.take("LP")
            p = self.expr()
            self.take("RP")
            return self.nongate(t, (p,), (self.expr(),))
        if k == "ASM":
            a = self.take()
            self.take("LP")
            b = self.take("ID")
            self.take("RP")
            c = self.take("RAW")
            return N("AsmDeclaration", a.loc(), backend_name=self.ident(b.s), backend_code=c.s[3:-3], annotations=())
        if k in ("INV", "POW", "CTRL"):
            return self.ginst()
        if k == "ID":
            # an identifier starts a gate, unless the statement assigns
            i, save = self.i, None
            try:
                s = self.ginst()
                if self.k in ("NL", "SEMI", "EOF"):
                    return s
                save = Refused("end of statement", self.t[self.i].line, self.t[self.i].col)
            except Refused as e:
                save = e
            self.i = i
            try:
                return self.measure()
            except Refused as e:
                raise e if (e.line, e.col) > (save.line, save.col) else save
        return self.measure()

    def measure(self):
        lhs = self.expr()
        self.take("EQ")
        t = self.take("MEASURE")
        if self.k == "LP":
            # parameters, unless the parentheses are the operand's own
            i = self.i
            try:
                self.take()
                ps = self.elist()
                self.take("RP")
                return self.nongate(t, ps, (lhs, self.expr()))
            except Refused:
                self.i = i
        return self.nongate(t, (), (lhs, self.expr()))

    def nongate(self, t, ps, ops):
        return N("NonGateInstruction", t.loc(), name=N("Keyword", None, name=t.s), parameters=N("ExpressionList", None, items=ps),
                 operands=N("ExpressionList", None, items=ops), annotations=())

    def ginst(self):
        """A gate and its operands; of the two readings of 'g (a) ...' the one with parameters is preferred when operands follow."""
        i = self.i
        last = None
        for with_params in (True, False):
            self.i = i
            try:
                g = self.gate(with_params)
                ops = self.elist()
                if self.k in ("NL", "SEMI", "EOF") or not with_params:
                    return N("GateInstruction", g[1], gate=g, operands=N("ExpressionList", None, items=ops), annotations=())
                last = Refused("end of statement", self.t[self.i].line, self.t[self.i].col)
            except Refused as e:
                last = last if last and (last.line, last.col) > (e.line, e.col) else e
        raise last

    def gate(self, with_params):
        t = self.take()
        if t.k in ("INV", "CTRL", "POW"):
            ps = ()
            if t.k == "POW":
                self.take("LP")
                ps = (self.expr(),)
                self.take("RP")
            self.take("DOT")
            return N("Gate", t.loc(), name=self.ident(t.s), gate=self.gate(with_params), parameters=N("ExpressionList", None, items=ps), annotations=())
        if t.k != "ID":
            raise Refused("gate", t.line, t.col)
        ps = ()
        if with_params and self.k == "LP":
            self.take()
            ps = self.elist()
            self.take("RP")
        return N("Gate", t.loc(), name=self.ident(t.s), gate=None, parameters=N("ExpressionList", None, items=ps), annotations=())

    def elist(self):
        out = [self.expr()]
        while self.k == "COMMA":
            self.take()
            out.append(self.expr())
        return tuple(out)

    # expressions
    def expr(self):
        c = self.level(0)
        if self.k != "QM":
            return c
        t = self.take()
        a = self.expr()
        self.take("COLON")
        return N("TernaryConditionalExpression", t.loc(), cond=c, if_true=a, if_false=self.expr())

    def level(self, n):
        if n == len(LEVELS):
            return self.power()
        lhs = self.level(n + 1)
        while self.k in LEVELS[n]:
            t = self.take()
            lhs = N(LEVELS[n][t.k], t.loc(), lhs=lhs, rhs=self.level(n + 1))
        return lhs

    def power(self):
        b = self.unary()
        if self.k != "POWER":
            return b
        t = self.take()
        return N("PowerExpression", t.loc(), lhs=b, rhs=self.power())

    def unary(self):
        t = self.t[self.i]
        cls = {"MINUS": "UnaryMinusExpression", "BNOT": "BitwiseNotExpression", "LNOT": "LogicalNotExpression", "PLUS": None}.get(t.k, 0)
        if cls == 0:
            return self.primary()
        self.take()
        e = self.unary()
        return N(cls, t.loc(), expr=e) if cls else e

    def primary(self):
        t = self.take()
        if t.k == "LP":
            e = self.expr()
            self.take("RP")
            return e
        if t.k == "BOOL":
            return N("BooleanLiteral", t.loc(), value=t.s == "true")
        if t.k == "INT":
            return N("IntegerLiteral", t.loc(), value=self.integer(t.s, t.line, t.col))
        if t.k == "FLOAT":
            v = float(t.s)
            if v in (float("inf"),):
                raise Refused("float", t.line, t.col)
            if v < 2.2250738585072014e-308 and re.search("[1-9]", re.split("[eE]", t.s)[0]):
                raise Refused("float", t.line, t.col)
            return N("FloatLiteral", t.loc(), value=v)
        if t.k != "ID":
            raise Refused("expression", t.line, t.col)
        if self.k == "LP":
            self.take()
            args = None
            if self.k != "RP":
                args = N("ExpressionList", None, items=self.elist())
            self.take("RP")
            return N("FunctionCall", t.loc(), name=self.ident(t.s), arguments=args)
        if self.k == "LB":
            self.take()
            items = []
            while True:
                a = self.expr()
                if self.k == "COLON":
                    self.take()
                    items.append(N("IndexRange", None, first=a, last=self.expr()))
                else:
                    items.append(N("IndexItem", None, index=a))
                if self.k != "COMMA":
                    break
                self.take()
            self.take("RB")
            return N("Index", t.loc(), expr=self.ident(t.s), indices=N("IndexList", None, items=tuple(items)))
        return N("Identifier", t.loc(), name=t.s)


def parse(text):
    return P(text).program()


# The sentence language, over the token names above; precedence is spelled out by stratification.
GRAMMAR = r"""
parser grammar SpecP;
program: (NL | SEMI)* VERSION VNUM ((NL | SEMI)+ stmt)* (NL | SEMI)* EOF;
stmt: ty ID | gate list | ternary EQ MEASURE (LP list RP)? ternary | RESET ternary | INIT ternary | BARRIER ternary | WAIT LP ternary RP ternary
  | ASM LP ID RP RAW;
ty: QUBIT (LB INT RB)? | BIT (LB INT RB)?;
gate: INV DOT gate | CTRL DOT gate | POW LP ternary RP DOT gate | ID (LP list RP)?;
list: ternary (COMMA ternary)*;
ternary: flat (QM ternary COLON ternary)?;
flat: operand ((POWER | MUL | DIV | MOD | PLUS | MINUS | SHL | SHR | GT | LT | GE | LE | EQEQ | NE | BAND | BXOR | BOR | LAND | LXOR | LOR) operand)*;
operand: (PLUS | MINUS | BNOT | LNOT)* atom;
atom: LP ternary RP | ID | ID LP list? RP | ID LB entry (COMMA entry)* RB | BOOL | INT | FLOAT;
entry: ternary (COLON ternary)?;
"""
