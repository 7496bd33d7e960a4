"""Parser for the subset of ANTLR4 grammar syntax that libqasm uses (and a little more).

Elements are tuples:
  ('tok', NAME) token reference      ('rule', name) parser-rule reference
  ('lit', text) literal              ('set', [(lo,hi)..], negated) char set
  ('any',)      wildcard             ('seq', [..])  ('alt', [..])
  ('rep', elem, min, max|None, greedy)
"""
import re


class Alt:
    def __init__(self, elem, label, assoc, line):
        self.elem, self.label, self.assoc, self.line = elem, label, assoc, line


class Rule:
    def __init__(self, name, alts, line, fragment=False, mode=None, commands=None):
        self.name, self.alts, self.line = name, alts, line
        self.fragment, self.mode, self.commands = fragment, mode, commands or []


class GrammarError(Exception):
    pass


_TOK = re.compile(r"""
   (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 | (?P<str>'(?:\\.|[^'\\])*')
 | (?P<set>\[(?:\\.|[^\]\\])*\])
 | (?P<arrow>->)
 | (?P<assoc><\s*assoc\s*=\s*\w+\s*>)
 | (?P<label>\#\s*\w+)
 | (?P<range>\.\.)
 | (?P<id>[A-Za-z_]\w*)
 | (?P<op>[:;|()*+?.~,{}=@])
""", re.X | re.S)


def _tokenize(text):
    pos, line, out = 0, 1, []
    while pos < len(text):
        m = _TOK.match(text, pos)
        if not m:
            raise GrammarError("cannot tokenize grammar at line %d: %r" % (line, text[pos:pos + 20]))
        k, v = m.lastgroup, m.group()
        if k != 'ws':
            out.append((k, v, line))
        line += v.count("\n")
        pos = m.end()
    out.append(('eof', '', line))
    return out


_ESC = {'n': '\n', 'r': '\r', 't': '\t', 'f': '\f', 'b': '\b', '\\': '\\', "'": "'", '-': '-', ']': ']', '[': '['}


def _unesc(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            c = s[i + 1]
            if c == 'u':
                out.append((chr(int(s[i + 2:i + 6], 16)), True))
                i += 6
                continue
            out.append((_ESC.get(c, c), True))
            i += 2
        else:
            out.append((s[i], False))
            i += 1
    return out


def _charset(body):
    cs, i, r = _unesc(body), 0, []
    while i < len(cs):
        if i + 2 < len(cs) and cs[i + 1] == ('-', False):
            r.append((cs[i][0], cs[i + 2][0]))
            i += 3
        else:
            r.append((cs[i][0], cs[i][0]))
            i += 1
    return r


class _P:
    def __init__(self, text):
        self.t, self.i = _tokenize(text), 0

    def peek(self, v=None):
        return self.t[self.i][1] == v if v is not None else self.t[self.i]

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, v):
        k = self.next()
        if k[1] != v:
            raise GrammarError("grammar line %d: expected %r, got %r" % (k[2], v, k[1]))

    def atom(self):
        k, v, ln = self.next()
        if k == 'str':
            e = ('lit', ''.join(c for c, _ in _unesc(v[1:-1])))
        elif k == 'set':
            e = ('set', _charset(v[1:-1]), False)
        elif k == 'id':
            e = ('tok', v) if v[0].isupper() else ('rule', v)
        elif v == '.':
            e = ('any',)
        elif v == '~':
            inner = self.atom()
            if inner[0] == 'lit' and len(inner[1]) == 1:
                inner = ('set', [(inner[1], inner[1])], False)
            if inner[0] != 'set':
                raise GrammarError("grammar line %d: unsupported negation" % ln)
            return ('set', inner[1], True)
        elif v == '(':
            e = self.block()
            self.expect(')')
        else:
            raise GrammarError("grammar line %d: unexpected %r" % (ln, v))
        return e

    def element(self):
        e = self.atom()
        while self.peek()[1] in ('*', '+', '?') and self.peek()[0] == 'op':
            op = self.next()[1]
            greedy = True
            if self.peek('?') and self.peek()[0] == 'op':
                self.next()
                greedy = False
            e = ('rep', e, 1 if op == '+' else 0, 1 if op == '?' else None, greedy)
        return e

    def seq(self):
        items = []
        while self.peek()[1] not in ('|', ')', ';') and self.peek()[0] not in ('label', 'arrow', 'eof'):
            items.append(self.element())
        return items[0] if len(items) == 1 else ('seq', items)

    def block(self):
        alts = [self.seq()]
        while self.peek('|'):
            self.next()
            alts.append(self.seq())
        return alts[0] if len(alts) == 1 else ('alt', alts)


class Grammar:
    def __init__(self, text):
        p = _P(text)
        self.kind, self.name, self.options = 'combined', None, {}
        self.rules, self.by_name = [], {}
        mode = None
        while p.peek()[0] != 'eof':
            k, v, ln = p.next()
            if v in ('lexer', 'parser'):
                self.kind = v
            elif v == 'grammar':
                self.name = p.next()[1]
                p.expect(';')
            elif v == 'options':
                p.expect('{')
                while not p.peek('}'):
                    key = p.next()[1]
                    p.expect('=')
                    self.options[key] = p.next()[1]
                    p.expect(';')
                p.expect('}')
            elif v == 'mode':
                mode = p.next()[1]
                p.expect(';')
            elif v == 'fragment' or k == 'id':
                frag = v == 'fragment'
                if frag:
                    k, v, ln = p.next()
                p.expect(':')
                alts, cmds = [], []
                while True:
                    aln = p.peek()[2]
                    assoc = 'left'
                    if p.peek()[0] == 'assoc':
                        assoc = p.next()[1].strip('<> ').split('=')[1].strip()
                    e = p.seq()
                    label = None
                    if p.peek()[0] == 'label':
                        label = p.next()[1].lstrip('#').strip()
                    if p.peek()[0] == 'arrow':
                        p.next()
                        while True:
                            c = p.next()[1]
                            arg = None
                            if p.peek('('):
                                p.next()
                                arg = p.next()[1]
                                p.expect(')')
                            cmds.append((c, arg))
                            if not p.peek(','):
                                break
                            p.next()
                    alts.append(Alt(e, label, assoc, aln))
                    if p.peek('|'):
                        p.next()
                        continue
                    break
                p.expect(';')
                r = Rule(v, alts, ln, frag, mode, cmds)
                if v in self.by_name:
                    raise GrammarError("duplicate rule %s" % v)
                self.rules.append(r)
                self.by_name[v] = r
            else:
                raise GrammarError("grammar line %d: unexpected %r" % (ln, v))


def load(path):
    return Grammar(open(path, encoding='utf-8').read())


def refs(elem, out=None, mult=1):
    """name -> number of occurrences (2 meaning 'many') inside an element; alternatives take the max."""
    if out is None:
        out = {}
    k = elem[0]
    if k in ('tok', 'rule'):
        out[elem[1]] = out.get(elem[1], 0) + mult
    elif k == 'seq':
        for e in elem[1]:
            refs(e, out, mult)
    elif k == 'alt':
        best = {}
        for e in elem[1]:
            for n, c in refs(e, {}, mult).items():
                best[n] = max(best.get(n, 0), c)
        for n, c in best.items():
            out[n] = out.get(n, 0) + c
    elif k == 'rep':
        refs(elem[1], out, mult if elem[3] == 1 else 2 * mult)
    return out


if __name__ == '__main__':
    import sys
    for f in sys.argv[1:]:
        g = load(f)
        print(g.kind, g.name, g.options)
        for r in g.rules:
            print(r.line, r.name, r.fragment, r.mode, r.commands)
            for a in r.alts:
                print('    ', a.assoc, a.label, a.elem)
