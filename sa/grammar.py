"""Static analysis of the ANTLR grammars: token automata with ANTLR's matching rules, and parsing of token strings with its ambiguity resolution."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "standin"))
import g4  # noqa: E402

MAXC = 0x10FFFF


class GrammarGap(Exception):
    """The grammar uses something outside the supported subset."""


def cap(s):
    return s[0].upper() + s[1:]


# ------------------------------------------------------------------------------------------------------------ lexer
class Lexer:
    """ATN of one lexer grammar; matching follows LexerATNSimulator: longest match, then first rule; non-greedy loops end rules early."""

    def __init__(self, g):
        self.g = g
        self.types, n = {}, 0
        self.order = []
        for r in g.rules:
            if not r.fragment:
                n += 1
                self.types[r.name] = n
                self.order.append(r)
            for c, arg in r.commands:
                if c not in ("skip", "pushMode", "popMode", "mode") and not (c == "channel" and arg == "HIDDEN"):
                    raise GrammarGap("lexer command %s" % c)
        self.edges = []  # state -> list of ('eps', to, nongreedy) | ('set', [(lo,hi)], neg, to)
        self.accept = {}
        self.starts = {}  # mode -> [state] in rule order
        self.modes = []
        for r in self.order:
            m = r.mode or ""
            if m not in self.starts:
                self.starts[m] = []
                self.modes.append(m)
            s = self.new()
            f = self.new()
            for a in r.alts:
                self.build(a.elem, s, f, (r.name,))
            self.accept[f] = r
            self.starts[m].append(s)
        self._closure = {}
        self._dfa = {}

    def new(self):
        self.edges.append([])
        return len(self.edges) - 1

    def build(self, e, a, b, stack):
        k = e[0]
        if k == "lit":
            cur = a
            for i, c in enumerate(e[1]):
                nx = b if i == len(e[1]) - 1 else self.new()
                self.edges[cur].append(("set", [(ord(c), ord(c))], False, nx))
                cur = nx
            if not e[1]:
                self.edges[a].append(("eps", b, False))
        elif k == "set":
            self.edges[a].append(("set", [(ord(x), ord(y)) for x, y in e[1]], e[2], b))
        elif k == "any":
            self.edges[a].append(("set", [(0, MAXC)], False, b))
        elif k == "seq":
            cur = a
            for i, x in enumerate(e[1]):
                nx = b if i == len(e[1]) - 1 else self.new()
                self.build(x, cur, nx, stack)
                cur = nx
            if not e[1]:
                self.edges[a].append(("eps", b, False))
        elif k == "alt":
            for x in e[1]:
                s = self.new()
                self.edges[a].append(("eps", s, False))
                self.build(x, s, b, stack)
        elif k == "tok":
            if e[1] == "EOF":
                raise GrammarGap("EOF in a lexer rule")
            if e[1] in stack:
                raise GrammarGap("recursive lexer rule %s" % e[1])
            if e[1] not in self.g.by_name:
                raise GrammarGap("lexer rule %s refers to %s, which does not exist" % (stack[0], e[1]))
            s = self.new()
            self.edges[a].append(("eps", s, False))
            for alt in self.g.by_name[e[1]].alts:
                self.build(alt.elem, s, b, stack + (e[1],))
        elif k == "rep":
            _, x, mn, mx, greedy = e
            loop = self.new()
            body = self.new()
            out = self.new()
            self.edges[out].append(("eps", b, False))
            if mn:
                first = self.new()
                self.edges[a].append(("eps", first, False))
                self.build(x, first, loop, stack)
            else:
                self.edges[a].append(("eps", loop, False))
            opts = [("eps", body, not greedy), ("eps", out, not greedy)]
            self.edges[loop] += opts if greedy else opts[::-1]
            self.build(x, body, b if mx == 1 else loop, stack)
        else:
            raise GrammarGap("lexer element %s" % k)

    def close(self, confs):
        """Ordered configurations (state, alt, passed) after all epsilon moves; ANTLR's pruning after an accepting non-greedy one."""
        out, seen = [], set()

        def go(s, alt, ng):
            if (s, alt) in seen:
                return
            seen.add((s, alt))
            out.append((s, alt, ng))
            for e in self.edges[s]:
                if e[0] == "eps":
                    go(e[1], alt, ng or e[2])
        for c in confs:
            go(*c)
        return out

    def start(self, mode):
        return tuple(self.close([(s, i, False) for i, s in enumerate(self.starts[mode])]))

    def step(self, confs, c):
        nxt, skip = [], None
        reached = []
        for s, alt, ng in confs:
            if skip == alt and ng:
                continue
            for e in self.edges[s]:
                if e[0] == "set" and any(lo <= c <= hi for lo, hi in e[1]) != e[2]:
                    cl = self.close([(e[3], alt, ng)])
                    reached += cl
                    if any(x in self.accept for x, _, _ in cl):
                        skip = alt
                        break
        seen = set()
        for c2 in reached:
            if c2[:2] not in seen:
                seen.add(c2[:2])
                nxt.append(c2)
        return tuple(nxt)

    def accepts(self, confs):
        """The rule accepted in this state: the first in configuration order."""
        best = None
        for s, alt, ng in confs:
            if s in self.accept and (best is None or alt < best[0]):
                best = (alt, self.accept[s])
        return best[1] if best else None

    def match(self, mode, text, pos):
        confs = self.start(mode)
        best = None
        i = pos
        while confs and i < len(text):
            k = (confs, text[i])
            nx = self._dfa.get(k)
            if nx is None:
                nx = self._dfa[k] = self.step(confs, ord(text[i]))
            confs = nx
            i += 1
            r = self.accepts(confs) if confs else None
            if r is not None:
                best = (i, r)
        return best, i

    def tokens(self, text):
        """Tokens of a text, and the lexical errors as (index in tokens, line, column, offending text)."""
        out, errs, modes = [], [], [""]
        pos, line, col = 0, 1, 0
        while pos < len(text):
            best, reach = self.match(modes[-1], text, pos)
            if best is None or best[0] == pos:
                errs.append((len(out), line, col, text[pos:max(reach, pos + 1)]))
                end, rule = pos + 1, None
            else:
                end, rule = best
            t = Tok(rule.name if rule else None, self.types[rule.name] if rule else 0, text[pos:end], line, col, pos, end - 1)
            for ch in text[pos:end]:
                if ch == "\n":
                    line, col = line + 1, 0
                else:
                    col += 1
            pos = end
            skip = rule is None
            for c, arg in (rule.commands if rule else ()):
                if c in ("skip", "channel"):
                    skip = True
                elif c == "pushMode":
                    modes.append(arg)
                elif c == "mode":
                    modes[-1] = arg
                elif c == "popMode" and len(modes) > 1:
                    modes.pop()
            if not skip:
                out.append(t)
        out.append(Tok("EOF", -1, "<EOF>", line, col, pos, pos - 1))
        return out, errs

    # -- decision over all inputs
    def alphabet(self, extra=()):
        """Representatives of the classes of characters no rule tells apart."""
        cuts = {0}
        for es in self.edges:
            for e in es:
                if e[0] == "set":
                    for lo, hi in e[1]:
                        cuts.add(lo)
                        cuts.add(hi + 1)
        for lo, hi in extra:
            cuts.add(lo)
            cuts.add(hi + 1)
        return sorted(c for c in cuts if c <= MAXC)


class Tok:
    def __init__(self, name, type, text, line, col, start, stop):
        self.name, self.type, self.text, self.line, self.col, self.start, self.stop = name, type, text, line, col, start, stop

    def __repr__(self):
        return "%s%r@%d:%d" % (self.name, self.text, self.line, self.col)


# ----------------------------------------------------------------------------------------------------------- parser
class Node:
    def __init__(self, cls, kids):
        self.cls, self.kids = cls, kids

    def __repr__(self):
        return "(%s %s)" % (self.cls, " ".join(map(repr, self.kids)))


class Parser:
    """Parses token strings as ANTLR's generated parser does: alternatives and loops in order of preference, precedence climbing for left recursion."""

    def __init__(self, g):
        self.g = g
        for r in g.rules:
            for a in r.alts:
                for n in g4.refs(a.elem):
                    if n[0].islower() and n not in g.by_name:
                        raise GrammarGap("rule %s refers to %s, which does not exist" % (r.name, n))

    def parse(self, toks, start="program"):
        """(tree, None) or (None, index of the token that no continuation accepts)."""
        self.t, self.memo, self.far = toks, {}, 0
        res = self.rule(start, 0, 0)
        if not res:
            return None, min(self.far, len(toks) - 1)
        return res[0][1], None

    def elem(self, e, pos, prec):
        k = e[0]
        if k == "tok":
            if pos < len(self.t) and self.t[pos].name == e[1]:
                if e[1] != "EOF":
                    self.far = max(self.far, pos + 1)
                return [(pos if e[1] == "EOF" else pos + 1, (self.t[pos],))]
            return []
        if k == "rule":
            return [(end, (n,)) for end, n in self.rule(e[1], pos, prec)]
        if k == "seq":
            return self.seq(e[1], 0, pos, (), 0, None)
        r = {}
        if k == "alt":
            for x in e[1]:
                for end, kids in self.elem(x, pos, prec):
                    r.setdefault(end, kids)
            return list(r.items())
        if k == "rep":
            _, x, mn, mx, greedy = e
            levels = {pos: ()}
            todo = [pos]
            while todo:
                p = todo.pop(0)
                for end, kids in self.elem(x, p, 0):
                    if end > p and end not in levels:
                        levels[end] = levels[p] + kids
                        if mx != 1:
                            todo.append(end)
            out = [(end, kids) for end, kids in levels.items() if end != pos or mn == 0]
            out.sort(key=lambda z: -z[0] if greedy else z[0])
            return out
        raise GrammarGap("parser element %s" % k)

    def seq(self, es, frm, pos, init, last_prec, last):
        cur = {pos: init}
        for i in range(frm, len(es)):
            nx = {}
            for p, kids in cur.items():
                for end, more in self.elem(es[i], p, last_prec if i == last else 0):
                    nx.setdefault(end, kids + more)
            cur = nx
        return list(cur.items())

    def rule(self, name, pos, prec):
        key = (name, pos, prec)
        if key in self.memo:
            if self.memo[key] is None:
                raise GrammarGap("rule %s is left-recursive in a way ANTLR refuses" % name)
            return self.memo[key]
        self.memo[key] = None
        r = self.g.by_name[name]
        me = lambda x: x == ("rule", name)
        items = [a.elem[1] if a.elem[0] == "seq" else [a.elem] for a in r.alts]
        leftrec = any(es and me(es[0]) for es in items)
        n = len(items)
        res = {}
        mk = lambda a, kids: Node(cap(a.label or name), kids)
        for i, (a, es) in enumerate(zip(r.alts, items)):
            if leftrec and es and me(es[0]):
                continue
            last = len(es) - 1 if leftrec and len(es) > 1 and me(es[-1]) else None
            for end, kids in self.seq(es, 0, pos, (), n - i, last):
                res.setdefault(end, mk(a, kids))
        if leftrec:
            todo = list(res)
            done = 0
            while done < len(todo):
                end0 = todo[done]
                done += 1
                for i, (a, es) in enumerate(zip(r.alts, items)):
                    p = n - i
                    if not es or not me(es[0]) or p < prec:
                        continue
                    last = len(es) - 1 if me(es[-1]) else None
                    for end, kids in self.seq(es, 1, end0, (res[end0],), p if a.assoc == "right" else p + 1, last):
                        if end not in res:
                            res[end] = mk(a, kids)
                            todo.append(end)
        out = sorted(res.items(), key=lambda z: -z[0])
        self.memo[key] = out
        return out


def load(repo):
    import front
    lex = g4.load(os.path.join(repo, "src/v3x/CqasmLexer.g4"))
    par = g4.load(os.path.join(repo, "src/v3x/CqasmParser.g4"))
    return Lexer(lex), Parser(par)


if __name__ == "__main__":
    L, P = load(os.environ.get("VERIF_REPO", "/repo"))
    t, e = L.tokens(sys.stdin.read())
    print(t, e)
    print(P.parse(t))
