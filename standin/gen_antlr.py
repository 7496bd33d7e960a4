#!/usr/bin/env python3
"""Generate stand-ins for ANTLR's output (CqasmLexer.h, CqasmParser.h, CqasmParserVisitor.h) from the .g4 files."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import g4


def cap(s):
    return s[0].upper() + s[1:]


def u32(s):
    return 'U"' + ''.join('\\U%08x' % ord(c) if ord(c) > 126 or c in '\\"' or ord(c) < 32 else c for c in s) + '"'


def has_nongreedy(g, e, seen=()):
    if e[0] == 'rep':
        return not e[4] or has_nongreedy(g, e[1], seen)
    if e[0] in ('seq', 'alt'):
        return any(has_nongreedy(g, x, seen) for x in e[1])
    if e[0] == 'tok' and e[1] in g.by_name and e[1] not in seen:
        return any(has_nongreedy(g, a.elem, seen + (e[1],)) for a in g.by_name[e[1]].alts)
    return False


def emit(e, ids):
    k = e[0]
    if k == 'tok':
        return 'E{E::TOK,{}, {},false,true,%s}' % ids(k, e[1])
    if k == 'rule':
        return 'E{E::RULE,{}, {},false,true,%s}' % ids(k, e[1])
    if k == 'lit':
        return 'E{E::LIT,%s}' % u32(e[1])
    if k == 'set':
        return 'E{E::SET,{},{%s},%s}' % (','.join("{0x%xU,0x%xU}" % (ord(a), ord(b)) for a, b in e[1]),
                                       'true' if e[2] else 'false')
    if k == 'any':
        return 'E{E::ANY}'
    if k in ('seq', 'alt'):
        return 'E{E::%s,{},{},false,true,0,0,0,{%s}}' % (k.upper(), ','.join(emit(x, ids) for x in e[1]))
    return 'E{E::REP,{},{},false,%s,0,%d,%d,{%s}}' % ('true' if e[4] else 'false', e[2], e[3] or 0, emit(e[1], ids))


def generate(lex, par, out, ns='cqasm::v3x::parser'):
    L, P = g4.load(lex), g4.load(par)
    os.makedirs(out, exist_ok=True)
    rid = {r.name: i for i, r in enumerate(L.rules)}
    types, n = {}, 0
    for r in L.rules:
        if not r.fragment:
            n += 1
            types[r.name] = n

    # The namespace is normally selected with ANTLR's -package flag.
    h = ['#pragma once', '#include <antlr4-runtime.h>', 'namespace %s {' % ns,
         'class CqasmLexer : public antlr4::Lexer {', 'public:', '  enum {']
    h += ['    %s = %d,' % kv for kv in types.items()]
    h += ['  };', '  explicit CqasmLexer(antlr4::CharStream* input);', '};', '}']
    open(os.path.join(out, 'CqasmLexer.h'), 'w').write('\n'.join(h) + '\n')
    c = ['#include "libqasm/v3x/CqasmLexer.h"', 'namespace %s {' % ns, 'using E = antlr4::Elem;',
         'CqasmLexer::CqasmLexer(antlr4::CharStream* input) : antlr4::Lexer(input) {']
    for r in L.rules:
        ng = any(has_nongreedy(L, a.elem) for a in r.alts)
        alts = ','.join(emit(a.elem, lambda k, nm: str(rid[nm])) for a in r.alts)
        cmds = ','.join('{"%s","%s"}' % (a, b or '') for a, b in r.commands)
        c.append('  rules_.push_back({"%s",%d,%s,"%s",%s,std::vector<E>{%s},{%s}});' % (
            r.name, types.get(r.name, 0), 'true' if r.fragment else 'false', r.mode or '',
            'true' if ng else 'false', alts, cmds))
    c += ['}', '}']
    open(os.path.join(out, 'CqasmLexer.cpp'), 'w').write('\n'.join(c) + '\n')

    h = ['#pragma once', '#include <antlr4-runtime.h>', 'namespace %s {' % ns,
         'class CqasmParser : public antlr4::Parser {', 'public:', '  enum {']
    h += ['    %s = %d,' % kv for kv in types.items()]
    h += ['  };', '  enum {']
    prid = {r.name: i for i, r in enumerate(P.rules)}
    h += ['    Rule%s = %d,' % (cap(r.name), i) for i, r in enumerate(P.rules)]
    h += ['  };', '  explicit CqasmParser(antlr4::CommonTokenStream* input);']
    h += ['  class %sContext;' % cap(r.name) for r in P.rules]
    bodies, visits, mk = [], [], []

    def accessors(cls, elems):
        cnt = {}
        for e in elems:
            for nm, k in g4.refs(e).items():
                cnt[nm] = max(cnt.get(nm, 0), k)
        decl = []
        for nm, k in cnt.items():
            tok = nm[0].isupper()
            ty = 'antlr4::tree::TerminalNode' if tok else '%sContext' % cap(nm)
            if tok:
                arg = 'antlr4::Token::EOF' if nm == 'EOF' else 'CqasmParser::' + nm
            if k > 1:
                decl.append('    std::vector<%s*> %s() const;' % (ty, nm))
                decl.append('    %s* %s(size_t i) const;' % (ty, nm))
                if tok:
                    bodies.append('std::vector<antlr4::tree::TerminalNode*> CqasmParser::%s::%s() const { return getTokens(%s); }' % (cls, nm, arg))
                    bodies.append('antlr4::tree::TerminalNode* CqasmParser::%s::%s(size_t i) const { return getToken(%s, i); }' % (cls, nm, arg))
                else:
                    bodies.append('std::vector<CqasmParser::%s*> CqasmParser::%s::%s() const { return getRuleContexts<%s>(); }' % (ty, cls, nm, ty))
                    bodies.append('CqasmParser::%s* CqasmParser::%s::%s(size_t i) const { return getRuleContext<%s>(i); }' % (ty, cls, nm, ty))
            else:
                decl.append('    %s* %s() const;' % (ty, nm))
                if tok:
                    bodies.append('antlr4::tree::TerminalNode* CqasmParser::%s::%s() const { return getToken(%s, 0); }' % (cls, nm, arg))
                else:
                    bodies.append('CqasmParser::%s* CqasmParser::%s::%s() const { return getRuleContext<%s>(0); }' % (ty, cls, nm, ty))
        return decl

    def accept(cls, base):
        visits.append((cls, base))
        bodies.append('std::any CqasmParser::%s::accept(antlr4::tree::ParseTreeVisitor* visitor) {\n'
                      '  if (auto* v = dynamic_cast<CqasmParserVisitor*>(visitor)) { return v->visit%s(this); }\n'
                      '  return visitor->visitChildren(this);\n}' % (cls, base))
        return '    std::any accept(antlr4::tree::ParseTreeVisitor* visitor) override;'
    classes = []
    for r in P.rules:
        labelled = [a for a in r.alts if a.label]
        cls = cap(r.name) + 'Context'
        if labelled:
            classes += ['  class %s : public antlr4::ParserRuleContext {' % cls, '  public:',
                        '    std::any accept(antlr4::tree::ParseTreeVisitor* visitor) override { return visitor->visitChildren(this); }', '  };']
            done = {}
            for a in labelled:
                done.setdefault(a.label, []).append(a.elem)
            for lab, elems in done.items():
                lc = cap(lab) + 'Context'
                classes += ['  class %s : public %s {' % (lc, cls), '  public:'] + accessors(lc, elems) + \
                           [accept(lc, cap(lab)), '  };']
        else:
            classes += ['  class %s : public antlr4::ParserRuleContext {' % cls, '  public:'] + \
                accessors(cls, [a.elem for a in r.alts]) + [accept(cls, cap(r.name)), '  };']

        def ids(k, nm):
            if k == 'rule':
                return str(prid[nm])
            return 'antlr4::Token::EOF' if nm == 'EOF' else str(types[nm])
        alts = ',\n    '.join('antlr4::ParseAlt{%s,%s,[]() -> antlr4::ParserRuleContext* { return new %s(); }}' % (
            emit(a.elem, ids), 'true' if a.assoc == 'right' else 'false',
            (cap(a.label) if a.label else cap(r.name)) + 'Context') for a in r.alts)
        mk.append('  rules_.push_back({"%s", std::vector<antlr4::ParseAlt>{%s}});' % (r.name, alts))
    h += classes
    for r in P.rules:
        h.append('  %sContext* %s();' % (cap(r.name), r.name))
        bodies.append('CqasmParser::%sContext* CqasmParser::%s() { return dynamic_cast<%sContext*>(start(%d)); }' % (
            cap(r.name), r.name, cap(r.name), prid[r.name]))
    h += ['};', '}']
    open(os.path.join(out, 'CqasmParser.h'), 'w').write('\n'.join(h) + '\n')
    v = ['#pragma once', '#include "libqasm/v3x/CqasmParser.h"', 'namespace %s {' % ns,
         'class CqasmParserVisitor : public antlr4::tree::AbstractParseTreeVisitor {', 'public:']
    v += ['  virtual std::any visit%s(CqasmParser::%s* context) = 0;' % (b, cl) for cl, b in visits]
    v += ['};', '}']
    open(os.path.join(out, 'CqasmParserVisitor.h'), 'w').write('\n'.join(v) + '\n')
    c = ['#include "libqasm/v3x/CqasmParser.h"', '#include "libqasm/v3x/CqasmParserVisitor.h"',
         'namespace %s {' % ns, 'using E = antlr4::Elem;'] + bodies
    c += ['CqasmParser::CqasmParser(antlr4::CommonTokenStream* input) : antlr4::Parser(input) {'] + mk + ['}', '}']
    open(os.path.join(out, 'CqasmParser.cpp'), 'w').write('\n'.join(c) + '\n')


if __name__ == '__main__':
    # gen_antlr.py OUTDIR CqasmLexer.g4 CqasmParser.g4
    generate(sys.argv[2], sys.argv[3], os.path.join(sys.argv[1], 'libqasm', 'v3x'))
