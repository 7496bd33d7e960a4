// Stand-in for the ANTLR4 C++ runtime (ANTLR4 is not installed in this sandbox).
// Declares the part of the runtime API that libqasm uses, with a small table-driven lexer and parser behind it.
#pragma once
#include <algorithm>
#include <cassert>
#include <any>
#include <cstdint>
#include <cstdio>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#undef EOF

namespace antlr4 {

class RuntimeException : public std::exception {
    std::string msg_;

public:
    explicit RuntimeException(const std::string& msg = "")
    : msg_(msg) {}
    const char* what() const noexcept override { return msg_.c_str(); }
};
class IllegalArgumentException : public RuntimeException {
public:
    using RuntimeException::RuntimeException;
};

class CharStream {
public:
    virtual ~CharStream() = default;
    std::u32string data_;
};

class ANTLRInputStream : public CharStream {
public:
    ANTLRInputStream() = default;
    explicit ANTLRInputStream(std::string_view input) { load(std::string(input)); }
    void load(const std::string& s) {
        data_.clear();
        for (size_t i = 0; i < s.size();) {
            auto c = static_cast<unsigned char>(s[i]);
            int n = c < 0x80 ? 0 : (c >> 5) == 6 ? 1 : (c >> 4) == 14 ? 2 : (c >> 3) == 30 ? 3 : -1;
            if (n < 0 || i + static_cast<size_t>(n) >= s.size()) {
                throw IllegalArgumentException("UTF-8 string contains an illegal byte sequence");
            }
            char32_t cp = n == 0 ? c : (c & (0x3F >> n));
            for (int k = 1; k <= n; ++k) {
                auto d = static_cast<unsigned char>(s[i + static_cast<size_t>(k)]);
                if ((d & 0xC0) != 0x80) {
                    throw IllegalArgumentException("UTF-8 string contains an illegal byte sequence");
                }
                cp = (cp << 6) | (d & 0x3F);
            }
            data_.push_back(cp);
            i += static_cast<size_t>(n) + 1;
        }
    }
};

class ANTLRFileStream : public ANTLRInputStream {
public:
    ANTLRFileStream() = default;
    void loadFromFile(const std::string& file_name) {
        std::ifstream f(file_name, std::ios::binary);
        std::ostringstream ss;
        ss << f.rdbuf();
        load(ss.str());
    }
};

inline std::string to_utf8(const std::u32string& s) {
    std::string r;
    for (auto c : s) {
        if (c < 0x80) {
            r += static_cast<char>(c);
        } else if (c < 0x800) {
            r += static_cast<char>(0xC0 | (c >> 6));
            r += static_cast<char>(0x80 | (c & 0x3F));
        } else if (c < 0x10000) {
            r += static_cast<char>(0xE0 | (c >> 12));
            r += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
            r += static_cast<char>(0x80 | (c & 0x3F));
        } else {
            r += static_cast<char>(0xF0 | (c >> 18));
            r += static_cast<char>(0x80 | ((c >> 12) & 0x3F));
            r += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
            r += static_cast<char>(0x80 | (c & 0x3F));
        }
    }
    return r;
}

class Token {
public:
    static constexpr size_t EOF = static_cast<size_t>(-1);
    virtual ~Token() = default;
    virtual std::string getText() const = 0;
    virtual size_t getType() const = 0;
    virtual size_t getLine() const = 0;
    virtual size_t getCharPositionInLine() const = 0;
    virtual size_t getStartIndex() const = 0;
    virtual size_t getStopIndex() const = 0;
};

class CommonToken : public Token {
public:
    std::string text;
    size_t type = 0, line = 0, column = 0, start = 0, stop = 0;
    std::string getText() const override { return text; }
    size_t getType() const override { return type; }
    size_t getLine() const override { return line; }
    size_t getCharPositionInLine() const override { return column; }
    size_t getStartIndex() const override { return start; }
    size_t getStopIndex() const override { return stop; }
};

class Recognizer;

class ANTLRErrorListener {
public:
    virtual ~ANTLRErrorListener() = default;
    virtual void syntaxError(Recognizer* recognizer, Token* offending_symbol, size_t line,
        size_t char_position_in_line, const std::string& msg, std::exception_ptr e) = 0;
};

class BaseErrorListener : public ANTLRErrorListener {
public:
    void syntaxError(Recognizer*, Token*, size_t, size_t, const std::string&, std::exception_ptr) override {}
};

class ConsoleErrorListener : public BaseErrorListener {
public:
    static ConsoleErrorListener& instance() {
        static ConsoleErrorListener l;
        return l;
    }
    void syntaxError(Recognizer*, Token*, size_t line, size_t col, const std::string& msg, std::exception_ptr) override {
        std::fprintf(stderr, "line %zu:%zu %s\n", line, col, msg.c_str());
    }
};

class Recognizer {
protected:
    std::vector<ANTLRErrorListener*> listeners_{ &ConsoleErrorListener::instance() };

public:
    virtual ~Recognizer() = default;
    void removeErrorListeners() { listeners_.clear(); }
    void addErrorListener(ANTLRErrorListener* l) { listeners_.push_back(l); }
    void notify(Token* t, size_t line, size_t col, const std::string& msg) {
        for (auto* l : listeners_) {
            l->syntaxError(this, t, line, col, msg, nullptr);
        }
    }
};

// Grammar elements.
struct Elem {
    enum Kind { TOK, RULE, LIT, SET, ANY, SEQ, ALT, REP } kind;
    std::u32string lit;
    std::vector<std::pair<char32_t, char32_t>> ranges;
    bool neg = false, greedy = true;
    size_t id = 0, min = 0, max = 0;  // max == 0: unbounded
    std::vector<Elem> kids;
};

struct LexRule {
    std::string name;
    size_t type;
    bool fragment;
    std::string mode;
    bool nongreedy;
    std::vector<Elem> alts;
    std::vector<std::pair<std::string, std::string>> cmds;
};

class Lexer : public Recognizer {
public:
    CharStream* input_;
    std::vector<LexRule> rules_;
    struct Pending {
        size_t index, line, column;
        std::string msg;
    };
    std::vector<Pending> pending_;
    explicit Lexer(CharStream* input)
    : input_(input) {}
    std::set<size_t> match(const Elem& e, size_t pos, bool first) const {
        const auto& d = input_->data_;
        std::set<size_t> r;
        switch (e.kind) {
            case Elem::TOK:
            case Elem::RULE:
                for (const auto& a : rules_[e.id].alts) {
                    r.merge(match(a, pos, first));
                }
                break;
            case Elem::LIT:
                if (d.compare(pos, e.lit.size(), e.lit) == 0 && pos + e.lit.size() <= d.size()) {
                    r.insert(pos + e.lit.size());
                }
                break;
            case Elem::SET:
                if (pos < d.size()) {
                    bool in = false;
                    for (auto [a, b] : e.ranges) {
                        in = in || (d[pos] >= a && d[pos] <= b);
                    }
                    if (in != e.neg) {
                        r.insert(pos + 1);
                    }
                }
                break;
            case Elem::ANY:
                if (pos < d.size()) {
                    r.insert(pos + 1);
                }
                break;
            case Elem::SEQ: {
                std::set<size_t> cur{ pos };
                for (size_t k = 0; k < e.kids.size(); ++k) {
                    std::set<size_t> next;
                    for (auto p : cur) {
                        next.merge(match(e.kids[k], p, first));
                        if (first && !next.empty() && k + 1 == e.kids.size()) {
                            break;
                        }
                    }
                    cur = next;
                }
                r = cur;
                break;
            }
            case Elem::ALT:
                for (const auto& k : e.kids) {
                    r.merge(match(k, pos, first));
                }
                break;
            case Elem::REP: {
                std::set<size_t> cur{ pos };
                size_t n = 0;
                if (e.min == 0) {
                    r.insert(pos);
                }
                while (!cur.empty() && (e.max == 0 || n < e.max)) {
                    std::set<size_t> next;
                    for (auto p : cur) {
                        for (auto q : match(e.kids[0], p, first)) {
                            if (!r.count(q)) {
                                next.insert(q);
                            }
                        }
                    }
                    ++n;
                    if (n >= e.min) {
                        r.insert(next.begin(), next.end());
                    }
                    cur = next;
                }
                break;
            }
        }
        return r;
    }
    std::vector<std::unique_ptr<CommonToken>> all() {
        std::vector<std::unique_ptr<CommonToken>> out;
        const auto& d = input_->data_;
        std::vector<std::string> modes{ "" };
        size_t pos = 0, line = 1, col = 0;
        auto advance = [&](size_t to) {
            for (; pos < to; ++pos) {
                if (d[pos] == U'\n') {
                    ++line;
                    col = 0;
                } else {
                    ++col;
                }
            }
        };
        while (pos < d.size()) {
            size_t best = pos;
            const LexRule* rule = nullptr;
            for (const auto& lr : rules_) {
                if (lr.fragment || lr.mode != modes.back()) {
                    continue;
                }
                for (const auto& a : lr.alts) {
                    auto ends = match(a, pos, lr.nongreedy);
                    if (!ends.empty()) {
                        auto end = lr.nongreedy ? *ends.begin() : *ends.rbegin();
                        if (end > best) {
                            best = end;
                            rule = &lr;
                        }
                    }
                }
            }
            if (!rule) {
                pending_.push_back(
                    { out.size(), line, col, "token recognition error at: '" + to_utf8(d.substr(pos, 1)) + "'" });
                advance(pos + 1);
                continue;
            }
            auto t = std::make_unique<CommonToken>();
            t->type = rule->type;
            t->text = to_utf8(d.substr(pos, best - pos));
            t->line = line;
            t->column = col;
            t->start = pos;
            t->stop = best - 1;
            advance(best);
            bool skip = false;
            for (const auto& [c, arg] : rule->cmds) {
                if (c == "skip") {
                    skip = true;
                } else if (c == "pushMode") {
                    modes.push_back(arg);
                } else if (c == "popMode") {
                    if (modes.size() > 1) {
                        modes.pop_back();
                    }
                } else if (c == "mode") {
                    modes.back() = arg;
                }
            }
            if (!skip) {
                out.push_back(std::move(t));
            }
        }
        auto t = std::make_unique<CommonToken>();
        t->type = Token::EOF;
        t->text = "<EOF>";
        t->line = line;
        t->column = col;
        t->start = pos;
        t->stop = pos - 1;
        out.push_back(std::move(t));
        return out;
    }
};

class CommonTokenStream {
public:
    Lexer* lexer_;
    explicit CommonTokenStream(Lexer* lexer)
    : lexer_(lexer) {}
};

namespace tree {
class ParseTree;
class ParseTreeVisitor {
public:
    virtual ~ParseTreeVisitor() = default;
    virtual std::any visitChildren(ParseTree* node) = 0;
};
class ParseTree {
public:
    std::vector<ParseTree*> children;
    virtual ~ParseTree() = default;
    virtual std::any accept(ParseTreeVisitor* visitor) = 0;
    virtual std::string getText() {
        std::string r;
        for (auto* c : children) {
            r += c->getText();
        }
        return r;
    }
};
class TerminalNode : public ParseTree {
    Token* symbol_;

public:
    explicit TerminalNode(Token* symbol)
    : symbol_(symbol) {}
    Token* getSymbol() const { return symbol_; }
    std::string getText() override { return symbol_->getText(); }
    std::any accept(ParseTreeVisitor*) override { return {}; }
};
class AbstractParseTreeVisitor : public ParseTreeVisitor {
public:
    std::any visitChildren(ParseTree* node) override {
        std::any r;
        for (auto* c : node->children) {
            r = c->accept(this);
        }
        return r;
    }
};
}  // namespace tree

class ParserRuleContext : public tree::ParseTree {
public:
    tree::TerminalNode* getToken(size_t type, size_t i) const {
        for (auto* c : children) {
            if (auto* t = dynamic_cast<tree::TerminalNode*>(c); t && t->getSymbol()->getType() == type && i-- == 0) {
                return t;
            }
        }
        return nullptr;
    }
    std::vector<tree::TerminalNode*> getTokens(size_t type) const {
        std::vector<tree::TerminalNode*> r;
        for (size_t i = 0; auto* t = getToken(type, i); ++i) {
            r.push_back(t);
        }
        return r;
    }
    template <typename T>
    T* getRuleContext(size_t i) const {
        for (auto* c : children) {
            if (auto* t = dynamic_cast<T*>(c); t && i-- == 0) {
                return t;
            }
        }
        return nullptr;
    }
    template <typename T>
    std::vector<T*> getRuleContexts() const {
        std::vector<T*> r;
        for (auto* c : children) {
            if (auto* t = dynamic_cast<T*>(c)) {
                r.push_back(t);
            }
        }
        return r;
    }
};

struct ParseAlt {
    Elem elem;
    bool right;
    std::function<ParserRuleContext*()> make;
};
struct ParseRule {
    std::string name;
    std::vector<ParseAlt> alts;
};

class Parser : public Recognizer {
    using Kids = std::vector<tree::ParseTree*>;
    using Results = std::vector<std::pair<size_t, Kids>>;
    using NodeResults = std::vector<std::pair<size_t, tree::ParseTree*>>;
    CommonTokenStream* stream_;
    std::vector<std::unique_ptr<CommonToken>> tokens_;
    std::deque<std::unique_ptr<tree::ParseTree>> nodes_;
    std::map<std::tuple<size_t, size_t, size_t>, NodeResults> memo_;
    size_t furthest_ = 0;

    template <typename R, typename V>
    static void add(R& r, size_t end, V&& v) {
        for (const auto& x : r) {
            if (x.first == end) {
                return;
            }
        }
        r.emplace_back(end, std::forward<V>(v));
    }
    tree::ParseTree* own(tree::ParseTree* p) {
        nodes_.emplace_back(p);
        return p;
    }
    static bool self(const Elem& e, size_t rule) { return e.kind == Elem::RULE && e.id == rule; }
    Results elem(const Elem& e, size_t pos, size_t prec) {
        Results r;
        switch (e.kind) {
            case Elem::TOK:
                if (pos < tokens_.size() && tokens_[pos]->type == e.id) {
                    furthest_ = std::max(furthest_, pos + 1);
                    add(r, e.id == Token::EOF ? pos : pos + 1, Kids{ own(new tree::TerminalNode(tokens_[pos].get())) });
                }
                break;
            case Elem::RULE:
                for (auto& [end, n] : rule(e.id, pos, prec)) {
                    add(r, end, Kids{ n });
                }
                break;
            case Elem::SEQ: return seq(e.kids, 0, pos, {}, 0, static_cast<size_t>(-1));
            case Elem::ALT:
                for (const auto& k : e.kids) {
                    for (auto& [end, kids] : elem(k, pos, prec)) {
                        add(r, end, kids);
                    }
                }
                break;
            case Elem::REP: {
                Results levels{ { pos, {} } };
                for (size_t i = 0; i < levels.size(); ++i) {
                    auto cur = levels[i];
                    for (auto& [end, kids] : elem(e.kids[0], cur.first, 0)) {
                        if (end > cur.first) {
                            auto all = cur.second;
                            all.insert(all.end(), kids.begin(), kids.end());
                            add(levels, end, all);
                        }
                    }
                    if (e.max == 1) {
                        break;
                    }
                }
                for (size_t i = levels.size(); i-- > 0;) {
                    if (levels[i].first != pos || e.min == 0) {
                        r.push_back(levels[i]);
                    }
                }
                break;
            }
            default: break;
        }
        return r;
    }
    // `last`/`last_prec`: when the element at index `last` is a recursive reference, it gets that precedence.
    Results seq(const std::vector<Elem>& es, size_t from, size_t pos, const Kids& init, size_t last_prec, size_t last) {
        Results cur{ { pos, init } };
        for (size_t i = from; i < es.size(); ++i) {
            Results next;
            for (auto& [p, kids] : cur) {
                for (auto& [end, more] : elem(es[i], p, i == last ? last_prec : 0)) {
                    auto all = kids;
                    all.insert(all.end(), more.begin(), more.end());
                    add(next, end, all);
                }
            }
            cur = next;
        }
        return cur;
    }
    const NodeResults& rule(size_t id, size_t pos, size_t prec) {
        auto key = std::make_tuple(id, pos, prec);
        auto it = memo_.find(key);
        if (it != memo_.end()) {
            return it->second;
        }
        const auto& pr = rules_[id];
        NodeResults r;
        bool leftrec = false;
        for (const auto& a : pr.alts) {
            leftrec = leftrec || (a.elem.kind == Elem::SEQ && self(a.elem.kids[0], id));
        }
        auto emit = [&](const ParseAlt& a, const Kids& kids) {
            auto* n = a.make();
            n->children = kids;
            return own(n);
        };
        size_t count = pr.alts.size();
        for (size_t i = 0; i < count; ++i) {
            const auto& a = pr.alts[i];
            std::vector<Elem> es = a.elem.kind == Elem::SEQ ? a.elem.kids : std::vector<Elem>{ a.elem };
            if (leftrec && self(es[0], id)) {
                continue;
            }
            size_t last = leftrec && es.size() > 1 && self(es.back(), id) ? es.size() - 1 : static_cast<size_t>(-1);
            for (auto& [end, kids] : seq(es, 0, pos, {}, count - i, last)) {
                add(r, end, emit(a, kids));
            }
        }
        if (leftrec) {
            for (size_t k = 0; k < r.size(); ++k) {
                for (size_t i = 0; i < count; ++i) {
                    const auto& a = pr.alts[i];
                    size_t p = count - i;
                    if (a.elem.kind != Elem::SEQ || !self(a.elem.kids[0], id) || p < prec) {
                        continue;
                    }
                    size_t last = self(a.elem.kids.back(), id) ? a.elem.kids.size() - 1 : static_cast<size_t>(-1);
                    for (auto& [end, kids] :
                        seq(a.elem.kids, 1, r[k].first, { r[k].second }, a.right ? p : p + 1, last)) {
                        add(r, end, emit(a, kids));
                    }
                }
            }
            std::stable_sort(r.begin(), r.end(), [](const auto& x, const auto& y) { return x.first > y.first; });
        }
        return memo_[key] = r;
    }

protected:
    std::vector<ParseRule> rules_;
    ParserRuleContext* start(size_t id) {
        tokens_ = stream_->lexer_->all();
        auto res = rule(id, 0, 0);
        auto& pending = stream_->lexer_->pending_;
        auto* bad = tokens_[std::min(furthest_, tokens_.size() - 1)].get();
        if (!pending.empty() && (!res.empty() || pending[0].index <= furthest_)) {
            for (auto& p : pending) {
                stream_->lexer_->notify(nullptr, p.line, p.column, p.msg);
            }
        }
        if (res.empty()) {
            notify(bad, bad->line, bad->column, "mismatched input '" + bad->text + "'");
            throw RuntimeException("stand-in parser does not recover from errors");
        }
        return static_cast<ParserRuleContext*>(res[0].second);
    }

public:
    explicit Parser(CommonTokenStream* stream)
    : stream_(stream) {}
};

}  // namespace antlr4
