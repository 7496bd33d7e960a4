"""P15 exceptions contained, P17 dynamic types as expected, P26 no shared mutable state: classical analyses over the resolved syntax tree."""
import os
import re
import sys

import front
from harness import *

sys.path.insert(0, os.path.join(front.VERIF, "standin"))
import tree_spec  # noqa: E402

SEM = "cqasm::v3x::syntactic::"


def children(x):
    if isinstance(x, dict):
        for k in x:
            v = x[k]
            if isinstance(v, (dict, list)):
                yield from ([v] if isinstance(v, dict) else [y for y in v if isinstance(y, (dict, list))])
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield v


def walk(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
        st.extend(reversed(list(children(y))))


def bare(t):
    t = (t or "").strip()
    while True:
        n = re.sub(r"^(const|volatile)\s+|\s*(const|volatile|&&|&|\*)$", "", t).strip()
        if n == t:
            return t
        t = n


def peel(x):
    """Without conversions, loads and copies, none of which changes what is denoted."""
    while isinstance(x, dict):
        k = x["k"]
        if k in ("load", "cast"):
            x = x["e"]
        elif k == "ctor" and (x.get("move") or x.get("copy")) and len(x["a"]) == 1:
            x = x["a"][0]
        elif k == "un" and x["op"] == "&" and isinstance(x["e"], dict) and x["e"]["k"] == "un" and x["e"]["op"] == "*":
            x = x["e"]["e"]
        elif k == "call" and x.get("n") in ("std::move", "std::forward") and len(x["a"]) == 1:
            x = x["a"][0]
        else:
            break
    return x


class Hierarchy:
    """The classes of the trees, of the parser's contexts and of the exceptions."""

    def __init__(self, prog):
        self.prog = prog
        self.up, self.leaves, self.method, self.child = {}, {}, {}, {}
        for p in front.tree_files():
            t = tree_spec.parse_tree(p)
            ns = "::".join(t.namespace) if isinstance(t.namespace, (list, tuple)) else t.namespace
            root = ns + "::Node"
            self.up[root] = None
            for n in t.order:
                c = ns + "::" + n.cls
                self.up[c] = ns + "::" + n.parent.cls if n.parent else root
                self.method[c] = "visit_" + n.name
            self.method[root] = "visit_node"
        hdr = open(os.path.join(prog.gen, "libqasm", "v3x", "CqasmParser.h")).read()
        self.ctx = {}
        for m in re.finditer(r"class (\w+)Context : public (\w+)::?(\w*)|class (\w+)Context : public (\w+)Context", hdr):
            pass
        for m in re.finditer(r"class (\w+Context) : public ([\w:]+) ", hdr):
            self.ctx[m.group(1)] = m.group(2)

    def ancestors(self, c):
        while c:
            yield c
            c = self.up.get(c)

    def concrete(self, c):
        kids = [k for k, u in self.up.items() if u == c]
        return [c] if not kids else [x for k in kids for x in self.concrete(k)]

    def contexts(self, c):
        kids = [k for k, u in self.ctx.items() if u == c]
        return [c] if not kids else [x for k in kids for x in self.contexts(k)]


STD_EXC = {"std::logic_error": "std::exception", "std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error",
           "std::length_error": "std::logic_error", "std::domain_error": "std::logic_error", "std::runtime_error": "std::exception",
           "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error", "std::bad_cast": "std::exception",
           "std::bad_any_cast": "std::bad_cast", "std::bad_optional_access": "std::exception", "std::bad_alloc": "std::exception",
           "fmt::format_error": "std::runtime_error", "antlr4::IllegalArgumentException": "antlr4::RuntimeException",
           "antlr4::RuntimeException": "std::exception", "std::system_error": "std::runtime_error", "std::filesystem::filesystem_error": "std::system_error",
           "std::ios_base::failure": "std::runtime_error"}


class Graph:
    """Which functions a call may reach."""

    def __init__(self, prog):
        self.prog, self.h = prog, Hierarchy(prog)
        self.by_sn = {}
        for f in prog.functions.values():
            self.by_sn.setdefault(f["sn"], []).append(f)
        self.address_taken = set()
        self.lambdas = {}
        self.call_operators = [f for f in prog.functions.values() if f["sn"].split("::")[-1] == "operator()"]   # function objects
        for k, f in prog.functions.items():
            m = re.match(r"(lambda@\S+)", k)
            if m:
                self.lambdas.setdefault(m.group(1), []).append(f)
        roots = [f.get("body") for f in prog.functions.values()] + [f.get("inits") for f in prog.functions.values()] + \
                [g.get("init") for g in prog.globals.values()]
        for b in roots:
            for x in walk(b):
                if x.get("k") == "fn":
                    key = (x.get("f") or {}).get("key") or x.get("key")
                    if key in prog.functions:
                        self.address_taken.add(key)
        self.memo = {}

    def virtual(self, key):
        out, todo = [], [key]
        while todo:
            k = todo.pop()
            if k in out:
                continue
            out.append(k)
            todo += self.prog.overriders.get(k, [])
        return [self.prog.functions[k] for k in out if k in self.prog.functions]

    def visitor_methods(self, cls):
        """The functions that visiting a node of the class may call: [(concrete class, [functions])]."""
        res = []
        for c in self.h.concrete(cls):
            fs = []
            for a in self.h.ancestors(c):
                m = self.h.method.get(a)
                pref = "cqasm::v3x::syntactic::Visitor<std::any>::%s std::any (%s &)" % (m, a)
                fs = [f for f in self.virtual(pref)]
                if fs:
                    break
            res.append((c, fs))
        return res

    def context_methods(self, cls):
        c = cls.split("::")[-1]
        res = []
        for x in self.h.contexts(c):
            m = "visit" + x[:-len("Context")]
            fs = [f for f in self.prog.functions.values() if f["sn"].endswith("::" + m) and len(f["params"]) == 1
                  and bare(f["params"][0]["t"]).split("::")[-1] == x]
            res.append((x, fs))
        return res

    # -- the parts of parsed constructs
    def alternatives(self, cls):
        """The grammar's right-hand sides for a context class."""
        if not hasattr(self, "alts"):
            import g4
            self.alts = {}
            for p in front.grammar_files():
                if "Parser" not in os.path.basename(p):
                    continue
                gr = g4.load(p)
                for name, r in [(r.name, r) for r in gr.rules]:
                    rc = name[0].upper() + name[1:] + "Context"
                    for a in r.alts:
                        lc = a.label[0].upper() + a.label[1:] + "Context" if a.label else rc
                        self.alts.setdefault(lc, []).append(a.elem)
                        if lc != rc:
                            self.alts.setdefault(rc, []).append(a.elem)
        return self.alts.get(cls.split("::")[-1], [])

    def profiles(self, cls):
        """How often each symbol can stand in a construct (two meaning two or more)."""
        key = ("profiles", cls)
        if key not in self.memo:
            out = []
            for e in self.alternatives(cls):
                for p in self._prof(e):
                    if p not in out:
                        out.append(p)
            self.memo[key] = [dict(p) for p in {tuple(sorted(p.items())) for p in out}]
        return self.memo[key]

    def _prof(self, e):
        k = e[0]
        if k in ("tok", "rule"):
            return [{e[1]: 1}]
        if k == "seq":
            ps = [{}]
            for y in e[1]:
                ps = [{n: min(3, p.get(n, 0) + q.get(n, 0)) for n in set(p) | set(q)} for p in ps for q in self._prof(y)]
            return ps
        if k == "alt":
            return [p for y in e[1] for p in self._prof(y)]
        if k == "rep":
            one = self._prof(e[1])
            least = e[2]
            out = [{}] if least == 0 else []
            out += one
            if e[3] != 1:
                out += [{n: min(3, c * 2) for n, c in p.items()} for p in one]
            return out
        return [{}]

    def accessors(self, cls):
        return {n for p in self.profiles(cls) for n in p}

    def needs(self, call, i):
        """Whether a function called may use its parameter i without a test."""
        kind, ts = self.targets(call)
        if kind != "direct":
            return False
        for _, fs in ts:
            for f in fs:
                if len(f["params"]) > i and f.get("body") and self._needs(f, i):
                    return True
        return False

    def _needs(self, f, i):
        key = ("needs", f["key"], i)
        if key not in self.memo:
            self.memo[key] = False
            pid = f["params"][i]["id"]
            tested = any(x.get("k") in ("if", "cond") and any(peel(y).get("id") == pid and peel(y)["k"] == "var" for y in walk(x.get("c")) if y.get("k") in (
                "cast", "load", "var", "un", "bin")) and not any(y.get("k") in ("mem", "call") for y in walk(x.get("c"))) for x in walk(f["body"]))
            used = any((x.get("k") == "call" and x.get("arrow") and x.get("obj") and peel(x["obj"]).get("k") == "var" and peel(x["obj"]).get("id") == pid)
                       or (x.get("k") == "mem" and peel(x["b"]).get("k") == "var" and peel(x["b"]).get("id") == pid) for x in walk(f["body"]))
            passed = any(x.get("k") == "call" and any(isinstance(peel(a), dict) and peel(a).get("k") == "var" and peel(a).get("id") == pid and self.needs(x, j)
                                                      for j, a in enumerate(x.get("a", []))) for x in walk(f["body"]))
            self.memo[key] = (used or passed) and not tested
        return self.memo[key]

    def static_class(self, x, known):
        """The most precise class known of the receiver: through upcasts and smart pointers."""
        best = None
        while isinstance(x, dict):
            t = bare(x.get("t", ""))
            m = re.match(r"tree::base::(?:One|Maybe|Link|OptLink)<(.*)>$", t)
            if m:
                t = bare(m.group(1))
            if known(t):
                best = t
            if x["k"] in ("cast", "load"):
                x = x["e"]
            elif x["k"] == "call" and x.get("n", "").split("::")[-1] in ("operator*", "operator->", "get_ptr") and x.get("obj"):
                x = x["obj"]
            elif x["k"] == "un" and x["op"] in ("*", "&"):
                x = x["e"]
            else:
                break
        return best

    def targets(self, x):
        """(kind, [(label, [functions])]) for a call expression; kind is 'direct', 'visit', 'accept', 'indirect' or 'library'."""
        n = x.get("n", "")
        last = n.split("::")[-1]
        if last.split("<")[0] == "visit" and x.get("obj") and len(x.get("a", [])) == 1:
            c = self.static_class(x["obj"], lambda t: t in self.h.up)
            if c:
                return "visit", self.visitor_methods(c)
        if last == "accept" and x.get("obj") and len(x.get("a", [])) == 1:
            c = self.static_class(x["obj"], lambda t: t.split("::")[-1] in self.h.ctx)
            if c:
                return "accept", self.context_methods(c)
            if "antlr4" in n:
                return "accept", [(y, fs) for k in self.h.ctx for y, fs in self.context_methods(k)]
        key = x.get("key")
        if key in self.prog.functions or key in self.prog.overriders:
            return "direct", [(n, self.virtual(key) if x.get("virt") else [self.prog.functions[key]] if key in self.prog.functions else [])]
        if n.startswith("std::function") and last == "operator()" or not n:
            t = bare((x.get("obj") or x.get("f") or {}).get("t", ""))
            m = re.search(r"std::function<(.*)\((.*)\)>", t)
            fs = [self.prog.functions[k] for k in sorted(self.address_taken)]
            fs += [f for f in self.call_operators if f["key"] not in self.address_taken]
            if m:
                want = (re.sub(r"\s", "", m.group(1)), re.sub(r"\s", "", m.group(2)))
                fs = [f for f in fs if (re.sub(r"\s", "", f.get("ret", "")), re.sub(r"\s", "", ",".join(p["t"] for p in f["params"]))) == want]
            return "indirect", [("any function of that type whose address is taken", fs)]
        return "library", []


# ---------------------------------------------------------------- P17
EMPTY = "nothing"


class AnyFlow:
    def __init__(self, prog, g):
        self.prog, self.g, self.sum = prog, g, {}

    def summary(self, f):
        k = f["key"]
        if k in self.sum:
            return self.sum[k]
        self.sum[k] = frozenset()
        while True:
            out = set()
            for x in self.returns(f.get("body")):
                out |= self.of(x.get("e"), f) if x.get("e") is not None else {EMPTY}
            out = frozenset(out)
            if out == self.sum[k]:
                return out
            self.sum[k] = out

    def returns(self, b):
        if isinstance(b, dict):
            if b.get("k") == "ret":
                yield b
                return
            if b.get("k") == "lam":
                return
        for c in children(b):
            yield from self.returns(c)

    def of(self, x, f):
        """The types the std::any denoted by x may hold, as {type: where it is packed}."""
        x = peel(x)
        if x is None:
            return {EMPTY}
        k = x["k"]
        if k == "ctor" and x["cls"] == "std::any":
            if not x["a"]:
                return {EMPTY}
            if x.get("ta"):
                return {bare(x["ta"][0])}
            return self.of(x["a"][0], f)
        if k == "ilist" and not x["a"]:
            return {EMPTY}
        if k == "cond":
            return self.of(x["a"], f) | self.of(x["b"], f)
        if k == "call":
            if x["n"].startswith("std::make_any"):
                return {x["ta"][0]} if x.get("ta") else {None}
            kind, ts = self.g.targets(x)
            if kind in ("direct", "visit", "accept") and ts and all(fs for _, fs in ts):
                out = set()
                for _, fs in ts:
                    for t in fs:
                        out |= self.summary(t)
                return out
            if kind == "direct" and ts and not ts[0][1]:
                return {None}
            return {None}
        if k == "var":
            out = set()
            for y in walk([f.get("body")]):
                if y.get("k") == "vd" and y.get("id") == x.get("id"):
                    out |= self.of(y.get("init"), f) if y.get("init") is not None else {EMPTY}
                elif y.get("k") == "call" and y.get("op") == "=" and y.get("obj") and peel(y["obj"]).get("id", -1) == x.get("id") and y.get("a"):
                    a = peel(y["a"][0])
                    out |= self.of(a, f) if bare(a.get("t")) == "std::any" else {(y.get("ta") or [bare(a.get("t"))])[0]}
            if out:
                return out
            ps = [i for i, p in enumerate(f["params"]) if p["id"] == x.get("id")]
            if ps:
                return self.param(f, ps[0])
            return {None}
        return {None}

    def param(self, f, i):
        out = set()
        key = ("param", f["key"], i)
        if key in self.sum:
            return self.sum[key]
        self.sum[key] = set()
        for g in self.prog.functions.values():
            for y in walk([g.get("body"), g.get("inits")]):
                if y.get("k") == "call" and y.get("key") == f["key"] and len(y.get("a", [])) > i:
                    out |= self.of(y["a"][i], g)
        out = out or {None}
        self.sum[key] = out
        return out


def show(t):
    return "nothing" if t == EMPTY else "something unknown" if t is None else t.replace("tree::base::", "").replace("cqasm::v3x::", "")


def same(t, u):
    def norm(s):
        return re.sub(r"\s+", "", (s or "").replace("const ", "")).rstrip("&")
    return norm(t) == norm(u)


def p17(C):
    C.load()
    C.rule("unpacked", "a dynamically typed result is unpacked as the type every function that may produce it packs, for every kind of node")
    C.rule("downcast", "a node is used as a more specific kind only where a test has established it is of that kind")
    C.rule("children", "the parts of a parsed construct are used only if its grammar rule always has them, or after a test")
    if C.prog.bad_units:
        raise Broken("does not type-check: %s" % ", ".join(map(front.rel, C.prog.bad_units)))
    g = Graph(C.prog)
    fl = AnyFlow(C.prog, g)
    sites = 0
    seen = set()
    for f in list(C.prog.functions.values()):
        for x in walk([f.get("body"), f.get("inits")]):
            if x.get("k") != "call" or x.get("n") != "std::any_cast" or not x.get("ta"):
                continue
            if x.get("key", "").rstrip().endswith("*)") or not x["a"]:
                continue                              # the pointer form, whose result is tested
            C.functions.add(f["key"])
            want = x["ta"][0]
            a = peel(x["a"][0])
            lab = "%s: %s" % (f["sn"].replace("cqasm::v3x::", ""), show(want))
            where = (f["file"], x["l"], f["n"])
            cases = []
            if a["k"] == "call":
                kind, ts = g.targets(a)
                if kind in ("visit", "accept", "direct") and ts:
                    cases = [(c, fs) for c, fs in ts]
            sites += 1
            if not cases:
                cases = [("", None)]
            for c, fs in cases:
                if fs is None:
                    got = fl.of(a, f)
                elif not fs:
                    got = {None}
                else:
                    got = set()
                    for t in fs:
                        got |= fl.summary(t)
                        C.functions.add(t["key"])
                cl = "%s from %s" % (lab, c.split("::")[-1] or "a local")
                if None in got:
                    C.undec("unpacked", cl, "produced by something the flow does not resolve")
                    continue
                bad = sorted(show(t) for t in got if not (t != EMPTY and same(t, want)))
                if not got:
                    C.ok("unpacked", 1)                # only ever fails with an error
                elif bad:
                    key = (cl, tuple(bad))
                    if key not in seen:
                        seen.add(key)
                        C.fail("unpacked", cl, where, "unpacked as %s, but %s gives %s" % (show(want), c.split("::")[-1] or "its source", ", ".join(bad)))
                else:
                    C.ok("unpacked", 1, cl)
    C.floor("unpackings", sites, 40)
    n = 0
    for f in sorted(C.prog.functions.values(), key=lambda f: f["key"]):
        if not f.get("body"):
            continue
        n += Downcasts(C, g, f).run()
    C.floor("downcasts", n, 60)
    return "other", ("Flow of dynamically typed values over the resolved call graph, with virtual visits expanded over every concrete class of the trees and every "
                     "alternative of the grammar; structured nullness dataflow over every function for downcasts and optional parts of parsed constructs.")


def canon(x):
    """A name for the value of an expression without effects, or None."""
    x = peel(x)
    if not isinstance(x, dict):
        return None
    k = x["k"]
    if k == "var":
        return "v%s" % x.get("id", x.get("n"))
    if k == "this":
        return "this"
    if k in ("int", "bool"):
        return str(x["v"])
    if k == "mem":
        b = canon(x["b"])
        return b and "%s.%s" % (b, x["n"])
    if k == "un" and x["op"] in ("*", "&"):
        return canon(x["e"])
    if k == "call":
        last = x.get("n", "").split("::")[-1]
        if last in ("operator*", "operator->", "get_ptr", "get") and x.get("obj") and not x["a"]:
            return canon(x["obj"])
        if last in ("operator[]", "at", "front", "back", "begin") or last.startswith("as_") or "antlr4" in x.get("key", "") or "CqasmParser" in x.get("n", ""):
            if not x.get("obj"):
                if len(x.get("a", [])) == 2 and last == "operator[]":
                    b, a = canon(x["a"][0]), canon(x["a"][1])
                    return b and a and "%s.%s(%s)" % (b, last, a)
                return None
            b = canon(x["obj"])
            args = [canon(a) for a in x["a"]]
            if b and all(args):
                return "%s.%s(%s)" % (b, last, ",".join(args))
    return None


NORETURN = ("std::abort", "abort", "exit", "std::exit", "std::terminate", "__assert_fail")


class Downcasts:
    """Structured nullness dataflow: facts are the names of values known not to be null."""

    def __init__(self, C, g, f):
        self.C, self.g, self.f, self.n = C, g, f, 0
        self.src, self.alias, self.parts = {}, {}, {}
        self.impl = f["n"].startswith("cqasm::v3x::function::")

    def run(self):
        body = self.f["body"]
        for x in walk(body):
            if x.get("k") == "vd" and x.get("init") is not None and "*" in x.get("t", "") + ("*" if x.get("t", "") == "auto" else ""):
                s = self.nullable(x["init"])
                if s:
                    self.src[x["id"]] = s
                q = self.part(x["init"])
                if q:
                    self.parts[x["id"]] = q
                if s or q:
                    c = canon(x["init"])
                    if c:
                        self.alias[x["id"]] = c
        if not self.src and not self.parts and not any(self.nullable(x) or self.part(x) for x in walk(body) if x.get("k") == "call"):
            return 0
        self.stmt(body, frozenset())
        return self.n

    def part(self, x):
        """(construct, name, index) if x denotes one part of a parsed construct."""
        x = peel(x)
        if not isinstance(x, dict) or x["k"] != "call" or not x.get("obj") or "*" not in x.get("t", ""):
            return None
        c = self.g.static_class(x["obj"], lambda t: t.split("::")[-1] in self.g.h.ctx)
        name = x["n"].split("::")[-1]
        if c is None or name not in self.g.accessors(c):
            return None
        i = 0
        if x["a"]:
            a = peel(x["a"][0])
            i = int(a["v"]) if a["k"] == "int" else None
        return c, name, i, canon(x["obj"])

    def use_part(self, y, q, facts):
        cls, name, i, obj = q
        self.n += 1
        self.C.functions.add(self.f["key"])
        lab = "%s: %s%s" % (self.f["sn"].split("::")[-1] + ("" if cls.split("::")[-1][:-7] in self.f["sn"] else " of " + cls.split("::")[-1]),
                            name, "" if not i else " %d" % i)
        if self.known(y, facts):
            self.C.ok("children", 1, lab)
            return
        if i is None:
            self.C.undec("children", lab, "an index that is no constant")
            return
        for prof in self.g.profiles(cls):
            if prof.get(name, 0) > i:
                continue
            if obj and any(("%s.%s(%s)" % (obj, n, j or "") in facts or j == 0 and "%s.%s(0)" % (obj, n) in facts) and prof.get(n, 0) <= j
                           for n in self.g.accessors(cls) for j in (0, 1, 2)):
                continue
            if obj and any("!%s.%s()" % (obj, n) in facts and c > 0 or any("!%s.%s(%d)" % (obj, n, j) in facts and c > j for j in (0, 1, 2))
                           for n, c in prof.items()):
                continue
            if any(n.get("k") == "call" and n.get("n", "").split("::")[-1] in ("size", "empty") for n in walk(self.f["body"])):
                self.C.undec("children", lab, "the number of parts is tested in a way this analysis does not follow")
                return
            self.C.fail("children", lab, (self.f["file"], y.get("l"), self.f["n"]),
                        "%s is used, but its rule has an alternative without it (%s)" % (name, ", ".join(
                            "%d %s" % (c, n) for n, c in sorted(prof.items()) if c) or "no parts"))
            return
        self.C.ok("children", 1, lab)

    def nullable(self, x):
        """Why x may be null (a downcast that may fail), or None."""
        x = peel(x)
        if not isinstance(x, dict) or x["k"] != "call" or not x.get("obj"):
            return None
        last = x["n"].split("::")[-1]
        if last.startswith("as_"):
            to = bare(x.get("t", ""))
            c = self.g.static_class(x["obj"], lambda t: t in self.g.h.up)
            if to not in self.g.h.up or c is None:
                return None
            if all(to in list(self.g.h.ancestors(k)) for k in self.g.h.concrete(c)):
                return None
            return "%s as %s" % (c.split("::")[-1], to.split("::")[-1])
        return None

    def known(self, x, facts):
        c = canon(x)
        return c is not None and c in facts

    def use(self, x, facts):
        """x is dereferenced."""
        y = peel(x)
        q = self.part(y)
        if q is None and isinstance(y, dict) and y["k"] == "var":
            q = self.parts.get(y.get("id"))
        if q is not None:
            self.use_part(y, q, facts)
            return
        s = self.nullable(y)
        if s is None and isinstance(y, dict) and y["k"] == "var":
            s = self.src.get(y.get("id"))
        if s is None:
            return
        self.n += 1
        self.C.functions.add(self.f["key"])
        if self.impl:
            self.C.ok("downcast", 1, "%s: operand of a registered signature" % self.f["n"])     # its operands have the registered types: P09, P10
        elif self.known(y, facts):
            self.C.ok("downcast", 1, "%s: %s" % (self.f["n"], s))
        else:
            self.C.fail("downcast", "%s: %s" % (self.f["sn"], s), (self.f["file"], y.get("l") or x.get("l"), self.f["n"]),
                        "used as %s with no test that it is one" % s)

    # -- expressions: returns facts after
    def expr(self, x, facts):
        if x is None:
            return facts
        if isinstance(x, list):
            for y in x:
                facts = self.expr(y, facts)
            return facts
        if not isinstance(x, dict) or "k" not in x:
            for y in children(x) if isinstance(x, dict) else ():
                facts = self.expr(y, facts)
            return facts
        k = x["k"]
        if k == "bin" and x["op"] in ("&&", "||"):
            t, e = self.cond(x, facts)
            return t & e
        if k == "cond":
            t, e = self.cond(x["c"], facts)
            a, b = self.expr(x["a"], t), self.expr(x["b"], e)
            if any(y.get("k") == "call" and y.get("n") in NORETURN for y in walk(x["b"])) or peel(x["b"]).get("k") == "throw":
                return a
            return a & b
        if k == "un" and x["op"] == "!":
            t, e = self.cond(x, facts)
            return t & e
        if k == "lam":
            for g in self.g.lambdas.get(x.get("key", "").split(" ")[0].split("::")[0], []):
                pass
            return facts
        if k == "mem":
            facts = self.expr(x["b"], facts)
            if "*" in (peel(x["b"]) or {}).get("t", "") or x.get("arrow"):
                self.use(x["b"], facts)
            return facts
        if k == "un" and x["op"] == "*":
            facts = self.expr(x["e"], facts)
            self.use(x["e"], facts)
            return facts
        if k == "call":
            if x.get("obj"):
                facts = self.expr(x["obj"], facts)
                if x.get("arrow"):
                    self.use(x["obj"], facts)
            facts = self.expr(x.get("a", []), facts)
            for i, a in enumerate(x.get("a", [])):
                q = self.part(a) or (self.parts.get(peel(a).get("id")) if isinstance(peel(a), dict) and peel(a)["k"] == "var" else None)
                if q and self.g.needs(x, i):
                    self.use_part(peel(a), q, facts)
            return facts
        if k == "asg":
            facts = self.expr(x["b"], facts)
            c = canon(x["a"])
            facts = frozenset(y for y in facts if c is None or not (y.lstrip("!") == c or y.lstrip("!").startswith(c + ".")))
            if c and self.known(x["b"], facts):
                facts |= {c}
            return facts
        for y in children(x):
            facts = self.expr(y, facts)
        return facts

    def cond(self, x, facts):
        """(facts if true, facts if false)"""
        y = x
        while isinstance(y, dict) and y["k"] in ("load", "cast"):
            y = y["e"]
        k = y["k"] if isinstance(y, dict) else None
        if k == "un" and y["op"] == "!":
            t, e = self.cond(y["e"], facts)
            return e, t
        if k == "bin" and y["op"] == "&&":
            t, e = self.cond(y["a"], facts)
            t2, e2 = self.cond(y["b"], t)
            return t2, e & e2
        if k == "bin" and y["op"] == "||":
            t, e = self.cond(y["a"], facts)
            t2, e2 = self.cond(y["b"], e)
            return t & t2, e2
        if k == "bin" and y["op"] in ("==", "!=") and any(isinstance(peel(z), dict) and peel(z)["k"] == "null" for z in (y["a"], y["b"])):
            z = y["b"] if peel(y["a"])["k"] == "null" else y["a"]
            facts = self.expr(z, facts)
            c = canon(z)
            nn, nu = self.split(c, z, facts)
            return (nu, nn) if y["op"] == "==" else (nn, nu)
        facts = self.expr(x, facts)
        c = canon(y)
        return self.split(c, y, facts) if c and k in ("var", "call", "mem") else (facts, facts)

    def split(self, c, z, facts):
        """The facts where the value called c is there, and where it is not."""
        if c is None:
            return facts, facts
        z = peel(z)
        also = self.alias.get(z.get("id")) if z["k"] == "var" else None
        names = {c, also} if also else {c}
        return facts | names, facts | {"!" + n for n in names}

    # -- statements: returns facts at the normal exit, or None if there is none
    def stmt(self, s, facts):
        if s is None or facts is None:
            return facts
        if isinstance(s, list):
            for y in s:
                facts = self.stmt(y, facts)
                if facts is None:
                    return None
            return facts
        k = s["k"]
        if k == "blk":
            return self.stmt(s["s"], facts)
        if k == "decl":
            for v in s["v"]:
                facts = self.expr(v.get("init"), facts)
                if v.get("init") is not None:
                    if self.known(v["init"], facts):
                        facts |= {"v%s" % v["id"]}
            return facts
        if k == "if":
            facts = self.stmt(s.get("init"), facts)
            if facts is None:
                return None
            if isinstance(s["c"], dict) and s["c"]["k"] in ("vd", "decl"):
                facts = self.stmt({"k": "decl", "v": [s["c"]]} if s["c"]["k"] == "vd" else s["c"], facts)
                v = s["c"] if s["c"]["k"] == "vd" else s["c"]["v"][0]
                t, e = facts | {"v%s" % v["id"]}, facts
            else:
                if s.get("cv"):
                    facts = self.stmt({"k": "decl", "v": [s["cv"]]}, facts)
                t, e = self.cond(s["c"], facts)
            a = self.stmt(s["a"], t)
            b = self.stmt(s.get("b"), e) if s.get("b") is not None else e
            return b if a is None else a if b is None else a & b
        if k in ("ret", "throw"):
            self.expr(s.get("e"), facts)
            return None
        if k in ("break", "cont"):
            return None
        if k in ("for", "while", "do", "rfor"):
            facts = self.stmt(s.get("init"), facts)
            if s.get("r") is not None:
                facts = self.expr(s["r"], facts)
            killed = self.kill(s, facts)
            t, e = self.cond(s["c"], killed) if s.get("c") is not None and k != "rfor" else (killed, killed)
            body = self.stmt(s["b"], t)
            if s.get("inc") is not None and body is not None:
                self.expr(s["inc"], body)
            jumps = any(y.get("k") == "break" for y in walk(s["b"]))
            return killed if jumps else e
        if k == "try":
            a = self.stmt(s["b"], facts)
            for h in s["h"]:
                b = self.stmt(h["b"], self.kill(s, facts))
                a = b if a is None else a if b is None else a & b
            return a
        if k == "switch":
            facts = self.expr(s["c"], facts)
            for y in s["s"]:
                if y["k"] not in ("case", "default"):
                    self.stmt(y, facts)
            return facts
        if k in ("x",):
            e = s["e"]
            facts = self.expr(e, facts)
            p = peel(e)
            if isinstance(p, dict) and p["k"] == "throw":
                return None
            if isinstance(p, dict) and p["k"] == "call" and p.get("n") in NORETURN:
                return None
            return facts
        if k in ("case", "default", "nop"):
            return facts
        return self.expr(s, facts)

    def kill(self, s, facts):
        for y in walk(s):
            if y.get("k") in ("asg", "casg"):
                c = canon(y["a"])
                facts = frozenset(z for z in facts if c is None or not (z.lstrip("!") == c or z.lstrip("!").startswith(c + ".")))
        return facts


# ---------------------------------------------------------------- P26
READS = {"find", "at", "count", "begin", "end", "cbegin", "cend", "rbegin", "rend", "size", "empty", "contains", "equal_range", "lower_bound", "upper_bound",
         "operator*", "operator->", "c_str", "data", "length", "front", "back", "get", "value", "has_value", "compare", "substr", "str", "get_ptr"}
ENVIRONMENT = ("rand", "srand", "random", "drand48", "time", "clock", "getenv", "setenv", "putenv", "setlocale", "strtok", "localtime", "gmtime", "ctime",
               "asctime", "tmpnam", "getpid", "gettimeofday", "clock_gettime", "fesetround", "fesetenv", "feupdateenv", "feholdexcept", "feenableexcept", "umask",
               "chdir", "signal", "set_terminate", "set_new_handler", "unsetenv", "uselocale", "dup2", "freopen", "arc4random", "getrandom", "tmpfile", "gettid",
               "thread_id", "localtime_r", "timespec_get", "times", "getrusage", "getcwd", "gethostname", "secure_getenv")
STREAMS = ("std::cout", "std::cerr", "std::clog", "std::cin", "std::wcout", "std::wcerr")
STREAM_STATE = ("setf", "unsetf", "flags", "precision", "fill", "imbue", "rdbuf", "exceptions", "tie", "setstate", "clear", "sync_with_stdio", "copyfmt", "swap", "move")
MANIPULATORS = ("boolalpha", "noboolalpha", "hex", "dec", "oct", "fixed", "scientific", "hexfloat", "defaultfloat", "uppercase", "nouppercase", "showbase", "noshowbase",
                "showpoint", "noshowpoint", "showpos", "noshowpos", "left", "right", "internal", "unitbuf", "nounitbuf", "skipws", "noskipws", "setprecision", "setfill",
                "setbase", "setiosflags", "resetiosflags")
ENVIRONMENT_STD = ("std::random_device", "std::locale::global", "std::chrono::", "std::this_thread::get_id", "std::mt19937", "std::default_random_engine",
                   "std::filesystem::current_path", "std::hash<std::thread")


def is_unordered(t):
    return re.search(r"\bunordered_(multi)?(map|set)<", t or "") is not None


def refers(t):
    """Whether something of this type lets what it stands for be modified."""
    t = (t or "").strip()
    if t.endswith("&") or t.endswith("*"):
        return not re.match(r"const\b", t) and not re.search(r"\bconst\s*[&*]$", t)
    return "iterator" in t and "const_iterator" not in t and not re.search(r"iterator<\s*const\b", t)


def by_address(t):
    m = re.search(r"std::(?:multi)?(?:set|map)<([^,<>]*\*)\s*[,>]", t or "")
    return m and "char *" not in m.group(1) and not re.search(r"less<[^>]*>\s*,\s*[A-Z]", t)


class Shared:
    """Everything a run could leave behind for another, and everything not determined by the program analysed."""

    def __init__(self, C, prog, only):
        self.C, self.prog, self.only = C, prog, only
        self.found = []
        self.obligations = 0

    def inside(self, f):
        return self.only(f.get("file") or "")

    def bad(self, rule, site, f, l, what):
        self.found.append((rule, site, (f.get("file"), l, f.get("n")), what))

    def run(self):
        prog = self.prog
        var, classes = {}, {}
        for name, g in prog.globals.items():
            if not g.get("inroot") or not self.inside(g):
                continue
            short = name.split(":")[-1] if g.get("slocal") else name
            key = (g["unit"], g["id"]) if g.get("slocal") else name
            t = bare(g["t"])
            fixed = g.get("constexpr") or g.get("const") and not self.has_mutable(t)
            if not fixed:
                var[key] = (short, g)
            if not fixed or re.match(r"std::(unique|shared)_ptr<(?!\s*const\b)", t):
                self.shared_classes(t, classes, short)
            if g.get("slocal") and g.get("init") is not None:
                self.obligations += 1
                for x in walk(g["init"]):
                    if x.get("k") == "this" or x.get("k") == "var" and "id" in x and not x.get("static"):
                        self.bad("first use", "%s: initialised from %s" % (short, x.get("n", "this")), g, g["line"],
                                 "the static %s keeps what the first call gave it (%s)" % (short, x.get("n", "this")))
                        break
        self.vars, self.classes = var, classes
        self.aliases, self.handles = {}, {}
        inside = [f for f in prog.functions.values() if self.inside(f)]
        while True:                       # references, pointers and iterators to shared objects, and the functions that hand them out
            known = len(self.aliases) + len(self.handles)
            for f in inside:
                self.alias(f)
            if len(self.aliases) + len(self.handles) == known:
                break
        for f in inside:
            self.function(f)
        for c in prog.const_casts:
            if self.only(c["file"]) and not bare(c["ft"]).startswith("const"):
                self.bad("shared", "cast of constness to %s" % c["t"], c, c["line"], "casts constness away")
        return self

    def alias(self, f):
        for x in walk([f.get("body")]):
            k = x.get("k")
            if k == "vd" and refers(x.get("t")) and isinstance(x.get("init"), dict):
                r = self.shared_root(peel(x["init"]), f)
                if r:
                    self.aliases[(f["unit"], x["id"])] = r
            elif k == "rfor" and refers(x["v"].get("t")):
                r = self.shared_root(peel(x["r"]), f)
                if r:
                    for b in [x["v"]] + (x["v"].get("binds") or []):
                        self.aliases[(f["unit"], b["id"])] = r
            elif k == "ret" and refers(f.get("ret")) and isinstance(x.get("e"), dict):
                r = self.shared_root(peel(x["e"]), f)
                if r:
                    self.handles[f["key"]] = r

    def has_mutable(self, t):
        r = self.prog.records.get(t)
        return bool(r) and any(f.get("mutable") for f in r.get("fields", ()))

    def shared_classes(self, t, out, via):
        r = self.prog.records.get(t)
        for held in re.findall(r"[A-Za-z_]\w*(?:::\w+)*", re.sub(r"std::function<.*", "", t[t.find("<"):])) if "<" in t else ():
            if held in self.prog.records and held not in out:
                self.shared_classes(held, out, via)
        if r is None or t in out or r.get("ext"):
            return
        out[t] = via
        for b in r.get("bases", ()):
            self.shared_classes(bare(b), out, via)
        for f in r.get("fields", ()):
            self.shared_classes(bare(f["t"]), out, via)

    def shared_root(self, x, f):
        """What shared object the lvalue x is (part of), or None."""
        while isinstance(x, dict):
            k = x["k"]
            if k == "var":
                key = x.get("g") or (f["unit"], x.get("id"))
                return self.vars[key][0] if key in self.vars else self.aliases.get((f["unit"], x.get("id")))
            if k == "un" and x["op"] == "&":
                x = x["e"]
                continue
            if k == "call" and x.get("key") in self.handles:
                return self.handles[x["key"]]
            if k == "mem":
                c = x.get("cls")
                if c in self.classes and not self.local_object(x["b"], f):
                    return "%s::%s" % (c, x["n"])
                x = x["b"]
            elif k in ("cast", "load"):
                x = x["e"]
            elif k == "un" and x["op"] == "*":
                x = x["e"]
            elif k == "idx":
                x = x["a"]
            elif k == "call" and x.get("obj"):
                if x["n"].split("::")[-1] in ("operator[]", "at", "front", "back", "operator*", "operator->", "value", "begin", "get", "find", "second", "first"):
                    x = x["obj"]
                else:
                    return None
            elif k == "call" and x.get("op") in ("[]", "*", "->") and x.get("a"):
                x = x["a"][0]
            else:
                return None
        return None

    def stream_state(self, x):
        """(stream, what) if the call changes how one of the program's own streams writes from then on."""
        def root(e):
            while isinstance(e, dict):
                if e.get("k") == "var":
                    return next((g for g in STREAMS if e.get("g") == g or e.get("n") == g or (e.get("g") or "").endswith(g)), None)
                if e.get("k") == "call" and e.get("n", "").split("::")[-1] in ("operator<<", "put", "write", "flush"):
                    e = e.get("obj") or (e.get("a") or [None])[0]
                    continue
                if e.get("k") in ("cast", "paren", "tmp", "icast"):
                    e = e.get("e")
                    continue
                return None
            return None
        if x.get("k") != "call":
            return None
        n = x["n"].split("::")[-1]
        if x.get("obj") and n in STREAM_STATE and (n not in ("flags", "precision", "fill", "rdbuf", "exceptions", "tie") or x.get("a")):
            g = root(x["obj"])
            return (g, n) if g else None
        if n == "sync_with_stdio":
            return ("the standard streams", n)
        args = list(x.get("a") or ())
        if n == "operator<<" or x.get("op") == "<<":
            g = root(x.get("obj") or (args[0] if args else None))
            if g:
                for y in args[0 if x.get("obj") else 1:]:
                    for z in walk(y):
                        f = z.get("f")
                        name = z.get("n") or (f.get("n", "") if isinstance(f, dict) else "")
                        m = name.split("::")[-1]
                        if z.get("k") in ("var", "fn", "call") and m in MANIPULATORS and name.startswith("std::"):
                            return (g, m)
        if n in MANIPULATORS and args:
            g = root(args[0])
            return (g, n) if g else None
        return None

    def local_object(self, b, f):
        b = peel(b)
        if b["k"] == "this":
            return f.get("cls") in self.classes and (f["sn"].split("::")[-1] == f["sn"].split("::")[-2] or "~" in f["sn"])
        return b["k"] == "var" and "id" in b and not b.get("static") and "&" not in b.get("t", "") and "*" not in b.get("t", "")

    def function(self, f):
        self.obligations += 1
        self.C.functions.add(f["key"])
        ctor = f.get("cls") in self.classes and f["sn"].split("::")[-1] == f["sn"].split("::")[-2]
        for x in walk([f.get("body"), f.get("inits")]):
            k = x.get("k")
            what = None
            if k in ("asg", "casg"):
                what = self.shared_root(x["a"], f)
            elif k == "un" and x["op"] in ("++", "--", "p++", "p--", "++p", "--p", "post++", "post--"):
                what = self.shared_root(x["e"], f)
            elif k == "call" and x.get("obj"):
                last = x["n"].split("::")[-1]
                const = re.search(r"\) const\b", x.get("key", "")) is not None
                if not const and last not in READS and x["n"] not in (self.prog.functions.get(x.get("key"), {}) or {}).get("n", "-"):
                    what = self.shared_root(x["obj"], f)
                    if what and bare(x["obj"].get("t", "")) in self.classes:
                        what = None                    # a method of the shared class itself: its own writes are judged
            if what is None and k in ("call", "ctor"):
                m = re.search(r"\((.*)\)[^()]*$", x.get("key", ""))
                ps = self.split(m.group(1)) if m else []
                for i, a in enumerate(x.get("a", [])):
                    if i < len(ps) and re.search(r"[^&]&$", ps[i]) and not ps[i].startswith("const") and isinstance(a, dict) and a["k"] in ("var", "mem"):
                        r = self.shared_root(a, f)
                        if r and not (x.get("n") or "").startswith("std::begin"):
                            what = r
                if k == "call" and x.get("op") in ("=", "+=", "<<", "++", "--", "-=", "|=") and not x.get("obj") and x.get("a"):
                    r = self.shared_root(x["a"][0], f)
                    what = what or r
            if what and not ctor:
                self.bad("shared", "%s modified in %s" % (what, f["sn"]), f, x.get("l"), "modifies %s, which all analyses share" % what)
            if k in ("call", "ctor"):
                n = x.get("n") or ""
                s = n[5:] if n.startswith("std::") else n
                if s in ENVIRONMENT or any(n.startswith(e) for e in ENVIRONMENT_STD):
                    self.bad("environment", "%s in %s" % (n, f["sn"]), f, x.get("l"), "calls %s" % n)
                st = self.stream_state(x)
                if st:
                    self.bad("shared", "the state of %s in %s" % (st[0], f["sn"]), f, x.get("l"), "%s changes the state of %s, which everything shares" % (st[1], st[0]))
            if k == "rfor" and is_unordered(x.get("rt")):
                self.obligations += 1
                self.loop(f, x)
            if k == "call" and x["n"].split("::")[-1] in ("begin", "cbegin") and x.get("obj") and is_unordered(bare(x["obj"].get("t", ""))) \
                    and not self.compared_only(f):
                self.C_note(f, x)
            if k in ("vd", "var", "mem", "ctor") and by_address(x.get("t") or x.get("cls")):
                self.bad("order", "%s ordered by address in %s" % (x.get("n"), f["sn"]), f, x.get("l"), "%s is ordered by the addresses of its keys" % (x.get("n")))
        return

    def compared_only(self, f):
        return True

    def C_note(self, f, x):
        pass

    def loop(self, f, x):
        eff = [y for y in walk(x["b"]) if y.get("k") in ("ret", "break") or y.get("k") == "call" and y["n"].split("::")[-1] in (
            "push_back", "emplace_back", "append", "add", "operator<<", "operator+=", "push_front", "format_to", "insert_or_assign")]
        if eff:
            self.bad("order", "loop over %s in %s" % (x["rt"].split("<")[0], f["sn"]), f, x.get("l"), "visits an unordered container in its unspecified order")

    @staticmethod
    def split(s):
        out, d, cur = [], 0, ""
        for c in s:
            if c in "<(":
                d += 1
            elif c in ">)":
                d -= 1
            if c == "," and d == 0:
                out.append(cur.strip())
                cur = ""
            else:
                cur += c
        return out + [cur.strip()] if cur.strip() else out


PROBE26 = os.path.join(front.PROBES, "shared.cpp")
POSITIVE = [("shared", "Table::lookups"), ("shared", "Table::entries"), ("shared", "counter"), ("shared", "last"), ("shared", "cache"), ("shared", "pool"),
            ("shared", "constness"), ("first use", "bound"), ("order", "unordered"), ("order", "by address"), ("environment", "rand"),
            ("environment", "time"), ("environment", "getenv"), ("environment", "random_device"), ("shared", "modified in probe_shared::through_reference"), ("shared", "modified in probe_shared::through_handle"),
            ("shared", "modified in probe_shared::through_iterator"), ("shared", "modified in probe_shared::through_loop"),
            ("shared", "modified in probe_shared::through_pointer"), ("shared", "Held::hits modified in probe_shared::Held::hit"),
            ("shared", "state of std::cout in probe_shared::alpha"),
            ("shared", "state of std::cerr in probe_shared::digits"), ("shared", "state of std::cerr in probe_shared::quiet")]


def p26(C):
    C.load([front.rel(u) for u in front.source_units()] + [PROBE26])
    C.rule("shared", "nothing of static storage, nor any part of an object of static storage, is modified after its initialisation")
    C.rule("first use", "the initial value of a static variable does not depend on the call that happens to come first")
    C.rule("order", "no result depends on the unspecified order of a container or on addresses")
    C.rule("environment", "nothing consults or changes the time, the environment, the locale or a source of randomness")
    C.rule("control", "each rule recognises its positive example")
    if C.prog.bad_units:
        raise Broken("does not type-check: %s" % ", ".join(map(front.rel, C.prog.bad_units)))
    ctl = Shared(C, C.prog, lambda p: p == PROBE26).run()
    for rule, key in POSITIVE:
        if not any(r == rule and key in s for r, s, _, _ in ctl.found):
            raise Broken("the rule '%s' does not recognise its example (%s)" % (rule, key))
        C.ok("control", 1, "%s: %s" % (rule, key))
    sh = Shared(C, C.prog, lambda p: p.startswith(front.REPO)).run()
    nstat = sum(1 for g in C.prog.globals.values() if g.get("inroot") and (g["file"] or "").startswith(front.REPO))
    C.floor("variables of static storage", nstat, 20)
    C.floor("functions", sh.obligations, 500)
    for rule, site, where, what in sh.found:
        C.fail(rule, site, where, what)
    C.ok("shared", nstat, "%d variables of static storage, %d of them not constant: %s; %d classes of shared objects" % (
        nstat, len(sh.vars), ", ".join(sorted(v[0] for v in sh.vars.values())), len(sh.classes)))
    for r in ("first use", "order", "environment"):
        C.ok(r, sh.obligations)
    return "other", ("Effect analysis over every function of the library: every variable of static storage, the classes of the objects they hold, every write, "
                     "every call that may modify its argument, every loop over an unordered container and every call into the environment.")


# ---------------------------------------------------------------- P15
LIB_THROWS = {"std::stoi": ("std::invalid_argument", "std::out_of_range"), "std::stol": ("std::invalid_argument", "std::out_of_range"),
              "std::stoll": ("std::invalid_argument", "std::out_of_range"), "std::stoul": ("std::invalid_argument", "std::out_of_range"),
              "std::stoull": ("std::invalid_argument", "std::out_of_range"), "std::stof": ("std::invalid_argument", "std::out_of_range"),
              "std::stod": ("std::invalid_argument", "std::out_of_range"), "std::stold": ("std::invalid_argument", "std::out_of_range")}
FS_THROWS = ("std::filesystem::filesystem_error",)               # questions about a file, asked without an error_code
FS_QUESTIONS = {"std::filesystem::" + n for n in (
    "exists is_regular_file is_directory is_empty is_symlink is_other is_fifo is_socket is_block_file is_character_file status symlink_status file_size "
    "canonical weakly_canonical absolute relative proximate equivalent last_write_time read_symlink current_path").split()}


TERMINATE = "the end of the program (an exception in a function declared noexcept)"


class Escapes:
    """Interprocedural: the exceptions each function may let out, each with its origin and one call path."""

    def __init__(self, prog, g):
        self.prog, self.g = prog, g
        self.esc = {k: {} for k in prog.functions}
        self.calls = {}
        self.sites = {}
        self.handlers = 0

    def is_a(self, c, base):
        seen = set()
        todo = [c]
        while todo:
            x = todo.pop()
            if x == base:
                return True
            if x in seen:
                continue
            seen.add(x)
            if x in STD_EXC:
                todo.append(STD_EXC[x])
            r = self.prog.records.get(x)
            if r:
                todo += [bare(b) for b in r.get("bases", ())]
        return False

    def built(self, x):
        """The constructors that a library function (make_unique, make_shared, emplace...) may run on behalf of its caller."""
        if x.get("k") != "call":
            return ()
        n = (x.get("n") or "").split("::")[-1]
        if not (n.startswith("make") or n.startswith("emplace") or n == "in_place"):
            return ()
        key = (x.get("key"), len(x.get("a") or ()))
        if key not in self.calls:
            ts = set(x.get("ta") or ())
            for t in (x.get("t"), x.get("cls")):
                ts |= set(re.findall(r"[\w:]+", t or ""))
            out = []
            for t in ts:
                out += [f for f in self.g.by_sn.get("%s::%s" % (t, t.split("::")[-1]), ()) if len(f["params"]) >= key[1] and not f.get("dflt")]
            self.calls[key] = out
        return self.calls[key]

    def solve(self):
        work = True
        n = 0
        while work and n < 60:
            work = False
            n += 1
            for k, f in self.prog.functions.items():
                if not f.get("body") and not f.get("inits"):
                    continue
                out = {}
                for b in (f.get("inits"), f.get("body")):
                    self.collect(b, f, out, {})
                if f.get("noexcept") and out:
                    # what would leave a function that promises not to throw ends the program instead: nothing can catch that
                    here = {}
                    for o, v in out.items():
                        e = (TERMINATE, o[1], o[2], o[3] or o[0])
                        self.sites[e] = self.sites.get(o, f)
                        here[e] = v
                    out = here
                if set(out) - set(self.esc[k]):
                    self.esc[k].update({o: v for o, v in out.items() if o not in self.esc[k]})
                    work = True
        self.rounds = n
        return self

    def collect(self, x, f, out, rethrown):
        """Adds what evaluating x may throw: {(class, file, line, text): path}."""
        if isinstance(x, list):
            for y in x:
                self.collect(y, f, out, rethrown)
            return
        if not isinstance(x, dict):
            return
        k = x.get("k")
        if k == "try":
            inner = {}
            self.collect(x["b"], f, inner, rethrown)
            for h in x["h"]:
                self.handlers += 1
                t = bare(h.get("t") or "...")
                took = {o: p for o, p in inner.items() if o[0] != TERMINATE and (t in ("...", "") or self.is_a(o[0], t))}
                for o in took:
                    del inner[o]
                self.collect(h["b"], f, out, took)
            out.update({o: p for o, p in inner.items() if o not in out})
            return
        if k == "throw":
            if x.get("e") is None:
                for o, p in rethrown.items():
                    out.setdefault(o, p)
                return
            self.collect(x["e"], f, out, rethrown)
            t = bare(x.get("t") or (x["e"] or {}).get("t"))
            text = next((bytes(y["v"]).decode("latin1") for y in walk(x["e"]) if y.get("k") == "str" and len(y["v"]) > 2), "")
            o = (t, f["file"], x["l"], text)
            self.sites[o] = f
            out.setdefault(o, (f["sn"],))
            return
        if k in ("call", "ctor"):
            key = x.get("key")
            if k == "call":
                kind, ts = self.g.targets(x)
            else:
                kind, ts = "direct", [(key, [self.prog.functions[key]] if key in self.prog.functions else [])]
            for _, fs in ts:
                for t in fs:
                    for o, p in self.esc[t["key"]].items():
                        if o not in out:
                            out[o] = (f["sn"],) + p if len(p) < 12 else p
            for t in self.built(x):
                for o, p in self.esc[t["key"]].items():
                    if o not in out:
                        out[o] = (f["sn"],) + p if len(p) < 12 else p
            lib = LIB_THROWS.get(x.get("n"))
            if x.get("n") in FS_QUESTIONS and not any("error_code" in (y.get("t") or "") for y in x.get("a", ()) if isinstance(y, dict)):
                lib = FS_THROWS
            if lib:
                for c in lib:
                    o = (c, f["file"], x["l"], x["n"])
                    self.sites[o] = f
                    out.setdefault(o, (f["sn"],))
            n = (x.get("n") or "").split("::")[-1]
            if n == "ANTLRInputStream" or n in ("load", "loadFromFile") and "antlr4" in (x.get("n") or ""):
                if x.get("a") or n != "ANTLRInputStream":
                    o = ("antlr4::IllegalArgumentException", f["file"], x["l"], "text that is not UTF-8")
                    self.sites[o] = f
                    out.setdefault(o, (f["sn"],))
        if k == "lam":
            t = x.get("t", "")
            for g in self.g.lambdas.get(t, []):
                for o, p in self.esc[g["key"]].items():
                    out.setdefault(o, (f["sn"],) + p if len(p) < 12 else p)
            self.collect(x.get("caps"), f, out, rethrown)
            return
        for y in children(x):
            self.collect(y, f, out, rethrown)


def p15(C):
    C.load()
    C.rule("contained", "no exception raised anywhere below an entry point that returns a result leaves it")
    C.rule("reported", "a handler that ends a statement, a parse or an analysis records the problem or raises it again")
    C.rule("evaluated", "analysing a statement, whatever is written in it, yields that statement or errors, and parsing a text or a file a tree or errors; never an "
                        "exception, an access out of bounds or an undefined operation")
    if C.prog.bad_units:
        raise Broken("does not type-check: %s" % ", ".join(map(front.rel, C.prog.bad_units)))
    g = Graph(C.prog)
    E = Escapes(C.prog, g).solve()
    C.floor("places that raise an exception", len(E.sites), 50)
    used = set()
    n = 0
    for f in sorted(C.prog.functions.values(), key=lambda f: f["key"]):
        C.functions.add(f["key"])
        name = f["sn"]
        what = ENTRIES.get(name)
        cls = name.rsplit("::", 1)[0]
        if what is None and f.get("pub") and cls in ("V3xAnalyzer", "EmscriptenWrapper") and name.split("::")[-1].split("_")[0] in ("parse", "analyze", "get"):
            what = FILE if "_file" in name else ()
        if what is None:
            continue
        n += 1
        for o, path in sorted(E.esc[f["key"]].items()):
            inv = next((k for k in INVARIANTS if k[0] == o[0] and o[3].startswith(k[1])), None)
            if inv and "redeclare" in inv[1] and name not in DEFAULTS:
                inv = None
            if inv:
                used.add(inv)
                C.ok("contained", 1, "%s: '%s' cannot be raised: %s" % (name, o[3][:40], INVARIANTS[inv]))
                continue
            if any(E.is_a(o[0], w) for w in what):
                C.ok("contained", 1, "%s: %s is documented" % (name, o[0]))
                continue
            C.fail("contained", "%s lets out %s (%s)" % (name, o[0], o[3] or o[1].split("/")[-1]), (o[1], o[2], E.sites[o]["n"]),
                   "%s raised here leaves %s: %s" % (o[0], name, " > ".join(x.split("::")[-1] for x in path)))
        C.ok("contained", len(E.sites), name)
    C.floor("entry points", n, 15)
    # -- handlers
    memo = {}

    def step(x, depth):
        """Evaluating the expression records the problem or raises it, whatever happens: not in a part that may be skipped."""
        todo = [x]
        while todo:
            x = todo.pop()
            k = x.get("k") if isinstance(x, dict) else None
            if not k or k == "lam":
                continue
            if k == "throw":
                return True
            if k == "call":
                o = x.get("obj")
                if o and x.get("n", "").split("::")[-1] in ("push_back", "emplace_back", "insert") and any(
                        y.get("k") in ("mem", "var") and "error" in y.get("n", "").lower() for y in walk(o)):
                    return True
                for _, fs in g.targets(x)[1]:
                    if fs and all(does(t, depth) for t in fs):
                        return True
            if k == "cond":
                todo.append(x["c"])
                if step(x["a"], depth) and step(x["b"], depth):
                    return True
                continue
            if k == "bin" and x.get("op") in ("&&", "||"):
                todo.append(x["a"])
                continue
            todo.extend(children(x))
        return False

    def does(t, depth):
        if t["key"] not in memo:
            memo[t["key"]] = False
            memo[t["key"]] = depth < 6 and always(t.get("body"), depth + 1)
        return memo[t["key"]]

    def always(b, depth=0):
        """Every path through the statement records the problem or raises it."""
        if not isinstance(b, dict):
            return False
        k = b.get("k")
        if k == "blk":
            for y in b["s"]:
                if always(y, depth):
                    return True
                if any(z.get("k") in ("ret", "break", "cont") for z in walk(y)):
                    return False             # a way out before the problem is recorded
            return False
        if k == "if":
            return any(step(b.get(y), depth) for y in ("init", "cv", "c")) or always(b.get("a"), depth) and always(b.get("b"), depth)
        if k == "try":
            return always(b["b"], depth) and all(always(h["b"], depth) for h in b["h"])
        if k in ("for", "rfor", "while"):
            return always(b["b"], depth)     # over the problems there are
        if k == "switch":
            return any(z.get("k") == "default" for z in b["s"]) and all(
                any(step(z, depth) or always(z, depth) for z in arm) for arm in arms(b["s"]))
        if k == "do":
            return always(b["b"], depth)
        return step(b, depth)

    def arms(ss):
        out = []
        for z in ss:
            if z.get("k") in ("case", "default"):
                out.append([])
            elif out:
                out[-1].append(z)
        return [a for a in out if a]

    def records(b):
        return always(b)

    def falls_through(f, t):
        """The handler belongs to a search that goes on with the next scope and ends by raising the failure itself."""
        loops = [x for x in walk(f.get("body")) if x.get("k") in ("for", "rfor", "while") and any(y is t for y in walk(x.get("b")))]
        last = f["body"]["s"][-1] if f["body"]["s"] else {}
        last = last.get("e", last) if last.get("k") == "x" else last
        return bool(loops) and isinstance(last, dict) and last.get("k") == "throw" and any(x.get("k") == "ret" for x in walk(t["b"]))

    for f in sorted(C.prog.functions.values(), key=lambda f: f["key"]):
        if not f.get("body"):
            continue
        for t in walk(f["body"]):
            if t.get("k") != "try":
                continue
            for h in t["h"]:
                lab = "%s: %s" % (f["sn"], h.get("t") or "...")
                if records(h["b"]):
                    C.ok("reported", 1, lab)
                elif falls_through(f, t):
                    C.ok("reported", 1, lab + " (the search goes on, and raises the failure at its end)")
                else:
                    C.fail("reported", lab, (f["file"], h["l"], f["n"]), "the problem caught here is neither recorded nor raised again")
    evaluated(C)
    return "other", ("Interprocedural exception-escape analysis over the resolved call graph (virtual visits and grammar alternatives expanded, library functions "
                     "that throw on program text modelled), to a fixed point, an error-discipline rule for every handler, and abstract interpretation of the analysis of "
                     "statements and expressions of every shape and of parses of texts and files of awkward contents and names.")


def evaluated(C):
    import itertools
    import checks_semantic as sem
    from checks_api import Api, opt
    from v3x import V3, Bulk
    from absint import Cell, Str
    V = V3(C)
    f = C.function("cqasm::v3x::analyzer::SemanticAnalyzer::visit_block", 1)
    one = lambda vs, es: len(vs) + len(es) == 1
    K = Bulk(C, V, "evaluated", f, sem.decls())
    kinds = dict(sem.stmt_kinds())
    kinds.update(sem.more_kinds())
    for k, (n, (mk, v)) in enumerate(kinds.items()):
        v = v(k) if callable(v) else v
        if "declaration" not in n and not (v and v[0] == "declares"):      # a declaration becomes a variable: P16
            K.add(n, lambda b, mk=mk, k=k: mk(b, k), one)
    ops = ["q", "qq", ("qq", 0, 2), "b", 1, "nosuch"]
    pars = [True, 2, 0.25, "q", "nosuch"]
    gates = list(sem.ONE_Q) + list(sem.TWO_Q) + ["nosuch", ""]
    ints = list(sem.NON_GATES) + ["nosuch", ""]
    mods = ["inv", "ctrl", "pow", "nosuch"]

    def lists(xs, top):
        for n in range(top + 1):
            for c in (itertools.product(xs, repeat=n) if n < 2 or n < 3 and C.thorough else [tuple(xs[(i + k) % len(xs)] for i in range(n)) for k in range(len(xs) if C.thorough else 2)]):
                yield tuple(c)
    small = [c for c in lists(ops[:1] + ops[3:], 3)]
    for name in gates:
        for ps in lists(pars, 3):
            for os_ in lists(ops, 2) if not ps else (("q",), ()):
                K.add("%s%s %s" % (name, ps, os_), lambda b, n=name, ps=ps, os_=os_: b.ginst(b.gate(n, [sem.op_node(b, p) for p in ps]), *[sem.op_node(b, o) for o in os_]), one)
    for name in mods:
        for base in ("X", "Rx", "CNOT", "nosuch"):
            for ps in lists(pars, 2):
                for os_ in (("q",), ("q", "b"), ()):
                    K.add("%s%s.%s %s" % (name, ps, base, os_), lambda b, n=name, base=base, ps=ps, os_=os_: b.ginst(
                        b.gate(n, [sem.op_node(b, p) for p in ps], b.gate(base)), *[sem.op_node(b, o) for o in os_]), one)
    for name in ints:
        for ps in lists(pars, 3):
            for os_ in (small if name != "measure" else lists(ops, 3)):
                if len(os_) > 1 and len(ps) > 1:
                    continue
                K.add("%s%s %s" % (name, ps, os_), lambda b, n=name, ps=ps, os_=os_: b.ng(n, [sem.op_node(b, o) for o in os_], [sem.op_node(b, p) for p in ps]), one)
    BIG = (1 << 63) - 1
    vals = [True, False, 0, 1, -1, 63, 64, BIG, -BIG - 1, 0.0, -2.5, 1e308, "q", "bb", "pi", "nosuch"]
    for n in list(sem.UNARY):
        for x in vals:
            K.add("%s %s" % (n, x), lambda b, n=n, x=x: b.ginst(b.gate("Rx", [b.un(n, x)]), "q"), one)
    for i, n in enumerate(sem.BINARY):
        for j, (x, y) in enumerate(itertools.product(vals, repeat=2)):
            if C.thorough or x in (-BIG - 1, BIG, 1e308) and y in (-1, 0, 2, 64, BIG, 0.0) or (i + j) % 5 == 0:
                K.add("%s of %s, %s" % (n, x, y), lambda b, n=n, x=x, y=y: b.ginst(b.gate("Rx", [b.bin(n, x, y)]), "q"), one)
    for i in (-BIG - 1, -1, 0, 2, 3, BIG, True, 0.5, "q", "nosuch"):
        for o in ("q", "qq", "b", "bb", "nosuch"):
            K.add("%s[%s]" % (o, i), lambda b, o=o, i=i: b.ginst("H", b.index(o, i)), one)
            for j in (-1, 0, 2, 3, BIG):
                K.add("%s[%s:%s]" % (o, i, j), lambda b, o=o, i=i, j=j: b.ginst("H", b.index(o, (i, j))), one)
    C.floor("statements evaluated", len(K.cases), 1500)
    K.run(300)
    # texts and files
    A = Api(C)
    C.quick_default = True
    texts = [b"", b"\n", b" ", b"version", b"version 3.0", b"version 3", b"version 3.1;H q", b"version 4", b"version 3.0;H", b"version 3.0;x" + b"y" * 300, b"version 99999999999999999999",
             b"version 3.99999999999999999999", b"version 3.0;qubit[99999999999999999999] q", b"version 3.0;g 99999999999999999999", b"version 3.0;g 1e999", b"version 3.0;g 1.e-999",
             b"version 3.0;qubit q;Rx(1e999) q", b"version 3.0;qubit[0] q", b"version 3.0;qubit q;H q[0]", b"version 3.0;asm(B) '''", b"version 3.0;asm(B) '''\n'''", b"\"", b"'", b"/*", b"//",
             b"\xc3\xa9", b"version 3.0;\xc3\xa9", b"\x00", b"version 3.0\x00", b"{", b"version 3.0;qubit q;H q;;H q\r\n", b"version 3.0;" * 2, b"qubit q", b"version 3.0\n" + b"(" * 60, b"\xff", b"version 3.0;g \xc3", b"version 3.0\xed\xa0\x80"]
    pS, pF = (C.function("cqasm::v3x::parser::" + n, 2) for n in ("parse_string", "parse_file"))
    aS, aF = C.function("cqasm::v3x::analyzer::Analyzer::analyze_string", 2), C.function("cqasm::v3x::analyzer::Analyzer::analyze_file", 1)
    S = lambda x: Cell(Str.lit(x))

    def analyzer(I):
        a = A.default_analyzer(I, None, [S("3.0")], None)
        return a if isinstance(a, Cell) else Cell(a)

    def one_run(label, f, body, files, may):
        got = A.run(body, files)
        if got[0] == "undecided":
            C.undec("evaluated", label, got[1])
        else:
            ok = got[0] == "return" or got[0] == "throw" and may and got[1] in FILE
            C.expect("evaluated", ok, label, (f["file"], f["line"], f["n"]), "ends with %s" % (got[1],))
    for t in texts:
        lab = repr(t)[1:60]
        for name in ((None, "") if t in (b"", b"\"") else (None,)):
            one_run("parse_string(%s, %r)" % (lab, name), pS, lambda I: I.call_fn(pS, [S(t), opt(name)]), {}, False)
        one_run("analyze_string(%s)" % lab, aS, lambda I: I.call_fn(aS, [S(t), opt(None)], analyzer(I)), {}, False)
    for path in ("", ".", "..", "/", "//", "a", "a.cq", "./a", "a/b", "/a", "~", "~/a", "~a", "%s", "{}", " ", "a" * 300) + tuple("a" * n for n in C.sizes(300)):
        for data in (None, b"", b"version 3.0;qubit q;H q;H r", b"version 3.0;H ("):
            files = {} if data is None else {path: data}
            if not path and data is not None:
                continue
            for f, body in ((pF, lambda I: I.call_fn(pF, [S(path), opt(None)])), (aF, lambda I: I.call_fn(aF, [S(path)], analyzer(I)))):
                one_run("%s(%r), a file %s" % (f["n"], path[:40], "that is not there" if data is None else "of %d bytes" % len(data)), f, body, files, data is None)


P = "cqasm::v3x::parser::"
A = "cqasm::v3x::analyzer::Analyzer::"
VERSION = ("std::invalid_argument", "std::out_of_range")
FILE = ("cqasm::error::Error",)           # the documented refusal of a file that is not there
ENTRIES = {P + "parse_string": (), P + "parse_file": FILE, P + "ParseHelper::parse": (), A + "analyze": (), A + "analyze_string": (), A + "analyze_file": FILE,
           "cqasm::v3x::analyze_string": VERSION + ("cqasm::v3x::analyzer::AnalysisFailed",),
           "cqasm::v3x::analyze_file": VERSION + FILE + ("cqasm::v3x::analyzer::AnalysisFailed",),
           "cqasm::v3x::default_analyzer": VERSION, "V3xAnalyzer::V3xAnalyzer": VERSION,
           "EmscriptenWrapper::analyze_string_to_json": VERSION}
DEFAULTS = ("cqasm::v3x::analyze_string", "cqasm::v3x::analyze_file", "cqasm::v3x::default_analyzer", "V3xAnalyzer::V3xAnalyzer",
            "EmscriptenWrapper::analyze_string_to_json")             # they also register the default constants
INVARIANTS = {
    ("cqasm::error::Error", "ParseHelper::parse: no parse errors returned"): "a parse without errors is complete (P27)",
    ("std::runtime_error", "no semantic errors returned"): "an analysis without errors is complete (P28)",
    ("std::runtime_error", "type ({}) is not of array type"): "only the types of arrays are asked for their elements' (P12)",
    ("std::runtime_error", "type_of unknown Value type!"): "every value is a constant, an index or a variable (P12)",
    ("std::runtime_error", "size_of unknown Value type!"): "every value is a constant, an index or a variable (P12)",
    ("std::runtime_error", "unknown IndexEntry AST node"): "an index entry is an item or a range (the trees' definition)",
    ("std::invalid_argument", "unknown type code encountered"): "the type letters are those of the instruction set and the registered functions (P12, P13)",
    ("cqasm::v3x::resolver::NameResolutionFailure", "trying to redeclare variable"): "the default constants have different names (P11)",
}
