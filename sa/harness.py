"""Obligations, verdicts, evidence and known findings."""
import itertools
import json
import os
import sys
import time

import front
from absint import (CStr, Cell, Fn, Interp, It, Obj, OptV, Path, Ptr, Str, Stream, Tup, UB, Undecided, Var, Vec, collect_vars, conc)

VERIF = front.VERIF


# texts and versions are byte machines of their own: P01, P02, P07 and P08 cover every constant of theirs
OWN_CONSTANTS = ("src/utils.cpp", "src/string_builder.cpp", "src/version.cpp")


def fold(e):
    """The value of an integer constant expression, or None."""
    if not isinstance(e, dict):
        return None
    k = e.get("k")
    if k == "int" and not e.get("en") and "char" not in (e.get("t") or ""):       # a character is no size
        try:
            return int(e["v"])
        except (TypeError, ValueError):
            return None
    if k == "bin" and e.get("op") in ("+", "-", "*", "<<"):
        a, b = fold(e.get("a")), fold(e.get("b"))
        if a is None or b is None or abs(a) > 1 << 20 or abs(b) > 1 << 20 or e["op"] == "<<" and not 0 <= b < 32:
            return None
        return {"+": a + b, "-": a - b, "*": a * b, "<<": a << min(b, 31) if e["op"] == "<<" else 0}[e["op"]]
    if k in ("cast", "paren", "x") and "e" in e:
        return fold(e["e"])
    return None


def integer_constants(prog):
    out = set()

    def go(x):
        todo = [x]
        while todo:
            y = todo.pop()
            if isinstance(y, list):
                todo += y
            elif isinstance(y, dict):
                v = fold(y)
                if v is not None and 0 < v < 1 << 31:
                    out.add(v)
                if not (y.get("n") or "").startswith("std::sto"):       # their last argument is the base
                    todo += y.values()
    for f in list(prog.functions.values()) + [g for g in prog.globals.values()]:
        r = front.rel(f["file"]) if f.get("file") else ""
        if r.startswith(("src/", "include/")) and r not in OWN_CONSTANTS:
            go([f.get("inits"), f.get("body"), f.get("init")])
    return sorted(out)


class Broken(Exception):
    """The analysis cannot establish its premises (an anchor is gone): no verdict."""


class Violated(Exception):
    """Nothing the property speaks of can happen at all: the code fails before."""

    def __init__(self, site, where, detail):
        super().__init__(detail)
        self.site, self.where, self.detail = site, where, detail


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.deadline = self.t0 + 700  # a check has to answer within 900 s
        self.diverging = 0
        self.violations, self.undecided, self.rules = [], [], {}
        self.functions, self.paths, self.valuations = set(), 0, 0
        self.notes = []
        self.assumptions = []
        self.prog = None
        self.samples = []
        self.units = []

    thorough = property(lambda s: s.tier == "thorough")

    # -- program access
    def load(self, units=None):
        self.prog = front.load(units)
        self.units = [front.rel(u) for u in self.prog.units]
        return self.prog

    def sizes(self, lo, hi=1100):
        """The sizes at which the code may start to behave differently: each integer constant of the library's functions above lo, and its two successors (a limit tested before something is added shows one later).
        Families of inputs are covered completely up to lo; where the code mentions no larger constant, there is nothing to add."""
        if not hasattr(self, "_consts"):
            self._consts = integer_constants(self.prog)
        extra = [int(x) for x in os.environ.get("VP_SIZES", "").split(",") if x]    # sizes to try besides, for tests of the checks themselves
        out = sorted({c + d for c in self._consts + extra for d in (0, 1, 2) if lo < c + d <= hi})
        if len(out) > 12:
            out = out[:6] + out[-6:]
        return out

    def numbers(self, files):
        """The integer and floating-point constants of the functions of these files: the places where what is computed from a number may change."""
        ints, floats = set(), set()
        for f in list(self.prog.functions.values()) + list(self.prog.globals.values()):
            if not (f.get("file") and front.rel(f["file"]) in files):
                continue
            todo = [f.get("inits"), f.get("body"), f.get("init")]
            while todo:
                y = todo.pop()
                if isinstance(y, list):
                    todo += y
                elif isinstance(y, dict):
                    v = fold(y)
                    if v is not None:
                        ints.add(v)
                    if y.get("k") == "flt":
                        try:
                            floats.add(abs(float(y["v"])))
                        except (TypeError, ValueError):
                            pass
                    todo += y.values()
        return ints, floats

    def function(self, qn, nparams=None, pred=None):
        fs = self.functions_named(qn, nparams, pred)
        if len(fs) != 1:
            raise Broken("expected one function %s, found %d" % (qn, len(fs)))
        return fs[0]

    def functions_named(self, qn, nparams=None, pred=None):
        fs = [f for f in self.prog.functions.values() if f["sn"] == qn and not f.get("dflt")]
        if nparams is not None:
            fs = [f for f in fs if len(f["params"]) == nparams]
        if pred:
            fs = [f for f in fs if pred(f)]
        return fs

    def interp(self, stubs=None):
        if self.prog.bad_units:
            raise Broken("does not type-check: %s" % ", ".join(map(front.rel, self.prog.bad_units)))
        return Interp(self.prog, stubs)

    # -- obligations
    def rule(self, name, text):
        self.rules.setdefault(name, {"rule": text, "obligations": 0, "discharged": 0, "undecided": 0, "violated": 0})

    def ok(self, rule, n=1, what=None):
        r = self.rules[rule]
        r["obligations"] += n
        r["discharged"] += n
        if what is not None and len(r.setdefault("sites", [])) < 40:
            r["sites"].append(str(what)[:160])

    def fail(self, rule, site, where, detail):
        """site: stable identity of the construct; where: (file, line, function)."""
        r = self.rules[rule]
        r["obligations"] += 1
        r["violated"] += 1
        f, l, fn = (tuple(where) + (None, None, None))[:3] if where else (None, None, None)
        self.violations.append({"rule": rule, "site": site, "file": front.rel(f) if f else None, "line": l, "function": fn, "detail": detail})

    def undec(self, rule, what, why):
        r = self.rules[rule]
        r["obligations"] += 1
        r["undecided"] += 1
        self.undecided.append({"rule": rule, "what": what, "why": str(why)[:300]})

    def expect(self, rule, cond, site, where, detail):
        if cond:
            self.ok(rule, 1, site)
        else:
            self.fail(rule, site, where, detail)
        return cond

    def floor(self, what, n, least):
        if n < least:
            raise Broken("only %d %s found, expected at least %d" % (n, what, least))

    # -- the workhorse
    def verify(self, rule, name, body, expected, vars=(), f=None, stubs=None, hooks=None, view=None, max_paths=6000, budget=150.0, setup=None,
               ignore_throw_text=True, limit=8, rounds=6):
        """Abstractly interprets body on every partition of the inputs and compares every outcome with expected.

        body(I) -> abstract result; expected(env) -> ('return', value) | ('throw', class) | ('any',) | callable(outcome)->bool,
        where env maps each Var to its value.  Order-type inputs are refined with every constant the code compares them with."""
        where = (f["file"], f["line"], f["n"]) if f else None
        if time.time() > self.deadline:
            self.undec(rule, name, "out of time")
            return True
        for rnd in range(rounds):
            grown = False
            fails, und, nval, diverging = [], [], 0, 0
            I = self.interp(stubs)
            if hooks:
                I.obj_hooks = hooks
            for p in I.explore(body, max_paths=max_paths, budget=budget):
                self.paths += 1
                if p.kind == "undecided" and p.what.startswith("more than 2000 iterations"):
                    # on a given small input: the loop does not end
                    p.kind = "diverges"
                    diverging += 1
                    self.diverging += 1
                    if self.diverging > 1:
                        self.deadline = min(self.deadline, time.time() + 10)
                elif p.kind == "undecided":
                    und.append(p.what)
                    if time.time() > self.deadline:
                        break
                    continue
                try:
                    out = p.value
                    vs = set(vars) | collect_vars(out)
                    for val in p.world.valuations(tuple(vs)) if vs else [{}]:
                        nval += 1
                        env = {v: v.dom[i] for v, i in val.items()}
                        env["facts"] = p.world.facts
                        if p.kind == "return":
                            try:
                                got = ("return", view(out, val) if view else conc(out, val))
                            except (AttributeError, TypeError) as e:
                                if "NoneType" not in str(e):
                                    raise
                                got = ("incomplete", "a result with an empty pointer where a node has to be (%s)" % e)
                        elif p.kind == "throw":
                            got = ("throw", out.cls, conc(out, val))
                        else:
                            got = (p.kind, p.what)
                        exp = expected(env)
                        if exp is None:
                            continue
                        good = got[0] != "incomplete" and exp(got) if callable(exp) else (exp[0] == "any" and got[0] in ("return", "throw")) or tuple(got[:len(exp)]) == tuple(exp)
                        if not good:
                            fails.append((p, env, got, exp))
                            if len(fails) > 200:
                                break
                except Undecided as e:
                    und.append(str(e))
                if len(fails) > 200 or diverging > 1:
                    break
                if time.time() > self.deadline:
                    und.append("out of time")
                    break
            self.functions |= I.functions_seen
            # refinement of order-type domains
            for v in vars:
                if v.kind == "order":
                    for c in v.consts:
                        for x in (c - 1, c, c + 1):
                            if x not in v.dom and v.lo <= x <= v.hi:
                                v.dom.append(x)
                                grown = True
            if not grown:
                break
        self.valuations += nval
        for w in sorted(set(und)):
            self.undec(rule, name, w)
        if nval == 0 and not und:
            raise Broken("%s: nothing was analysed" % name)
        if fails:
            seen = {}
            for p, env, got, exp in fails:
                k = (got[0], p.where[1] if p.where else None)
                seen.setdefault(k, []).append((p, env, got, exp))
            for k, l in list(seen.items())[:limit]:
                p, env, got, exp = l[0]
                inp = ", ".join("%s=%r" % (v.name, x) for v, x in env.items() if isinstance(v, Var))
                facts = "; ".join("%s %s" % (a, "yes" if b else "no") for a, b in p.trace[-12:])
                self.fail(rule, name, p.where or where, "for %s (%d of the inputs): the code gives %s, required %s; path: %s" % (
                    inp or "every input", len(l), short(got), short(exp), facts))
        elif nval:
            self.ok(rule, nval)
            self.rules[rule].setdefault("sites", [])
            if len(self.rules[rule]["sites"]) < 60:
                self.rules[rule]["sites"].append(name)
        return not fails

    # -- end
    def unlisted(self):
        """The violations known-findings.json does not list."""
        known = load_known(self.prop)
        return [v for v in self.violations if not any(k["rule"] == v["rule"] and k["site"] == v["site"] for k in known)]

    def finish(self, level, explanation):
        known = load_known(self.prop)
        new, old = [], []
        for v in self.violations:
            k = next((k for k in known if k["rule"] == v["rule"] and k["site"] == v["site"]), None)
            (old if k else new).append((v, k))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
            "wall_s": round(time.time() - self.t0, 2),
            "assumptions": self.assumptions or ["the C++ front end resolves the source as the compiler used for the build does"],
            "violations": [dict(v) for v, _ in new],
            "coverage": {
                "explanation": explanation,
                "units": self.units,
                "functions_analysed": len([k for k in self.functions]),
                "functions": sorted({self.prog.functions[k]["n"] if self.prog and k in self.prog.functions else k for k in self.functions})[:400],
                "abstract_paths": self.paths, "input_valuations_compared": self.valuations,
                "rules": self.rules,
                "obligations": sum(r["obligations"] for r in self.rules.values()),
                "discharged": sum(r["discharged"] for r in self.rules.values()),
                "undecided": self.undecided[:200],
                "known_findings": [dict(v) for v, _ in old],
                "notes": self.notes,
            },
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for r, d in self.rules.items():
            print("rule %s: %d obligations, %d discharged, %d undecided, %d violated -- %s" % (
                r, d["obligations"], d["discharged"], d["undecided"], d["violated"], d["rule"]))
        for u in self.undecided[:30]:
            print("UNDECIDED property=%s rule=%s %s: %s" % (self.prop, u["rule"], u["what"], u["why"]))
        done = set()
        for v, k in old:
            if (k["rule"], k["site"]) not in done:
                done.add((k["rule"], k["site"]))
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if new:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.prop + ".txt")
            with open(path, "w") as f:
                for v, _ in new:
                    f.write("%s:%s: in %s\n  rule %s: %s\n  site %s\n  %s\n\n" % (
                        v["file"], v["line"], v["function"], v["rule"], self.rules[v["rule"]]["rule"], v["site"], v["detail"]))
            for v, _ in new[:12]:
                print("  %s:%s: %s [%s] %s: %s" % (v["file"], v["line"], v["function"], v["rule"], v["site"], v["detail"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s: held; %d obligations, %d undecided, %.1f s" % (self.prop, ev["coverage"]["obligations"], len(self.undecided), ev["wall_s"]))
        return 0


def short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + "..."


def load_known(prop):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


# ------------------------------------------------------------------------------------------------------------- inputs
def byte_var(name, dom=range(256)):
    return Var(name, list(dom))


def order_var(name, dom, lo=0, hi=(1 << 32) - 1):
    v = Var(name, sorted(set(dom)), "order")
    v.lo, v.hi = lo, hi
    return v


def sval(vs):
    """String value made of character variables and literal pieces."""
    out = []
    for v in vs:
        if isinstance(v, Var):
            out.append(Fn.of(v))
        elif isinstance(v, (bytes, bytearray)):
            out.extend(v)
        elif isinstance(v, str):
            out.extend(v.encode())
        else:
            out.append(v)
    return Str(out)


def sbytes(vs, env):
    out = bytearray()
    for v in vs:
        if isinstance(v, Var):
            out.append(env[v])
        elif isinstance(v, (bytes, bytearray)):
            out += v
        elif isinstance(v, str):
            out += v.encode()
        else:
            out.append(v)
    return bytes(out)


CLASS_REPS = [0, 1, 9, 10, 13, 31, 32, 33, 34, 37, 39, 43, 45, 46, 47, 48, 49, 57, 58, 64, 65, 77, 90, 91, 92, 94, 95, 96, 97, 102, 122, 123, 126,
              127, 128, 155, 160, 191, 192, 195, 223, 224, 255]


def string_shapes(tier_thorough=False, filler=b"aZ", lengths=(5, 9, 70, 300)):
    """Skeletons of strings: every string of up to two bytes, longer ones with free bytes at the ends, the middle and in pairs."""
    out = [[], [byte_var("c0")], [byte_var("c0"), byte_var("c1")]]
    out.append([byte_var("c0"), byte_var("c1", CLASS_REPS), byte_var("c2", CLASS_REPS)])
    for n in lengths:
        fill = (filler * n)[:n]
        for i in sorted({0, n // 2, n - 1}):
            out.append([fill[:i], byte_var("c%d" % i), fill[i + 1:]])
        out.append([byte_var("c0", CLASS_REPS), fill[1:n - 1], byte_var("c%d" % (n - 1), CLASS_REPS)])
    return out
