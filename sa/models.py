"""Transfer functions for the C++ standard library, {fmt}, range-v3, the tree runtime and the ANTLR runtime."""
import math
from fractions import Fraction
import os
import re
import sys

import numpy as np

from absint import (AnyV, Abort, Arr, Atom, CStr, Cell, CppThrow, FLT, Fn, FnRef, INT, f32, It, Lam, MapV, Nat, Obj, Op, OptV, Ptr,
                    RefCell, Str, Stream, Tup, UB, Undecided, Uninit, VOID, Vec, base_type, is_ref, lift, strip, targs_of, wrap)

NATIVE_CLASSES = {"std::string", "std::any", "fmt::basic_format_string", "fmt::basic_string_view"}

# ------------------------------------------------------------------------------------------------------- exceptions
STD_EXC = {
    "std::logic_error": "std::exception", "std::runtime_error": "std::exception", "std::bad_cast": "std::exception",
    "std::bad_alloc": "std::exception", "std::bad_function_call": "std::exception", "std::bad_optional_access": "std::exception",
    "std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error", "std::length_error": "std::logic_error",
    "std::domain_error": "std::logic_error", "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
    "std::underflow_error": "std::runtime_error", "std::bad_any_cast": "std::bad_cast", "std::regex_error": "std::runtime_error",
    "tree::base::NotWellFormed": "std::runtime_error", "tree::base::OutOfRange": "std::out_of_range",
    "fmt::format_error": "std::runtime_error", "std::bad_array_new_length": "std::bad_alloc",
    "std::system_error": "std::runtime_error", "std::ios_base::failure": "std::system_error",
    "antlr4::RuntimeException": "std::exception", "antlr4::IllegalArgumentException": "antlr4::RuntimeException",
    "antlr4::ParseCancellationException": "antlr4::RuntimeException", "std::filesystem::filesystem_error": "std::system_error",
}


def std_is_a(cls, base):
    while cls is not None:
        if cls == base:
            return True
        cls = STD_EXC.get(cls)
    return False


def throw(I, cls, msg=""):
    o = Obj(cls)
    o.f["$what"] = Cell(Str.lit(msg) if isinstance(msg, str) else msg)
    raise CppThrow(o, I.where())


def init_library_base(I, o, base, args):
    b = strip(base)
    if b in STD_EXC or b == "std::exception":
        o.f["$what"] = Cell(to_string(I, args[0]) if args and not isinstance(I.rv(args[0]), Obj) else Str())
        return
    if b in ("std::vector", "std::string", "std::map", "std::list", "std::unordered_map", "std::set"):
        o.f["$base"] = Cell(construct(I, base, args, None))
        return
    # tree, fmt and ANTLR bases carry no state that matters here
    return


# ------------------------------------------------------------------------------------------------------------ trees
class TreeInfo:
    def __init__(self, prog):
        sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "standin"))
        import front
        import tree_spec
        self.cls = {}
        self.trees = {}
        for p in front.tree_files():
            t = tree_spec.parse_tree(p)
            ns = "::".join(t.namespace)
            self.trees[ns] = t
            for n in t.order:
                self.cls[ns + "::" + n.cls] = (t, n, ns)

    def ftype(self, t, ns, f):
        name, edge, target, ext = f
        if edge == "Prim":
            return target
        tgt = target if ext else ns + "::" + t.nodes[target].cls
        if ext and not tgt.startswith("cqasm"):
            # resolved relative to the tree's namespace
            parts = ns.split("::")
            for k in range(len(parts), -1, -1):
                c = "::".join(parts[:k] + [tgt])
                if c in self.cls:
                    tgt = c
                    break
        return "tree::base::%s<%s>" % (edge, tgt)


def trees(I):
    if not hasattr(I.prog, "tree_info"):
        I.prog.tree_info = TreeInfo(I.prog)
    return I.prog.tree_info


def tree_is_a(I, cls, base):
    """Whether tree class cls is base or derives from it (None when cls is not a tree class)."""
    ti = trees(I)
    if cls not in ti.cls:
        return None
    t, n, ns = ti.cls[cls]
    names = [ns + "::" + a.cls for a in n.ancestors()] + [ns + "::Node", "tree::base::Base", "cqasm::tree::Base",
                                                           "tree::annotatable::Annotatable", "tree::base::Completable"]
    return base in names


def make_node(I, cls, args, given=None):
    t, n, ns = trees(I).cls[cls]
    if len(args) == 1 and isinstance(I.rv(args[0]), Obj) and I.rv(args[0]).cls == cls:
        return I.copy(args[0])
    if len(args) == 1 and isinstance(I.rv(args[0]), Obj) and I.is_a(I.rv(args[0]).cls, cls):
        o = Obj(cls)  # slicing: the fields of the base
        full = I.copy(args[0])
        for fd in I.all_fields(cls):
            if fd["n"] in full.f:
                o.f[fd["n"]] = full.f[fd["n"]]
        return o
    o = Obj(cls)
    fs = n.all_fields()
    for i, f in enumerate(fs):
        ft = trees(I).ftype(t, ns, f)
        if i < len(args):
            v = coerce(I, canon(I, ft), I.copy(args[i]) if isinstance(args[i], Cell) else args[i])
        elif f[1] == "Prim":
            v = init_prim(I, t, ft)
        else:
            v = Vec([], "any") if f[1] in ("Any", "Many") else Ptr(None, "tree")
        o.f[f[0]] = Cell(v)
    return o


def by_name(I, sn):
    idx = I.prog.__dict__.get("_by_name")
    if idx is None:
        idx = {}
        for f in I.prog.functions.values():
            idx.setdefault(f["sn"], []).append(f)
        I.prog.__dict__["_by_name"] = idx
    return idx.get(sn, ())


def init_prim(I, t, ft):
    if t.init_fn:
        nm = strip(t.init_fn)
        fs = [f for f in by_name(I, nm) if base_type(f["ret"]) == canon(I, ft)]
        if len(fs) == 1:
            return I.rv(I.call_fn(fs[0], []))
    v = I.zero(canon(I, ft))
    return v


PRIM_ALIAS = {"Str": "std::string", "Bool": "bool", "Int": "long", "Real": "double", "Float": "double", "Complex": "std::complex<double>",
              "Axis": "cqasm::v3x::primitives::Axis", "Version": "cqasm::version::Version",
              "InstructionRef": "tree::base::Maybe<cqasm::v3x::instruction::Instruction>"}


def canon(I, t):
    """Canonical C++ type of a primitive named in a .tree file."""
    last = t.split("::")[-1]
    for k, v in PRIM_ALIAS.items():
        if last == k:
            return v
    return t


def node_kind(I, o):
    return trees(I).cls.get(o.cls) if isinstance(o, Obj) else None


def clone(I, v):
    v = I.rv(v)
    if isinstance(v, Ptr):
        return Ptr(Cell(clone(I, v.c)), v.kind) if v.c is not None else v
    if isinstance(v, Vec):
        return Vec([Cell(clone(I, c)) for c in v.items], v.kind)
    if isinstance(v, Obj) and node_kind(I, v):
        t, n, ns = node_kind(I, v)
        edges = {f[0]: f[1] for f in n.all_fields()}
        o = Obj(v.cls)
        for k, c in v.f.items():
            o.f[k] = Cell(clone(I, c) if edges.get(k) in ("One", "Maybe", "Any", "Many") else I.copy(c))
        o.ann = {k: Cell(I.copy(c)) for k, c in v.ann.items()}
        return o
    return I.copy(v)


def equals(I, a, b):
    """Deep structural equality of tree values; returns a scalar."""
    a, b = I.rv(a), I.rv(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.c is None or b.c is None:
            return a.c is None and b.c is None
        return equals(I, a.c, b.c)
    if isinstance(a, Vec) and isinstance(b, Vec):
        if len(a.items) != len(b.items):
            return False
        for x, y in zip(a.items, b.items):
            if not I.truth(equals(I, x, y)):
                return False
        return True
    if isinstance(a, Obj) and isinstance(b, Obj) and node_kind(I, a):
        if a.cls != b.cls:
            return False
        for k in a.f:
            if not I.truth(equals(I, a.f[k], b.f[k])):
                return False
        return True
    return eq(I, a, b)


# ---------------------------------------------------------------------------------------------------------- strings
def norm(p):
    out = []
    for x in p:
        if isinstance(x, (bytes, bytearray)):
            out.extend(x)
        else:
            out.append(x)
    return Str(out)


def chv(x):
    """A character value, normalised to signed char."""
    return x


def to_string(I, v):
    v = I.rv(v)
    if isinstance(v, Str):
        return v
    if isinstance(v, CStr):
        s = v.s
        if v.pos:
            if not s.fixed():
                raise Undecided("pointer into an opaque string")
            s = Str(s.p[v.pos:])
        # a C string ends at the first NUL
        for i, x in enumerate(s.p):
            if isinstance(x, int) and x == 0:
                return Str(s.p[:i])
            if isinstance(x, Fn) and isinstance(x.arr.flat[0], int):
                if I.truth(lift(lambda c: c == 0, x)):
                    return Str(s.p[:i])
        return s
    if isinstance(v, Ptr) and v.c is None:
        raise UB("null pointer used as a string", I.where())
    if isinstance(v, Obj) and "$base" in v.f:
        return to_string(I, v.f["$base"])
    if isinstance(v, Nat) and v.name == "view":
        return collect_str(I, iterate(I, v))
    if isinstance(v, Nat) and v.name == "submatch":
        return v.s
    if isinstance(v, Nat) and v.name == "buffer":
        return to_string(I, v.text)
    if isinstance(v, OptV):
        raise Undecided("optional as string")
    if isinstance(v, Arr):
        out = []
        for c in v.items:
            if not isinstance(c.v, (int, Fn)):
                raise Undecided("string from an array of %r" % (c.v,))
            if I.truth(lift(lambda q: q == 0, c.v) if isinstance(c.v, Fn) else c.v == 0):
                break
            out.append(byte(c.v))
        return Str(tuple(out))
    raise Undecided("string from %r" % (v,))


def byte(x):
    """Character value to byte piece."""
    if isinstance(x, Op):
        return Atom(("chr", x.key), True)
    if isinstance(x, Fn):
        return lift(lambda c: int(c) & 255, x)
    return int(x) & 255


def char_of(p):
    """Byte piece to (signed) char value."""
    if isinstance(p, Fn):
        return lift(lambda c: c - 256 if c > 127 else c, p)
    if isinstance(p, int):
        return p - 256 if p > 127 else p
    raise Undecided("character of an opaque string")


def need_fixed(I, s):
    """Turns renderings into fixed characters by partitioning on their value."""
    if s.fixed():
        return s
    out = []
    for x in s.p:
        if isinstance(x, Fn) and isinstance(x.arr.flat[0], (bytes, bytearray)):
            out.extend(I.split_value(x))
        elif isinstance(x, Atom):
            raise Undecided("character-level access to opaque text %r" % (x,))
        else:
            out.append(x)
    return Str(out)


def str_key(s):
    return tuple(("fn", tuple(v.n for v in x.vars), x.arr.tobytes() if False else id(x)) if isinstance(x, Fn) else x for x in s.p)


def strlen(I, s):
    n, opaque = 0, []
    fns = []
    for x in s.p:
        if isinstance(x, int):
            n += 1
        elif isinstance(x, Fn):
            if isinstance(x.arr.flat[0], (bytes, bytearray)):
                fns.append(x)
            else:
                n += 1
        else:
            opaque.append(x)
    if opaque:
        lo = n + sum(1 for x in opaque if x.nonempty) + sum(min(len(b) for b in f.arr.flat) for f in fns)
        return Op(("len", str_key(s), lo), "unsigned long")
    r = n
    for f in fns:
        r = lift(lambda a, b: a + len(b), r, f)
    return r


def str_empty(I, s):
    n = strlen(I, s)
    if isinstance(n, Op):
        if n.key[2] > 0:
            return False
        return I.cmp("==", n, 0)
    return lift(lambda x: x == 0, n)


def piece_eq(x, y):
    if isinstance(x, Fn) or isinstance(y, Fn):
        return lift(lambda a, b: a == b, x, y)
    return x == y


def str_eq(I, a, b):
    a, b = norm(a.p), norm(b.p)
    if a.fixed() and b.fixed():
        if len(a.p) != len(b.p):
            return False
        r = True
        for x, y in zip(a.p, b.p):
            r = lift(lambda p, q: p and q, r, piece_eq(x, y))
        return r
    if len(a.p) == len(b.p) and all(x is y or (isinstance(x, (int, Atom)) and x == y) for x, y in zip(a.p, b.p)):
        return True
    if not any(isinstance(x, Atom) for x in a.p + b.p):
        return str_eq(I, need_fixed(I, a), need_fixed(I, b))
    # cut equal ends
    p, q = list(a.p), list(b.p)
    while p and q and not isinstance(p[0], Fn) and not isinstance(q[0], Fn) and p[0] == q[0]:
        p.pop(0)
        q.pop(0)
    while p and q and not isinstance(p[-1], Fn) and not isinstance(q[-1], Fn) and p[-1] == q[-1]:
        p.pop()
        q.pop()
    if p and q and isinstance(p[0], int) and isinstance(q[0], int):
        return False
    if p and q and isinstance(p[-1], int) and isinstance(q[-1], int):
        return False
    ra, rb = Str(p), Str(q)
    for s, o in ((ra, rb), (rb, ra)):
        if not s.p:
            n = strlen(I, o)
            if isinstance(n, Op) and n.key[2] > 0:
                return False
    return atom_eq(I, ra, rb)


def atom_eq(I, a, b):
    """Equality of opaque strings.  An opaque name equals at most one literal; facts are kept consistent."""
    ka, kb = str_key(a), str_key(b)
    if ka == kb:
        return True
    la, lb = a.concrete(), b.concrete()
    known = I.world.facts.setdefault(("names",), {})
    if la is not None:
        a, b, ka, kb, la, lb = b, a, kb, ka, lb, la
    # a is opaque
    if lb is not None:
        if ka in known:
            return known[ka] == lb
        fact = ("streq", ka, lb)
        if fact in I.world.facts:
            return I.world.facts[fact]
        r = I.decide(2) == 1
        I.world.facts[fact] = r
        I.trace.append((fact, r))
        if r:
            known[ka] = lb
        return r
    if ka in known and kb in known:
        return known[ka] == known[kb]
    if ka in known:
        return atom_eq(I, b, Str(tuple(known[ka])))
    if kb in known:
        return atom_eq(I, a, Str(tuple(known[kb])))
    fact = ("streq",) + tuple(sorted((ka, kb), key=repr))
    if fact in I.world.facts:
        return I.world.facts[fact]
    r = I.decide(2) == 1
    I.world.facts[fact] = r
    I.trace.append((fact, r))
    return r


def str_cmp(I, a, b):
    """Lexicographic three-way comparison on unsigned bytes."""
    a, b = need_fixed(I, a), need_fixed(I, b)
    for x, y in zip(a.p, b.p):
        if not I.truth(piece_eq(x, y)):
            return -1 if I.truth(lift(lambda p, q: p < q, x, y)) else 1
    return (len(a.p) > len(b.p)) - (len(a.p) < len(b.p))


def str_find(I, s, pat, pos):
    pos = I.split_value(pos)
    pat = need_fixed(I, pat)
    s = need_fixed(I, s)
    n, m = len(s.p), len(pat.p)
    for i in range(pos, n - m + 1):
        r = True
        for j in range(m):
            r = lift(lambda p, q: p and q, r, piece_eq(s.p[i + j], pat.p[j]))
        if I.truth(r):
            return i
    return NPOS


def str_rfind(I, s, pat, pos):
    pat, s = need_fixed(I, pat), need_fixed(I, s)
    n, m = len(s.p), len(pat.p)
    for i in range(min(pos, n - m), -1, -1):
        r = True
        for j in range(m):
            r = lift(lambda p, q: p and q, r, piece_eq(s.p[i + j], pat.p[j]))
        if I.truth(r):
            return i
    return NPOS


NPOS = (1 << 64) - 1


def char_in(x, pat):
    r = False
    for c in pat.p:
        r = lift(lambda p, q: bool(p or q), r, piece_eq(x, c))
    return r


def str_find_of(I, s, pat, pos, neg, last):
    s, pat = need_fixed(I, s), need_fixed(I, pat)
    rng = range(pos, len(s.p)) if not last else range(min(pos, len(s.p) - 1), -1, -1)
    for i in rng:
        if I.truth(char_in(s.p[i], pat)) != neg:
            return i
    return NPOS


class CharCell(Cell):
    """A character inside a string variable."""
    __slots__ = ("cell", "i")

    def __init__(self, cell, i):
        self.cell, self.i, self.meta = cell, i, None

    @property
    def v(self):
        return char_of(self.cell.v.p[self.i])

    @v.setter
    def v(self, x):
        p = list(self.cell.v.p)
        p[self.i] = byte(x)
        self.cell.v = Str(p)


def index(I, i):
    i = I.split_value(i)
    if not isinstance(i, int):
        raise Undecided("opaque index")
    return i


def str_method(I, cell, name, args, e):
    s = I.rv(cell)
    a = [I.rv(x) for x in args]
    if name in ("size", "length"):
        return strlen(I, s)
    if name == "empty":
        return str_empty(I, s)
    if name in ("c_str", "data"):
        return CStr(s)
    if name in ("begin", "cbegin"):
        cell.v = need_fixed(I, s)
        return It(cell, 0)
    if name in ("end", "cend"):
        cell.v = need_fixed(I, s)
        return It(cell, len(cell.v.p))
    if name in ("rbegin", "crbegin"):
        cell.v = need_fixed(I, s)
        return It(cell, len(cell.v.p) - 1, True)
    if name in ("rend", "crend"):
        cell.v = need_fixed(I, s)
        return It(cell, -1, True)
    if name in ("operator[]", "at", "front", "back"):
        if s.p and name == "front" and isinstance(s.p[0], int):
            return CharCell(cell, 0)
        cell.v = s = need_fixed(I, s)
        n = len(s.p)
        i = 0 if name == "front" else n - 1 if name == "back" else index(I, a[0])
        if i == n and name == "operator[]":
            return Cell(0)
        if not 0 <= i < n:
            if name == "at":
                throw(I, "std::out_of_range", "basic_string::at")
            raise UB("string index %d out of bounds (size %d)" % (i, n), I.where())
        return CharCell(cell, i)
    if name == "push_back":
        cell.v = Str(s.p + (byte(a[0]),))
        return VOID
    if name == "pop_back":
        s = need_fixed(I, s)
        if not s.p:
            raise UB("pop_back on an empty string", I.where())
        cell.v = Str(s.p[:-1])
        return VOID
    if name == "operator+=":
        if isinstance(a[0], Arr):
            cell.v = norm(s.p + to_string(I, a[0]).p)
        elif is_stringish(a[0]):
            cell.v = norm(s.p + to_string(I, a[0]).p)
        else:
            cell.v = Str(s.p + (byte(a[0]),))
        return cell
    if name in ("append", "assign", "operator="):
        if len(a) == 2 and isinstance(a[0], It):
            t = collect_str(I, it_range(I, a[0], a[1]))
        elif len(a) >= 2 and isinstance(a[0], int) and not is_stringish(a[1]):
            t = Str((byte(a[1]),) * index(I, a[0]))
        elif len(a) == 3 and is_stringish(a[0]):
            t = substr(I, to_string(I, a[0]), a[1], a[2])
        elif len(a) == 2 and isinstance(a[0], CStr):
            t = substr(I, a[0].s, a[0].pos, a[1])
        elif is_stringish(a[0]) or isinstance(a[0], (Arr, Nat)):
            t = to_string(I, a[0])
        elif isinstance(a[0], Obj):
            t = to_string(I, a[0])
        else:
            t = Str((byte(a[0]),))
        cell.v = norm((s.p if name == "append" else ()) + t.p)
        return cell
    if name == "substr":
        return substr(I, s, a[0] if a else 0, a[1] if len(a) > 1 else NPOS)
    if name in ("find", "rfind", "find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of", "contains"):
        pat = to_string(I, a[0]) if is_stringish(a[0]) else Str((byte(a[0]),))
        if name == "contains":
            return str_find(I, s, pat, 0) != NPOS
        if name == "find":
            if s.concrete() is None and not s.fixed() and any(isinstance(x, Atom) for x in s.p) and len(pat.p) == 1:
                r = atom_find(I, s, pat)
                if r is not None:
                    return r
            return str_find(I, s, pat, a[1] if len(a) > 1 else 0)
        pos = index(I, a[1]) if len(a) > 1 else None
        if name == "rfind":
            return str_rfind(I, s, pat, NPOS if pos is None else pos)
        last = "last" in name
        return str_find_of(I, s, pat, (NPOS if last else 0) if pos is None else pos, "not" in name, last)
    if name in ("starts_with", "ends_with"):
        pat = to_string(I, a[0]) if is_stringish(a[0]) else Str((byte(a[0]),))
        n = len(pat.p)
        if pat.fixed():
            q = s.p[:n] if name == "starts_with" else s.p[len(s.p) - n:] if n <= len(s.p) else s.p
            q = q if n else ()
            if len(q) == n and Str(q).fixed():
                r = True
                for x, y in zip(q, pat.p):
                    r = lift(lambda u, v: u and v, r, piece_eq(x, y))
                return r
            if s.fixed():
                return False
            return Op((name, str_key(s), str_key(pat)), "bool")
        raise Undecided(name)
    if name == "compare":
        if len(a) == 1:
            return str_cmp(I, s, to_string(I, a[0]))
        if len(a) == 3:
            return str_cmp(I, substr(I, s, a[0], a[1]), to_string(I, a[2]))
    if name == "clear":
        cell.v = Str()
        return VOID
    if name in ("reserve", "shrink_to_fit"):
        return VOID
    if name == "resize":
        s = need_fixed(I, s)
        n = index(I, a[0])
        c = byte(a[1]) if len(a) > 1 else 0
        cell.v = Str(s.p[:n] + (c,) * (n - len(s.p)))
        return VOID
    if name == "insert":
        s = need_fixed(I, s)
        if isinstance(a[0], It):
            pos = a[0].pos
            if len(a) == 2:
                t = Str((byte(a[1]),))
            else:
                t = collect_str(I, it_range(I, a[1], a[2]))
            cell.v = norm(s.p[:pos] + t.p + s.p[pos:])
            return It(cell, pos)
        pos = index(I, a[0])
        if pos > len(s.p):
            throw(I, "std::out_of_range", "basic_string::insert")
        t = to_string(I, a[1]) if is_stringish(a[1]) else Str((byte(a[2]),) * index(I, a[1]))
        cell.v = norm(s.p[:pos] + t.p + s.p[pos:])
        return cell
    if name == "erase":
        s = need_fixed(I, s)
        if a and isinstance(a[0], It):
            end = a[1].pos if len(a) > 1 else a[0].pos + 1
            cell.v = Str(s.p[:a[0].pos] + s.p[end:])
            return It(cell, a[0].pos)
        pos = index(I, a[0]) if a else 0
        n = index(I, a[1]) if len(a) > 1 else NPOS
        if pos > len(s.p):
            throw(I, "std::out_of_range", "basic_string::erase")
        cell.v = Str(s.p[:pos] + s.p[min(len(s.p), pos + n):])
        return cell
    if name == "replace":
        s = need_fixed(I, s)
        if not isinstance(a[0], It):
            pos, n = index(I, a[0]), index(I, a[1])
            if pos > len(s.p):
                throw(I, "std::out_of_range", "basic_string::replace")
            t = to_string(I, a[2]) if is_stringish(a[2]) else Str((byte(a[3]),) * index(I, a[2]))
            cell.v = norm(s.p[:pos] + t.p + s.p[min(len(s.p), pos + n):])
            return cell
    if name.startswith("operator basic_string_view") or name.startswith("operator "):
        return s
    if name == "swap":
        o = args[0]
        cell.v, o.v = o.v, cell.v
        return VOID
    if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
        return binary(I, name[8:], cell, args[0])
    if name in ("remove_prefix", "remove_suffix"):
        n = index(I, a[0])
        s = need_fixed(I, s)
        if n > len(s.p):
            raise UB("%s beyond the end" % name, I.where())
        cell.v = Str(s.p[n:]) if name == "remove_prefix" else Str(s.p[:len(s.p) - n])
        return VOID
    raise Undecided("std::string::%s" % name)


def atom_find(I, s, pat):
    return None


def substr(I, s, pos, n):
    pos, n = index(I, pos), index(I, n)
    if any(isinstance(x, Atom) for x in s.p):
        # cutting fixed characters off both ends of opaque text
        k = 0
        while k < len(s.p) and k < pos and isinstance(s.p[k], int):
            k += 1
        if k == pos and n == NPOS:
            return Str(s.p[k:])
        raise Undecided("substring of opaque text")
    s = need_fixed(I, s)
    if pos > len(s.p):
        throw(I, "std::out_of_range", "basic_string::substr")
    return Str(s.p[pos:] if n >= len(s.p) - pos else s.p[pos:pos + n])


def is_stringish(v):
    return isinstance(v, (Str, CStr)) or (isinstance(v, Nat) and v.name == "submatch")


def is_string(v):
    return isinstance(v, (Str, CStr))


def collect_str(I, cells):
    return norm(tuple(byte(I.rv(c)) for c in cells))


# -------------------------------------------------------------------------------------------------------- iteration
def seq_items(I, seq):
    s = I.rv(seq) if isinstance(seq, Cell) else seq
    if isinstance(s, (Vec, Arr)):
        return s.items
    if isinstance(s, Str):
        return [CharCell(seq, i) for i in range(len(s.p))]
    if isinstance(s, MapV):
        if s.kind in ("set", "unordered_set"):
            return [Cell(k) for k, _ in s.items]
        return [Cell(Tup([Cell(k), c])) for k, c in s.items]
    if isinstance(s, Obj) and "$base" in s.f:
        return seq_items(I, s.f["$base"])
    raise Undecided("iteration over %r" % (s,))


def iterate(I, r):
    v = I.rv(r)
    if isinstance(v, (Str, CStr)):
        if isinstance(v, CStr):
            raise Undecided("iteration over a character array")
        cell = r if isinstance(r, Cell) else Cell(v)
        cell.v = need_fixed(I, v)
        return [CharCell(cell, i) for i in range(len(cell.v.p))]
    if isinstance(v, Nat) and v.name == "view":
        return [Cell(I.rv(I.invoke(v.fn, [c]))) for c in iterate(I, v.base)]
    if isinstance(v, Nat) and v.name == "pick":
        return v.items
    if isinstance(v, Nat) and v.name == "subrange":
        return it_range(I, v.a, v.b)
    if isinstance(v, Nat) and v.name == "match":
        return [Cell(g) for g in v.groups]
    if isinstance(v, Nat) and v.name == "iota":
        raise Undecided("unbounded iota")
    if isinstance(v, Obj) and "$base" not in v.f:
        raise Undecided("iteration over %s" % v.cls)
    if isinstance(v, Nat) and v.name == "buffer":
        return iterate(I, v.text)
    if isinstance(v, OptV) or isinstance(v, Ptr):
        raise Undecided("iteration over %r" % (v,))
    if isinstance(v, Nat) and v.name == "reverse":
        return list(reversed(iterate(I, v.base)))
    return list(seq_items(I, r))


def open_file(I, s, path):
    """A file stream over the contents the file has; a directory opens and yields nothing."""
    files = getattr(I, "files_in", None)
    k = to_string(I, path).concrete()
    if files is None or k is None:
        raise Undecided("opening a file")
    k = k.decode("utf-8", "replace")
    s.pos = 0
    s.opened = k in files
    x = files.get(k)
    s.buf = x if isinstance(x, Str) else Str.lit(x or b"")
    if not s.opened:
        s.flags["fail"] = True


def rest_of(I, s):
    """What is left of an input stream, which is at its end then."""
    t = need_fixed(I, s.buf)
    r = Str(t.p[getattr(s, "pos", 0):]) if not s.flags.get("fail") else Str()
    s.pos = len(t.p)
    return r


def it_range(I, a, b):
    a, b = I.rv(a), I.rv(b)
    if isinstance(a, Nat) and a.name == "streambuf":
        return [] if a.s is None else [Cell(char_of(x)) for x in rest_of(I, a.s).p]
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        raise Undecided("pointer range")
    if isinstance(a, CStr):
        raise Undecided("character pointer range")
    items = seq_items(I, a.seq)
    if a.rev:
        if b.pos > a.pos:
            raise UB("invalid iterator range", I.where())
        return [items[i] for i in range(a.pos, b.pos, -1)]
    if b.pos < a.pos:
        raise UB("invalid iterator range", I.where())
    return items[a.pos:b.pos]


def it_deref(I, it):
    items = seq_items(I, it.seq)
    if not 0 <= it.pos < len(items):
        raise UB("dereference of an iterator past the end", I.where())
    return items[it.pos]


def it_add(I, it, n):
    n = index(I, n)
    if isinstance(it, CStr):
        return CStr(it.s, it.pos + n)
    new = it.pos + (-n if it.rev else n)
    size = len(seq_items(I, it.seq))
    if not -1 <= new <= size:
        raise UB("iterator moved out of its range", I.where())
    return It(it.seq, new, it.rev)


def cstr_at(I, p, i):
    i = p.pos + index(I, i)
    s = p.s
    if any(isinstance(x, Atom) for x in s.p[:i + 1]) or not s.fixed():
        s = need_fixed(I, s)
    if i == len(s.p):
        return Cell(0)
    if not 0 <= i < len(s.p):
        raise UB("read past the end of a string", I.where())
    return Cell(char_of(s.p[i]))


def ptr_binop(I, op, a, b):
    a = It(a, 0) if isinstance(a, Arr) else a
    b = It(b, 0) if isinstance(b, Arr) else b
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        def tgt(x):
            if isinstance(x, Ptr):
                c = x.c
                return None if c is None else id(c.v) if isinstance(c.v, (Obj, Vec, MapV, Stream)) else id(c)
            if isinstance(x, (CStr, Lam, FnRef)):
                return "nonnull"
            if isinstance(x, int) and x == 0:
                return None
            raise Undecided("pointer compared with %r" % (x,))
        same = tgt(a) == tgt(b)
        if op == "==":
            return same
        if op == "!=":
            return not same
        raise Undecided("pointer %s" % op)
    if isinstance(a, It) and isinstance(b, It):
        if op == "-":
            return (a.pos - b.pos) * (-1 if a.rev else 1)
        x, y = (b.pos, a.pos) if a.rev else (a.pos, b.pos)
        return {"==": a.pos == b.pos, "!=": a.pos != b.pos, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
    if isinstance(a, CStr) and isinstance(b, CStr):
        if a.s is not b.s and a.s.p != b.s.p:
            raise Undecided("pointers into different strings")
        return {"-": a.pos - b.pos, "==": a.pos == b.pos, "!=": a.pos != b.pos, "<": a.pos < b.pos, ">": a.pos > b.pos,
                "<=": a.pos <= b.pos, ">=": a.pos >= b.pos}[op]
    if isinstance(a, (It, CStr)) and op in ("+", "-"):
        return it_add(I, a, b if op == "+" else -index(I, b))
    if isinstance(b, (It, CStr)) and op == "+":
        return it_add(I, b, a)
    raise Undecided("pointer operator %s" % op)


# --------------------------------------------------------------------------------------------------------- equality
def eq(I, a, b):
    a, b = I.rv(a), I.rv(b)
    if (is_stringish(a) or is_stringish(b)) and not isinstance(a, OptV) and not isinstance(b, OptV):
        return str_eq(I, to_string(I, a), to_string(I, b))
    if isinstance(a, OptV) or isinstance(b, OptV):
        if isinstance(a, Nat) or isinstance(b, Nat):
            return I.lnot((b if isinstance(a, Nat) else a).has)
        if not isinstance(a, OptV):
            a = OptV(True, Cell(a))
        if not isinstance(b, OptV):
            b = OptV(True, Cell(b))
        ha, hb = I.truth(a.has), I.truth(b.has)
        if ha != hb:
            return False
        return eq(I, a.cell, b.cell) if ha else True
    if isinstance(a, Tup) and isinstance(b, Tup):
        for x, y in zip(a.items, b.items):
            if not I.truth(eq(I, x, y)):
                return False
        return True
    if isinstance(a, (Vec, Arr)) and isinstance(b, (Vec, Arr)):
        if len(a.items) != len(b.items):
            return False
        for x, y in zip(a.items, b.items):
            if not I.truth(eq(I, x, y)):
                return False
        return True
    if isinstance(a, MapV) and isinstance(b, MapV):
        if len(a.items) != len(b.items):
            return False
        for (k, x), (l, y) in zip(a.items, b.items):
            if not I.truth(eq(I, k, l)) or not I.truth(eq(I, x, y)):
                return False
        return True
    if isinstance(a, Obj) and isinstance(b, Obj):
        if node_kind(I, a):
            return equals(I, a, b)
        f = find_operator(I, a.cls, "operator==")
        if f:
            return I.rv(I.call_fn(f, [Cell(b)], Cell(a)) if len(f["params"]) == 1 else I.call_fn(f, [Cell(a), Cell(b)]))
        for k in a.f:
            if not I.truth(eq(I, a.f[k], b.f[k])):
                return False
        return True
    return I.binop("==", a, b, "bool")


def less(I, a, b):
    a, b = I.rv(a), I.rv(b)
    if is_stringish(a):
        return str_cmp(I, to_string(I, a), to_string(I, b)) < 0
    return I.truth(three_way(I, a, b)) if False else spaceship(I, a, b) < 0


def spaceship(I, a, b):
    """Three-way comparison, partitioning until the sign is known."""
    a, b = I.rv(a), I.rv(b)
    if is_stringish(a):
        return str_cmp(I, to_string(I, a), to_string(I, b))
    if isinstance(a, (Tup, Vec, Arr)):
        for x, y in zip(a.items, b.items):
            r = spaceship(I, x, y)
            if r:
                return r
        return (len(a.items) > len(b.items)) - (len(a.items) < len(b.items))
    if isinstance(a, OptV) or isinstance(b, OptV):
        a = a if isinstance(a, OptV) else OptV(False) if isinstance(a, Nat) and a.name == "nullopt" else OptV(True, Cell(a))
        b = b if isinstance(b, OptV) else OptV(False) if isinstance(b, Nat) and b.name == "nullopt" else OptV(True, Cell(b))
        ha, hb = I.truth(a.has), I.truth(b.has)
        if not ha or not hb:
            return (ha > hb) - (ha < hb)
        return spaceship(I, a.cell, b.cell)
    if isinstance(a, Obj):
        f = find_operator(I, a.cls, "operator<=>")
        if f:
            return sign(I, I.call_fn(f, [Cell(b)], Cell(a)) if len(f["params"]) == 1 else I.call_fn(f, [Cell(a), Cell(b)]))
        f = find_operator(I, a.cls, "operator<")
        if f:
            g = lambda x, y: I.truth(I.call_fn(f, [Cell(y)], Cell(x)) if len(f["params"]) == 1 else I.call_fn(f, [Cell(x), Cell(y)]))
            return -1 if g(a, b) else 1 if g(b, a) else 0
        fields = I.all_fields(a.cls)
        for fd in fields:
            r = spaceship(I, a.f[fd["n"]], b.f[fd["n"]])
            if r:
                return r
        return 0
    if isinstance(a, Uninit) or isinstance(b, Uninit):
        raise UB("comparison of an uninitialised value", I.where())
    if I.truth(I.binop("==", a, b, "bool")):
        return 0
    return -1 if I.truth(I.binop("<", a, b, "bool")) else 1


def sign(I, v):
    v = I.rv(v)
    if isinstance(v, Nat) and v.name == "ordering":
        return v.sign
    v = I.split_value(v)
    if isinstance(v, int):
        return v
    raise Undecided("ordering %r" % (v,))


def find_operator(I, cls, name):
    """A user-written (not defaulted) operator of a class, as a member or a free function."""
    c = cls
    while c:
        r = I.prog.records.get(c)
        if not r:
            break
        for m in r.get("methods", ()):
            if m["n"] == name and not m.get("dflt"):
                f = I.prog.functions.get(m["key"])
                if f and not f.get("dflt") and base_type(f["params"][0]["t"]) == c:
                    return f
        c = r["bases"][0] if r["bases"] else None
    idx = I.prog.__dict__.get("_free_ops")
    if idx is None:
        idx = {}
        for f in I.prog.functions.values():
            if not f.get("cls") and len(f["params"]) == 2:
                idx.setdefault((f["n"].split("::")[-1], base_type(f["params"][0]["t"])), f)
        I.prog.__dict__["_free_ops"] = idx
    return idx.get((name, cls))


def binary(I, op, a, b):
    """operator op on library values."""
    av, bv = I.rv(a), I.rv(b)
    if isinstance(av, Nat) and av.name == "ordering" or isinstance(bv, Nat) and bv.name == "ordering":
        s = sign(I, av) - sign(I, bv) if isinstance(av, Nat) and isinstance(bv, Nat) else av.sign if isinstance(av, Nat) else -bv.sign
        return {"==": s == 0, "!=": s != 0, "<": s < 0, ">": s > 0, "<=": s <= 0, ">=": s >= 0}[op]
    if isinstance(av, (int, Fn, Op)) and isinstance(bv, Ptr) and bv.c is None:
        b = bv = 0  # an ordering compared with the literal 0
    if isinstance(bv, (int, Fn, Op)) and isinstance(av, Ptr) and av.c is None:
        a = av = 0
    if isinstance(av, (It, Ptr)) or isinstance(bv, (It, Ptr)):
        return ptr_binop(I, op, av, bv)
    if op == "==":
        return eq(I, a, b)
    if op == "!=":
        return I.lnot(eq(I, a, b))
    if op == "<=>":
        return spaceship(I, a, b)
    if isinstance(av, (int, float, Fn, Op)) and isinstance(bv, (int, float, Fn, Op)):
        return I.binop(op, av, bv, "bool")
    s = spaceship(I, a, b)
    return {"<": s < 0, ">": s > 0, "<=": s <= 0, ">=": s >= 0}[op]


# ----------------------------------------------------------------------------------------------------- construction
SEQ = {"std::vector": "vector", "std::list": "list", "std::deque": "deque", "std::array": "array", "tree::base::Any": "any",
       "tree::base::Many": "any", "cqasm::tree::Any": "any", "std::initializer_list": "vector", "tree::base::OptLink": None}
MAPS = {"std::map": "map", "std::unordered_map": "unordered_map", "std::multimap": "multimap", "std::set": "set",
        "std::unordered_set": "unordered_set", "std::unordered_multimap": "multimap"}
PTRS = ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr", "std::weak_ptr")
TREEPTR = ("tree::base::One", "tree::base::Maybe", "tree::base::Link", "tree::base::OptLink")


def coerce(I, t, v):
    """Implicit conversion of a value to a library type."""
    t = base_type(t)
    sn = strip(t)
    x = I.rv(v)
    if sn == "std::string" or sn in ("std::basic_string_view", "fmt::basic_string_view"):
        if isinstance(x, Str):
            return x
        return to_string(I, x)
    if sn == "std::optional":
        if isinstance(x, OptV):
            return x
        if isinstance(x, Nat) and x.name == "nullopt":
            return OptV(False)
        return OptV(True, Cell(coerce(I, targs_of(t)[0], v)))
    if sn in ("std::pair", "std::tuple") and isinstance(x, Tup):
        ts = targs_of(t)
        return Tup([Cell(coerce(I, u, c)) if not is_ref(u) else c for u, c in zip(ts, x.items)])
    if sn == "std::any" and not isinstance(x, AnyV):
        raise Undecided("any without a type")
    if t in INT and isinstance(x, (int, Fn, Op)):
        if isinstance(x, Fn) and isinstance(x.arr.flat[0], float):
            return float_to_int(I, x, t)
        return I.conv_int(x, t)
    if t in FLT and isinstance(x, (int, float, Fn, Op)):
        return I.to_float(x, t)
    r = I.prog.records.get(t)
    if isinstance(x, Arr) and sn in SEQ:
        return construct(I, t, [x], None)
    if isinstance(x, (Str, CStr, int, Fn, Vec)) and r is not None and not r.get("ext"):
        return construct_by_args(I, t, [v])
    return x if not isinstance(v, Cell) else I.copy(v)


def construct(I, t, args, e):
    t = base_type(t)
    sn = strip(t)
    a = [I.rv(x) for x in args]
    if sn in ("std::string", "fmt::basic_string_view", "std::basic_string_view", "fmt::basic_format_string", "std::basic_string",
              "fmt::basic_runtime", "fmt::runtime_format_string"):
        a = [x for x in a if not (isinstance(x, Nat) and x.name == "allocator")]
        if not a:
            return Str()
        if len(a) == 1:
            return to_string(I, a[0])
        a = [It(x, 0) if isinstance(x, Arr) else x for x in a]
        if isinstance(a[0], CStr) and isinstance(a[1], CStr):
            return substr(I, a[0].s, a[0].pos, a[1].pos - a[0].pos)
        if isinstance(a[0], It) or isinstance(a[0], Nat) and a[0].name == "streambuf":
            return collect_str(I, it_range(I, a[0], a[1]))
        if is_stringish(a[0]):
            s = a[0].s if isinstance(a[0], CStr) else to_string(I, a[0])
            if isinstance(a[0], CStr):
                return substr(I, s, a[0].pos, a[1])
            return substr(I, s, a[1], a[2] if len(a) > 2 else NPOS)
        return Str((byte(a[1]),) * index(I, a[0]))
    if sn == "std::allocator":
        return Nat("allocator")
    if sn in STD_EXC or sn == "std::exception":
        if sn == "std::bad_any_cast":
            return make_exc(sn, "bad any_cast")
        if a and isinstance(a[0], Obj):
            return I.copy(args[0])
        return make_exc(sn, to_string(I, a[0]) if a else Str())
    if sn in ("std::exception_ptr", "std::__exception_ptr::exception_ptr"):
        return a[0] if a else Ptr(None)
    if sn == "std::optional":
        if not a or (isinstance(a[0], Nat) and a[0].name == "nullopt"):
            return OptV(False)
        if isinstance(a[0], OptV):
            return I.copy(args[0])
        if isinstance(a[0], Nat) and a[0].name == "in_place":
            return OptV(True, Cell(construct_by_args(I, targs_of(t)[0], args[1:])))
        return OptV(True, Cell(coerce(I, targs_of(t)[0], args[0])))
    if sn == "std::nullopt_t":
        return Nat("nullopt")
    if sn == "std::any":
        if not a:
            return AnyV()
        if isinstance(a[0], AnyV):
            return I.copy(args[0])
        ta = (e or {}).get("ta") or []
        if not ta:
            raise Undecided("any of unknown type")
        return AnyV(base_type(ta[1] if len(ta) > 1 else ta[0]), Cell(I.copy(args[0]) if isinstance(args[0], Cell) else args[0]))
    if sn in ("std::pair", "std::tuple"):
        ts = targs_of(t)
        if not a:
            return Tup([Cell(I.zero(u)) for u in ts])
        if len(a) == 1 and isinstance(a[0], Tup):
            return coerce(I, t, args[0]) if not isinstance(args[0], Cell) else coerce(I, t, I.copy(args[0]))
        cells = []
        for u, x in zip(ts, args):
            if is_ref(u):
                c = x if isinstance(x, Cell) else Cell(x)
                cells.append(RefCell(c))
            else:
                cells.append(Cell(coerce(I, u, I.copy(x) if isinstance(x, Cell) else x)))
        return Tup(cells)
    if sn in PTRS:
        if not a:
            return Ptr(None, "smart")
        if isinstance(a[0], Ptr):
            return Ptr(a[0].c, "smart")
        raise Undecided("smart pointer from %r" % (a[0],))
    if sn in TREEPTR:
        if not a:
            return Ptr(None, "tree")
        if isinstance(a[0], Ptr):
            return Ptr(a[0].c, "tree")
        raise Undecided("tree pointer from %r" % (a[0],))
    if sn in SEQ and SEQ[sn]:
        kind = SEQ[sn]
        a = [x for x in a if not (isinstance(x, Nat) and x.name == "allocator")]
        ts = targs_of(t)
        if kind == "array":
            if not a:
                return Vec([Cell(I.default_value(ts[0])) for _ in range(int(re.sub(r"\D", "", ts[1])))], kind)
            v = a[0]
            return Vec([Cell(coerce(I, ts[0], c)) for c in (v.items if isinstance(v, Arr) else args)], kind)
        if not a:
            return Vec([], kind)
        if isinstance(a[0], Arr):
            return Vec([Cell(coerce(I, ts[0], c)) for c in a[0].items], kind)
        if isinstance(a[0], Vec):
            return Vec([Cell(I.copy(c)) for c in a[0].items], kind)
        if len(a) >= 2 and isinstance(a[0], It):
            return Vec([Cell(coerce(I, ts[0], I.copy(c))) for c in it_range(I, a[0], a[1])], kind)
        if (e or {}).get("k") == "ilist":
            return Vec([Cell(coerce(I, ts[0], x)) for x in args], kind)
        if isinstance(a[0], (int, Fn)):
            n = index(I, a[0])
            if n > 100000:
                raise Undecided("container of %d elements" % n)
            if len(a) > 1:
                return Vec([Cell(I.copy(args[1])) for _ in range(n)], kind)
            return Vec([Cell(I.zero(ts[0])) for _ in range(n)], kind)
        if isinstance(a[0], Nat) and a[0].name in ("view", "pick", "reverse"):
            return Vec([Cell(coerce(I, ts[0], c)) for c in iterate(I, args[0])], kind)
        if isinstance(a[0], Ptr) and kind == "any":
            return Vec([Cell(x) for x in args], kind)
        raise Undecided("%s from %r" % (sn, a[0]))
    if sn in MAPS:
        m = MapV(MAPS[sn])
        a = [x for x in a if not (isinstance(x, Nat) and x.name in ("allocator", "functor"))]
        if a and isinstance(a[0], MapV):
            return I.copy(args[0])
        if a and isinstance(a[0], It):
            for c in it_range(I, a[0], a[1]):
                map_insert(I, m, t, I.copy(c), False)
            return m
        if a and isinstance(a[0], Arr):
            for c in a[0].items:
                map_insert(I, m, t, c.v, False)
            return m
        if a and isinstance(a[0], Vec):
            for c in a[0].items:
                map_insert(I, m, t, c.v, False)
            return m
        return m
    if sn in ("std::basic_ostringstream", "std::basic_stringstream", "std::basic_istringstream"):
        s = Stream()
        if a and is_stringish(a[0]):
            s.buf = to_string(I, a[0])
        return s
    if sn in ("std::basic_ifstream", "std::ifstream"):
        s = Stream("ifstream")
        if a:
            open_file(I, s, args[0])
        return s
    if sn == "std::function":
        if not a:
            return Ptr(None)
        return a[0]
    if sn == "std::complex":
        return Tup([Cell(I.to_float(a[0]) if a else 0.0), Cell(I.to_float(a[1]) if len(a) > 1 else 0.0)])
    if sn in ("std::strong_ordering", "std::weak_ordering", "std::partial_ordering") or sn.startswith("std::__cmp_cat"):
        return a[0] if a else Nat("ordering", sign=0)
    if sn in ("std::less", "std::greater", "std::equal_to", "std::not_equal_to", "std::hash", "std::less_equal", "std::greater_equal",
              "std::plus", "std::minus", "std::multiplies", "std::divides", "std::modulus", "std::negate", "std::logical_and",
              "std::logical_or", "std::logical_not", "std::bit_and", "std::bit_or", "std::bit_xor", "std::bit_not", "ranges::identity",
              "std::identity", "ranges::equal_to", "ranges::less", "std::ranges::less", "std::ranges::equal_to") or \
            sn.split("::")[-1] in FUNCTORS and re.match(r"(std::)?(ranges::)?\w+$", sn) or sn in ("ranges::negate", "ranges::logical_not"):
        return Nat("functor", op=sn.split("::")[-1])
    if sn in ("std::_Rb_tree_const_iterator", "std::_Rb_tree_iterator", "std::__detail::_Node_const_iterator",
              "__gnu_cxx::__normal_iterator", "std::reverse_iterator", "std::_List_iterator", "std::_List_const_iterator",
              "std::__detail::_Node_iterator"):
        if not a:
            return It(Vec(), 0)
        if sn == "std::reverse_iterator" and isinstance(a[0], It) and not a[0].rev:
            return It(a[0].seq, a[0].pos - 1, True)
        return a[0]
    if sn == "std::filesystem::path" or sn.endswith("filesystem::path"):
        return to_string(I, a[0]) if a else Str()
    if sn in ("std::basic_regex",):
        return Nat("regex", s=to_string(I, a[0]))
    if sn in ("std::match_results",):
        return Nat("match", groups=[])
    if sn in ("ranges::detail::to_container",):
        return Nat("allocator")
    if t in trees(I).cls:
        return make_node(I, t, args)
    if sn in ("fmt::basic_ostream_formatter", "fmt::ostream_formatter", "antlr4::BaseErrorListener", "tree::base::Base",
              "tree::annotatable::Annotatable"):
        return Obj(t)
    if t in INT or t in FLT or t.endswith("*"):
        return a[0] if a else I.zero(t)
    if sn == "fmt::ostream_formatter":
        return Obj(t)
    r = I.prog.records.get(t)
    if r is not None and not r.get("ext"):
        return construct_by_args(I, t, args)
    if sn == "std::lock_guard" or sn == "std::mutex" or sn == "std::scoped_lock":
        return Nat("lock")
    if sn.startswith("antlr4::") or sn.startswith("cqasm::v3x::parser::Cqasm"):
        o = Obj(t)
        o.f["$args"] = Cell(Vec([Cell(x) for x in a]))
        return o
    x = models_std.construct(I, t, sn, args, a)
    if x is not None:
        return x
    if sn == "std::monostate" or sn.startswith("lambda@") or sn.startswith("std::in_place"):
        return Nat(sn.split("::")[-1].replace("_t", ""))
    raise Undecided("construction of %s" % t)


def make_exc(cls, msg):
    o = Obj(cls)
    o.f["$what"] = Cell(Str.lit(msg) if isinstance(msg, str) else msg)
    return o


def value_fits(I, t, v):
    """Conversion rank of a value to a parameter type: 0 exact, larger worse, None impossible."""
    bt = base_type(t)
    sn = strip(bt)
    x = I.rv(v)
    if isinstance(x, bool):
        return 0 if bt == "bool" else 1 if bt in INT or bt in FLT else None
    if isinstance(x, int) or isinstance(x, Op) and x.t not in FLT:
        return 0 if bt in INT and bt != "bool" else 1 if bt in INT or bt in FLT else 2 if bt in I.prog.enums else None
    if isinstance(x, float) or isinstance(x, Op):
        return 0 if bt in FLT else 1 if bt in INT else None
    if isinstance(x, Fn):
        f = x.arr.flat[0]
        return value_fits(I, t, f)
    if isinstance(x, Str):
        if sn in ("std::string",):
            return 0
        if sn in ("std::basic_string_view", "fmt::basic_string_view"):
            return 1
        if sn == "std::optional" and targs_of(bt)[:1] == ["std::string"]:
            return 2
        if sn.endswith("path"):
            return 3
        r = I.prog.records.get(bt)
        if r and not r.get("ext") and any(m["n"] == bt.split("::")[-1] and "(const std::string &)" in m["key"] for m in r.get("methods", ())):
            return 3
        return None
    if isinstance(x, CStr):
        if bt.endswith("char *"):
            return 0
        if bt == "bool":
            return 3
        return 1 if sn in ("std::string", "std::basic_string_view", "fmt::basic_string_view") else 2 if sn == "std::optional" and \
            targs_of(bt)[:1] == ["std::string"] else None
    if isinstance(x, Ptr):
        if bt.endswith("*") or sn in PTRS or sn in TREEPTR:
            if x.c is not None and isinstance(x.c.v, Obj):
                tgt = base_type(bt[:-1]) if bt.endswith("*") else base_type((targs_of(bt) or [""])[0])
                if tgt and not obj_is_a(I, x.c.v.cls, tgt):
                    return None
            return 0
        if bt == "bool":
            return 3
        if sn == "std::optional" or sn == "std::function":
            return 2
        return None
    if isinstance(x, Obj):
        if bt == x.cls:
            return 0
        if sn == "std::function":
            return 2
        return 1 if obj_is_a(I, x.cls, bt) else None
    if isinstance(x, Vec):
        return 0 if sn in SEQ or sn == "std::initializer_list" else None
    if isinstance(x, MapV):
        return 0 if sn in MAPS else None
    if isinstance(x, OptV):
        return 0 if sn == "std::optional" else None
    if isinstance(x, Nat) and x.name == "nullopt":
        return 0 if sn in ("std::optional", "std::nullopt_t") else None
    if isinstance(x, Tup):
        return 0 if sn in ("std::pair", "std::tuple", "std::complex") else None
    if isinstance(x, AnyV):
        return 0 if sn == "std::any" else None
    if isinstance(x, Arr):
        return 0 if sn in SEQ or sn in MAPS or sn == "std::initializer_list" or bt.endswith("*") else None
    return 1


def obj_is_a(I, cls, base):
    r = tree_is_a(I, cls, base)
    if r is not None:
        return r
    return I.is_a(cls, base)


def pick(I, cands, args):
    best, rank = [], None
    for f in cands:
        if len(f["params"]) < len(args):
            continue
        if len(f["params"]) > len(args) and not all(p.get("d") or p.get("init") for p in f["params"][len(args):]):
            if not f.get("$defaults"):
                continue
        rs = [value_fits(I, p["t"], x) for p, x in zip(f["params"], args)]
        if any(r is None for r in rs):
            continue
        k = sum(rs)
        if rank is None or k < rank:
            best, rank = [f], k
        elif k == rank:
            best.append(f)
    return best


def ctors(I, cls):
    r = I.prog.records.get(cls)
    out = []
    for m in r.get("methods", ()):
        f = I.prog.functions.get(m["key"])
        if f and "inits" in f:
            out.append(f)
    return out


def construct_by_args(I, cls, args):
    cls = base_type(cls)
    if cls in trees(I).cls:
        return make_node(I, cls, args)
    r = I.prog.records.get(cls)
    if r is None or r.get("ext"):
        return construct(I, cls, args, None)
    if len(args) == 1 and isinstance(I.rv(args[0]), Obj) and I.rv(args[0]).cls == cls:
        return I.copy(args[0])
    if len(args) == 1 and isinstance(I.rv(args[0]), Obj) and I.is_a(I.rv(args[0]).cls, cls):
        o = Obj(cls)  # slicing: the fields of the base
        full = I.copy(args[0])
        for fd in I.all_fields(cls):
            if fd["n"] in full.f:
                o.f[fd["n"]] = full.f[fd["n"]]
        return o
    cs = [f for f in ctors(I, cls) if not f.get("dflt")]
    best = pick(I, cs, args)
    if not args and not best:
        o = Obj(cls)
        I.default_fields(o, cls, None)
        return o
    if len(best) > 1:
        seen = {}
        for f in best:
            seen[tuple(p["t"] for p in f["params"])] = f
        # prefer an lvalue-reference parameter for lvalues
        best = [f for k, f in seen.items()]
        lv = [f for f in best if all(("&&" in p["t"]) != isinstance(a, Cell) or not is_ref(p["t"]) for p, a in zip(f["params"], args))]
        best = lv[:1] or best[:1]
    if not best:
        fields = r.get("fields", [])
        if not cs and len(args) <= len(fields):
            o = Obj(cls)
            for fd, x in zip(fields, args):
                o.f[fd["n"]] = Cell(coerce(I, fd["t"], I.copy(x) if isinstance(x, Cell) else x))
            for fd in fields[len(args):]:
                o.f[fd["n"]] = Cell(I.default_value(fd["t"]))
            return o
        raise Undecided("no constructor of %s for %d arguments" % (cls, len(args)))
    f = best[0]
    conv = []
    for p, x in zip(f["params"], args):
        bt = base_type(p["t"])
        if isinstance(I.rv(x), (CStr, Str)) and strip(bt) in ("std::string", "std::optional"):
            conv.append(Cell(coerce(I, bt, x)) if not (isinstance(x, Cell) and isinstance(x.v, Str) and strip(bt) == "std::string") else x)
        elif bt in INT or bt in FLT:
            conv.append(Cell(coerce(I, bt, x)))
        elif strip(bt) == "std::optional" and not isinstance(I.rv(x), OptV):
            conv.append(Cell(coerce(I, bt, x)))
        elif isinstance(I.rv(x), (CStr, Str)) and bt in I.prog.records and not I.prog.records[bt].get("ext"):
            conv.append(Cell(construct_by_args(I, bt, [x])))
        else:
            conv.append(x)
    return I.construct_ctor(f, cls, conv)


# ------------------------------------------------------------------------------------------------------------- maps
def map_types(t):
    ts = targs_of(t)
    return (ts + ["?", "?"])[:2]


def map_find(I, m, key):
    for i, (k, c) in enumerate(m.items):
        if I.truth(eq(I, k, key)):
            return i
    return None


def norm_key(I, k):
    k = I.rv(k)
    if isinstance(k, CStr):
        return to_string(I, k)
    return I.copy(k)


def map_insert(I, m, t, kv, overwrite):
    """Inserts a pair (or a key for sets); returns (index, inserted)."""
    kt, vt = map_types(t)
    if m.kind in ("set", "unordered_set"):
        k, c = norm_key(I, kv), Cell(None)
    else:
        kv = I.rv(kv)
        if not isinstance(kv, Tup):
            raise Undecided("map insertion of %r" % (kv,))
        k, c = norm_key(I, kv.items[0]), Cell(coerce(I, vt, I.copy(kv.items[1])) if vt != "?" else I.copy(kv.items[1]))
    if m.kind != "multimap":
        i = map_find(I, m, k)
        if i is not None:
            if overwrite:
                m.items[i][1].v = c.v
            return i, False
    i = len(m.items)
    if m.kind in ("map", "set", "multimap"):
        i = 0
        while i < len(m.items) and spaceship(I, m.items[i][0], k) <= 0:
            i += 1
    m.items.insert(i, (k, c))
    return i, True


def map_method(I, cell, name, args, e):
    m = I.rv(cell)
    a = [I.rv(x) for x in args]
    t = base_type(e.get("cls", "")) if e else ""
    if name in ("find", "count", "contains", "at", "operator[]", "equal_range"):
        if name == "equal_range" and m.kind == "multimap":
            lo = None
            hi = 0
            for i, (k, c) in enumerate(m.items):
                if I.truth(eq(I, k, args[0])):
                    lo = i if lo is None else lo
                    hi = i + 1
            if lo is None:
                lo = hi = len(m.items)
            return Tup([It(cell, lo), It(cell, hi)])
        if name == "count" and m.kind == "multimap":
            return sum(1 for k, _ in m.items if I.truth(eq(I, k, args[0])))
        i = map_find(I, m, args[0])
        if name == "find":
            return It(cell, i if i is not None else len(m.items))
        if name == "count":
            return 0 if i is None else 1
        if name == "contains":
            return i is not None
        if name == "at":
            if i is None:
                throw(I, "std::out_of_range", "map::at")
            return m.items[i][1]
        if i is None:
            kt, vt = map_types(t)
            i, _ = map_insert(I, m, t, Tup([args[0] if not isinstance(args[0], Cell) else I.copy(args[0]), I.zero(vt)]), False)
        return m.items[i][1]
    if name in ("begin", "cbegin"):
        return It(cell, 0)
    if name in ("end", "cend"):
        return It(cell, len(m.items))
    if name in ("rbegin", "crbegin"):
        return It(cell, len(m.items) - 1, True)
    if name in ("rend", "crend"):
        return It(cell, -1, True)
    if name == "size":
        return len(m.items)
    if name == "empty":
        return not m.items
    if name == "clear":
        m.items.clear()
        return VOID
    if name in ("insert", "emplace", "try_emplace", "insert_or_assign"):
        if name == "insert" and len(a) == 2 and isinstance(a[0], It):
            for c in it_range(I, a[0], a[1]):
                map_insert(I, m, t, I.copy(c), False)
            return VOID
        if name == "try_emplace" and len(args) == 1:
            kv = Tup([Cell(I.copy(args[0]) if isinstance(args[0], Cell) else args[0]), Cell(I.zero(map_types(t)[1]))])
        elif len(args) > 2:
            raise Undecided("%s::%s of %d arguments" % (m.kind, name, len(args)))
        else:
            kv = args[0] if len(args) == 1 else Tup([Cell(I.copy(x) if isinstance(x, Cell) else x) for x in args])
        if isinstance(I.rv(kv), Arr) and name == "insert":
            for c in I.rv(kv).items:
                map_insert(I, m, t, c.v, False)
            return VOID
        i, new = map_insert(I, m, t, I.copy(kv) if isinstance(kv, Cell) else kv, name == "insert_or_assign")
        if m.kind == "multimap":
            return It(cell, i)
        return Tup([It(cell, i), new])
    if name == "erase":
        if isinstance(a[0], It):
            del m.items[a[0].pos]
            return It(cell, a[0].pos)
        n = len(m.items)
        keep = [(k, c) for k, c in m.items if not I.truth(eq(I, k, args[0]))]
        m.items[:] = keep
        return n - len(keep)
    if name in ("lower_bound", "upper_bound"):
        i = 0
        while i < len(m.items):
            s = spaceship(I, m.items[i][0], args[0])
            if s > 0 or (s == 0 and name == "lower_bound"):
                break
            i += 1
        return It(cell, i)
    if name == "operator=":
        cell.v = I.copy(args[0])
        return cell
    if name == "reserve":
        return VOID
    if name == "swap":
        cell.v, args[0].v = args[0].v, cell.v
        return VOID
    raise Undecided("%s::%s" % (m.kind, name))


# ---------------------------------------------------------------------------------------------------------- vectors
def vec_method(I, cell, name, args, e):
    v = I.rv(cell)
    a = [I.rv(x) for x in args]
    t = (e or {}).get("cls") or ""
    ts = targs_of(t)
    if v.kind == "any" and ts:
        et = "tree::base::One<%s>" % ts[0]
    else:
        et = ts[0] if ts else None
    n = len(v.items)
    if name == "size":
        return n
    if name == "empty":
        return n == 0
    if name == "length":
        return n
    if name in ("operator[]", "at"):
        i = index(I, a[0])
        if not 0 <= i < n:
            if name == "at" or v.kind == "any":
                throw(I, "tree::base::OutOfRange" if v.kind == "any" else "std::out_of_range", "index %d out of range" % i)
            raise UB("index %d out of bounds (size %d)" % (i, n), I.where())
        return v.items[i]
    if name in ("front", "back"):
        if not n:
            if v.kind == "any":
                throw(I, "tree::base::OutOfRange", "index out of range")
            raise UB("%s() of an empty container" % name, I.where())
        return v.items[0 if name == "front" else -1]
    if name in ("begin", "cbegin"):
        return It(cell, 0)
    if name in ("end", "cend"):
        return It(cell, n)
    if name in ("rbegin", "crbegin"):
        return It(cell, n - 1, True)
    if name in ("rend", "crend"):
        return It(cell, -1, True)
    if name in ("push_back", "push_front"):
        x = I.copy(args[0]) if isinstance(args[0], Cell) else args[0]
        c = Cell(coerce(I, et, x) if et else x)
        v.items.insert(n if name == "push_back" else 0, c)
        return VOID
    if name in ("emplace_back", "emplace_front", "emplace"):
        if v.kind == "any" and name == "emplace":
            raise Undecided("Any::emplace")
        pos = n if name == "emplace_back" else 0
        if name == "emplace":
            pos, args = a[0].pos, args[1:]
        c = Cell(construct_elem(I, et, args))
        v.items.insert(pos, c)
        return c if name != "emplace" else It(cell, pos)
    if name in ("pop_back", "pop_front"):
        if not n:
            raise UB("%s() of an empty container" % name, I.where())
        v.items.pop(-1 if name == "pop_back" else 0)
        return VOID
    if name == "clear" or name == "reset":
        v.items.clear()
        return VOID
    if name == "reserve":
        n = I.rv(args[0])
        if isinstance(n, int) and (n < 0 or n > 2 ** 64 - 2 ** 62):                # a negative number of elements: far beyond max_size()
            throw(I, "std::length_error", "vector::reserve")
        return VOID
    if name == "shrink_to_fit":
        return VOID
    if name == "resize":
        k = index(I, a[0])
        if k > 100000:
            raise Undecided("resize to %d" % k)
        del v.items[k:]
        while len(v.items) < k:
            v.items.append(Cell(I.copy(args[1]) if len(args) > 1 else I.zero(et)))
        return VOID
    if name == "add" and v.kind == "any":
        p = a[0]
        if isinstance(p, Ptr) and p.c is None:
            return cell
        pos = index(I, a[1]) if len(a) > 1 else -1
        if pos < 0 or pos >= n:
            pos = n
        v.items.insert(pos, Cell(Ptr(p.c, "tree")))
        return cell
    if name == "extend" and v.kind == "any":
        for c in list(a[0].items):
            if I.rv(c).c is not None:
                v.items.append(Cell(Ptr(I.rv(c).c, "tree")))
        return cell
    if name == "get_vec":
        return cell
    if name in ("clone", "copy") and v.kind == "any":
        return clone(I, v) if name == "clone" else I.copy(v)
    if name in ("equals",):
        return equals(I, cell, args[0])
    if name == "operator=":
        x = a[0]
        if isinstance(x, Arr):
            x = Vec([Cell(coerce(I, et, c)) for c in x.items], v.kind)
            cell.v = x
        elif isinstance(x, Vec):
            cell.v = Vec(I.copy(args[0]).items, v.kind) if isinstance(args[0], Cell) else x
        else:
            raise Undecided("assignment to a sequence")
        return cell
    if name == "assign":
        if isinstance(a[0], It):
            cell.v = Vec([Cell(I.copy(c)) for c in it_range(I, a[0], a[1])], v.kind)
        else:
            cell.v = Vec([Cell(I.copy(args[1])) for _ in range(index(I, a[0]))], v.kind)
        return VOID
    if name == "insert":
        pos = a[0].pos
        if len(a) == 3 and isinstance(a[1], It):
            new = [Cell(I.copy(c)) for c in it_range(I, a[1], a[2])]
        elif len(a) == 3:
            new = [Cell(I.copy(args[2])) for _ in range(index(I, a[1]))]
        elif isinstance(a[1], Arr):
            new = [Cell(coerce(I, et, c)) for c in a[1].items]
        else:
            new = [Cell(coerce(I, et, I.copy(args[1]) if isinstance(args[1], Cell) else args[1]))]
        v.items[pos:pos] = new
        return It(cell, pos)
    if name == "erase":
        if len(a) == 2:
            del v.items[a[0].pos:a[1].pos]
        else:
            if not 0 <= a[0].pos < n:
                raise UB("erase past the end", I.where())
            del v.items[a[0].pos]
        return It(cell, a[0].pos)
    if name == "swap":
        cell.v, args[0].v = args[0].v, cell.v
        return VOID
    if name == "data":
        return Arr(v.items)
    if name == "remove":
        i = index(I, a[0]) if a else -1
        if n:
            v.items.pop(i if 0 <= i < n else -1)
        return cell
    raise Undecided("sequence method %s" % name)


def construct_elem(I, et, args):
    if et is None:
        if len(args) == 1:
            return I.copy(args[0]) if isinstance(args[0], Cell) else args[0]
        raise Undecided("element type")
    sn = strip(base_type(et))
    if sn in TREEPTR or sn in PTRS or sn in ("std::string", "std::pair", "std::tuple", "std::any", "std::optional") or base_type(et) in INT \
            or base_type(et) in FLT or sn in SEQ or sn in MAPS:
        if len(args) == 1:
            return coerce(I, et, I.copy(args[0]) if isinstance(args[0], Cell) else args[0])
        return construct(I, et, args, None)
    return construct_by_args(I, et, args)


# ------------------------------------------------------------------------------------------------------- formatting
def fmt_int(x, spec, t):
    """Formatting of an integer value under a replacement-field specification."""
    m = re.fullmatch(r"(?:(.)?([<>^]))?([-+ ]?)(#?)(0?)(\d*)([bBdoxXc]?)", spec)
    if not m:
        raise Undecided("format specification %r" % spec)
    fill, al, sg, alt, zero, width, ty = m.groups()
    x = int(x)
    if ty == "c":
        return bytes([x & 255])
    body = {"": "%d", "d": "%d", "x": "%x", "X": "%X", "o": "%o"}.get(ty)
    if body is None:
        s = bin(abs(x))[2:]
        pre = "0" + ty
    else:
        s = body % abs(x)
        pre = {"x": "0x", "X": "0X", "o": "0"}.get(ty, "")
    head = ("-" if x < 0 else sg if sg in "+ " and sg else "") + (pre if alt else "")
    w = int(width or 0)
    if zero and not al:
        s = s.rjust(max(0, w - len(head)), "0")
        return (head + s).encode()
    s = head + s
    fill = fill or " "
    if al == "<":
        s = s.ljust(w, fill)
    elif al == "^":
        s = s.center(w, fill)
    else:
        s = s.rjust(w, fill)
    return s.encode()


def float_shortest(x):
    """fmt's '{}' for doubles."""
    if math.isnan(x):
        return b"nan" if math.copysign(1, x) > 0 else b"-nan"
    if math.isinf(x):
        return b"inf" if x > 0 else b"-inf"
    r = repr(x)
    if r.endswith(".0"):
        r = r[:-2]
    return r.encode()


def float_ostream(x):
    if math.isnan(x):
        return b"nan" if math.copysign(1, x) > 0 else b"-nan"
    if math.isinf(x):
        return b"inf" if x > 0 else b"-inf"
    return ("%g" % x).encode()


def piece(v):
    """String made of a rendering."""
    return norm((v,))


def render(I, v, t, spec="", fmtlib=True):
    """Text of a value, as {fmt} ('{}') or as an ostream insertion prints it."""
    x = I.rv(v)
    bt = base_type(t) if t else ""
    sn = strip(bt)
    if isinstance(x, Uninit):
        raise UB("output of an uninitialised %s" % x.t, I.where())
    if isinstance(x, Stream):
        raise Undecided("output of a stream")
    if is_stringish(x):
        s = to_string(I, x)
        if spec == "?":
            return models_std.debug_text(I, s)
        if spec:
            m = re.fullmatch(r"(?:(.)?([<>^]))?(\d*)(?:\.(\d+))?s?", spec)
            if not m:
                raise Undecided("string format %r" % spec)
            fill, al, w, pr = m.groups()
            c = s.concrete()
            if pr is not None:
                s = need_fixed(I, s)
                s = Str(s.p[:int(pr)])
            if w:
                s = need_fixed(I, s)
                pad = max(0, int(w) - len(s.p))
                f = (ord(fill or " "),)
                s = Str(f * pad + s.p) if al == ">" else Str(f * (pad // 2) + s.p + f * (pad - pad // 2)) if al == "^" else Str(s.p + f * pad)
        return s
    if isinstance(x, Nat) and x.name == "join":
        out = []
        first = True
        for c in iterate(I, x.base):
            if not first:
                out.extend(x.sep.p)
            first = False
            out.extend(render(I, c, elem_type(I, c, x.t) or seq_elem(x.t), spec, True).p)
        return norm(tuple(out))
    if isinstance(x, (Ptr, Vec)) and not (isinstance(x, Ptr) and x.kind == "raw"):
        h = printer_of(I, x, bt)
        if h:
            st = Cell(Stream())
            I.call_fn(h, [st, v if isinstance(v, Cell) else Cell(v)])
            return st.v.buf
    if bt in ("char", "signed char", "unsigned char") and spec in ("", "c") and (bt == "char" or not fmtlib):
        return Str((byte(x),))
    if isinstance(x, (bool, np.bool_)) or bt == "bool":
        if fmtlib and not spec:
            if isinstance(x, Op):
                return Str((Atom(("bool", x.key), True),))
            return piece(lift(lambda q: b"true" if q else b"false", x))
        x = lift(int, x) if not isinstance(x, Op) else x
    if isinstance(x, Op):
        return Str((Atom(("show", x.key, spec, fmtlib), True),))
    if isinstance(x, (int, float, Fn)):
        f0 = x.arr.flat[0] if isinstance(x, Fn) else x
        if isinstance(f0, float) or bt in FLT:
            if bt == "float" and not spec:
                raise Undecided("printing of a single-precision number")
            if spec:
                return piece(lift(lambda q: models_std.float_format(float(q), spec), x))
            return piece(lift(lambda q: (float_shortest if fmtlib else float_ostream)(float(q)), x))
        return piece(lift(lambda q: fmt_int(q, spec, bt), x))
    if isinstance(x, Obj):
        h = [f for f in I.prog.functions.values()
             if f["n"].split("::")[-1].startswith("operator<<") and len(f["params"]) == 2 and not f.get("cls")
             and obj_is_a(I, x.cls, base_type(f["params"][1]["t"]))]
        if len(h) > 1:
            h = [f for f in h if base_type(f["params"][1]["t"]) == x.cls] or h
        if h:
            st = Cell(Stream())
            I.call_fn(h[0], [st, v if isinstance(v, Cell) else Cell(v)])
            return st.v.buf
        if node_kind(I, x):
            return node_text(I, x)
        raise Undecided("output of a %s" % x.cls)
    if isinstance(x, (Vec, Arr)) and fmtlib:
        out = [91]
        for i, c in enumerate(x.items):
            if i:
                out += [44, 32]
            out += list(render(I, c, elem_type(I, c, t), "", True).p)
        return norm(tuple(out + [93]))
    if isinstance(x, Vec) and x.kind == "any":
        return Str((Atom(("tree-any", id(x)), True),))
    if isinstance(x, Ptr) and sn in TREEPTR:
        return Str((Atom(("tree-one", id(x.c)), True),))
    if isinstance(x, Tup) and sn in ("std::complex",):
        return Str((Atom(("complex", id(x)), True),))
    raise Undecided("output of %r" % (x,))


def seq_elem(t):
    if not t:
        return None
    bt = base_type(t)
    sn, ta = strip(bt), targs_of(bt)
    if sn in ("tree::base::Any", "tree::base::Many") and ta:
        return "tree::base::One<%s>" % ta[0]
    if sn in SEQ and ta:
        return ta[0]
    return None


def printer_of(I, x, bt):
    """The stream operator the program defines for a tree edge (or another library container) of this type."""
    hs = [f for f in I.prog.functions.values() if f["sn"].split("::")[-1] == "operator<<" and len(f["params"]) == 2 and not f.get("cls")]
    ex = [f for f in hs if base_type(f["params"][1]["t"]) == bt]
    if ex:
        return ex[0]

    def fits(o, f, cont):
        p = base_type(f["params"][1]["t"])
        if strip(p) not in cont:
            return False
        T = (targs_of(p) or [""])[0]
        o = I.rv(o)
        o = I.rv(o.c) if isinstance(o, Ptr) and o.c is not None else o
        return isinstance(o, Obj) and obj_is_a(I, o.cls, T)
    if isinstance(x, Ptr) and x.c is not None:
        c = [f for f in hs if fits(x, f, TREEPTR)]
        return c[0] if len(c) == 1 else None
    if isinstance(x, Vec) and x.kind in ("any", "many") and x.items:
        c = [f for f in hs if all(fits(i, f, ("tree::base::Any", "tree::base::Many")) for i in x.items)]
        return c[0] if len(c) == 1 else None
    return None


def node_text(I, o):
    """Printed form of a tree node: a name for it (the dump itself is generated code)."""
    key = getattr(o, "label", None)
    if key is None:
        key = ("node", o.cls.split("::")[-1], id(o))
    I.world.keep = getattr(I.world, "keep", []) + [o]
    return Str((Atom(("text", key), True),))


def elem_type(I, c, t):
    v = I.rv(c)
    if isinstance(v, (bool, np.bool_)):
        return "bool"
    if isinstance(v, int):
        return "char" if t == "char" else "long"
    if isinstance(v, Fn) and isinstance(v.arr.flat[0], int) and t == "char":
        return "char"
    return None


def format_string(I, fmt, args, types):
    f = fmt.concrete()
    if f is None:
        raise Undecided("format string is not a literal")
    out = []
    i, auto = 0, 0
    n = len(f)
    while i < n:
        c = f[i]
        if c == 0x7B:
            if i + 1 < n and f[i + 1] == 0x7B:
                out.append(c)
                i += 2
                continue
            j, depth = i + 1, 1
            while j < n:
                depth += (f[j] == 0x7B) - (f[j] == 0x7D)
                if not depth:
                    break
                j += 1
            field = f[i + 1:j].decode()
            ident, _, spec = field.partition(":")
            if ident == "":
                k = auto
                auto += 1
            elif ident.isdigit():
                k = int(ident)
            else:
                raise Undecided("named format field")
            while "{" in spec:
                m = re.search(r"\{(\d*)\}", spec)
                if m.group(1):
                    q = int(m.group(1))
                else:
                    q, auto = auto, auto + 1
                spec = spec[:m.start()] + str(index(I, args[q])) + spec[m.end():]
            if k >= len(args):
                raise UB("format string refers to argument %d of %d" % (k, len(args)), I.where())
            out.extend(render(I, args[k], types[k] if k < len(types) else None, spec, True).p)
            i = j + 1
            continue
        if c == 0x7D and i + 1 < n and f[i + 1] == 0x7D:
            out.append(c)
            i += 2
            continue
        out.append(c)
        i += 1
    return norm(tuple(out))


def stream_put(I, st, v, t):
    s = I.rv(st)
    if isinstance(s, Obj) and "stream" in s.f:
        s = I.rv(s.f["stream"])
    if not isinstance(s, Stream):
        raise Undecided("output to %r" % (s,))
    x = I.rv(v)
    if isinstance(x, Ptr) and isinstance(x.c, Cell) and isinstance(x.c.v, Nat):
        x = x.c.v
    if isinstance(x, Nat) and x.name == "manip":
        x.fn(I, s)
        return st
    if isinstance(x, Nat) and x.name == "streambuf":
        r = rest_of(I, x.s)
        if not r.p:
            s.flags["fail"] = True
        s.buf = norm(s.buf.p + r.p)
        return st
    if isinstance(x, Nat) and x.name == "submatch":
        x = v = x.s
    if isinstance(x, FnRef):
        nm = strip(x.info["n"]).split("::")[-1]
        m = {"endl": lambda: setattr(s, "buf", Str(s.buf.p + (10,))), "flush": lambda: None, "ends": lambda: setattr(s, "buf", Str(s.buf.p + (0,))),
             "hex": lambda: s.flags.__setitem__("base", "x"), "dec": lambda: s.flags.__setitem__("base", "d"),
             "oct": lambda: s.flags.__setitem__("base", "o"),
             "uppercase": lambda: s.flags.__setitem__("upper", True), "nouppercase": lambda: s.flags.__setitem__("upper", False),
             "boolalpha": lambda: s.flags.__setitem__("alpha", True), "noboolalpha": lambda: s.flags.__setitem__("alpha", False),
             "left": lambda: s.flags.__setitem__("left", True), "right": lambda: s.flags.__setitem__("left", False)}.get(nm)
        if m is None:
            raise Undecided("stream manipulator %s" % nm)
        m()
        return st
    fl = s.flags
    bt = base_type(t or "")
    if fl.get("alpha") and (isinstance(x, bool) or bt == "bool"):
        txt = piece(lift(lambda q: b"true" if q else b"false", x))
    elif fl.get("base", "d") != "d" and bt not in ("char", "signed char", "unsigned char") and isinstance(x, (int, Fn)) and not is_stringish(x):
        ty = fl["base"].upper() if fl.get("upper") else fl["base"]
        bits = INT.get(bt, (64, False))[0]
        txt = piece(lift(lambda q: fmt_int(int(q) & ((1 << bits) - 1), ty, bt), x))
    else:
        txt = render(I, v, t, "", False)
    w = fl.pop("width", 0)
    if w:
        n = strlen(I, txt)
        txt2 = need_fixed(I, txt)
        pad = (fl.get("fill", 32),) * max(0, w - len(txt2.p))
        txt = Str(txt2.p + pad) if fl.get("left") else Str(pad + txt2.p)
    s.buf = norm(s.buf.p + txt.p)
    return st


def stream_method(I, cell, name, args, e):
    s = I.rv(cell)
    if name == "operator<<":
        t = e["key"].rsplit("(", 1)[-1].rstrip(") ") if e else None
        if args and isinstance(I.rv(args[0]), FnRef):
            return stream_put(I, cell, args[0], None)
        m = re.search(r"operator<<.*? &?\((.*)\)", e["key"]) if e else None
        return stream_put(I, cell, args[0], t)
    if name == "str":
        if args:
            s.buf = to_string(I, args[0])
            return VOID
        return s.buf
    if name == "put":
        s.buf = Str(s.buf.p + (byte(I.rv(args[0])),))
        return cell
    if name == "write":
        s.buf = norm(s.buf.p + substr(I, I.rv(args[0]).s, I.rv(args[0]).pos, args[1]).p)
        return cell
    if name in ("flush",):
        return cell
    if name in ("clear",):
        s.flags.pop("fail", None)
        s.flags.pop("eof", None)
        return VOID
    if name in ("fill",):
        s.flags["fill"] = byte(I.rv(args[0]))
        return 32
    if name in ("width",):
        s.flags["width"] = index(I, args[0])
        return 0
    if name in ("good", "operator bool"):
        return not s.flags.get("fail") and not (name == "good" and s.flags.get("eof"))
    if name in ("fail", "operator!"):
        return bool(s.flags.get("fail"))
    if name in ("bad", "eof"):
        return name == "eof" and bool(s.flags.get("eof"))
    if name in ("get", "peek", "operator>>", "ignore", "unget"):
        return models_std.stream_read(I, cell, s, name, args, e)
    if name == "view":
        return s.buf
    if name == "rdbuf" and not args:
        return Nat("streambuf", s=s)
    if name in ("is_open", "open", "close") and s.kind == "ifstream":
        if name == "is_open":
            return bool(getattr(s, "opened", False))
        if name == "open":
            open_file(I, s, args[0])
        else:
            s.opened = False
        return VOID
    if name == "exceptions":
        raise Undecided("stream exceptions")
    if name in ("tellp", "tellg"):
        return strlen(I, s.buf) if name == "tellp" else getattr(s, "pos", 0)
    if name == "precision":
        raise Undecided("stream precision")
    if name == "swap":
        cell.v, args[0].v = args[0].v, cell.v
        return VOID
    if name == "operator=":
        n = Stream()
        n.buf = I.rv(args[0]).buf
        cell.v = n
        return cell
    raise Undecided("stream method %s" % name)


# ------------------------------------------------------------------------------------------------------ conversions
def float_to_int(I, v, t):
    lo, hi = (-(1 << 63), (1 << 63) - 1) if t not in INT else (lambda r: r)(__import__("absint").int_range(t))
    bad = lift(lambda x: math.isnan(x) or math.isinf(x) or not lo <= math.trunc(x) <= hi, v)
    if I.truth(bad):
        raise UB("floating-point value out of the range of %s" % t, I.where())
    return lift(lambda x: 0 if math.isnan(x) or math.isinf(x) else math.trunc(x), v)


def dynamic_cast(I, v, t):
    tgt = base_type(base_type(t).rstrip("*").strip() if base_type(t).endswith("*") else t)
    if isinstance(v, Ptr):
        if v.c is None:
            return v
        o = I.rv(v.c)
        if isinstance(o, Obj):
            return v if obj_is_a(I, o.cls, tgt) else Ptr(None)
    if isinstance(v, Obj):
        if obj_is_a(I, v.cls, tgt):
            return v
        throw(I, "std::bad_cast", "std::bad_cast")
    raise Undecided("dynamic_cast of %r" % (v,))


def move_or_copy(I, x, move):
    v = I.rv(x)
    if not move:
        return I.copy(x)
    if isinstance(v, Str):
        x.v = v            # a moved-from string is unspecified; callers that read it again are out of scope
        return v
    if isinstance(v, (Vec, MapV)):
        if isinstance(v, Vec):
            x.v = Vec([], v.kind)
        else:
            x.v = MapV(v.kind)
        return v
    if isinstance(v, Ptr) and v.kind == "smart":
        x.v = Ptr(None, "smart")
        return v
    if isinstance(v, Stream):
        x.v = Stream()
        return v
    return I.copy(x)


def store(I, cell, v):
    cell.v = v if not isinstance(v, Cell) else I.copy(v)


STOI = {"std::stoi": "int", "std::stol": "long", "std::stoll": "long long", "std::stoul": "unsigned long", "std::stoull": "unsigned long long"}


def sto_int(I, obj, args, e):
    name = strip(e["n"])
    t = STOI[name]
    s = to_string(I, args[0])
    base = index(I, args[2]) if len(args) > 2 else 10
    if any(isinstance(x, Atom) for x in s.p):
        if len(s.p) == 1 and s.p[0].key[0] in ("intlit",):
            # text of an integer literal with an unknown value
            over = Op(("overflow", s.p[0].key), "bool")
            if I.truth(over):
                throw(I, "std::out_of_range", name.split("::")[-1])
            return Op(("parsed", s.p[0].key, t), t)
        raise Undecided("%s of opaque text" % name)
    s = need_fixed(I, s)
    i, n = 0, len(s.p)

    def cls(k):
        return s.p[k]
    while i < n and I.truth(char_in(s.p[i], Str.lit(" \t\n\v\f\r"))):
        i += 1
    neg = False
    if i < n and I.truth(char_in(s.p[i], Str.lit("+-"))):
        neg = I.truth(piece_eq(s.p[i], 45))
        i += 1
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"[:base] if base else None
    if base == 0:
        base, digs = 10, "0123456789"
        if i < n and I.truth(piece_eq(s.p[i], 48)):
            base, digs = 8, "01234567"
            if i + 2 < n and I.truth(char_in(s.p[i + 1], Str.lit("xX"))) and I.truth(char_in(s.p[i + 2], Str.lit("0123456789abcdefABCDEF"))):
                base, digs, i = 16, "0123456789abcdef", i + 2
    dset = Str.lit(digs + digs.upper() if base > 10 else digs)
    val, k = 0, 0
    while i < n and I.truth(char_in(s.p[i], dset)):
        d = lift(lambda c: int(chr(c), 36) if 0 <= c < 128 and chr(c) in digs + digs.upper() else 0, s.p[i])
        val = lift(lambda a, b: a * base + b, val, d)
        i += 1
        k += 1
    if not k:
        throw(I, "std::invalid_argument", name.split("::")[-1])
    if neg:
        val = lift(lambda a: -a, val)
    from absint import int_range
    lo, hi = int_range(t)
    if t.startswith("unsigned"):
        if I.truth(lift(lambda a: not -hi <= a <= hi, val)):
            throw(I, "std::out_of_range", name.split("::")[-1])
        val = I.conv_int(val, t)
    elif I.truth(lift(lambda a: not lo <= a <= hi, val)):
        throw(I, "std::out_of_range", name.split("::")[-1])
    if len(args) > 1:
        p = I.rv(args[1])
        if isinstance(p, Ptr) and p.c is not None:
            p.c.v = i
    return val


def sto_float(I, obj, args, e):
    s = to_string(I, args[0])
    c = s.concrete()
    if c is None:
        if len(s.p) == 1 and isinstance(s.p[0], Atom) and s.p[0].key[0] == "fltlit":
            single = strip(e["n"]).endswith("stof")
            if strip(e["n"]).endswith("stold"):    # another range, and rounded twice
                if I.truth(Op(("overflow long double", s.p[0].key), "bool")):
                    throw(I, "std::out_of_range", "stold")
                return Op(("parsed", s.p[0].key, "long double"), "double")
            over = Op(("overflow float" if single else "overflow", s.p[0].key), "bool")
            if I.truth(over):
                throw(I, "std::out_of_range", strip(e["n"]).split("::")[-1])
            return Op(("parsed", s.p[0].key, "float" if single else "double"), "float" if single else "double")
        raise Undecided("stod of opaque text")
    m = re.match(rb"\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?|inf|nan)", c)
    if not m:
        throw(I, "std::invalid_argument", "stod")
    if strip(e["n"]).endswith("stold"):
        return long_double(I, m.group(0))
    x = float(m.group(0))
    if math.isinf(x) and b"inf" not in m.group(0):
        throw(I, "std::out_of_range", "stod")
    if x != 0 and abs(x) < 2.2250738585072014e-308 or (x == 0 and re.search(rb"[1-9]", re.split(rb"[eE]", m.group(0))[0])):
        throw(I, "std::out_of_range", "stod")
    if strip(e["n"]).endswith("stof"):
        x = f32(x)
        if math.isinf(x) and b"inf" not in m.group(0) or x != 0 and abs(x) < 1.17549435e-38 or x == 0 and re.search(rb"[1-9]", re.split(rb"[eE]", m.group(0))[0]):
            throw(I, "std::out_of_range", "stof")
    return x


def long_double(I, text):
    """The double that the long double nearest to a text converts to: it is rounded to 64 bits first, then to 53."""
    if b"inf" in text or b"nan" in text:
        return float(text)
    m = re.match(rb"\s*([-+]?)([\d.]*)(?:[eE]([-+]?\d+))?", text)
    digits, e10 = m.group(2), int(m.group(3) or 0)
    if abs(e10) > 6000:
        x = None if digits.strip(b"0.") else Fraction(0)
    else:
        x = Fraction(digits.decode().rstrip(".") or "0") * Fraction(10) ** e10
    if x is None or x and not Fraction(2) ** -16382 <= x < Fraction(2) ** 16384:
        throw(I, "std::out_of_range", "stold")
    if x:
        k = x.numerator.bit_length() - x.denominator.bit_length()
        k = k if Fraction(2) ** k <= x else k - 1
        ulp = Fraction(2) ** (k - 63)
        x = round(x / ulp) * ulp    # to even in a tie
    try:
        y = float(x)
    except OverflowError:
        y = math.inf
    return -y if m.group(1) == b"-" else y


def ctype(fn, table):
    def f(I, obj, args, e):
        v = I.rv(args[0])
        if isinstance(v, Op):
            raise Undecided("character class of an opaque value")
        bad = lift(lambda c: not -1 <= c <= 255, v)
        if I.truth(bad):
            raise UB("%s called with a value outside unsigned char" % fn, I.where())
        return lift(lambda c: table(c) if -1 <= c <= 255 else 0, v)
    return f


def asc(pred):
    return lambda c: 1 if 0 <= c < 128 and pred(chr(c)) else 0


CT = {
    "tolower": lambda c: c + 32 if 65 <= c <= 90 else c,
    "toupper": lambda c: c - 32 if 97 <= c <= 122 else c,
    "isalnum": asc(str.isalnum), "isalpha": asc(str.isalpha), "isdigit": asc(str.isdigit),
    "islower": asc(lambda c: "a" <= c <= "z"), "isupper": asc(lambda c: "A" <= c <= "Z"),
    "isspace": asc(lambda c: c in " \t\n\v\f\r"), "isxdigit": asc(lambda c: c in "0123456789abcdefABCDEF"),
    "isprint": asc(lambda c: 32 <= ord(c) < 127), "iscntrl": asc(lambda c: ord(c) < 32 or ord(c) == 127),
    "ispunct": asc(lambda c: 32 < ord(c) < 127 and not c.isalnum()), "isgraph": asc(lambda c: 32 < ord(c) < 127),
    "isblank": asc(lambda c: c in " \t"),
}


# ----------------------------------------------------------------------------------------------------- native table
NATIVE = {}


def native(*names):
    def d(fn):
        for n in names:
            NATIVE[n] = (fn, False)
        return fn
    return d


for _n, _t in CT.items():
    for _p in ("", "std::"):
        NATIVE[_p + _n] = (ctype(_n, _t), False)
for _n in STOI:
    NATIVE[_n] = (sto_int, False)
for _n in ("std::stod", "std::stof", "std::stold"):
    NATIVE[_n] = (sto_float, False)


def lookup(sn):
    return NATIVE.get(sn)


@native("__assert_fail", "std::__glibcxx_assert_fail")
def n_assert(I, obj, args, e):
    raise Abort("assertion failed: %s" % (conc_str(args[0])), I.where())


def conc_str(v):
    v = v.v if isinstance(v, Cell) else v
    if isinstance(v, CStr):
        c = v.s.concrete()
        return c.decode("utf-8", "replace") if c is not None else "?"
    return "?"


@native("abort", "std::abort", "std::terminate", "std::exit", "exit", "std::quick_exit", "_exit")
def n_abort(I, obj, args, e):
    raise Abort("the process is terminated by %s" % e["n"], I.where())


@native("std::unreachable", "__builtin_unreachable")
def n_unreach(I, obj, args, e):
    raise UB("unreachable code reached", I.where())


@native("std::move", "std::forward", "std::as_const", "std::launder")
def n_move(I, obj, args, e):
    return args[0]


@native("std::move_if_noexcept")
def n_move2(I, obj, args, e):
    return args[0]


@native("std::addressof")
def n_addr(I, obj, args, e):
    return Ptr(args[0] if isinstance(args[0], Cell) else Cell(args[0]))


@native("std::ref", "std::cref")
def n_refw(I, obj, args, e):
    return args[0]


@native("std::swap", "std::iter_swap", "std::ranges::swap")
def n_swap(I, obj, args, e):
    args[0].v, args[1].v = args[1].v, args[0].v
    return VOID


@native("std::exchange")
def n_exchange(I, obj, args, e):
    old = args[0].v
    args[0].v = I.copy(args[1]) if isinstance(args[1], Cell) else args[1]
    return old


@native("std::make_shared", "std::make_unique", "tree::base::make", "cqasm::tree::make")
def n_make(I, obj, args, e):
    t = base_type(e["ta"][0])
    sn = strip(t)
    o = construct_elem(I, t, args) if sn in ("std::string",) or sn in SEQ else construct_by_args(I, t, args)
    return Ptr(Cell(o), "tree" if strip(e["n"]).endswith("::make") else "smart")


@native("std::static_pointer_cast", "std::const_pointer_cast")
def n_spc(I, obj, args, e):
    return I.rv(args[0])


@native("std::dynamic_pointer_cast")
def n_dpc(I, obj, args, e):
    return Ptr(dynamic_cast(I, I.rv(args[0]), e["ta"][0] + " *").c, "smart")


@native("std::make_pair", "std::make_tuple")
def n_pair(I, obj, args, e):
    return Tup([Cell(I.copy(x) if isinstance(x, Cell) else x) for x in args])


@native("std::tie", "std::forward_as_tuple")
def n_tie(I, obj, args, e):
    return Tup([RefCell(x if isinstance(x, Cell) else Cell(x)) for x in args])


@native("std::get")
def n_get(I, obj, args, e):
    t = I.rv(args[0])
    k = e["ta"][0]
    if isinstance(t, Tup) and k.rstrip("ULul").isdigit():
        c = t.items[int(k.rstrip("ULul"))]
        return c.target if isinstance(c, RefCell) else c
    if isinstance(t, Vec) and k.rstrip("ULul").isdigit():
        return t.items[int(k.rstrip("ULul"))]
    raise Undecided("std::get")


@native("std::make_optional")
def n_mkopt(I, obj, args, e):
    return OptV(True, Cell(I.copy(args[0]) if isinstance(args[0], Cell) else args[0]))


@native("std::make_any")
def n_mkany(I, obj, args, e):
    t = base_type(e["ta"][0])
    return AnyV(t, Cell(construct_elem(I, t, args)))


@native("std::any_cast")
def n_anycast(I, obj, args, e):
    want = e["ta"][0]
    x = args[0]
    v = I.rv(x)
    ptr = isinstance(v, Ptr)
    if ptr:
        v = I.rv(v.c) if v.c is not None else None
    if not isinstance(v, AnyV):
        raise Undecided("any_cast of %r" % (v,))
    if v.t is None or base_type(v.t) != base_type(want):
        if ptr:
            return Ptr(None)
        I.bad_any_cast = getattr(I, "bad_any_cast", [])
        throw(I, "std::bad_any_cast", "bad any_cast: holds %s, asked for %s" % (v.t, base_type(want)))
    if ptr:
        return Ptr(v.cell)
    if is_ref(want):
        return v.cell
    return I.copy(v.cell)


@native("std::next", "std::prev", "std::ranges::next", "std::ranges::prev")
def n_next(I, obj, args, e):
    n = args[1] if len(args) > 1 else 1
    if "prev" in strip(e["n"]):
        n = -index(I, n)
    return it_add(I, I.rv(args[0]), n)


@native("std::advance")
def n_adv(I, obj, args, e):
    args[0].v = it_add(I, I.rv(args[0]), args[1])
    return VOID


@native("std::distance", "std::ranges::distance")
def n_dist(I, obj, args, e):
    return len(it_range(I, args[0], args[1])) if len(args) > 1 else len(iterate(I, args[0]))


@native("std::begin", "std::cbegin", "std::end", "std::cend", "std::size", "std::ssize", "std::empty", "std::data", "std::rbegin",
        "std::rend", "std::ranges::size", "std::ranges::empty", "std::ranges::begin", "std::ranges::end")
def n_begin(I, obj, args, e):
    n = strip(e["n"]).split("::")[-1]
    v = I.rv(args[0])
    if isinstance(v, Arr):
        c = args[0] if isinstance(args[0], Cell) else Cell(v)
        if "begin" in n:
            return It(c, 0)
        if n in ("end", "cend"):
            return It(c, len(v.items))
        if n in ("size", "ssize"):
            return len(v.items)
    return method(I, args[0] if isinstance(args[0], Cell) else Cell(v), {"ssize": "size"}.get(n, n), [], e)


@native("std::back_inserter", "std::front_inserter", "std::inserter")
def n_backins(I, obj, args, e):
    return Nat("inserter", target=args[0], how=strip(e["n"]).split("::")[-1], pos=I.rv(args[1]) if len(args) > 1 else None)


def put(I, out, vals):
    """Writes values through an output iterator; returns the advanced iterator."""
    o = I.rv(out)
    if isinstance(o, Nat) and o.name == "inserter":
        tgt = o.target
        tv = I.rv(tgt)
        for v in vals:
            v = I.copy(v) if isinstance(v, Cell) else v
            if isinstance(tv, Str) or isinstance(I.rv(tgt), Str):
                str_method(I, tgt, "push_back", [v], None)
            elif isinstance(tv, MapV):
                i, _ = map_insert(I, tv, "?<?,?>", v, False)
            elif o.how == "front_inserter":
                tv.items.insert(0, Cell(v))
            elif o.how == "inserter":
                tv.items.insert(o.pos.pos, Cell(v))
                o.pos = It(o.pos.seq, o.pos.pos + 1)
            else:
                tv.items.append(Cell(v))
        return o
    if isinstance(o, It):
        for v in vals:
            c = it_deref(I, o)
            old = I.rv(c)
            v = I.copy(v) if isinstance(v, Cell) else v
            if isinstance(old, Str) and isinstance(I.rv(v), CStr):
                v = to_string(I, v)
            c.v = v
            o = It(o.seq, o.pos + (-1 if o.rev else 1), o.rev)
        return o
    if isinstance(o, Nat) and o.name == "ostream_iterator":
        for v in vals:
            stream_put(I, o.st, v, o.t)
            if o.sep is not None:
                stream_put(I, o.st, o.sep, None)
        return o
    raise Undecided("output iterator %r" % (o,))


def rng(I, args):
    """(cells, remaining args) for algorithms that take an iterator pair or a range."""
    a0 = I.rv(args[0])
    if isinstance(a0, (It, CStr)) or (isinstance(a0, Ptr)):
        return it_range(I, args[0], args[1]), args[2:], a0
    v = args[0] if isinstance(args[0], Cell) else Cell(a0)
    return iterate(I, v), args[1:], It(v, 0) if not isinstance(a0, Nat) else None


def proj(I, rest, k, c):
    if len(rest) > k:
        return I.invoke(rest[k], [c])
    return c


def algo(fn):
    n = fn.__name__[2:]
    for p in ("std::", "std::ranges::", "ranges::"):
        NATIVE[p + n] = (fn, False)
    NATIVE["ranges::%s_fn::operator()" % n] = (fn, False)
    NATIVE["std::ranges::__%s_fn::operator()" % n] = (fn, False)
    NATIVE["ranges::cpp20::%s_fn::operator()" % n] = (fn, False)
    return fn


@algo
def a_for_each(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    for c in cells:
        I.invoke(rest[0], [proj(I, rest, 1, c)])
    return rest[0]


@algo
def a_transform(I, obj, args, e):
    cells, rest, it = rng(I, args)
    if len(rest) >= 3 and isinstance(I.rv(rest[0]), It) and not callable_value(I, rest[1]):
        # binary: second range starts at rest[0], output rest[1]
        b = I.rv(rest[0])
        items = seq_items(I, b.seq)
        if b.pos + len(cells) > len(items) and not b.rev:
            raise UB("second range of transform is too short", I.where())
        out = rest[1]
        for i, c in enumerate(cells):
            out = put(I, out, [I.invoke(rest[2], [c, items[b.pos + i]])])
        return out
    out = rest[0]
    for c in cells:
        r = I.invoke(rest[1], [proj(I, rest, 2, c)])
        r = I.copy(r) if isinstance(r, Cell) else r
        out = put(I, out, [r])
    return out


def callable_value(I, v):
    v = I.rv(v)
    return isinstance(v, (Lam, FnRef, Nat, Obj)) and not (isinstance(v, Nat) and v.name == "inserter")


@algo
def a_copy(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    return put(I, rest[0], cells)


@algo
def a_copy_if(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    out = rest[0]
    for c in cells:
        if I.truth(I.invoke(rest[1], [c])):
            out = put(I, out, [c])
    return out


@algo
def a_any_of(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    return any(I.truth(I.invoke(rest[0], [proj(I, rest, 1, c)])) for c in cells)


@algo
def a_all_of(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    return all(I.truth(I.invoke(rest[0], [proj(I, rest, 1, c)])) for c in cells)


@algo
def a_none_of(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    return not any(I.truth(I.invoke(rest[0], [proj(I, rest, 1, c)])) for c in cells)


@algo
def a_count_if(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    return sum(1 for c in cells if I.truth(I.invoke(rest[0], [proj(I, rest, 1, c)])))


@algo
def a_count(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    return sum(1 for c in cells if I.truth(eq(I, c, rest[0])))


def find_pos(I, it, cells, pred):
    for i, c in enumerate(cells):
        if pred(c):
            return It(it.seq, it.pos + (-i if it.rev else i), it.rev)
    n = len(cells)
    return It(it.seq, it.pos + (-n if it.rev else n), it.rev)


@algo
def a_find_if(I, obj, args, e):
    cells, rest, it = rng(I, args)
    return find_pos(I, it, cells, lambda c: I.truth(I.invoke(rest[0], [proj(I, rest, 1, c)])))


@algo
def a_find_if_not(I, obj, args, e):
    cells, rest, it = rng(I, args)
    return find_pos(I, it, cells, lambda c: not I.truth(I.invoke(rest[0], [proj(I, rest, 1, c)])))


@algo
def a_find(I, obj, args, e):
    cells, rest, it = rng(I, args)
    return find_pos(I, it, cells, lambda c: I.truth(eq(I, proj(I, rest, 1, c), rest[0])))


@algo
def a_contains(I, obj, args, e):
    cells, rest, it = rng(I, args)
    return any(I.truth(eq(I, c, rest[0])) for c in cells)


@algo
def a_adjacent_find(I, obj, args, e):
    cells, rest, it = rng(I, args)
    for i in range(len(cells) - 1):
        r = I.invoke(rest[0], [cells[i], cells[i + 1]]) if rest else eq(I, cells[i], cells[i + 1])
        if I.truth(r):
            return It(it.seq, it.pos + i, it.rev)
    return It(it.seq, it.pos + len(cells), it.rev)


@algo
def a_equal(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    pred = None
    if isinstance(I.rv(rest[0]), It):
        b = I.rv(rest[0])
        if len(rest) > 1 and isinstance(I.rv(rest[1]), It):
            other = it_range(I, rest[0], rest[1])
            rest = rest[2:]
            if len(other) != len(cells):
                return False
        else:
            items = seq_items(I, b.seq)
            if b.pos + len(cells) > len(items):
                for x, y in zip(cells, items[b.pos:]):
                    if not I.truth(I.invoke(rest[1], [x, y]) if len(rest) > 1 else eq(I, x, y)):
                        return False
                raise UB("read past the end of the second range of std::equal", I.where())
            other = items[b.pos:b.pos + len(cells)]
            rest = rest[1:]
    else:
        other = iterate(I, rest[0])
        rest = rest[1:]
        if len(other) != len(cells):
            return False
    for x, y in zip(cells, other):
        r = I.invoke(rest[0], [proj(I, rest, 1, x), proj(I, rest, 2, y)]) if rest else eq(I, x, y)
        if not I.truth(r):
            return False
    return True


@algo
def a_mismatch(I, obj, args, e):
    raise Undecided("mismatch")


@algo
def a_lexicographical_compare(I, obj, args, e):
    a = it_range(I, args[0], args[1])
    b = it_range(I, args[2], args[3])
    for x, y in zip(a, b):
        s = spaceship(I, x, y)
        if s:
            return s < 0
    return len(a) < len(b)


@algo
def a_accumulate(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    acc = I.copy(rest[0]) if isinstance(rest[0], Cell) else rest[0]
    for c in cells:
        if len(rest) > 1:
            r = I.invoke(rest[1], [Cell(acc), c])
        else:
            x, y = I.rv(acc), I.rv(c)
            r = Str(to_string(I, x).p + to_string(I, y).p) if is_stringish(x) else I.binop("+", x, y, "long")
        acc = I.copy(r) if isinstance(r, Cell) else r
    return acc


@algo
def a_sort(I, obj, args, e):
    cells, rest, it = rng(I, args)
    vals = [c.v for c in cells]
    import functools

    def cmpf(x, y):
        if rest:
            if I.truth(I.invoke(rest[0], [Cell(x), Cell(y)])):
                return -1
            return 1 if I.truth(I.invoke(rest[0], [Cell(y), Cell(x)])) else 0
        return spaceship(I, x, y)
    vals.sort(key=functools.cmp_to_key(cmpf))
    for c, v in zip(cells, vals):
        c.v = v
    return VOID


NATIVE["std::stable_sort"] = (a_sort, False)


@algo
def a_reverse(I, obj, args, e):
    cells, rest, it = rng(I, args)
    vals = [c.v for c in cells][::-1]
    for c, v in zip(cells, vals):
        c.v = v
    return VOID


@algo
def a_fill(I, obj, args, e):
    cells, rest, it = rng(I, args)
    for c in cells:
        c.v = I.copy(rest[0])
    return VOID


@algo
def a_iota(I, obj, args, e):
    cells, rest, it = rng(I, args)
    x = I.rv(rest[0])
    for c in cells:
        c.v = x
        x = I.binop("+", x, 1, "long")
    return VOID


@algo
def a_remove_if(I, obj, args, e):
    cells, rest, it = rng(I, args)
    keep = [c.v for c in cells if not I.truth(I.invoke(rest[0], [c]))]
    for c, v in zip(cells, keep):
        c.v = v
    return It(it.seq, it.pos + len(keep))


@algo
def a_unique(I, obj, args, e):
    cells, rest, it = rng(I, args)
    keep = []
    for c in cells:
        if not keep or not I.truth(eq(I, keep[-1], c.v)):
            keep.append(c.v)
    for c, v in zip(cells, keep):
        c.v = v
    return It(it.seq, it.pos + len(keep))


@algo
def a_replace(I, obj, args, e):
    cells, rest, it = rng(I, args)
    for c in cells:
        if I.truth(eq(I, c, rest[0])):
            c.v = I.rv(rest[1])
    return VOID


def minmax(I, args, want_max, comp):
    a, b = args[0], args[1]

    def lt(x, y):
        if comp is not None:
            return I.invoke(comp, [x, y])
        xv, yv = I.rv(x), I.rv(y)
        if isinstance(xv, (int, float, Fn, Op)) and isinstance(yv, (int, float, Fn, Op)):
            return I.binop("<", xv, yv, "bool")
        return spaceship(I, xv, yv) < 0
    if want_max:
        return b if I.truth(lt(a, b)) else a
    return b if I.truth(lt(b, a)) else a


@algo
def a_max(I, obj, args, e):
    return _mm(I, args, True)


@algo
def a_min(I, obj, args, e):
    return _mm(I, args, False)


def _mm(I, args, mx):
    v0 = I.rv(args[0])
    if isinstance(v0, (Arr, Vec)) and (len(args) == 1 or callable_value(I, args[1])):
        cells = v0.items
        comp = args[1] if len(args) > 1 else None
        best = cells[0]
        for c in cells[1:]:
            best = minmax(I, [best, c], mx, comp)
        return best
    return minmax(I, args, mx, args[2] if len(args) > 2 else None)


@algo
def a_max_element(I, obj, args, e):
    return _mel(I, args, True)


@algo
def a_min_element(I, obj, args, e):
    return _mel(I, args, False)


def _mel(I, args, mx):
    cells, rest, it = rng(I, args)
    if not cells:
        return it
    bi = 0
    for i in range(1, len(cells)):
        x, y = (cells[bi], cells[i]) if mx else (cells[i], cells[bi])
        lt = I.truth(I.invoke(rest[0], [x, y])) if rest else spaceship(I, x, y) < 0
        if lt:
            bi = i
    return It(it.seq, it.pos + bi)


@algo
def a_clamp(I, obj, args, e):
    r = minmax(I, [args[0], args[1]], True, None)
    return minmax(I, [r, args[2]], False, None)


@native("std::abs", "abs", "labs", "llabs", "fabs", "std::fabs")
def n_abs(I, obj, args, e):
    v = I.rv(args[0])
    if isinstance(v, Op):
        return Op(("abs", v.key), v.t)
    f0 = v.arr.flat[0] if isinstance(v, Fn) else v
    if isinstance(f0, float):
        return lift(abs, v)
    t = base_type(e.get("t", "int"))
    return I.fit(lift(abs, v), t, "abs")


NPF = {"acos": np.arccos, "acosh": np.arccosh, "asin": np.arcsin, "asinh": np.arcsinh, "atan": np.arctan, "atanh": np.arctanh, "cos": np.cos,
       "cosh": np.cosh, "exp": np.exp, "log": np.log, "pow": np.power, "sin": np.sin, "sinh": np.sinh, "sqrt": np.sqrt, "tan": np.tan, "tanh": np.tanh,
       "log2": np.log2, "log10": np.log10, "floor": np.floor, "ceil": np.ceil, "fmod": np.fmod, "atan2": np.arctan2, "hypot": np.hypot}


def mathfn(name, f):
    def g(I, obj, args, e):
        xs = [I.rv(a) for a in args]
        if any(isinstance(x, Op) for x in xs):
            return Op(("call", name) + tuple(x.key if isinstance(x, Op) else x for x in xs), "double")
        def tot(*v):
            with np.errstate(all="ignore"):
                return float(NPF[name](*[np.float64(float(w)) for w in v]))
        return lift(tot, *xs)
    return g


for _n in ("acos", "acosh", "asin", "asinh", "atan", "atanh", "cos", "cosh", "exp", "log", "pow", "sin", "sinh", "sqrt", "tan", "tanh",
           "log2", "log10", "floor", "ceil", "fmod", "atan2", "hypot"):
    for _p in ("", "std::"):
        NATIVE[_p + _n] = (mathfn(_n, getattr(math, _n)), False)


@native("std::isnan", "isnan")
def n_isnan(I, obj, args, e):
    v = I.rv(args[0])
    return Op(("isnan", v.key), "bool") if isinstance(v, Op) else lift(lambda x: math.isnan(x), v)


@native("std::isinf", "isinf")
def n_isinf(I, obj, args, e):
    v = I.rv(args[0])
    return Op(("isinf", v.key), "bool") if isinstance(v, Op) else lift(lambda x: math.isinf(x), v)


@native("std::isfinite", "isfinite")
def n_isfin(I, obj, args, e):
    v = I.rv(args[0])
    return Op(("isfinite", v.key), "bool") if isinstance(v, Op) else lift(lambda x: math.isfinite(x), v)


for _n, _v in (("huge_val", math.inf), ("inf", math.inf), ("nan", math.nan), ("huge_valf", math.inf), ("inff", math.inf), ("nanf", math.nan)):
    NATIVE["__builtin_" + _n] = ((lambda v: lambda I, obj, args, e: v)(_v), False)


def limits(name, f):
    for t in INT:
        pass
    NATIVE["std::numeric_limits::" + name] = (f, False)


def _lim(which):
    def f(I, obj, args, e):
        from absint import int_range
        t = targs_of(e["n"])
        t = t[0] if t else base_type(e["t"])
        if t in INT:
            lo, hi = int_range(t)
            return {"min": lo, "lowest": lo, "max": hi}.get(which, 0)
        return {"min": 2.2250738585072014e-308, "max": sys.float_info.max, "lowest": -sys.float_info.max, "infinity": math.inf,
                "quiet_NaN": math.nan, "epsilon": sys.float_info.epsilon}[which]
    return f


for _w in ("min", "max", "lowest", "infinity", "quiet_NaN", "epsilon"):
    limits(_w, _lim(_w))


@native("std::to_string")
def n_tostring(I, obj, args, e):
    v = I.rv(args[0])
    t = base_type(e["key"].rsplit("(", 1)[-1].rstrip(")"))
    if t in FLT:
        if isinstance(v, Op):
            return Str((Atom(("to_string", v.key), True),))
        return piece(lift(lambda x: b"%f" % x, v))
    return render(I, v, "long")


@native("fmt::format", "std::format")
def n_format(I, obj, args, e):
    return format_string(I, to_string(I, args[0]), args[1:], e.get("ta", []))


@native("fmt::to_string")
def n_fmttos(I, obj, args, e):
    if isinstance(I.rv(args[0]), Nat):
        return to_string(I, args[0])
    return render(I, args[0], (e.get("ta") or [None])[0])


@native("fmt::format_to")
def n_format_to(I, obj, args, e):
    s = format_string(I, to_string(I, args[1]), args[2:], (e.get("ta") or [])[1:])
    return put_text(I, args[0], s)


def put_text(I, out, s):
    o = I.rv(out)
    if isinstance(o, Nat) and o.name == "inserter":
        if isinstance(I.rv(o.target), Nat):
            put_text(I, Nat("inserter", target=I.rv(o.target).text), s)
            return o
        o.target.v = norm(to_string(I, o.target).p + s.p)
        return o
    raise Undecided("format_to")


@native("fmt::print", "std::print", "fmt::println")
def n_print(I, obj, args, e):
    a0 = I.rv(args[0])
    if isinstance(a0, Stream):
        s = format_string(I, to_string(I, args[1]), args[2:], e.get("ta", []))
        a0.buf = norm(a0.buf.p + s.p)
        return VOID
    if isinstance(a0, Str):
        s = format_string(I, a0, args[1:], e.get("ta", []))
        I.files_out.setdefault("stdout", []).append(s)
    return VOID


@native("fmt::join")
def n_join(I, obj, args, e):
    if len(args) == 3:
        cells = it_range(I, args[0], args[1])
        return Nat("join", base=Nat("pick", items=cells), sep=to_string(I, args[2]), t=None)
    ta = (e.get("ta") or [""])[0]
    t = "char" if strip(base_type(ta)) == "std::string" else None
    return Nat("join", base=args[0], sep=to_string(I, args[1]), t=t)


@native("std::operator<<", "operator<<")
def n_shl(I, obj, args, e):
    m = re.search(r"\(([^()]*(?:\([^()]*\))?[^()]*), (.*)\)$", e.get("key", ""))
    t = m.group(2) if m else None
    if isinstance(I.rv(args[1]), Nat) and I.rv(args[1]).name == "manip":
        return stream_put(I, args[0], args[1], None)
    if t and base_type(t) not in ("char", "signed char", "unsigned char"):
        t = base_type(t)
    return stream_put(I, args[0], args[1], t)


@native("std::setw")
def n_setw(I, obj, args, e):
    n = index(I, args[0])
    return Nat("manip", fn=lambda I2, s: s.flags.__setitem__("width", n))


@native("std::setfill")
def n_setfill(I, obj, args, e):
    c = byte(I.rv(args[0]))
    return Nat("manip", fn=lambda I2, s: s.flags.__setitem__("fill", c))


@native("std::endl", "std::flush")
def n_endl(I, obj, args, e):
    s = I.rv(args[0])
    if "endl" in e["n"]:
        s.buf = Str(s.buf.p + (10,))
    return args[0]


for _op in ("==", "!=", "<", ">", "<=", ">=", "<=>"):
    def _mk(op):
        def f(I, obj, args, e):
            xs = ([obj] if obj is not None else []) + list(args)
            return binary(I, op, xs[0], xs[1])
        return f
    for _ns in ("std::", "std::__detail::", "__gnu_cxx::", "tree::base::", "std::__cmp_cat::", ""):
        NATIVE[_ns + "operator" + _op] = (_mk(_op), False)


@native("std::is_eq", "std::is_neq", "std::is_lt", "std::is_gt", "std::is_lteq", "std::is_gteq")
def n_isord(I, obj, args, e):
    s = sign(I, args[0])
    n = strip(e["n"]).split("::")[-1]
    return {"is_eq": s == 0, "is_neq": s != 0, "is_lt": s < 0, "is_gt": s > 0, "is_lteq": s <= 0, "is_gteq": s >= 0}[n]


@native("std::operator+")
def n_plus(I, obj, args, e):
    a, b = I.rv(args[0]), I.rv(args[1])
    if isinstance(a, It):
        return it_add(I, a, b)
    sa = to_string(I, a) if is_stringish(a) else Str((byte(a),))
    sb = to_string(I, b) if is_stringish(b) else Str((byte(b),))
    return norm(sa.p + sb.p)


@native("__gnu_cxx::operator-", "std::operator-")
def n_itdiff(I, obj, args, e):
    return ptr_binop(I, "-", I.rv(args[0]), I.rv(args[1]))


@native("std::filesystem::exists", "std::filesystem::is_regular_file", "std::filesystem::is_directory")
def n_fs(I, obj, args, e):
    s = to_string(I, args[0]) if not isinstance(I.rv(args[0]), Obj) else Str()
    files = getattr(I, "files_in", None)
    if files is not None and s.concrete() is not None:
        # a name maps to its contents, or to None for a directory
        k, what = s.concrete().decode("utf-8", "replace"), strip(e["n"]).split("::")[-1]
        return k in files and (what == "exists" or (files[k] is None) == (what == "is_directory"))
    return Op((strip(e["n"]), str_key(s)), "bool")


@native("ranges::views::transform_fn::operator()", "ranges::views::transform_base_fn::operator()", "std::ranges::views::_Transform::operator()")
def n_vtransform(I, obj, args, e):
    if len(args) == 1:
        return Nat("vt", fn=args[0])
    return Nat("view", fn=args[1], base=args[0])


@native("ranges::views::filter_fn::operator()", "std::ranges::views::_Filter::operator()")
def n_vfilter(I, obj, args, e):
    if len(args) == 1:
        return Nat("vf", fn=args[0])
    return Nat("pick", items=[c for c in iterate(I, args[0]) if I.truth(I.invoke(args[1], [c]))])


@native("ranges::_to_::to", "std::ranges::to")
def n_to(I, obj, args, e):
    if args and not (isinstance(I.rv(args[0]), Nat) and I.rv(args[0]).name == "allocator"):
        return to_container(I, args[0], e["ta"][0])
    return Nat("to", t=e["ta"][0])


def to_container(I, v, t):
    if strip(base_type(t)) == "std::string":
        return collect_str(I, iterate(I, v))
    ts = targs_of(t)
    cells = iterate(I, v)
    if not ts:
        return Vec([Cell(I.copy(c)) for c in cells])
    return Vec([Cell(coerce(I, ts[0], I.copy(c))) for c in cells])


@native("ranges::views::view_closure_base_ns::operator|", "ranges::detail::to_container_closure_base_ns::operator|",
        "ranges::operator|", "std::ranges::views::__adaptor::operator|", "ranges::actions::operator|")
def n_pipe(I, obj, args, e):
    r = I.rv(args[1])
    if isinstance(r, Nat):
        a = I.rv(args[0])
        if isinstance(a, Nat) and a.name in ("vt", "vf", "to", "closure", "niebloid", "chain"):
            return Nat("chain", a=a, b=r)
        return models_std.pipe(I, args[0], r)
    raise Undecided("pipe into %r" % (r,))


FUNCTORS = {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/", "modulus": "%", "equal_to": "==", "not_equal_to": "!=", "less": "<",
            "greater": ">", "less_equal": "<=", "greater_equal": ">=", "logical_and": "&&", "logical_or": "||", "bit_and": "&", "bit_or": "|",
            "bit_xor": "^"}


def functor(I, name, args, t=None):
    if name in FUNCTORS:
        op = FUNCTORS[name]
        a, b = args
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return binary(I, op, a, b)
        x, y = I.rv(a), I.rv(b)
        if op == "&&":
            return I.truth(x) and I.truth(y)
        if op == "||":
            return I.truth(x) or I.truth(y)
        if is_stringish(x):
            return Str(to_string(I, x).p + to_string(I, y).p)
        return I.binop(op, x, y, t or guess(x, y))
    x = I.rv(args[0])
    if name == "negate":
        return I.unop("-", x, t or guess(x, x))
    if name == "logical_not":
        return I.lnot(x)
    if name == "bit_not":
        return I.unop("~", x, t or "long")
    if name == "hash":
        return 0
    if name == "identity":
        return args[0]
    raise Undecided("functor %s" % name)


def guess(x, y):
    def isf(v):
        return isinstance(v, float) or isinstance(v, Fn) and isinstance(v.arr.flat[0], float) or isinstance(v, Op) and v.t in FLT
    return "double" if isf(x) or isf(y) else "long"


for _f in list(FUNCTORS) + ["negate", "logical_not", "bit_not", "identity"]:
    def _mkf(name):
        def f(I, obj, args, e):
            t = targs_of(e["n"])
            tt = base_type(t[0]) if t and t[0] not in ("void",) else None
            if tt is None and e.get("ta"):
                x = base_type(e["ta"][0])
                tt = x if x in INT or x in FLT else None
            return functor(I, name, args, tt)
        return f
    NATIVE["std::%s::operator()" % _f] = (_mkf(_f), False)


def call_native(I, fn, args, e):
    if fn.name == "functor":
        return functor(I, fn.op, args)
    if fn.name == "pyfn":
        return fn.fn(I, args)
    return models_std.call_native(I, fn, args, e)


def pick_instantiation(I, cands, args):
    if len(cands) == 1:
        return cands[0]
    best = pick(I, cands, args)
    if not best:
        best = cands
    seen = {}
    for f in best:
        seen.setdefault(f["key"], f)
    best = list(seen.values())
    if len(best) > 1:
        # instantiations of one generic body that differ only in constness or value category are interchangeable here
        return best[0]
    return best[0]


# ---------------------------------------------------------------------------------------------------------- members
def native_global(name):
    g = {
        "std::nullopt": Nat("nullopt"), "std::string::npos": NPOS, "std::cout": None, "std::cerr": None,
        "ranges::views::transform": Nat("niebloid"), "ranges::equal": Nat("niebloid"), "std::ignore": Nat("ignore"),
        "std::strong_ordering::less": Nat("ordering", sign=-1), "std::strong_ordering::greater": Nat("ordering", sign=1),
        "std::strong_ordering::equal": Nat("ordering", sign=0), "std::strong_ordering::equivalent": Nat("ordering", sign=0),
        "std::weak_ordering::less": Nat("ordering", sign=-1), "std::weak_ordering::greater": Nat("ordering", sign=1),
        "std::weak_ordering::equivalent": Nat("ordering", sign=0),
        "std::numbers::pi": math.pi, "std::numbers::e": math.e, "std::numbers::pi_v<double>": math.pi, "std::numbers::e_v<double>": math.e,
        "std::in_place": Nat("in_place"),
    }
    if name in ("std::cout", "std::cerr", "std::clog"):
        return Cell(Stream())
    if name.startswith("ranges::views::reverse") or name.startswith("std::views::reverse") or name.endswith("views::reverse"):
        return Nat("niebloid", view="reverse", full=name)
    if name in g and not name.startswith("ranges::"):
        return g[name]
    if name.startswith("ranges::") or name.startswith("std::ranges::") or name.startswith("std::views::"):
        return Nat("niebloid", view=models_std.view_name(name), full=name)
    return None


def missing_field(I, o, n):
    return None


def member(I, o, n):
    if isinstance(o, Nat) and o.name == "submatch" and n == "matched":
        return bool(o.matched)
    return None


def defaulted(I, sn, obj, args, e):
    n = sn.split("::")[-1]
    if n == "operator=":
        src = args[0]
        o, s = I.rv(obj), I.rv(src)
        new = I.copy(src)
        if isinstance(o, Obj) and isinstance(new, Obj):
            o.f.update({k: Cell(c.v) for k, c in new.f.items()})
            o.ann = new.ann
        else:
            obj.v = new
        return obj
    if n == "operator==":
        a, b = I.rv(obj), I.rv(args[0])
        for fd in I.all_fields(a.cls):
            if not I.truth(eq(I, a.f[fd["n"]], b.f[fd["n"]])):
                return False
        return True
    if n == "operator!=":
        return I.lnot(defaulted(I, sn.replace("!=", "=="), obj, args, e))
    if n == "operator<=>":
        a, b = I.rv(obj), I.rv(args[0])
        for fd in I.all_fields(a.cls):
            r = spaceship(I, a.f[fd["n"]], b.f[fd["n"]])
            if r:
                return Nat("ordering", sign=(r > 0) - (r < 0))
        return Nat("ordering", sign=0)
    if n in ("operator<", "operator>", "operator<=", "operator>="):
        r = spaceship(I, obj, args[0])
        return {"<": r < 0, ">": r > 0, "<=": r <= 0, ">=": r >= 0}[n[8:]]
    raise Undecided("defaulted %s" % sn)


def obj_method(I, o, sn, obj, args, e):
    n = sn.split("::")[-1]
    if n == "what" and std_is_a(o.cls, "std::exception"):
        return CStr(I.rv(o.f.get("$what", Cell(Str()))))
    if n == "what" and sn in ("std::runtime_error::what", "std::exception::what", "std::logic_error::what") and "$what" in o.f:
        return CStr(I.rv(o.f["$what"]))
    if n in ("set_annotation", "get_annotation_ptr", "get_annotation", "has_annotation", "copy_annotation", "erase_annotation",
             "copy_annotations"):
        return annotation(I, o, n, args, e)
    k = node_kind(I, o)
    if k:
        return node_method(I, o, n, obj, args, e, k)
    h = getattr(I, "obj_hooks", {}).get(n)
    if h is not None:
        r = h(I, o, sn, obj, args, e)
        if r is not NotImplemented:
            return r
    if "$acc" in o.f:
        r = context_method(I, o, n, args, e)
        if r is not NotImplemented:
            return r
    if "$base" in o.f and e.get("key") not in I.prog.functions:
        return method(I, o.f["$base"], n, args, e)
    return NotImplemented


def ann_type(I, e, args):
    ta = e.get("ta") or []
    if ta:
        return base_type(ta[0])
    v = I.rv(args[0])
    return v.cls if isinstance(v, Obj) else None


def annotation(I, o, n, args, e):
    if n == "copy_annotations":
        s = I.rv(args[0])
        for k, c in s.ann.items():
            o.ann[k] = Cell(I.copy(c))
        return VOID
    t = ann_type(I, e, args)
    if n == "set_annotation":
        o.ann[t] = Cell(I.copy(args[0]) if isinstance(args[0], Cell) else args[0])
        return VOID
    if n == "has_annotation":
        return t in o.ann
    if n == "get_annotation_ptr":
        return Ptr(o.ann[t]) if t in o.ann else Ptr(None)
    if n == "get_annotation":
        if t not in o.ann:
            throw(I, "std::runtime_error", "object does not have an annotation of this type")
        return o.ann[t]
    if n == "copy_annotation":
        s = I.rv(args[0])
        if t in s.ann:
            o.ann[t] = Cell(I.copy(s.ann[t]))
        else:
            o.ann.pop(t, None)
        return VOID
    o.ann.pop(t, None)
    return VOID


def node_method(I, o, n, obj, args, e, k):
    t, node, ns = k
    if n.startswith("as_"):
        want = t.nodes.get(n[3:])
        if want is not None:
            return Ptr(obj if isinstance(obj, Cell) else Cell(o)) if want in node.ancestors() else Ptr(None)
    if n == "visit":
        return node_visit(I, o, obj, args[0], t, node, ns)
    if n == "type":
        leaves = [x for x in t.order if not x.children]
        return leaves.index(node)
    if n in ("clone",):
        return Ptr(Cell(clone(I, o)), "tree")
    if n in ("copy",):
        return Ptr(Cell(I.copy(o)), "tree")
    if n in ("equals", "operator=="):
        return equals(I, o, args[0])
    if n == "operator!=":
        return I.lnot(equals(I, o, args[0]))
    if n in ("dump", "dump_json", "dump_raw_pointers"):
        st = I.rv(args[0]) if args else Stream()
        if isinstance(st, Stream):
            st.buf = Str(st.buf.p + (Atom((n, getattr(o, "label", id(o))), True),))
        I.world.keep = getattr(I.world, "keep", []) + [o]
        return VOID
    if n in ("check_well_formed", "is_well_formed", "is_complete"):
        ok = well_formed(I, o)
        if n == "check_well_formed":
            if not ok:
                throw(I, "tree::base::NotWellFormed", "not well formed")
            return VOID
        return ok
    return NotImplemented


def well_formed(I, v):
    """Every required edge is set, no node is owned twice, every link leads to a node of the tree."""
    seen, links = {}, []
    ok = well_formed_rec(I, v, seen, links)
    return ok and all(x is not None and id(x) in seen for x in links)


def well_formed_rec(I, v, seen, links):
    v = I.rv(v)
    if isinstance(v, Obj) and node_kind(I, v):
        if id(v) in seen:
            return False
        seen[id(v)] = v
        t, node, ns = node_kind(I, v)
        for f in node.all_fields():
            x = I.rv(v.f[f[0]])
            if f[1] == "One":
                if x.c is None or not well_formed_rec(I, x.c, seen, links):
                    return False
            elif f[1] == "Maybe":
                if x.c is not None and not well_formed_rec(I, x.c, seen, links):
                    return False
            elif f[1] in ("Any", "Many"):
                if f[1] == "Many" and not x.items:
                    return False
                for c in x.items:
                    p = I.rv(c)
                    if p.c is None or not well_formed_rec(I, p.c, seen, links):
                        return False
            elif f[1] == "Link":
                if x.c is None:
                    return False
                links.append(I.rv(x.c))
    return True


def node_visit(I, o, obj, visitor, t, node, ns):
    vc = visitor if isinstance(visitor, Cell) else Cell(visitor)
    vis = I.rv(visitor)
    for a in [x.name for x in node.ancestors()] + ["node"]:
        nm = "visit_" + a
        cls = ns + "::" + (t.nodes[a].cls if a in t.nodes else "Node")
        c = vis.cls
        todo = [c]
        while todo:
            c = todo.pop(0)
            r = I.prog.records.get(c)
            if not r:
                continue
            for m in r.get("methods", ()):
                if m["n"] == nm:
                    f = I.prog.functions.get(m["key"])
                    if f and len(f["params"]) == 1 and base_type(f["params"][0]["t"]) == cls:
                        if f["sn"] in I.stubs:
                            return I.stubs[f["sn"]](I, vc, [obj], {"n": f["n"], "key": f["key"]})
                        return I.call_fn(f, [obj if isinstance(obj, Cell) else Cell(o)], vc)
            todo += r["bases"]
    raise Undecided("no visitor method for %s" % o.cls)


def context_method(I, o, n, args, e):
    """Accessors of a parse-tree context built by a driver: o.f['$acc'] maps accessor names to lists of children."""
    acc = o.f["$acc"].v
    if n == "accept":
        vis = args[0]
        v = I.rv(vis)
        vo = I.rv(v.c) if isinstance(v, Ptr) else v
        vcell = v.c if isinstance(v, Ptr) else vis
        name = o.cls.split("::")[-1].replace("Context", "")
        nm = "visit" + name
        c = vo.cls
        todo = [c]
        while todo:
            c = todo.pop(0)
            r = I.prog.records.get(c)
            if not r:
                continue
            for m in r.get("methods", ()):
                if m["n"] == nm:
                    f = I.prog.functions.get(m["key"])
                    if f:
                        return I.call_fn(f, [Ptr(Cell(o))], vcell)
            todo += r["bases"]
        raise Undecided("no visitor for %s" % o.cls)
    if n in acc:
        kids = acc[n]
        t = e.get("t", "")
        if args:
            i = index(I, args[0])
            return Ptr(kids[i]) if 0 <= i < len(kids) else Ptr(None)
        if strip(base_type(t)) == "std::vector":
            return Vec([Cell(Ptr(k)) for k in kids])
        return Ptr(kids[0]) if kids else Ptr(None)
    if n == "getText" and "$text" in o.f:
        return I.rv(o.f["$text"])
    if n in ("getStart", "getStop"):
        return I.rv(o.f["start" if n == "getStart" else "stop"])
    if o.cls.endswith("Context"):
        t = e.get("t", "")
        if strip(base_type(t)) == "std::vector":
            return Vec([])
        if base_type(t).endswith("*"):
            return Ptr(None)
    if n in acc:
        return acc[n]
    return NotImplemented


def method(I, obj, name, args, e):
    v = I.rv(obj)
    cell = obj if isinstance(obj, Cell) else Cell(v)
    if isinstance(v, Str):
        return str_method(I, cell, name, args, e)
    if isinstance(v, Vec):
        return vec_method(I, cell, name, args, e)
    if isinstance(v, MapV):
        return map_method(I, cell, name, args, e)
    if isinstance(v, Stream):
        return stream_method(I, cell, name, args, e)
    if isinstance(v, OptV):
        if name in ("has_value", "operator bool"):
            return v.has
        if name == "value":
            if not I.truth(v.has):
                throw(I, "std::bad_optional_access", "bad optional access")
            return v.cell
        if name in ("operator*", "operator->"):
            if not I.truth(v.has):
                raise UB("dereference of an empty optional", I.where())
            return Ptr(v.cell) if name == "operator->" else v.cell
        if name == "value_or":
            if I.truth(v.has):
                return I.copy(v.cell)
            x = I.rv(args[0])
            t = targs_of(base_type(e.get("cls", "")))
            return coerce(I, t[0], args[0]) if t else x
        if name == "operator=":
            x = I.rv(args[0])
            if isinstance(x, Nat) and x.name in ("nullopt",):
                cell.v = OptV(False)
            elif isinstance(x, OptV):
                cell.v = I.copy(x)
            else:
                t = targs_of(base_type(e.get("cls", "")))
                cell.v = OptV(True, Cell(coerce(I, t[0], I.copy(args[0]) if isinstance(args[0], Cell) else args[0])))
            return cell
        if name == "reset":
            cell.v = OptV(False)
            return VOID
        if name == "emplace":
            t = targs_of(base_type(e.get("cls", "")))
            cell.v = OptV(True, Cell(construct_elem(I, t[0], args)))
            return cell.v.cell
    if isinstance(v, Ptr):
        if name in ("check_well_formed", "is_well_formed", "is_complete") and v.kind == "tree":
            ok = v.c is not None and well_formed(I, v.c)
            if name == "check_well_formed":
                if not ok:
                    throw(I, "tree::base::NotWellFormed", "not well formed")
                return VOID
            return ok
        if name in ("operator bool",):
            return v.c is not None
        if name in ("has_value",):
            return v.c is not None
        if name in ("get", "get_ptr"):
            return Ptr(v.c, "raw" if name == "get" else "smart")
        if name in ("operator->", "operator*", "deref"):
            if v.c is None:
                if v.kind == "tree":
                    throw(I, "tree::base::OutOfRange", "dereferencing empty Maybe/One object")
                raise UB("null pointer dereference", I.where())
            return Ptr(v.c) if name == "operator->" else v.c
        if name == "reset":
            cell.v = Ptr(I.rv(args[0]).c if args else None, v.kind)
            return VOID
        if name == "release":
            cell.v = Ptr(None, v.kind)
            return Ptr(v.c)
        if name == "operator=":
            x = I.rv(args[0])
            if not isinstance(x, Ptr):
                if isinstance(x, (Lam, FnRef, Nat, Obj)):
                    cell.v = x
                    return cell
                raise Undecided("pointer assignment")
            cell.v = Ptr(x.c, v.kind if v.kind != "raw" else x.kind)
            return cell
        if name in ("set", "set_raw"):
            cell.v = Ptr(I.rv(args[0]).c, v.kind)
            return VOID
        if name == "empty":
            return v.c is None
        if name == "size":
            return 0 if v.c is None else 1
        if name == "as":
            if v.c is None:
                return Ptr(None)
            return dynamic_cast(I, Ptr(v.c), e["ta"][0] + " *")
        if name in ("clone", "copy"):
            return clone(I, v) if name == "clone" else (Ptr(Cell(I.copy(v.c)), "tree") if v.c is not None else v)
        if name in ("equals",):
            return equals(I, v, args[0])
        if name == "use_count":
            return Op(("use_count", id(v.c)), "long")
        if name in ("operator==", "operator!="):
            return ptr_binop(I, name[8:], v, I.rv(args[0]))
        if name == "operator()":
            throw(I, "std::bad_function_call", "bad_function_call")
        if name == "swap":
            cell.v, args[0].v = args[0].v, cell.v
            return VOID
    if isinstance(v, It):
        if name in ("operator++", "operator--"):
            new = it_add(I, v, 1 if name == "operator++" else -1)
            cell.v = new
            return v if args else cell
        if name == "operator*":
            return it_deref(I, v)
        if name == "operator->":
            return Ptr(it_deref(I, v))
        if name in ("operator+", "operator-") and args:
            b = I.rv(args[0])
            return ptr_binop(I, name[8:], v, b)
        if name in ("operator+=", "operator-="):
            cell.v = it_add(I, v, args[0] if name[8] == "+" else -index(I, args[0]))
            return cell
        if name == "operator[]":
            return it_deref(I, it_add(I, v, args[0]))
        if name == "base":
            return It(v.seq, v.pos + 1) if v.rev else v
        if name == "operator=":
            cell.v = I.rv(args[0])
            return cell
    if isinstance(v, Tup):
        if name == "operator=":
            src = I.rv(args[0])
            for c, x in zip(v.items, src.items):
                (c.target if isinstance(c, RefCell) else c).v = I.copy(x)
            return cell
        if name in ("real", "imag"):
            return v.items[0 if name == "real" else 1].v
    if isinstance(v, AnyV):
        if name == "has_value":
            return v.t is not None
        if name == "reset":
            cell.v = AnyV()
            return VOID
        if name == "operator=":
            x = I.rv(args[0])
            if isinstance(x, AnyV):
                cell.v = I.copy(x)
            else:
                cell.v = AnyV(base_type((e.get("ta") or ["?"])[0]), Cell(I.copy(args[0]) if isinstance(args[0], Cell) else args[0]))
            return cell
    if name == "operator()":
        return I.invoke(v, args, e)
    if isinstance(v, (Lam, FnRef, Nat)) and name in ("operator bool", "operator="):
        if name == "operator=":
            cell.v = I.rv(args[0])
            return cell
        return True
    if isinstance(v, Nat):
        if v.name == "match":
            if name == "operator[]":
                i = index(I, args[0])
                return Cell(v.groups[i] if i < len(v.groups) else Nat("submatch", s=Str(), matched=False, pos=0))
            if name == "position":
                return v.groups[index(I, args[0]) if args else 0].pos
            if name == "size":
                return len(v.groups)
            if name == "str":
                return v.groups[index(I, args[0]) if args else 0].s
            if name in ("prefix", "suffix"):
                return Cell(Nat("submatch", s=v.prefix if name == "prefix" else v.suffix, matched=True, pos=0))
            if name in ("empty", "ready"):
                return (not v.groups) == (name == "empty")
            if name == "length":
                return strlen(I, v.groups[index(I, args[0]) if args else 0].s)
            if name in ("begin", "end"):
                if not hasattr(v, "mat"):
                    v.mat = Cell(Vec([Cell(g) for g in v.groups]))
                return It(v.mat, 0 if name == "begin" else len(v.groups))
        if v.name == "submatch":
            if name in ("str",) or name.startswith("operator "):
                return v.s
            if name == "length":
                return strlen(I, v.s)
        if v.name in ("niebloid",):
            raise Undecided("range adaptor %s" % (e or {}).get("n"))
        if v.name == "subrange" and name in ("begin", "end"):
            return v.a if name == "begin" else v.b
        if v.name in ("view", "pick", "reverse", "subrange"):
            if name in ("operator bool", "front", "back", "operator[]"):
                cs = iterate(I, v)
                if name == "operator bool":
                    return bool(cs)
                k = {"front": 0, "back": len(cs) - 1}.get(name)
                k = index(I, args[0]) if k is None else k
                if not 0 <= k < len(cs):
                    raise UB("access past the end of a view", I.where())
                return cs[k]
            if name == "empty":
                return not iterate(I, v)
            if name == "size":
                return len(iterate(I, v))
            if name in ("begin", "end"):
                if not hasattr(v, "mat"):
                    v.mat = Cell(Vec(iterate(I, v)))
                return It(v.mat, 0 if name == "begin" else len(v.mat.v.items))
        if v.name == "ordering" and name.startswith("operator"):
            return binary(I, name[8:], v, args[0])
        if v.name == "functor" and name == "operator()":
            return functor(I, v.op, args)
        if v.name == "inserter":
            if name in ("operator*", "operator++"):
                return cell
            if name == "operator=":
                put(I, v, [args[0]])
                return cell
    if isinstance(v, CStr):
        if name.startswith("operator "):
            return v
    if isinstance(v, Obj):
        if name == "operator=":
            return defaulted(I, "operator=", cell, args, e)
        if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator<=>"):
            return binary(I, name[8:], cell, args[0])
        if "$base" in v.f:
            return method(I, v.f["$base"], name, args, e)
        if e and e.get("dflt"):
            return defaulted(I, e["n"], cell, args, e)
        if "$acc" in v.f:
            r = context_method(I, v, name, args, e)
            if r is not NotImplemented:
                return r
    if isinstance(v, Uninit):
        raise UB("use of an uninitialised %s" % v.t, I.where())
    if isinstance(v, (int, Fn, Op)) and name == "operator=":
        cell.v = I.rv(args[0])
        return cell
    raise Undecided("method %s of %r" % (name, v))


@native("std::regex_match", "std::regex_search")
def n_regex(I, obj, args, e):
    vals = [I.rv(a) for a in args]
    s = next((to_string(I, v) for v in vals if is_stringish(v)), None)
    rx = next((v for v in vals if isinstance(v, Nat) and v.name == "regex"), None)
    mt = next((v for v in vals if isinstance(v, Nat) and v.name == "match"), None)
    full = strip(e["n"]).endswith("match")
    if s is None or rx is None:
        raise Undecided("regex arguments")
    if s.concrete() is None:
        raise Undecided("regex on opaque text")
    pat = rx.s.concrete().decode()
    txt = s.concrete().decode("latin-1")
    m = (re.fullmatch if full else re.search)(pat, txt)
    if mt is not None:
        mt.groups = []
        if m:
            mt.prefix, mt.suffix = Str.lit(txt[:m.start()].encode("latin-1")), Str.lit(txt[m.end():].encode("latin-1"))
            for i in range(0, (m.re.groups or 0) + 1):
                g = m.group(i)
                mt.groups.append(Nat("submatch", s=Str.lit((g or "").encode("latin-1")), matched=g is not None,
                                     pos=m.start(i) if g is not None else len(txt)))
    return m is not None


def to_str(I, v):
    return to_string(I, v)


@native("tree::base::serialize")
def n_serialize(I, obj, args, e):
    v = I.rv(args[0])
    if isinstance(v, Ptr):
        if v.c is None:
            raise Undecided("serialization of an empty tree")
        v = I.rv(v.c)
    I.world.keep = getattr(I.world, "keep", []) + [v]
    return Str((Atom(("serialized", getattr(v, "label", id(v))), True),))


@native("tree::base::deserialize")
def n_deserialize(I, obj, args, e):
    s = to_string(I, args[0])
    if len(s.p) == 1 and isinstance(s.p[0], Atom) and isinstance(s.p[0].key, tuple) and s.p[0].key[0] == "serialized":
        for v in getattr(I.world, "keep", []):
            if getattr(v, "label", id(v)) == s.p[0].key[1]:
                return Ptr(Cell(clone(I, v)), "tree")
    raise Undecided("reading back an unknown text")


import models_std  # noqa: E402  (registers itself in NATIVE)
