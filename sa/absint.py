"""Abstract interpreter over the resolved syntax trees.

Domain.  A scalar is a value set indexed by finitely many inputs of finite domain (`Fn`), an exact constant (the
singleton case), or an opaque term of unknown value (`Op`).  A string is a list of pieces: character value sets,
renderings of scalars and opaque atoms.  Containers and objects have known shape and abstract leaves.  The abstract
state of a path carries the set of input valuations it stands for (`World`, a product of relational clusters).  A
branch on a value set partitions that set; a branch on an opaque term partitions on the term (trace partitioning),
consistently along the path.  No path is ever handed to a solver and nothing of the analysed program is executed.
Anything without a transfer function makes the path `undecided`, never silently correct."""
import os
import math
import struct
import itertools
import functools
import time

import numpy as np
np.seterr(all="ignore")


# --------------------------------------------------------------------------------------------------- names and types
@functools.lru_cache(None)
def strip(n):
    """Drops template arguments from a qualified name, keeping operator names whole."""
    op = ""
    i = n.rfind("operator")
    if i >= 0 and (i == 0 or n[i - 1] == ":"):
        rest = n[i + 8:]
        if rest and not (rest[0].isalnum() or rest[0] == "_"):
            op = "operator" + rest
            for sym in ("<=>", "<<=", ">>=", "->*", "<<", ">>", "<=", ">=", "==", "!=", "->", "()", "[]", "+=", "-=", "*=", "/=",
                        "&&", "||", "++", "--", "|=", "&=", "^=", "%=", "<", ">", "=", "+", "-", "*", "/", "%", "!", "|", "&", "^", "~"):
                if rest.startswith(sym):
                    op = "operator" + sym
                    break
            n = n[:i]
    out, d = [], 0
    j = 0
    while j < len(n):
        c = n[j]
        if c == "<":
            d += 1
        elif c == ">" and n[j - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        j += 1
    return "".join(out) + op


@functools.lru_cache(None)
def base_type(t):
    t = t.strip()
    while True:
        u = t
        if t.endswith("&&"):
            t = t[:-2].strip()
        elif t.endswith("&"):
            t = t[:-1].strip()
        if t.startswith("const "):
            t = t[6:]
        if t.startswith("volatile "):
            t = t[9:]
        if t.endswith(" const"):
            t = t[:-6]
        if u == t:
            return t


def is_ref(t):
    return t.endswith("&")


def targs_of(t):
    i = t.find("<")
    if i < 0:
        return []
    d, cur, out = 0, "", []
    for k in range(i, len(t)):
        c = t[k]
        if c in "<(":
            d += 1
            if d == 1:
                continue
        if (c == ">" and t[k - 1] != "-") or c == ")":
            d -= 1
            if d == 0:
                out.append(cur.strip())
                return out
        if c == "," and d == 1:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out


INT = {
    "bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
    "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False),
    "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False),
    "__int128": (128, True), "unsigned __int128": (128, False), "wchar_t": (32, True), "char32_t": (32, False),
    "char16_t": (16, False), "char8_t": (8, False),
}
FLT = ("float", "double", "long double")


def f32(x):
    """The single-precision number nearest to x."""
    x = float(x)
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def int_range(t):
    b, s = INT[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def wrap(v, t):
    b, s = INT[t]
    if t == "bool":
        return bool(v)
    v = int(v) & ((1 << b) - 1)
    if s and v >> (b - 1):
        v -= 1 << b
    return v


# --------------------------------------------------------------------------------------------------------- outcomes
class Undecided(Exception):
    def __init__(self, why="", *a):
        Exception.__init__(self, str(why)[:400], *a)


class UB(Exception):
    """Undefined behaviour or abnormal termination reached on this path."""

    def __init__(self, what, where=None):
        self.what, self.where = what, where
        Exception.__init__(self, what)


class Abort(UB):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, obj, where=None):
        self.obj, self.where = obj, where
        Exception.__init__(self, "throw %s" % (obj.cls if isinstance(obj, Obj) else obj))


# ----------------------------------------------------------------------------------------------------------- values
class Var:
    """An input with a finite domain.  kind 'order': the domain stands for all order types w.r.t. the constants seen."""
    _n = 0

    def __init__(self, name, dom, kind="full"):
        self.name, self.dom, self.kind = name, list(dom), kind
        Var._n += 1
        self.n = Var._n
        self.consts = set()

    def __repr__(self):
        return self.name


class Fn:
    __slots__ = ("vars", "arr")

    def __init__(self, vars, arr):
        self.vars, self.arr = vars, arr

    @staticmethod
    def of(var):
        a = np.empty(len(var.dom), dtype=object)
        for i, x in enumerate(var.dom):
            a[i] = x
        return Fn((var,), a)

    def __repr__(self):
        return "Fn(%s)" % ",".join(v.name for v in self.vars)


def align(vars, f):
    """The array of f broadcast to the axes given by vars."""
    if not isinstance(f, Fn):
        return f
    perm = [f.vars.index(v) for v in vars if v in f.vars]
    a = np.transpose(f.arr, perm)
    shape, k = [], 0
    for v in vars:
        if v in f.vars:
            shape.append(a.shape[k])
            k += 1
        else:
            shape.append(1)
    return a.reshape(shape)


def allvars(*fs):
    s = set()
    for f in fs:
        if isinstance(f, Fn):
            s.update(f.vars)
    return tuple(sorted(s, key=lambda v: v.n))


LIMIT = 3_000_000


def lift(fun, *args):
    """Applies fun pointwise.  fun must be total."""
    vs = allvars(*args)
    if not vs:
        return fun(*args)
    size = 1
    for v in vs:
        size *= len(v.dom)
    if size > LIMIT:
        raise Undecided("joint domain too large")
    arrs = [align(vs, a) if isinstance(a, Fn) else a for a in args]
    boxed = []
    for a in arrs:
        if isinstance(a, np.ndarray):
            boxed.append(a)
        else:
            b = np.empty((1,) * len(vs), dtype=object)
            b[(0,) * len(vs)] = a
            boxed.append(b)
    r = np.frompyfunc(fun, len(boxed), 1)(*boxed)
    if not isinstance(r, np.ndarray):
        b = np.empty((1,) * len(vs), dtype=object)
        b[(0,) * len(vs)] = r
        r = b
    shape = tuple(len(v.dom) for v in vs)
    if r.shape != shape:
        r = np.broadcast_to(r, shape)
    # constant folding keeps the rest of the interpreter simple
    first = r.flat[0]
    if not isinstance(first, (list, tuple, np.ndarray)) and np.all(np.equal(r, first)):
        if not isinstance(first, float) and all(type(x) is type(first) for x in r.flat):
            return first
    return Fn(vs, r)


class Op:
    """Opaque scalar term; key is hashable and identifies the term."""
    __slots__ = ("key", "t")

    def __init__(self, key, t="?"):
        self.key, self.t = key, t

    def __repr__(self):
        return "Op(%s)" % (self.key,)

    def __eq__(self, o):
        return isinstance(o, Op) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


class Atom:
    """A piece of a string with unknown contents."""
    __slots__ = ("key", "nonempty")

    def __init__(self, key, nonempty=False):
        self.key, self.nonempty = key, nonempty

    def __repr__(self):
        return "<%s>" % (self.key,)

    def __eq__(self, o):
        return isinstance(o, Atom) and o.key == self.key

    def __hash__(self):
        return hash(("atom", self.key))


class Str:
    """Immutable string value: pieces are ints (bytes), Fn of ints, Fn of python bytes ('rendering') and Atoms."""
    __slots__ = ("p",)

    def __init__(self, p=()):
        self.p = tuple(p)

    @staticmethod
    def lit(s):
        if isinstance(s, str):
            s = s.encode("utf-8", "surrogateescape")
        return Str(tuple(s))

    def concrete(self):
        if all(isinstance(x, int) for x in self.p):
            return bytes(self.p)
        return None

    def fixed(self):
        """True if every piece is exactly one character."""
        return all(isinstance(x, int) or (isinstance(x, Fn) and isinstance(x.arr.flat[0], int)) for x in self.p)

    def __repr__(self):
        c = self.concrete()
        return repr(c.decode("utf-8", "replace")) if c is not None else "Str%r" % (self.p,)


def show(s):
    return s.concrete().decode("utf-8", "replace") if isinstance(s, Str) and s.concrete() is not None else repr(s)


class Cell:
    __slots__ = ("v", "meta")

    def __init__(self, v=None):
        self.v = v
        self.meta = None

    def __repr__(self):
        return "&%r" % (self.v,)


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.f = {}
        self.ann = {}

    def __repr__(self):
        return "%s{%s}" % (self.cls.split("::")[-1], ", ".join("%s=%r" % (k, v.v) for k, v in self.f.items()))


class Vec:
    """vector, list, deque, array, tree::Any/Many."""

    def __init__(self, items=(), kind="vector"):
        self.items = [x if isinstance(x, Cell) else Cell(x) for x in items]
        self.kind = kind

    def __repr__(self):
        return "[%s]" % ", ".join(repr(c.v) for c in self.items)


class MapV:
    """map/unordered_map/multimap/set: list of (key value, Cell) in iteration order."""

    def __init__(self, kind, items=()):
        self.kind = kind
        self.items = list(items)

    def __repr__(self):
        return "%s%r" % (self.kind, [(show(k), c.v) for k, c in self.items])


class OptV:
    def __init__(self, has=False, cell=None):
        self.has, self.cell = has, cell

    def __repr__(self):
        return "Opt(%r, %r)" % (self.has, self.cell)


class Tup:
    """pair and tuple."""

    def __init__(self, items):
        self.items = [x if isinstance(x, Cell) else Cell(x) for x in items]

    def __repr__(self):
        return "(%s)" % ", ".join(repr(c.v) for c in self.items)


class Ptr:
    """Raw or smart pointer; target None is null."""
    __slots__ = ("c", "kind")

    def __init__(self, c=None, kind="raw"):
        self.c, self.kind = c, kind

    def __repr__(self):
        return "Ptr(%r)" % (self.c,)


class Arr:
    """Array of known size whose elements are cells (built-in arrays)."""

    def __init__(self, items):
        self.items = [x if isinstance(x, Cell) else Cell(x) for x in items]


class CStr:
    """Pointer into a character array."""
    __slots__ = ("s", "pos")

    def __init__(self, s, pos=0):
        self.s, self.pos = s, pos

    def __repr__(self):
        return "CStr(%r)" % (self.s,)


class Lam:
    def __init__(self, node, env, this, unit):
        self.node, self.env, self.this, self.unit = node, env, this, unit

    def __repr__(self):
        return "lambda:%s" % self.node.get("l")


class FnRef:
    def __init__(self, info):
        self.info = info

    def __repr__(self):
        return "fn:%s" % self.info["n"]


class Nat:
    """A native callable or library object, by name, with attributes."""

    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)

    def __repr__(self):
        return "Nat(%s)" % self.name


class It:
    """Iterator: position in a sequence (list of cells or string)."""
    __slots__ = ("seq", "pos", "rev")

    def __init__(self, seq, pos, rev=False):
        self.seq, self.pos, self.rev = seq, pos, rev

    def __repr__(self):
        return "It(%r)" % (self.pos,)


class Stream:
    def __init__(self, kind="ostream"):
        self.kind = kind
        self.buf = Str()
        self.flags = {}

    def __repr__(self):
        return "Stream(%r)" % (self.buf,)


class AnyV:
    def __init__(self, t=None, cell=None):
        self.t, self.cell = t, cell

    def __repr__(self):
        return "any<%s>(%r)" % (self.t, self.cell)


class Void:
    def __repr__(self):
        return "void"


VOID = Void()


# ------------------------------------------------------------------------------------------------------------ world
class World:
    def __init__(self):
        self.cl = {}     # var -> cluster index
        self.clusters = []  # (vars, mask)
        self.facts = {}  # opaque condition key -> bool

    def cluster(self, vs):
        """A single (vars, mask) covering vs."""
        ids = sorted({self.cl[v] for v in vs if v in self.cl})
        all_vs = set(vs)
        for i in ids:
            all_vs.update(self.clusters[i][0])
        order = tuple(sorted(all_vs, key=lambda v: v.n))
        size = 1
        for v in order:
            size *= len(v.dom)
        if size > LIMIT:
            raise Undecided("joint domain too large")
        m = np.ones(tuple(len(v.dom) for v in order), dtype=bool)
        for i in ids:
            cv, cm = self.clusters[i]
            m &= align(order, Fn(cv, cm))
        return order, m

    def restrict(self, order, mask):
        idx = len(self.clusters)
        self.clusters.append((order, mask))
        for v in order:
            self.cl[v] = idx

    def valuations(self, vs):
        order, m = self.cluster(vs)
        for ix in zip(*np.nonzero(m)):
            yield dict(zip(order, ix))

    def count(self, vs):
        _, m = self.cluster(vs)
        return int(m.sum())


def at(f, val):
    """Value of a scalar at a valuation (var -> index)."""
    if isinstance(f, Fn):
        return f.arr[tuple(val[v] for v in f.vars)]
    return f


def conc(v, val):
    """Value of an abstract value at a valuation, in plain Python: str pieces become bytes with Atoms kept."""
    if isinstance(v, Cell):
        return conc(v.v, val)
    if isinstance(v, Fn):
        return at(v, val)
    if isinstance(v, Str):
        out, cur = [], bytearray()
        for x in v.p:
            x = at(x, val)
            if isinstance(x, bool):
                raise Undecided("bool in string")
            if isinstance(x, int):
                cur.append(x & 255)
            elif isinstance(x, bytes):
                cur += x
            else:
                if cur:
                    out.append(bytes(cur))
                    cur = bytearray()
                out.append(x)
        if cur:
            out.append(bytes(cur))
        if not out:
            return b""
        return out[0] if len(out) == 1 and isinstance(out[0], bytes) else tuple(out)
    if isinstance(v, (Vec, Arr)):
        return [conc(c, val) for c in v.items]
    if isinstance(v, Tup):
        return tuple(conc(c, val) for c in v.items)
    if isinstance(v, OptV):
        return conc(v.cell, val) if at(v.has, val) else None
    if isinstance(v, Obj):
        d = {k: conc(c, val) for k, c in v.f.items()}
        d["@"] = v.cls
        return d
    if isinstance(v, Ptr):
        return None if v.c is None else conc(v.c, val)
    if isinstance(v, MapV):
        return [(conc(k, val), conc(c, val)) for k, c in v.items]
    if isinstance(v, Stream):
        return conc(v.buf, val)
    if isinstance(v, CStr):
        return conc(v.s, val)
    if isinstance(v, AnyV):
        return conc(v.cell, val)
    return v


def collect_vars(v, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(v, Cell):
        return collect_vars(v.v, acc, seen)
    if isinstance(v, Fn):
        acc.update(v.vars)
        return acc
    if isinstance(v, Str):
        for x in v.p:
            if isinstance(x, Fn):
                acc.update(x.vars)
        return acc
    if id(v) in seen:
        return acc
    seen.add(id(v))
    if isinstance(v, (Vec, Arr, Tup)):
        for c in v.items:
            collect_vars(c, acc, seen)
    elif isinstance(v, OptV):
        collect_vars(v.has, acc, seen)
        if v.cell:
            collect_vars(v.cell, acc, seen)
    elif isinstance(v, Obj):
        for c in v.f.values():
            collect_vars(c, acc, seen)
        for c in v.ann.values():
            collect_vars(c, acc, seen)
    elif isinstance(v, Ptr) and v.c is not None:
        collect_vars(v.c, acc, seen)
    elif isinstance(v, MapV):
        for k, c in v.items:
            collect_vars(k, acc, seen)
            collect_vars(c, acc, seen)
    elif isinstance(v, Stream):
        collect_vars(v.buf, acc, seen)
    elif isinstance(v, AnyV) and v.cell:
        collect_vars(v.cell, acc, seen)
    elif isinstance(v, CStr):
        collect_vars(v.s, acc, seen)
    return acc


# ------------------------------------------------------------------------------------------------------ interpreter
class Path:
    def __init__(self, kind, value, world, interp, where=None, what=None):
        self.kind, self.value, self.world, self.where, self.what = kind, value, world, where, what
        self.trace = interp.trace
        self.files = interp.files_out

    def __repr__(self):
        return "Path(%s, %r, %s)" % (self.kind, self.value, self.what)


class Interp:
    MAX_STEPS = 400_000
    MAX_DEPTH = 1000

    def __init__(self, prog, stubs=None):
        import models
        self.prog = prog
        self.stubs = stubs or {}
        self.models = models
        self.prefix = []
        self.functions_seen = set()
        self.consts_seen = set()
        self.undecided_why = set()
        self.reset()

    def reset(self):
        self.world = World()
        self.pos = 0
        self.choices = []
        self.steps = 0
        self.depth = 0
        self.trace = []
        self.files_out = {}
        self.globals = {}
        self.statics = {}
        self.cur = []        # stack of (function record, line)
        self.exc_stack = []
        self.fresh = 0

    # -- decisions
    def decide(self, n):
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
        self.pos += 1
        self.choices.append((c, n))
        return c

    def truth(self, v, why=""):
        v = self.rv(v)
        if isinstance(v, (bool, int, np.bool_)):
            return bool(v)
        if isinstance(v, float):
            return v != 0
        if isinstance(v, Fn):
            order, m = self.world.cluster(v.vars)
            t = align(order, Fn(v.vars, v.arr.astype(bool)))
            mt, mf = m & t, m & ~t
            a, b = bool(mt.any()), bool(mf.any())
            if a and b:
                c = self.decide(2) == 0
                self.world.restrict(order, mt if c else mf)
                w = self.where()
                self.trace.append(("%s:%s" % (w[0].rsplit("/", 1)[-1], w[1]) if w else "?", c))
                return c
            if not a and not b:
                raise Undecided("empty world")
            return a
        if isinstance(v, Op):
            if v.key[0] == "not":
                return not self.truth(Op(v.key[1]))
            if v.key in self.world.facts:
                return self.world.facts[v.key]
            c = self.decide(2) == 0
            self.world.facts[v.key] = c
            self.trace.append((v.key, c))
            return c
        if isinstance(v, Ptr):
            return v.c is not None
        if isinstance(v, (CStr, FnRef, Lam)):
            return True
        raise Undecided("truth of %r" % (v,))

    def split_value(self, v):
        """Partitions on the exact value of a scalar."""
        v = self.rv(v)
        if isinstance(v, Fn):
            order, m = self.world.cluster(v.vars)
            arr = np.broadcast_to(align(order, v), m.shape)
            vals = []
            for x in arr[m]:
                if x not in vals:
                    vals.append(x)
            if len(vals) > 300:
                raise Undecided("too many values to split")
            k = self.decide(len(vals))
            sel = np.frompyfunc(lambda x: x == vals[k], 1, 1)(arr).astype(bool)
            self.world.restrict(order, m & sel)
            return vals[k]
        return v

    def possible(self, v):
        """Set of values a scalar takes in the current world (None if opaque)."""
        v = self.rv(v)
        if isinstance(v, Fn):
            order, m = self.world.cluster(v.vars)
            arr = np.broadcast_to(align(order, v), m.shape)
            return set(arr[m])
        if isinstance(v, Op):
            return None
        return {v}

    # -- running
    def explore(self, body, max_paths=6000, budget=120.0, on_path=None):
        """Runs body(interp) for every partition; yields Path objects."""
        self.prefix = []
        n, t0 = 0, time.time()
        while True:
            self.reset()
            try:
                v = body(self)
                p = Path("return", v, self.world, self)
            except CppThrow as e:
                p = Path("throw", e.obj, self.world, self, e.where)
            except UB as e:
                p = Path("abort" if isinstance(e, Abort) else "ub", None, self.world, self, e.where or self.where(), e.what)
            except Undecided as e:
                p = Path("undecided", None, self.world, self, self.where(), str(e))
                self.undecided_why.add(str(e))
            except RecursionError:
                p = Path("undecided", None, self.world, self, self.where(), "recursion too deep")
            except (TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError, ZeroDivisionError, OverflowError) as e:
                if os.environ.get("VERIF_DEBUG"):
                    raise
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                p = Path("undecided", None, self.world, self, self.where(), "outside the model: %s (%s:%d)" % (str(e)[:80], os.path.basename(tb.filename), tb.lineno))
            n += 1
            yield p
            ch = self.choices
            while ch and ch[-1][0] + 1 >= ch[-1][1]:
                ch.pop()
            if not ch:
                return
            self.prefix = [c for c, _ in ch[:-1]] + [ch[-1][0] + 1]
            if n >= max_paths or time.time() - t0 > budget:
                self.reset()
                yield Path("undecided", None, self.world, self, None, "path or time limit after %d paths" % n)
                return

    def where(self):
        for f, l in reversed(self.cur):
            if f is not None:
                return (f["file"], l or f["line"], f["n"])
        return None

    # -- helpers
    def rv(self, x):
        while isinstance(x, Cell):
            x = x.v
        return x

    def copy(self, v):
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, Vec):
            return Vec([Cell(self.copy(c)) for c in v.items], v.kind)
        if isinstance(v, Arr):
            return Arr([Cell(self.copy(c)) for c in v.items])
        if isinstance(v, Tup):
            return Tup([Cell(self.copy(c)) if not (c.meta == "ref") else c for c in v.items])
        if isinstance(v, OptV):
            return OptV(v.has, Cell(self.copy(v.cell)) if v.cell is not None else None)
        if isinstance(v, MapV):
            return MapV(v.kind, [(k, Cell(self.copy(c))) for k, c in v.items])
        if isinstance(v, AnyV):
            return AnyV(v.t, Cell(self.copy(v.cell)) if v.cell is not None else None)
        if isinstance(v, Obj):
            k = self.special(v.cls, "copy")
            if k:
                return self.construct_with(k, v.cls, [Cell(v)])
            return self.memberwise(v)
        if isinstance(v, Lam):
            return v
        if isinstance(v, Stream):
            raise Undecided("copy of a stream")
        return v

    def memberwise(self, v):
        o = Obj(v.cls)
        for n, c in v.f.items():
            nc = Cell(self.copy(c)) if c.meta != "ref" else c
            o.f[n] = nc
        o.ann = {k: Cell(self.copy(c)) for k, c in v.ann.items()}
        return o

    def special(self, cls, kind):
        """Key of a user-provided copy constructor, if any."""
        r = self.prog.records.get(cls)
        if not r or r.get("ext"):
            return None
        for m in r.get("methods", ()):
            if m.get("dflt") or m.get("del"):
                continue
            f = self.prog.functions.get(m["key"])
            if f and "inits" in f and len(f["params"]) == 1 and f["params"][0]["t"] == "const %s &" % cls:
                return m["key"]
        return None

    def record(self, cls):
        return self.prog.records.get(cls)

    def is_a(self, cls, base):
        if cls == base:
            return True
        r = self.prog.records.get(cls)
        if r:
            return any(self.is_a(b, base) for b in r["bases"])
        return self.models.std_is_a(cls, base)

    # -- functions
    def func(self, key, unit=None):
        if unit and key in self.prog.by_unit.get(unit, {}):
            return self.prog.by_unit[unit][key]
        return self.prog.functions.get(key)

    def call_fn(self, f, args, this=None, env0=None, this_cell=None):
        """Calls a function record with argument cells/values."""
        if f["unit"] in self.prog.bad_units:
            raise Undecided("%s does not type-check" % f["unit"])
        self.depth += 1
        if self.depth > self.MAX_DEPTH:
            self.depth = 0
            raise Undecided("call depth")
        self.functions_seen.add(f["key"])
        env = dict(env0) if env0 else {}
        ps = f["params"]
        if len(args) < len(ps):
            if not all("d" in p for p in ps[len(args):]):
                raise Undecided("missing arguments for %s" % f["n"])
            args = list(args) + [self.arg(p["d"], Frame(f, {}, None)) for p in ps[len(args):]]
        for p, a in zip(ps, args):
            if is_ref(p["t"]):
                env[p["id"]] = a if isinstance(a, Cell) else Cell(a)
            else:
                env[p["id"]] = Cell(self.rv(a) if not isinstance(a, Cell) else self.copy(a))
        fr = Frame(f, env, this)
        self.cur.append((f, None))
        n = len(self.cur)
        ne = len(self.exc_stack)
        try:
            try:
                self.stmt(f["body"], fr)
            except Ret as r:
                return r.v
            if f["ret"] not in ("void",) and "inits" not in f and not f.get("dtor"):
                raise UB("control reaches the end of %s without a value" % f["n"])
            return VOID
        except CppThrow:
            if f.get("noexcept"):
                raise Abort("exception leaves noexcept function %s" % f["n"], self.where())
            raise
        finally:
            import sys
            et = sys.exc_info()[0]
            if et is None or issubclass(et, (CppThrow, Ret, Brk, Cont)):
                del self.cur[n - 1:]
                del self.exc_stack[ne:]
                self.depth -= 1

    def construct_with(self, key, cls, args):
        f = self.func(key)
        o = Obj(cls)
        cell = Cell(o)
        self.run_ctor(f, cell, args)
        return o

    def run_ctor(self, f, cell, args):
        o = cell.v
        env = {}
        if len(args) < len(f["params"]) and all("d" in p for p in f["params"][len(args):]):
            args = list(args) + [self.arg(p["d"], Frame(f, {}, None)) for p in f["params"][len(args):]]
        for p, a in zip(f["params"], args):
            if is_ref(p["t"]):
                env[p["id"]] = a if isinstance(a, Cell) else Cell(a)
            else:
                env[p["id"]] = Cell(self.rv(a) if not isinstance(a, Cell) else self.copy(a))
        fr = Frame(f, env, cell)
        self.functions_seen.add(f["key"])
        self.cur.append((f, None))
        n = len(self.cur)
        try:
            for i in f.get("inits", ()):
                if "f" in i:
                    if is_ref(i.get("ft", "")):
                        c = self.expr(i["e"], fr)
                        c = c if isinstance(c, Cell) else Cell(c)
                        if c.meta is None:
                            c2 = RefCell(c)
                            o.f[i["f"]] = c2
                        continue
                    v = self.init_value(i["e"], fr, i.get("ft"))
                    o.f[i["f"]] = Cell(v)
                elif i.get("deleg"):
                    v = self.rv(self.expr(i["e"], fr))
                    o.f.update(v.f)
                elif "base" in i:
                    self.init_base(cell, i["base"], i["e"], fr)
            try:
                self.stmt(f["body"], fr)
            except Ret:
                pass
        finally:
            import sys
            et = sys.exc_info()[0]
            if et is None or issubclass(et, (CppThrow, Ret)):
                del self.cur[n - 1:]

    def init_base(self, cell, base, e, fr):
        o = cell.v
        r = self.record(base)
        if e is None:
            return
        if r is not None and not r.get("ext"):
            if e["k"] == "ctor":
                args = [self.arg(a, fr) for a in e["a"]]
                f = self.func(e["key"], fr.f["unit"])
                if f and not f.get("dflt"):
                    self.run_ctor(f, cell, args)
                else:
                    src = args[0] if args else None
                    if src is not None and (e.get("copy") or e.get("move")):
                        so = self.rv(src)
                        for fd in self.all_fields(base):
                            if fd["n"] in so.f:
                                o.f[fd["n"]] = Cell(self.copy(so.f[fd["n"]]))
                    else:
                        self.default_fields(o, base, fr)
                return
            v = self.rv(self.expr(e, fr))
            if isinstance(v, Obj):
                o.f.update(v.f)
                return
            raise Undecided("base initialiser %s" % e["k"])
        # library base
        args = [self.rv(self.expr(a, fr)) for a in e.get("a", [])] if e["k"] in ("ctor", "ilist") else []
        self.models.init_library_base(self, o, base, args)

    def all_fields(self, cls):
        r = self.record(cls)
        if not r or r.get("ext"):
            return []
        out = []
        for b in r["bases"]:
            out += self.all_fields(b)
        return out + r.get("fields", [])

    def default_fields(self, o, cls, fr):
        r = self.record(cls)
        if not r:
            raise Undecided("unknown class %s" % cls)
        for b in r["bases"]:
            br = self.record(b)
            if br and not br.get("ext"):
                self.default_fields(o, b, fr)
            else:
                self.models.init_library_base(self, o, b, [])
        for fd in r.get("fields", ()):
            if "init" in fd:
                f2 = Frame({"unit": r["unit"], "n": cls, "file": r["file"], "line": r["line"]}, {}, Cell(o))
                o.f[fd["n"]] = Cell(self.init_value(fd["init"], f2, fd["t"]))
            else:
                o.f[fd["n"]] = Cell(self.default_value(fd["t"]))

    def default_value(self, t):
        t = base_type(t)
        if t in INT or t in FLT:
            return Uninit(t)
        if t.endswith("*"):
            return Ptr(None)
        return self.models.construct(self, t, [], None)

    def zero(self, t):
        t = base_type(t)
        if t == "bool":
            return False
        if t in INT:
            return 0
        if t in FLT:
            return 0.0
        if t.endswith("*"):
            return Ptr(None)
        if t in self.prog.enums:
            return 0
        return self.models.construct(self, t, [], None)

    def init_value(self, e, fr, t=None):
        v = self.expr(e, fr)
        if isinstance(v, Cell):
            v = self.copy(v)
        return v

    def arg(self, e, fr):
        return self.expr(e, fr)

    # -- statements
    def stmt(self, s, fr):
        if s is None:
            return
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Undecided("step limit")
        k = s["k"]
        if "l" in s and self.cur:
            self.cur[-1] = (fr.f, s["l"])
        getattr(self, "s_" + k, self.s_unknown)(s, fr)

    def s_unknown(self, s, fr):
        raise Undecided("statement %s" % s.get("d", s["k"]))

    def s_nop(self, s, fr):
        pass

    def s_blk(self, s, fr):
        dt = fr.dtors
        fr.dtors = []
        try:
            for x in s["s"]:
                self.stmt(x, fr)
        finally:
            mine, fr.dtors = fr.dtors, dt
            if mine:
                self.run_dtors(mine)

    def run_dtors(self, cells):
        import sys
        et = sys.exc_info()[0]
        if et is not None and issubclass(et, (UB, Undecided)):
            return
        for c in reversed(cells):
            f = self.dtor_of(c.v)
            if f:
                self.call_fn(f, [], c)

    def dtor_of(self, v):
        if isinstance(v, Obj):
            r = self.record(v.cls)
            if r:
                for m in r.get("methods", ()):
                    if m["n"].startswith("~"):
                        f = self.prog.functions.get(m["key"])
                        if f and not f.get("dflt") and f["body"] and f["body"].get("s"):
                            return f
        return None

    def s_decl(self, s, fr):
        for v in s["v"]:
            self.vardecl(v, fr)

    def vardecl(self, v, fr):
        if v.get("static"):
            key = (fr.f["key"] if "key" in fr.f else fr.f["n"], v["n"], v["l"])
            if key not in self.statics:
                self.statics[key] = Cell(self.init_value(v["init"], fr, v["t"]) if v.get("init") else self.zero(v["t"]))
            fr.env[v["id"]] = self.statics[key]
            return
        if v.get("init") is None:
            fr.env[v["id"]] = Cell(self.default_value(v["t"]))
        else:
            x = self.expr(v["init"], fr)
            if is_ref(v["t"]):
                c = x if isinstance(x, Cell) else Cell(x)
            else:
                if v["t"].rstrip().endswith(("*", "*const", "* const")) and isinstance(self.rv(x), Arr):
                    x = It(self.rv(x), 0)
                c = Cell(self.copy(x) if isinstance(x, Cell) else x)
                if self.dtor_of(c.v):
                    fr.dtors.append(c)
            fr.env[v["id"]] = c
        if v.get("binds"):
            self.bind(v, fr)

    def bind(self, v, fr):
        c = fr.env[v["id"]]
        x = c.v
        if isinstance(x, Tup):
            cells = x.items
        elif isinstance(x, Obj):
            cells = [x.f[n["n"]] for n in self.all_fields(x.cls)] or list(x.f.values())
        elif isinstance(x, Nat) and x.name == "subrange":
            cells = [Cell(x.a), Cell(x.b)]
        elif isinstance(x, (Arr, Vec)):
            cells = x.items
        else:
            raise Undecided("structured binding of %r" % (x,))
        for b, cc in zip(v["binds"], cells):
            fr.env[b["id"]] = cc

    def s_x(self, s, fr):
        self.expr(s["e"], fr)

    def s_if(self, s, fr):
        if s.get("init"):
            self.stmt(s["init"], fr)
        if s.get("cv"):
            self.vardecl(s["cv"], fr)
        if self.truth(self.expr(s["c"], fr)):
            self.stmt(s["a"], fr)
        elif s.get("b"):
            self.stmt(s["b"], fr)

    def loop(self, cond, body, inc):
        n = 0
        while True:
            if not cond():
                return
            try:
                body()
            except Brk:
                return
            except Cont:
                pass
            inc()
            n += 1
            if n > 2000:
                raise Undecided("more than 2000 iterations of a loop")

    def s_for(self, s, fr):
        if s.get("init"):
            self.stmt(s["init"], fr)
        self.loop(lambda: s.get("c") is None or self.truth(self.expr(s["c"], fr)),
                  lambda: self.stmt(s["b"], fr),
                  lambda: s.get("inc") is not None and self.expr(s["inc"], fr))

    def s_while(self, s, fr):
        def cond():
            if s.get("cv"):
                self.vardecl(s["cv"], fr)
            return self.truth(self.expr(s["c"], fr))
        self.loop(cond, lambda: self.stmt(s["b"], fr), lambda: None)

    def s_do(self, s, fr):
        first = [True]

        def cond():
            if first[0]:
                first[0] = False
                return True
            return self.truth(self.expr(s["c"], fr))
        self.loop(cond, lambda: self.stmt(s["b"], fr), lambda: None)

    def s_rfor(self, s, fr):
        if s.get("init"):
            self.stmt(s["init"], fr)
        r = self.expr(s["r"], fr)
        v = s["v"]
        byref = is_ref(v["t"])
        for c in self.models.iterate(self, r):
            cc = c if byref and isinstance(c, Cell) else Cell(self.copy(c))
            if isinstance(cc.v, (int, Fn)) and base_type(v["t"]) in INT and self.models.is_string(self.rv(r)):
                cc = Cell(self.conv_int(cc.v, base_type(v["t"])))
            fr.env[v["id"]] = cc
            if v.get("binds"):
                self.bind(v, fr)
            try:
                self.stmt(s["b"], fr)
            except Brk:
                break
            except Cont:
                continue

    def s_switch(self, s, fr):
        if s.get("init"):
            self.stmt(s["init"], fr)
        if s.get("cv"):
            self.vardecl(s["cv"], fr)
        v = self.rv(self.expr(s["c"], fr))
        items = s["s"]
        start = None
        for i, x in enumerate(items):
            if x["k"] == "case":
                lo = int(x["v"])
                if "v2" in x:
                    c = self.binop("&&", self.binop(">=", v, lo, "bool"), self.binop("<=", v, int(x["v2"]), "bool"), "bool")
                else:
                    c = self.binop("==", v, lo, "bool")
                if self.truth(c):
                    start = i
                    break
        if start is None:
            for i, x in enumerate(items):
                if x["k"] == "default":
                    start = i
        if start is None:
            return
        try:
            for x in items[start:]:
                if x["k"] not in ("case", "default"):
                    self.stmt(x, fr)
        except Brk:
            pass

    def s_ret(self, s, fr):
        if s.get("e") is None:
            raise Ret(VOID)
        v = self.expr(s["e"], fr)
        if not is_ref(fr.f.get("ret", "")):
            if isinstance(v, Cell):
                v = self.copy(v)
        raise Ret(v)

    def s_break(self, s, fr):
        raise Brk()

    def s_cont(self, s, fr):
        raise Cont()

    def s_try(self, s, fr):
        depth, ncur, nexc = self.depth, len(self.cur), len(self.exc_stack)
        try:
            self.stmt(s["b"], fr)
        except CppThrow as e:
            del self.cur[ncur:]
            del self.exc_stack[nexc:]
            self.depth = depth
            for h in s["h"]:
                if "t" not in h or (isinstance(e.obj, Obj) and self.is_a(e.obj.cls, h["t"])):
                    if "id" in h:
                        fr.env[h["id"]] = Cell(e.obj) if h["ref"] else Cell(self.slice(e.obj, h["t"]))
                    self.exc_stack.append(e)
                    try:
                        self.stmt(h["b"], fr)
                    finally:
                        if len(self.exc_stack) > nexc:
                            del self.exc_stack[nexc:]
                    return
            raise

    def slice(self, o, t):
        if o.cls == t:
            return self.copy(o)
        n = self.memberwise(o)
        n.cls = t
        return n

    # -- expressions
    def expr(self, e, fr):
        if e is None:
            return None
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Undecided("step limit")
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Undecided("expression %s" % e.get("d", e["k"]))
        return m(e, fr)

    def e_unk(self, e, fr):
        raise Undecided("expression %s" % e.get("d"))

    def e_int(self, e, fr):
        return int(e["v"])

    def e_bool(self, e, fr):
        return bool(e["v"])

    def e_flt(self, e, fr):
        return float(e["v"])

    def e_str(self, e, fr):
        return CStr(Str(tuple(e["v"])))

    def e_memptr(self, e, fr):
        return Nat("memptr", field=e["n"])

    def e_null(self, e, fr):
        return Ptr(None)

    def e_this(self, e, fr):
        return Ptr(fr.this)

    def e_zero(self, e, fr):
        return self.zero(e["t"])

    def e_srcloc(self, e, fr):
        return 0

    def e_tpo(self, e, fr):
        return self.models.construct(self, base_type(e["t"]), [], None)

    def e_fn(self, e, fr):
        return FnRef(e["f"])

    def e_var(self, e, fr):
        if "g" in e:
            return self.global_var(e["g"])
        if e["id"] in fr.env:
            return fr.env[e["id"]]
        raise Undecided("variable %s is not in scope" % e["n"])

    def global_var(self, name):
        if name in self.globals:
            return self.globals[name]
        g = self.prog.globals.get(name)
        nat = self.models.native_global(name)
        if nat is not None:
            c = nat if isinstance(nat, Cell) else Cell(nat)
        elif g is None:
            raise Undecided("global %s" % name)
        elif "init" in g:
            c = Cell(None)
            self.globals[name] = c
            f = Frame({"unit": g["unit"], "n": name, "file": g["file"], "line": g["line"], "key": name}, {}, None)
            c.v = self.init_value(g["init"], f, g["t"])
        elif "val" in g:
            c = Cell(int(g["val"]))
        else:
            c = Cell(self.default_value(g["t"]))
        self.globals[name] = c
        return c

    def e_load(self, e, fr):
        v = self.expr(e["e"], fr)
        v = self.rv(v)
        if isinstance(v, Uninit):
            raise UB("read of an uninitialised %s" % v.t)
        if isinstance(v, Arr):
            return v
        if isinstance(v, (Obj, Vec)):
            return self.copy(v)
        return v

    def e_mem(self, e, fr):
        b = self.expr(e["b"], fr)
        if e.get("arrow"):
            b = self.deref(b)
        o = self.rv(b)
        if isinstance(o, Obj):
            if e["n"] not in o.f:
                c = self.models.missing_field(self, o, e["n"])
                if c is None:
                    raise Undecided("field %s of %s" % (e["n"], o.cls))
                o.f[e["n"]] = c
            c = o.f[e["n"]]
            return c.target if isinstance(c, RefCell) else c
        if isinstance(o, Tup) and e["n"] in ("first", "second"):
            c = o.items[0 if e["n"] == "first" else 1]
            return c.target if isinstance(c, RefCell) else c
        r = self.models.member(self, o, e["n"])
        if r is not None:
            return r
        raise Undecided("member %s of %r" % (e["n"], type(o).__name__))

    def deref(self, p):
        p = self.rv(p)
        if isinstance(p, Ptr):
            if p.c is None:
                raise UB("null pointer dereference", self.where())
            return p.c
        if isinstance(p, It):
            return self.models.it_deref(self, p)
        if isinstance(p, CStr):
            return self.models.cstr_at(self, p, 0)
        if isinstance(p, Arr):
            return p.items[0]
        if isinstance(p, OptV):
            if not self.truth(p.has):
                raise UB("dereference of an empty optional", self.where())
            return p.cell
        raise Undecided("dereference of %r" % (p,))

    def e_idx(self, e, fr):
        a, b = self.rv(self.expr(e["a"], fr)), self.rv(self.expr(e["b"], fr))
        if isinstance(a, Arr):
            i = self.split_value(b)
            if not isinstance(i, int):
                raise Undecided("array index")
            if not 0 <= i < len(a.items):
                raise UB("array index %s out of bounds" % i, self.where())
            return a.items[i]
        if isinstance(a, It):
            return self.models.it_deref(self, self.models.it_add(self, a, b))
        if isinstance(a, CStr):
            return self.models.cstr_at(self, a, b)
        raise Undecided("subscript of %r" % (a,))

    def e_cond(self, e, fr):
        if self.truth(self.expr(e["c"], fr)):
            return self.expr(e["a"], fr)
        return self.expr(e["b"], fr)

    def e_throw(self, e, fr):
        if "e" not in e:
            if not self.exc_stack:
                raise Abort("rethrow without an exception", self.where())
            raise self.exc_stack[-1]
        v = self.expr(e["e"], fr)
        v = self.copy(v) if isinstance(v, Cell) else v
        w = (fr.f["file"], e.get("l"), fr.f["n"])
        if not isinstance(v, Obj):
            o = Obj("?value " + e.get("t", ""))
            v = o
        raise CppThrow(v, w)

    def e_new(self, e, fr):
        v = self.expr(e["e"], fr) if e.get("e") else self.default_value(e["t"])
        return Ptr(Cell(self.rv(v)))

    def e_delete(self, e, fr):
        return VOID

    def e_lam(self, e, fr):
        env = {}
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = fr.this if c.get("byref") else Cell(self.copy(fr.this))
            elif c["byref"]:
                if c.get("init") is not None:
                    x = self.expr(c["init"], fr)
                    env[c["id"]] = x if isinstance(x, Cell) else Cell(x)
                elif c["id"] in fr.env:
                    env[c["id"]] = fr.env[c["id"]]
            else:
                x = self.expr(c["init"], fr) if c.get("init") is not None else fr.env[c["id"]]
                env[c["id"]] = Cell(self.copy(x) if isinstance(x, Cell) else x)
        return Lam(e, env, this, fr.f["unit"])

    def e_asg(self, e, fr):
        b = self.rv(self.expr(e["b"], fr))
        a = self.expr(e["a"], fr)
        if not isinstance(a, Cell):
            raise Undecided("assignment to %r" % (a,))
        self.models.store(self, a, b)
        return a

    def e_casg(self, e, fr):
        a = self.expr(e["a"], fr)
        b = self.rv(self.expr(e["b"], fr))
        if not isinstance(a, Cell):
            raise Undecided("assignment to %r" % (a,))
        av = self.rv(a)
        if isinstance(av, Uninit):
            raise UB("read of an uninitialised variable", self.where())
        t, ct = base_type(e["t"]), base_type(e.get("ct", e["t"]))
        if isinstance(av, (It, CStr)):
            r = self.models.it_add(self, av, b if e["op"] == "+" else self.unop("-", b, "long"))
        else:
            if ct in INT:
                av = self.conv_int(av, ct)
            elif ct in FLT:
                av = self.to_float(av, ct)
            r = self.binop(e["op"], av, b, ct)
            if t in INT:
                r = self.conv_int(r, t) if ct not in FLT else self.models.float_to_int(self, r, t) if not isinstance(r, Op) else Op(("toint", t, r.key), t)
            elif t == "float":
                r = self.to_float(r, t)
        self.models.store(self, a, r)
        return a

    def e_un(self, e, fr):
        op = e["op"]
        x = self.expr(e["e"], fr)
        t = base_type(e["t"])
        if op == "&":
            if isinstance(x, Nat) and x.name == "memptr":
                return x
            return Ptr(x if isinstance(x, Cell) else Cell(x))
        if op == "*":
            return self.deref(x)
        if op in ("++", "--", "++post", "--post"):
            old = self.rv(x)
            if isinstance(old, Uninit):
                raise UB("read of an uninitialised variable", self.where())
            if isinstance(old, (It, CStr)):
                new = self.models.it_add(self, old, 1 if op[0] == "+" else -1)
            else:
                if t in FLT:
                    new = self.binop(op[0], old, 1.0, t)
                elif INT[t][0] < 32:
                    new = self.conv_int(self.binop(op[0], old, 1, "int"), t)
                else:
                    new = self.binop(op[0], old, 1, t)
            x.v = new
            return old if "post" in op else x
        v = self.rv(x)
        if op == "!":
            return self.lnot(v)
        if op in ("__extension__", "+"):
            return v
        return self.unop(op, v, t)

    def lnot(self, v):
        if isinstance(v, (bool, int, float)):
            return not v
        if isinstance(v, Fn):
            return lift(lambda x: not x, v)
        if isinstance(v, Op):
            return Op(v.key[1]) if v.key[0] == "not" else Op(("not", v.key))
        return not self.truth(v)

    def unop(self, op, v, t):
        if isinstance(v, Op):
            return Op(("un", op, v.key, t), t)
        if op == "-":
            if t in FLT:
                return lift(lambda x: -x, v)
            r = lift(lambda x: -x, v)
            return self.fit(r, t, "negation")
        if op == "~":
            return self.conv_int(lift(lambda x: ~int(x), v), t)
        raise Undecided("unary %s" % op)

    def fit(self, r, t, what):
        """Signed overflow is undefined, unsigned arithmetic wraps."""
        if t not in INT:
            return r
        if t == "bool":
            return lift(bool, r)
        b, s = INT[t]
        if not s:
            return self.conv_int(r, t)
        lo, hi = int_range(t)
        if isinstance(r, Fn):
            bad = lift(lambda x: not (lo <= x <= hi), r)
            if self.truth(bad):
                raise UB("signed integer overflow in %s" % what, self.where())
            return r
        if not lo <= r <= hi:
            raise UB("signed integer overflow in %s" % what, self.where())
        return r

    def conv_int(self, v, t):
        if isinstance(v, Op):
            return Op(("conv", t, v.key), t) if v.t != t else v
        if t == "bool" and isinstance(v, (Fn, int, float)):
            return lift(bool, v)
        if isinstance(v, Fn):
            lo, hi = int_range(t)
            return lift(lambda x: wrap(x, t), v)
        if isinstance(v, (int, bool)):
            return wrap(v, t)
        if isinstance(v, float):
            return int(v)
        return v

    def to_float(self, v, t="double"):
        if isinstance(v, Op):
            if t == "float" and v.t != "float":
                return Op(("float32", v.key), "float")
            return Op(("float", v.key), "double") if v.t not in FLT else v
        return lift(f32 if t == "float" else float, v)

    def e_bin(self, e, fr):
        op = e["op"]
        if op == "&&":
            a = self.expr(e["a"], fr)
            if not self.truth(a):
                return False
            return self.truth(self.expr(e["b"], fr))
        if op == "||":
            a = self.expr(e["a"], fr)
            if self.truth(a):
                return True
            return self.truth(self.expr(e["b"], fr))
        if op == ",":
            self.expr(e["a"], fr)
            return self.expr(e["b"], fr)
        a, b = self.rv(self.expr(e["a"], fr)), self.rv(self.expr(e["b"], fr))
        return self.binop(op, a, b, base_type(e["t"]))

    def note_const(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) and not isinstance(y, bool):
                self.consts_seen.add(y)
                if isinstance(x, Fn):
                    for v in x.vars:
                        v.consts.add(y)

    def binop(self, op, a, b, t):
        if isinstance(a, (Ptr, It, CStr, Arr)) or isinstance(b, (Ptr, It, CStr, Arr)):
            return self.models.ptr_binop(self, op, a, b)
        if isinstance(a, Uninit) or isinstance(b, Uninit):
            raise UB("use of an uninitialised value", self.where())
        if op in ("==", "!=", "<", ">", "<=", ">=", "<=>"):
            if isinstance(a, (FnRef, Lam)) or isinstance(b, (FnRef, Lam)):
                raise Undecided("comparison of functions")
            self.note_const(a, b)
            return self.cmp(op, a, b)
        if isinstance(a, Op) or isinstance(b, Op):
            ka = a.key if isinstance(a, Op) else ("fn", id(a)) if isinstance(a, Fn) else a
            kb = b.key if isinstance(b, Op) else ("fn", id(b)) if isinstance(b, Fn) else b
            # identities that keep simple length arithmetic exact
            if op in ("+", "-") and isinstance(b, int) and b == 0:
                return a
            if op in ("+", "-") and isinstance(a, Op) and a.key[0] == "sum" and isinstance(b, int):
                off = a.key[2] + (b if op == "+" else -b)
                return a.key[3] if off == 0 else Op(("sum", a.key[1], off, a.key[3]), t)
            if op in ("+", "-") and isinstance(a, Op) and isinstance(b, int):
                return Op(("sum", ka, b if op == "+" else -b, a), t)
            return Op(("bin", op, ka, kb, t), t)
        if t in FLT:
            r = self.fbin(op, a, b)
            return self.to_float(r, t) if t == "float" else r
        if op in ("/", "%"):
            z = lift(lambda y: y == 0, b)
            if self.truth(z):
                raise UB("division by zero", self.where())
            if INT[t][1]:
                lo, _ = int_range(t)
                o = lift(lambda x, y: x == lo and y == -1, a, b)
                if self.truth(o):
                    raise UB("signed integer overflow in division", self.where())

            def div(x, y):
                if y == 0:
                    return 0
                q = abs(x) // abs(y)
                q = -q if (x < 0) != (y < 0) else q
                return q if op == "/" else x - q * y
            return lift(div, a, b)
        if op in ("<<", ">>"):
            bits, s = INT[t]
            bad = lift(lambda y: not 0 <= y < bits, b)
            if self.truth(bad):
                raise UB("shift amount out of range", self.where())
            if op == "<<":
                return self.conv_int(lift(lambda x, y: int(x) << (y if 0 <= y < 200 else 0), a, b), t)
            return lift(lambda x, y: int(x) >> (y if 0 <= y < 200 else 0), a, b)
        fs = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y,
              "&": lambda x, y: int(x) & int(y), "|": lambda x, y: int(x) | int(y), "^": lambda x, y: int(x) ^ int(y)}
        if op not in fs:
            raise Undecided("operator %s" % op)
        r = lift(fs[op], a, b)
        return self.fit(r, t, {"+": "addition", "-": "subtraction", "*": "multiplication"}.get(op, op))

    def fbin(self, op, a, b):
        def div(x, y):
            try:
                return x / y
            except ZeroDivisionError:
                import math
                return math.nan if x == 0 or math.isnan(x) else math.copysign(math.inf, x) * math.copysign(1, y)
        fs = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": div}
        if op not in fs:
            raise Undecided("operator %s" % op)
        return lift(fs[op], a, b)

    def cmp(self, op, a, b):
        if isinstance(a, Op) or isinstance(b, Op):
            if op == "<=>":
                if self.truth(self.cmp("<", a, b)):
                    return -1
                return 1 if self.truth(self.cmp(">", a, b)) else 0
            return self.cmp_op(op, a, b)
        fs = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y, ">": lambda x, y: x > y,
              "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y, "<=>": lambda x, y: (x > y) - (x < y)}
        if isinstance(a, (int, float, Fn, np.bool_)) and isinstance(b, (int, float, Fn, np.bool_)):
            return lift(fs[op], a, b)
        raise Undecided("comparison of %r and %r" % (a, b))

    def cmp_op(self, op, a, b):
        ka = a.key if isinstance(a, Op) else a if not isinstance(a, Fn) else ("fn", tuple(v.n for v in a.vars), id(a))
        kb = b.key if isinstance(b, Op) else b if not isinstance(b, Fn) else ("fn", tuple(v.n for v in b.vars), id(b))
        if ka == kb:
            return op in ("==", "<=", ">=")
        # unsigned opaque lengths are never negative
        if isinstance(b, int) and isinstance(a, Op) and a.key[0] == "len":
            lo = a.key[2]
            if b <= lo:
                if op == ">=" or (op == ">" and b < lo) or (op == "!=" and b < lo):
                    return True
                if op == "<" or (op == "<=" and b < lo) or (op == "==" and b < lo):
                    return False
        # orient to == and < only
        if op == "!=":
            return self.lnot(self.cmp_op("==", a, b))
        if op == "==":
            k = ("==",) + tuple(sorted((ka, kb), key=repr))
            return Op(k, "bool")
        if op == ">":
            return self.cmp_op("<", b, a)
        if op == "<=":
            return self.lnot(self.cmp_op("<", b, a))
        if op == ">=":
            return self.lnot(self.cmp_op("<", a, b))
        return Op(("<", ka, kb), "bool")

    def e_cast(self, e, fr):
        ck = e["ck"]
        t = base_type(e["t"])
        x = self.expr(e["e"], fr)
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast"):
            if ck != "LValueBitCast":
                return x
        v = self.rv(x)
        if ck == "IntegralCast":
            if t in INT:
                return self.conv_int(v, t)
            return v
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            if isinstance(v, Op):
                return self.lnot(self.cmp("==", v, 0))
            return lift(lambda q: q != 0, v)
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            if isinstance(v, Op):
                return v
            return self.truth(v)
        if ck == "IntegralToFloating":
            return self.to_float(v, t)
        if ck == "FloatingCast":
            return self.to_float(v, "float") if t == "float" else v
        if ck == "FloatingToIntegral":
            if isinstance(v, Op):
                return Op(("toint", t, v.key), t)
            return self.models.float_to_int(self, v, t)
        if ck == "ToVoid":
            return VOID
        if ck == "NullToPointer":
            return Ptr(None)
        if ck == "BitCast":
            return x
        if ck == "Dynamic":
            return self.models.dynamic_cast(self, v, e["t"])
        raise Undecided("cast %s" % ck)

    def e_ilist(self, e, fr):
        t = base_type(e["t"])
        items = [self.expr(a, fr) for a in e["a"]]
        if t.endswith("]"):
            n = e.get("sz")
            cells = [Cell(self.copy(x) if isinstance(x, Cell) else x) for x in items]
            if n:
                while len(cells) < n:
                    cells.append(Cell(self.expr(e["fill"], fr)))
            return Arr(cells)
        if t in INT or t in FLT or t.endswith("*"):
            return self.rv(items[0]) if items else self.zero(t)
        r = self.record(t)
        if r is not None and not r.get("ext"):
            o = Obj(t)
            it = iter(items)
            for b in r["bases"]:
                v = self.rv(next(it, None))
                if isinstance(v, Obj):
                    o.f.update(v.f)
            for fd in r.get("fields", ()):
                try:
                    v = next(it)
                    if is_ref(fd["t"]):
                        o.f[fd["n"]] = RefCell(v if isinstance(v, Cell) else Cell(v))
                        continue
                    o.f[fd["n"]] = Cell(self.copy(v) if isinstance(v, Cell) else v)
                except StopIteration:
                    o.f[fd["n"]] = Cell(self.default_value(fd["t"]))
            return o
        return self.models.construct(self, t, items, e)

    def e_typeid(self, e, fr):
        raise Undecided("typeid")

    def e_inhctor(self, e, fr):
        raise Undecided("inherited constructor")

    def e_ctor(self, e, fr):
        t = base_type(e["t"])
        if (e.get("copy") or e.get("move")) and len(e["a"]) >= 1:
            x = self.expr(e["a"][0], fr)
            f = self.func(e["key"], fr.f["unit"])
            if f is not None and not f.get("dflt") and not f.get("impl"):
                return self.construct_ctor(f, t, [x])
            if not isinstance(x, Cell):
                return x
            v = self.rv(x)
            if isinstance(v, Obj):
                n = self.copy(v)
                if n.cls != t and self.is_a(n.cls, t):
                    n.cls = t
                return n
            return self.models.move_or_copy(self, x, bool(e.get("move")))
        f = self.func(e["key"], fr.f["unit"])
        if f is not None and not (f.get("dflt") or f.get("impl")) and t not in self.models.NATIVE_CLASSES:
            args = [self.arg(a, fr) for a in e["a"]]
            return self.construct_ctor(f, t, args)
        r = self.record(t)
        args = [self.expr(a, fr) for a in e["a"]]
        if r is not None and not r.get("ext") and t not in self.models.NATIVE_CLASSES and not args:
            o = Obj(t)
            self.default_fields(o, t, fr)
            return o
        return self.models.construct(self, t, args, e)

    def construct_ctor(self, f, t, args):
        o = Obj(t)
        c = Cell(o)
        # fields without an initialiser are default-initialised by the compiler-provided initialiser list
        self.run_ctor(f, c, args)
        for fd in self.all_fields(t):
            if fd["n"] not in o.f:
                o.f[fd["n"]] = Cell(self.default_value(fd["t"]))
        return o

    # -- calls
    def e_call(self, e, fr):
        n = e["n"]
        if self.cur:
            self.cur[-1] = (fr.f, e.get("l"))
        if n == "?indirect":
            fn = self.rv(self.expr(e["fn"], fr))
            args = [self.arg(a, fr) for a in e["a"]]
            return self.invoke(fn, args, e)
        sn = strip(n) if not e.get("lam") else "lambda()"
        obj = None
        if "obj" in e:
            obj = self.expr(e["obj"], fr)
            if e.get("arrow"):
                p = self.rv(obj)
                if isinstance(p, Ptr):
                    if p.c is None:
                        raise UB("null pointer dereference calling %s" % n, self.where())
                    obj = p.c
                else:
                    obj = self.deref(obj)
        if e.get("op") in ("&&", "||") and obj is None and sn.startswith("operator"):
            pass
        args = [self.arg(a, fr) for a in e["a"]]
        if self.cur:
            self.cur[-1] = (fr.f, e.get("l"))
        r = self.dispatch(e, sn, obj, args, fr)
        if self.cur:
            self.cur[-1] = (fr.f, e.get("l"))
        return r

    def dispatch(self, e, sn, obj, args, fr):
        if sn in self.stubs:
            return self.stubs[sn](self, obj, args, e)
        ov = self.rv(obj) if obj is not None else None
        if isinstance(ov, Lam):
            return self.call_lambda(ov, args, e.get("key"))
        key = e["key"]
        if obj is not None and isinstance(ov, Obj):
            k2 = self.virtual_target(ov, key) if e.get("virt") and not e.get("nonvirt") else key
            if k2 != key:
                f = self.func(k2)
                if f:
                    if f["sn"] in self.stubs:
                        return self.stubs[f["sn"]](self, obj, args, e)
                    return self.call_fn(f, args, obj)
            m = self.models.obj_method(self, ov, sn, obj, args, e)
            if m is not NotImplemented:
                return m
        nat = self.models.lookup(sn)
        if nat is not None and nat[1]:
            return nat[0](self, obj, args, e)
        f = self.func(key, fr.f.get("unit") if fr else None)
        if f is not None and not f.get("dflt"):
            if f.get("st") or obj is None:
                return self.call_fn(f, args, None)
            return self.call_fn(f, args, obj if isinstance(obj, Cell) else Cell(obj))
        if nat is not None:
            return nat[0](self, obj, args, e)
        if e.get("dflt") and obj is not None and isinstance(ov, Obj):
            return self.models.defaulted(self, sn, obj, args, e)
        if obj is not None:
            return self.models.method(self, obj, sn.split("::")[-1], args, e)
        if sn.endswith("::operator<<") and len(args) == 2 and self.models.node_kind(self, self.rv(args[1])):
            return self.models.stream_put(self, args[0], args[1], None)  # generated code
        raise Undecided("call to %s" % sn)

    def virtual_target(self, o, key):
        """The final overrider of key in the dynamic class of o."""
        seen = [key]
        best = key
        changed = True
        cands = set()
        todo = [key]
        while todo:
            k = todo.pop()
            for x in self.prog.overriders.get(k, ()):
                if x not in cands:
                    cands.add(x)
                    todo.append(x)
        # pick the most derived class that o is or derives from
        bestd = -1
        for k in cands:
            f = self.prog.functions.get(k)
            if f is None:
                continue
            d = self.distance(o.cls, f.get("cls"))
            if d is not None and (bestd < 0 or d < bestd):
                best, bestd = k, d
        f0 = self.prog.functions.get(key)
        if f0:
            d = self.distance(o.cls, f0.get("cls"))
            if d is not None and bestd >= 0 and d < bestd:
                return key
        return best

    def distance(self, cls, base, d=0):
        if cls == base:
            return d
        r = self.prog.records.get(cls)
        if not r:
            return None
        for b in r["bases"]:
            x = self.distance(b, base, d + 1)
            if x is not None:
                return x
        return None

    def call_lambda(self, lam, args, key=None):
        node = lam.node
        f = None
        if node.get("generic"):
            if key:
                f = self.func(key, lam.unit) or self.func(key)
            if f is None:
                # generic lambda called by library code: any instantiation with matching parameter kinds
                pre = node["t"]
                c = [g for k, g in self.prog.by_unit.get(lam.unit, {}).items() if k.startswith(pre + " ")]
                if not c:
                    c = [g for k, g in self.prog.functions.items() if k.startswith(pre + " ")]
                if len(c) >= 1:
                    f = self.models.pick_instantiation(self, c, args)
        else:
            f = self.func(node["key"], lam.unit)
        if f is None:
            raise Undecided("lambda without a body")
        args = [self.convert_param(a, p["t"]) for a, p in zip(args, f["params"])] + list(args[len(f["params"]):])
        return self.call_fn(f, args, lam.this, lam.env)

    def convert_param(self, a, t):
        """Implicit conversion applied when library code calls with an element of another arithmetic type."""
        bt = base_type(t)
        v = self.rv(a)
        if bt in INT and isinstance(v, (int, Fn)) and not isinstance(v, float):
            if isinstance(v, Fn) and not isinstance(v.arr.flat[0], int):
                return a
            c = self.conv_int(v, bt)
            if is_ref(t) and isinstance(a, Cell):
                pos = self.possible(v)
                if all(wrap(x, bt) == x for x in pos):
                    return a
            return c
        return a

    def invoke(self, fn, args, e=None):
        """Calls a callable value."""
        fn = self.rv(fn)
        if isinstance(fn, Lam):
            return self.call_lambda(fn, args, None)
        if isinstance(fn, FnRef):
            info = fn.info
            sn = strip(info["n"])
            if sn in self.stubs:
                return self.stubs[sn](self, None, args, info)
            nat = self.models.lookup(sn)
            if nat is not None and nat[1]:
                return nat[0](self, None, args, info)
            f = self.func(info["key"])
            if f:
                args = [self.convert_param(a, p["t"]) for a, p in zip(args, f["params"])]
                if f.get("cls") and not f.get("st"):
                    return self.call_fn(f, args[1:], args[0])
                return self.call_fn(f, args, None)
            if nat is not None:
                return nat[0](self, None, args, info)
            raise Undecided("call to %s" % info["n"])
        if isinstance(fn, Nat):
            return self.models.call_native(self, fn, args, e)
        if isinstance(fn, Ptr) and fn.c is not None:
            return self.invoke(fn.c.v, args, e)
        if isinstance(fn, Obj):
            return self.call_operator(fn, args)
        if callable(fn):
            return fn(self, args)
        raise Undecided("call of %r" % (fn,))

    def call_operator(self, o, args):
        r = self.record(o.cls)
        c = []
        while r:
            for m in r.get("methods", ()):
                if m["n"] == "operator()":
                    f = self.prog.functions.get(m["key"])
                    if f:
                        c.append(f)
            break
        if not c:
            pre = o.cls + "::operator()"
            c = [f for k, f in self.prog.functions.items() if f.get("cls") == o.cls and f["sn"].endswith("operator()")]
        if not c:
            raise Undecided("call operator of %s" % o.cls)
        f = self.models.pick_instantiation(self, c, args)
        args = [self.convert_param(a, p["t"]) for a, p in zip(args, f["params"])]
        return self.call_fn(f, args, Cell(o))

    def call_by_name(self, qn, args, this=None, nparams=None, pred=None):
        """Entry point for the checkers: calls the repository function with this qualified name."""
        fs = [f for f in self.prog.functions.values() if f["sn"] == qn and not f.get("dflt")]
        if nparams is not None:
            fs = [f for f in fs if len(f["params"]) == nparams]
        if pred:
            fs = [f for f in fs if pred(f)]
        if len(fs) != 1:
            raise Undecided("%d functions match %s" % (len(fs), qn))
        return self.call_fn(fs[0], args, this)

    def make_string(self, v):
        return self.models.to_str(self, v)


class Frame:
    __slots__ = ("f", "env", "this", "dtors")

    def __init__(self, f, env, this):
        self.f, self.env, self.this = f, env, this
        self.dtors = []


class Uninit:
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "uninit %s" % self.t


class RefCell(Cell):
    """A reference member: behaves like the cell it refers to."""
    __slots__ = ("target",)

    def __init__(self, target):
        while isinstance(target, RefCell):
            target = target.target
        self.target = target
        self.meta = "ref"

    @property
    def v(self):
        return self.target.v

    @v.setter
    def v(self, x):
        self.target.v = x
