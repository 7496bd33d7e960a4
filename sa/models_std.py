"""More of the standard library: the rest of <algorithm>/<numeric>, views, character conversions, comparisons of integers."""
import functools
import re

import models as M
from absint import (Arr, Atom, CStr, Cell, Fn, It, Nat, Obj, Op, OptV, Ptr, Str, Tup, UB, Undecided, VOID, Vec, int_range, lift, strip, targs_of)
from models import NATIVE, algo, eq, find_pos, index, it_range, iterate, native, proj, put, rng, seq_items, spaceship


def adv(it, n):
    return It(it.seq, it.pos + (-n if it.rev else n), it.rev)


def lt(I, comp, x, y):
    if comp is not None:
        return I.truth(I.invoke(comp, [x, y]))
    xv, yv = I.rv(x), I.rv(y)
    if isinstance(xv, (int, float, Fn, Op)) and isinstance(yv, (int, float, Fn, Op)):
        return I.truth(I.binop("<", xv, yv, "bool"))
    s = spaceship(I, x, y)
    return s < 0


def same(I, pred, x, y):
    return I.truth(I.invoke(pred, [x, y]) if pred is not None else eq(I, x, y))


def sub(I, r, boolean):
    """Result of an algorithm called in std::ranges that would return a subrange instead of an iterator."""
    return r


def is_range(I, v):
    v = I.rv(v)
    return isinstance(v, (Vec, Arr, Str, M.MapV)) or isinstance(v, Nat) and v.name in ("view", "pick", "reverse", "subrange") or \
        isinstance(v, Obj) and "$base" in v.f


def second(I, rest, n=None):
    """The second range of a two-range algorithm: (cells, iterator, remaining args). n: length when only its beginning may be given."""
    if isinstance(I.rv(rest[0]), It):
        b = I.rv(rest[0])
        if len(rest) > 1 and isinstance(I.rv(rest[1]), It):
            return it_range(I, rest[0], rest[1]), b, rest[2:], True
        items = seq_items(I, b.seq)
        items = items[b.pos:] if not b.rev else items[b.pos::-1]
        return items, b, rest[1:], False
    return iterate(I, rest[0]), It(rest[0], 0) if isinstance(rest[0], Cell) else None, rest[1:], True


def cp(I, c):
    return I.copy(c) if isinstance(c, Cell) else c


def in_ranges(e):
    return "ranges" in strip(e.get("n", "")) if e else False


# ---------------------------------------------------------------------------------------------------------- queries
@algo
def a_is_sorted(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    comp = rest[0] if rest else None
    return not any(lt(I, comp, proj(I, rest, 1, b), proj(I, rest, 1, a)) for a, b in zip(cells, cells[1:]))


@algo
def a_is_sorted_until(I, obj, args, e):
    cells, rest, it = rng(I, args)
    comp = rest[0] if rest else None
    for i in range(1, len(cells)):
        if lt(I, comp, cells[i], cells[i - 1]):
            return adv(it, i)
    return adv(it, len(cells))


@algo
def a_find_first_of(I, obj, args, e):
    cells, rest, it = rng(I, args)
    oth, _, rest, _ = second(I, rest)
    pred = rest[0] if rest else None
    return find_pos(I, it, cells, lambda c: any(same(I, pred, c, o) for o in oth))


@algo
def a_search(I, obj, args, e):
    cells, rest, it = rng(I, args)
    oth, _, rest, _ = second(I, rest)
    pred = rest[0] if rest else None
    for i in range(0, len(cells) - len(oth) + 1):
        if all(same(I, pred, cells[i + k], oth[k]) for k in range(len(oth))):
            return subrange(it, i, i + len(oth)) if in_ranges(e) else adv(it, i)
    return subrange(it, len(cells), len(cells)) if in_ranges(e) else adv(it, len(cells))


@algo
def a_find_end(I, obj, args, e):
    cells, rest, it = rng(I, args)
    oth, _, rest, _ = second(I, rest)
    pred = rest[0] if rest else None
    for i in range(len(cells) - len(oth), -1, -1):
        if oth and all(same(I, pred, cells[i + k], oth[k]) for k in range(len(oth))):
            return subrange(it, i, i + len(oth)) if in_ranges(e) else adv(it, i)
    return subrange(it, len(cells), len(cells)) if in_ranges(e) else adv(it, len(cells))


def subrange(it, a, b):
    return Nat("subrange", a=adv(it, a), b=adv(it, b))


@algo
def a_mismatch(I, obj, args, e):
    cells, rest, it = rng(I, args)
    oth, it2, rest, bounded = second(I, rest)
    pred = rest[0] if rest else None
    k = 0
    while k < len(cells):
        if k >= len(oth):
            if bounded:
                break
            raise UB("read past the end of the second range of std::mismatch", I.where())
        if not same(I, pred, proj(I, rest, 1, cells[k]), proj(I, rest, 2, oth[k])):
            break
        k += 1
    if in_ranges(e):
        o = Obj("std::ranges::in_in_result")
        o.f["in1"], o.f["in2"] = Cell(adv(it, k)), Cell(adv(it2, k))
        return o
    return Tup([Cell(adv(it, k)), Cell(adv(it2, k))])


@algo
def a_lexicographical_compare(I, obj, args, e):
    a, rest, _ = rng(I, args)
    b, _, rest, _ = second(I, rest)
    comp = rest[0] if rest else None
    for x, y in zip(a, b):
        if lt(I, comp, x, y):
            return True
        if lt(I, comp, y, x):
            return False
    return len(a) < len(b)


@algo
def a_lexicographical_compare_three_way(I, obj, args, e):
    a, rest, _ = rng(I, args)
    b, _, rest, _ = second(I, rest)
    for x, y in zip(a, b):
        s = M.sign(I, I.invoke(rest[0], [x, y])) if rest else spaceship(I, x, y)
        if s:
            return Nat("ordering", sign=s)
    return Nat("ordering", sign=(len(a) > len(b)) - (len(a) < len(b)))


@algo
def a_is_permutation(I, obj, args, e):
    a, rest, _ = rng(I, args)
    b, _, rest, bounded = second(I, rest)
    if bounded and len(a) != len(b):
        return False
    b = list(b[:len(a)])
    for x in a:
        for i, y in enumerate(b):
            if same(I, rest[0] if rest else None, x, y):
                del b[i]
                break
        else:
            return False
    return not b


@algo
def a_starts_with(I, obj, args, e):
    a, rest, _ = rng(I, args)
    b, _, rest, _ = second(I, rest)
    return len(b) <= len(a) and all(same(I, rest[0] if rest else None, x, y) for x, y in zip(a, b))


@algo
def a_ends_with(I, obj, args, e):
    a, rest, _ = rng(I, args)
    b, _, rest, _ = second(I, rest)
    return len(b) <= len(a) and all(same(I, rest[0] if rest else None, x, y) for x, y in zip(a[len(a) - len(b):], b))


@algo
def a_minmax(I, obj, args, e):
    v0 = I.rv(args[0])
    if isinstance(v0, (Arr, Vec)) and (len(args) == 1 or M.callable_value(I, args[1])):
        lo, hi = M._mm(I, args, False), M._mm(I, args, True)
    else:
        comp = args[2] if len(args) > 2 else None
        lo, hi = (args[1], args[0]) if lt(I, comp, args[1], args[0]) else (args[0], args[1])
    return Tup([Cell(I.rv(lo)), Cell(I.rv(hi))])


@algo
def a_minmax_element(I, obj, args, e):
    cells, rest, it = rng(I, args)
    lo = hi = 0
    for i in range(1, len(cells)):
        comp = rest[0] if rest else None
        if lt(I, comp, cells[i], cells[lo]):
            lo = i
        if not lt(I, comp, cells[i], cells[hi]):
            hi = i
    return Tup([Cell(adv(it, lo)), Cell(adv(it, hi))])


def bound(I, args, upper):
    cells, rest, it = rng(I, args)
    comp = rest[1] if len(rest) > 1 else None
    v = rest[0]
    lo, n = 0, len(cells)
    while n > 0:
        h = n // 2
        c = proj(I, rest, 2, cells[lo + h])
        go = (not lt(I, comp, v, c)) if upper else lt(I, comp, c, v)
        if go:
            lo, n = lo + h + 1, n - h - 1
        else:
            n = h
    return it, lo, cells, comp, v, rest


@algo
def a_lower_bound(I, obj, args, e):
    it, k = bound(I, args, False)[:2]
    return adv(it, k)


@algo
def a_upper_bound(I, obj, args, e):
    it, k = bound(I, args, True)[:2]
    return adv(it, k)


@algo
def a_equal_range(I, obj, args, e):
    it, k = bound(I, args, False)[:2]
    j = bound(I, args, True)[1]
    return subrange(it, k, j) if in_ranges(e) else Tup([Cell(adv(it, k)), Cell(adv(it, j))])


@algo
def a_binary_search(I, obj, args, e):
    it, k, cells, comp, v, rest = bound(I, args, False)
    return k < len(cells) and not lt(I, comp, v, proj(I, rest, 2, cells[k]))


@algo
def a_includes(I, obj, args, e):
    a, rest, _ = rng(I, args)
    b, _, rest, _ = second(I, rest)
    comp = rest[0] if rest else None
    i = 0
    for y in b:
        while i < len(a) and lt(I, comp, a[i], y):
            i += 1
        if i == len(a) or lt(I, comp, y, a[i]):
            return False
        i += 1
    return True


def set_op(I, args, keep):
    a, rest, _ = rng(I, args)
    b, _, rest, _ = second(I, rest)
    out, comp = rest[0], (rest[1] if len(rest) > 1 else None)
    i = j = 0
    while i < len(a) or j < len(b):
        if j == len(b) or i < len(a) and lt(I, comp, a[i], b[j]):
            if "a" in keep:
                out = put(I, out, [a[i]])
            i += 1
        elif i == len(a) or lt(I, comp, b[j], a[i]):
            if "b" in keep:
                out = put(I, out, [b[j]])
            j += 1
        else:
            if "m" in keep:
                out = put(I, out, [a[i], b[j]])
                i, j = i + 1, j + 1
                continue
            if "c" in keep:
                out = put(I, out, [a[i]])
            i, j = i + 1, j + 1
    return out


for _n, _k in (("set_union", "abc"), ("set_intersection", "c"), ("set_difference", "a"), ("set_symmetric_difference", "ab"), ("merge", "abm")):
    def _mks(k):
        return lambda I, obj, args, e: set_op(I, args, k)
    _f = _mks(_k)
    _f.__name__ = "a_" + _n
    algo(_f)


# -------------------------------------------------------------------------------------------------------- numeric
def plus(I, x, y, e=None):
    xv, yv = I.rv(x), I.rv(y)
    if M.is_stringish(xv):
        return Str(M.to_string(I, xv).p + M.to_string(I, yv).p)
    if isinstance(xv, Obj):
        return M.binary(I, "+", x, y)
    return I.binop("+", xv, yv, M.guess(xv, yv))


def acc_type(e, x):
    return None


@algo
def a_reduce(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    if rest:
        acc = cp(I, rest[0])
    else:
        if not cells:
            return 0
        acc, cells = cp(I, cells[0]), cells[1:]
    for c in cells:
        acc = cp(I, I.invoke(rest[1], [Cell(acc), c]) if len(rest) > 1 else plus(I, acc, c))
    return acc


@algo
def a_transform_reduce(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    if isinstance(I.rv(rest[0]), It):
        return two_products(I, cells, rest, True)
    if len(rest) != 3:
        raise Undecided("transform_reduce")
    acc = cp(I, rest[0])
    for c in cells:
        acc = cp(I, I.invoke(rest[1], [Cell(acc), Cell(cp(I, I.invoke(rest[2], [c])))]))
    return acc


def two_products(I, cells, rest, _):
    b = I.rv(rest[0])
    items = seq_items(I, b.seq)[b.pos:]
    if len(items) < len(cells):
        raise UB("second range is too short", I.where())
    acc = cp(I, rest[1])
    for x, y in zip(cells, items):
        if len(rest) > 3:
            p = cp(I, I.invoke(rest[3], [x, y]))
        else:
            xv, yv = I.rv(x), I.rv(y)
            p = I.binop("*", xv, yv, M.guess(xv, yv))
        acc = cp(I, I.invoke(rest[2], [Cell(acc), Cell(p)]) if len(rest) > 2 else plus(I, acc, p))
    return acc


@algo
def a_inner_product(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    return two_products(I, cells, rest, False)


@algo
def a_partial_sum(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    out, acc = rest[0], None
    for c in cells:
        acc = cp(I, c) if acc is None else cp(I, I.invoke(rest[1], [Cell(acc), c]) if len(rest) > 1 else plus(I, acc, c))
        out = put(I, out, [acc])
    return out


NATIVE["std::inclusive_scan"] = NATIVE["std::partial_sum"]


@algo
def a_adjacent_difference(I, obj, args, e):
    cells, rest, _ = rng(I, args)
    out = rest[0]
    for i, c in enumerate(cells):
        if i == 0:
            out = put(I, out, [c])
        else:
            xv, yv = I.rv(c), I.rv(cells[i - 1])
            out = put(I, out, [cp(I, I.invoke(rest[1], [c, cells[i - 1]])) if len(rest) > 1 else I.binop("-", xv, yv, M.guess(xv, yv))])
    return out


@native("std::midpoint")
def n_midpoint(I, obj, args, e):
    a, b = I.rv(args[0]), I.rv(args[1])
    if isinstance(a, int) and isinstance(b, int):
        return a + ((b - a) // 2 if b >= a else -((a - b) // 2))
    raise Undecided("midpoint")


@native("std::gcd", "std::lcm")
def n_gcd(I, obj, args, e):
    import math
    f = math.gcd if strip(e["n"]).endswith("gcd") else math.lcm
    return lift(lambda a, b: f(a, b), I.rv(args[0]), I.rv(args[1]))


# ------------------------------------------------------------------------------------------------------ mutations
@algo
def a_rotate(I, obj, args, e):
    if isinstance(I.rv(args[0]), It):
        cells = it_range(I, args[0], args[2])
        k = len(it_range(I, args[0], args[1]))
        it = I.rv(args[0])
    else:
        cells = iterate(I, args[0])
        it = It(args[0], 0)
        k = I.rv(args[1]).pos
    vals = [c.v for c in cells]
    for c, v in zip(cells, vals[k:] + vals[:k]):
        c.v = v
    return adv(it, len(cells) - k)


def part(I, args):
    cells, rest, it = rng(I, args)
    vals = [c.v for c in cells]
    ok = [I.truth(I.invoke(rest[0], [c])) for c in cells]
    new = [v for v, k in zip(vals, ok) if k] + [v for v, k in zip(vals, ok) if not k]
    for c, v in zip(cells, new):
        c.v = v
    return it, sum(ok), cells


@algo
def a_stable_partition(I, obj, args, e):
    it, n, cells = part(I, args)
    return subrange(it, n, len(cells)) if in_ranges(e) else adv(it, n)


@algo
def a_partition(I, obj, args, e):
    # the order inside the two groups is unspecified; the stable order is one admissible outcome
    it, n, cells = part(I, args)
    return subrange(it, n, len(cells)) if in_ranges(e) else adv(it, n)


@algo
def a_is_partitioned(I, obj, args, e):
    cells, rest, it = rng(I, args)
    ok = [I.truth(I.invoke(rest[0], [c])) for c in cells]
    return ok == sorted(ok, reverse=True)


@algo
def a_partition_point(I, obj, args, e):
    cells, rest, it = rng(I, args)
    k = 0
    while k < len(cells) and I.truth(I.invoke(rest[0], [cells[k]])):
        k += 1
    return adv(it, k)


@algo
def a_partition_copy(I, obj, args, e):
    cells, rest, it = rng(I, args)
    o1, o2 = rest[0], rest[1]
    for c in cells:
        if I.truth(I.invoke(rest[2], [c])):
            o1 = put(I, o1, [c])
        else:
            o2 = put(I, o2, [c])
    return Tup([Cell(I.rv(o1)), Cell(I.rv(o2))])


def compact(I, e, cells, it, keep):
    vals = [c.v for c, k in zip(cells, keep) if k]
    for c, v in zip(cells, vals):
        c.v = v
    return subrange(it, len(vals), len(cells)) if in_ranges(e) else adv(it, len(vals))


@algo
def a_remove(I, obj, args, e):
    cells, rest, it = rng(I, args)
    x = I.copy(rest[0]) if isinstance(rest[0], Cell) else rest[0]
    return compact(I, e, cells, it, [not I.truth(eq(I, c, x)) for c in cells])


@algo
def a_remove_if(I, obj, args, e):
    cells, rest, it = rng(I, args)
    return compact(I, e, cells, it, [not I.truth(I.invoke(rest[0], [c])) for c in cells])


@algo
def a_unique(I, obj, args, e):
    cells, rest, it = rng(I, args)
    keep, last = [], None
    for c in cells:
        k = last is None or not same(I, rest[0] if rest else None, last, c)
        keep.append(k)
        if k:
            last = Cell(I.rv(c)) if not isinstance(I.rv(c), Obj) else c
    return compact(I, e, cells, it, keep)


@algo
def a_unique_copy(I, obj, args, e):
    cells, rest, it = rng(I, args)
    out, last = rest[0], None
    for c in cells:
        if last is None or not same(I, rest[1] if len(rest) > 1 else None, last, c):
            out = put(I, out, [c])
            last = c
    return out


@algo
def a_remove_copy(I, obj, args, e):
    cells, rest, it = rng(I, args)
    return put(I, rest[0], [c for c in cells if not I.truth(eq(I, c, rest[1]))])


@algo
def a_remove_copy_if(I, obj, args, e):
    cells, rest, it = rng(I, args)
    out = rest[0]
    for c in cells:
        if not I.truth(I.invoke(rest[1], [c])):
            out = put(I, out, [c])
    return out


@algo
def a_replace(I, obj, args, e):
    cells, rest, it = rng(I, args)
    for c in cells:
        if I.truth(eq(I, c, rest[0])):
            c.v = cp(I, rest[1])
    return adv(it, len(cells)) if in_ranges(e) else VOID


@algo
def a_replace_if(I, obj, args, e):
    cells, rest, it = rng(I, args)
    for c in cells:
        if I.truth(I.invoke(rest[0], [c])):
            c.v = cp(I, rest[1])
    return adv(it, len(cells)) if in_ranges(e) else VOID


@algo
def a_replace_copy(I, obj, args, e):
    cells, rest, it = rng(I, args)
    return put(I, rest[0], [rest[2] if I.truth(eq(I, c, rest[1])) else c for c in cells])


@algo
def a_replace_copy_if(I, obj, args, e):
    cells, rest, it = rng(I, args)
    return put(I, rest[0], [rest[2] if I.truth(I.invoke(rest[1], [c])) else c for c in cells])


@algo
def a_reverse_copy(I, obj, args, e):
    cells, rest, it = rng(I, args)
    return put(I, rest[0], list(reversed(cells)))


@algo
def a_copy_n(I, obj, args, e):
    it = I.rv(args[0])
    n = index(I, args[1])
    if isinstance(it, CStr):
        return put(I, args[2], [M.cstr_at(I, it, i) for i in range(n)])
    items = seq_items(I, it.seq)
    if it.pos + n > len(items) and not it.rev:
        raise UB("copy_n past the end of the range", I.where())
    return put(I, args[2], [items[it.pos + (-i if it.rev else i)] for i in range(n)])


@algo
def a_copy_backward(I, obj, args, e):
    cells, rest, it = rng(I, args)
    vals = [cp(I, c) for c in cells]
    out = I.rv(rest[0])
    items = seq_items(I, out.seq)
    for k, v in enumerate(reversed(vals)):
        items[out.pos - 1 - k].v = v
    return It(out.seq, out.pos - len(vals))


@algo
def a_move(I, obj, args, e):
    if len(args) == 1:
        return args[0]
    cells, rest, _ = rng(I, args)
    return put(I, rest[0], cells)


@algo
def a_fill_n(I, obj, args, e):
    return put(I, args[0], [args[2]] * max(0, index(I, args[1])))


@algo
def a_generate(I, obj, args, e):
    cells, rest, it = rng(I, args)
    for c in cells:
        c.v = cp(I, I.invoke(rest[0], []))
    return VOID


@algo
def a_generate_n(I, obj, args, e):
    out = args[0]
    for _ in range(max(0, index(I, args[1]))):
        out = put(I, out, [cp(I, I.invoke(args[2], []))])
    return out


@algo
def a_for_each_n(I, obj, args, e):
    it = I.rv(args[0])
    items = seq_items(I, it.seq)
    n = index(I, args[1])
    for i in range(n):
        if it.pos + i >= len(items):
            raise UB("for_each_n past the end of the range", I.where())
        I.invoke(args[2], [items[it.pos + i]])
    return adv(it, n)


@algo
def a_swap_ranges(I, obj, args, e):
    cells, rest, it = rng(I, args)
    b = I.rv(rest[0])
    items = seq_items(I, b.seq)[b.pos:]
    for x, y in zip(cells, items):
        x.v, y.v = y.v, x.v
    return adv(b, len(cells))


@algo
def a_sort(I, obj, args, e):
    cells, rest, it = rng(I, args)
    vals = [c.v for c in cells]

    def cmpf(x, y):
        x, y = proj(I, rest, 1, Cell(x)), proj(I, rest, 1, Cell(y))
        comp = rest[0] if rest else None
        if lt(I, comp, x, y):
            return -1
        return 1 if lt(I, comp, y, x) else 0
    vals.sort(key=functools.cmp_to_key(cmpf))
    for c, v in zip(cells, vals):
        c.v = v
    return adv(it, len(cells)) if in_ranges(e) and it is not None else VOID


for _p in ("std::", "std::ranges::", "ranges::"):
    NATIVE[_p + "stable_sort"] = (a_sort, False)
for _p in ("std::ranges::__stable_sort_fn", "ranges::stable_sort_fn"):
    NATIVE[_p + "::operator()"] = (a_sort, False)


@native("std::erase", "std::erase_if")
def n_erase(I, obj, args, e):
    v = I.rv(args[0])
    cond = strip(e["n"]).endswith("_if")
    if isinstance(v, M.MapV):
        n = len(v.items)
        keep = []
        for k, c in v.items:
            x = Cell(k) if v.kind in ("set", "unordered_set") else Cell(Tup([Cell(k), c]))
            if not I.truth(I.invoke(args[1], [x])):
                keep.append((k, c))
        v.items[:] = keep
        return n - len(keep)
    if isinstance(v, Str):
        ps = [p for p, c in zip(M.need_fixed(I, v).p, iterate(I, args[0]))
              if not I.truth(I.invoke(args[1], [Cell(M.char_of(p))]) if cond else eq(I, Cell(M.char_of(p)), args[1]))]
        n = len(v.p) - len(ps)
        args[0].v = Str(tuple(ps))
        return n
    keep = [c for c in v.items if not I.truth(I.invoke(args[1], [c]) if cond else eq(I, c, args[1]))]
    n = len(v.items) - len(keep)
    v.items[:] = keep
    return n


# ------------------------------------------------------------------------------------------------ integer comparisons
for _n, _op in (("cmp_equal", "=="), ("cmp_not_equal", "!="), ("cmp_less", "<"), ("cmp_greater", ">"), ("cmp_less_equal", "<="), ("cmp_greater_equal", ">=")):
    def _mkc(op):
        def f(I, obj, args, e):
            import operator as o
            g = {"==": o.eq, "!=": o.ne, "<": o.lt, ">": o.gt, "<=": o.le, ">=": o.ge}[op]
            a, b = I.rv(args[0]), I.rv(args[1])
            if isinstance(a, Op) or isinstance(b, Op):
                return I.binop(op, a, b, "bool")
            return lift(lambda x, y: bool(g(x, y)), a, b)
        return f
    NATIVE["std::" + _n] = (_mkc(_op), False)


@native("std::in_range")
def n_in_range(I, obj, args, e):
    lo, hi = int_range(M.base_type(e["ta"][0]))
    return lift(lambda x: lo <= x <= hi, I.rv(args[0]))


@native("std::to_underlying")
def n_underlying(I, obj, args, e):
    return I.rv(args[0])


@native("std::signbit", "signbit")
def n_signbit(I, obj, args, e):
    import math
    return lift(lambda x: math.copysign(1.0, x) < 0, I.to_float(I.rv(args[0])))


@native("std::isnormal")
def n_isnormal(I, obj, args, e):
    import math
    return lift(lambda x: not math.isnan(x) and not math.isinf(x) and abs(x) >= 2.2250738585072014e-308, I.to_float(I.rv(args[0])))


@native("std::copysign", "std::fmax", "std::fmin", "fmax", "fmin")
def n_fm(I, obj, args, e):
    import math
    n = strip(e["n"]).split("::")[-1]
    f = {"copysign": math.copysign, "fmax": lambda a, b: b if math.isnan(a) else a if math.isnan(b) else max(a, b),
         "fmin": lambda a, b: b if math.isnan(a) else a if math.isnan(b) else min(a, b)}[n]
    return lift(f, I.to_float(I.rv(args[0])), I.to_float(I.rv(args[1])))


# ------------------------------------------------------------------------------------------------- text to number
def scan_int(I, s, base):
    """(value, length of the text used) of a strtol-like scan of fixed text; length 0 when there is no number."""
    i, n = 0, len(s.p)
    while i < n and I.truth(M.char_in(s.p[i], Str.lit(" \t\n\v\f\r"))):
        i += 1
    neg = False
    if i < n and I.truth(M.char_in(s.p[i], Str.lit("+-"))):
        neg = I.truth(M.piece_eq(s.p[i], 45))
        i += 1
    hexd = Str.lit("0123456789abcdefABCDEF")
    if base in (0, 16) and i + 2 < n and I.truth(M.piece_eq(s.p[i], 48)) and I.truth(M.char_in(s.p[i + 1], Str.lit("xX"))) \
            and I.truth(M.char_in(s.p[i + 2], hexd)):
        i, base = i + 2, 16
    elif base == 0:
        base = 8 if i < n and I.truth(M.piece_eq(s.p[i], 48)) else 10
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"[:base]
    both = digs + digs[10:].upper()
    val, k = 0, 0
    while i < n and I.truth(M.char_in(s.p[i], Str.lit(both))):
        d = lift(lambda c: int(chr(c), 36) if 0 <= c < 128 and chr(c) in both else 0, s.p[i])
        val = lift(lambda a, b: a * base + b, val, d)
        i += 1
        k += 1
    if neg:
        val = lift(lambda a: -a, val)
    return val, (i if k else 0)


M.scan_int = scan_int
STRTO = {"strtol": "long", "strtoll": "long long", "strtoul": "unsigned long", "strtoull": "unsigned long long", "atoi": "int", "atol": "long",
         "atoll": "long long", "strtod": "double", "strtof": "float", "atof": "double"}


def strto(I, obj, args, e):
    name = strip(e["n"]).split("::")[-1]
    t = STRTO[name]
    p = I.rv(args[0])
    if not isinstance(p, CStr):
        raise Undecided("%s of %r" % (name, p))
    s = Str(p.s.p[p.pos:]) if p.pos else p.s
    if any(isinstance(x, Atom) for x in s.p):
        raise Undecided("%s of opaque text" % name)
    if t in ("double", "float"):
        c = s.concrete()
        if c is None:
            raise Undecided("%s of opaque text" % name)
        m = re.match(rb"\s*[-+]?(0[xX][0-9a-fA-F]+|\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?|inf(inity)?|nan)", c, re.I)
        val, used = (0.0, 0)
        if m:
            txt = m.group(0).strip().decode().lower()
            val, used = (float(int(txt, 16)) if "x" in txt else float(txt)), m.end()
            val = M.f32(val) if t == "float" else val
    else:
        base = index(I, args[2]) if len(args) > 2 else 10
        val, used = scan_int(I, M.need_fixed(I, s), base)
        lo, hi = int_range(t)
        if name.startswith("ato"):
            if I.truth(lift(lambda a: not lo <= a <= hi, val)):
                raise UB("%s of a number that does not fit" % name, I.where())
        else:
            errno = I.world.__dict__.setdefault("errno", None)
            if t.startswith("unsigned"):
                val = lift(lambda a: a % (hi + 1) if -hi <= a <= hi else hi, val)
            else:
                if I.truth(lift(lambda a: not lo <= a <= hi, val)):
                    set_errno(I, 34)
                val = lift(lambda a: min(max(a, lo), hi), val)
    if len(args) > 1 and not name.startswith("ato"):
        o = I.rv(args[1])
        if isinstance(o, Ptr) and o.c is not None:
            o.c.v = CStr(p.s, p.pos + used)
    return val


def set_errno(I, v):
    I.__dict__.setdefault("errno_cell", Cell(0)).v = v


@native("__errno_location")
def n_errno(I, obj, args, e):
    return Ptr(I.__dict__.setdefault("errno_cell", Cell(0)))


for _n in STRTO:
    for _p in ("", "std::"):
        NATIVE[_p + _n] = (strto, False)


@native("std::from_chars", "std::to_chars")
def n_from_chars(I, obj, args, e):
    raise Undecided(strip(e["n"]))


@native("std::regex_replace")
def n_regex_replace(I, obj, args, e):
    vals = [I.rv(a) for a in args]
    rx = next((v for v in vals if isinstance(v, Nat) and v.name == "regex"), None)
    ss = [M.to_string(I, v) for v in vals if M.is_stringish(v)]
    if rx is None or len(ss) != 2 or any(x.concrete() is None for x in ss):
        raise Undecided("regex_replace of opaque text")
    pat = rx.s.concrete().decode("latin-1")
    rep = ss[1].concrete().decode("latin-1")

    def fmt(m):
        def g(k):
            t = k.group(1)
            if t == "$":
                return "$"
            if t == "&":
                return m.group(0)
            return m.group(int(t)) or ""
        return re.sub(r"\$(\$|&|\d{1,2})", g, rep)
    return Str.lit(re.sub(pat, fmt, ss[0].concrete().decode("latin-1")).encode("latin-1"))


# ------------------------------------------------------------------------------------------------------------- views
def lazy(I, base):
    return base


def v_take(I, base, n):
    return Nat("pick", items=iterate(I, base)[:max(0, index(I, n))])


def v_drop(I, base, n):
    return Nat("pick", items=iterate(I, base)[max(0, index(I, n)):])


def v_take_while(I, base, f):
    out = []
    for c in iterate(I, base):
        if not I.truth(I.invoke(f, [c])):
            break
        out.append(c)
    return Nat("pick", items=out)


def v_drop_while(I, base, f):
    cs = iterate(I, base)
    k = 0
    while k < len(cs) and I.truth(I.invoke(f, [cs[k]])):
        k += 1
    return Nat("pick", items=cs[k:])


def v_join(I, base, sep=None):
    out = []
    for i, c in enumerate(iterate(I, base)):
        if i and sep is not None:
            s = I.rv(sep)
            out += [Cell(M.char_of(p)) for p in M.to_string(I, s).p] if M.is_stringish(s) else [Cell(s)]
        out += iterate(I, c)
    return Nat("pick", items=out)


def elements(k):
    def f(I, base):
        out = []
        for c in iterate(I, base):
            out.append(I.rv(c).items[k])
        return Nat("pick", items=out)
    return f


def v_enumerate(I, base):
    return Nat("pick", items=[Cell(Tup([Cell(i), c])) for i, c in enumerate(iterate(I, base))])


def v_zip(I, *bases):
    return Nat("pick", items=[Cell(Tup(list(cs))) for cs in zip(*[iterate(I, b) for b in bases])])


def v_concat(I, *bases):
    return Nat("pick", items=[c for b in bases for c in iterate(I, b)])


def v_iota(I, a, b=None):
    if b is None:
        return Nat("iota", start=index(I, a))
    return Nat("pick", items=[Cell(i) for i in range(index(I, a), index(I, b))])


def v_all(I, base):
    return base


def v_transform(I, base, f):
    return Nat("view", fn=f, base=base)


def v_filter(I, base, f):
    return Nat("pick", items=[c for c in iterate(I, base) if I.truth(I.invoke(f, [c]))])


def v_reverse(I, base):
    return Nat("reverse", base=base)


def v_single(I, x):
    return Nat("pick", items=[Cell(cp(I, x))])


def v_chunk(I, base, n):
    cs, n = iterate(I, base), index(I, n)
    return Nat("pick", items=[Cell(Nat("pick", items=cs[i:i + n])) for i in range(0, len(cs), n)])


def v_stride(I, base, n):
    return Nat("pick", items=iterate(I, base)[::index(I, n)])


def v_sliding(I, base, n):
    cs, n = iterate(I, base), index(I, n)
    return Nat("pick", items=[Cell(Nat("pick", items=cs[i:i + n])) for i in range(0, len(cs) - n + 1)])


def v_intersperse(I, base, x):
    out = []
    for i, c in enumerate(iterate(I, base)):
        if i:
            out.append(Cell(cp(I, x)))
        out.append(c)
    return Nat("pick", items=out)


def v_split(I, base, x):
    out, cur = [], []
    pat = iterate(I, x) if is_range(I, x) or isinstance(I.rv(x), CStr) else None
    if pat is not None and len(pat) != 1:
        raise Undecided("views::split by a sequence")
    d = pat[0] if pat is not None else x
    cs = iterate(I, base)
    for c in cs:
        if I.truth(eq(I, c, d)):
            out.append(cur)
            cur = []
        else:
            cur.append(c)
    if cs:
        out.append(cur)
    return Nat("pick", items=[Cell(Nat("pick", items=x)) for x in out])


def v_unique(I, base):
    out = []
    for c in iterate(I, base):
        if not out or not I.truth(eq(I, out[-1], c)):
            out.append(c)
    return Nat("pick", items=out)


# name: (function, arguments besides the range)
VIEWS = {"take": (v_take, 1), "drop": (v_drop, 1), "take_while": (v_take_while, 1), "drop_while": (v_drop_while, 1), "join": (v_join, 0),
         "join_with": (v_join, 1), "keys": (elements(0), 0), "values": (elements(1), 0), "enumerate": (v_enumerate, 0), "all": (v_all, 0),
         "transform": (v_transform, 1), "filter": (v_filter, 1), "reverse": (v_reverse, 0), "chunk": (v_chunk, 1), "stride": (v_stride, 1),
         "sliding": (v_sliding, 1), "slide": (v_sliding, 1), "intersperse": (v_intersperse, 1), "split": (v_split, 1), "unique": (v_unique, 0),
         "remove_if": (lambda I, b, f: Nat("pick", items=[c for c in iterate(I, b) if not I.truth(I.invoke(f, [c]))]), 1),
         "common": (v_all, 0), "as_const": (v_all, 0), "const_": (v_all, 0), "move": (v_all, 0), "indirect": (lambda I, b: Nat("pick", items=[I.deref(I.rv(c)) for c in iterate(I, b)]), 0),
         "drop_last": (lambda I, b, n: Nat("pick", items=iterate(I, b)[:max(0, len(iterate(I, b)) - index(I, n))]), 1),
         "tail": (lambda I, b: v_drop(I, b, 1), 0), "drop_exactly": (v_drop, 1), "take_exactly": (v_take, 1),
         "take_last": (lambda I, b, n: Nat("pick", items=iterate(I, b)[max(0, len(iterate(I, b)) - index(I, n)):]), 1)}
CALLS = {"iota": v_iota, "zip": v_zip, "concat": v_concat, "single": v_single, "ints": v_iota, "closed_iota": lambda I, a, b: Nat("pick", items=[Cell(i) for i in range(index(I, a), index(I, b) + 1)]),
         "closed_indices": lambda I, a, b: Nat("pick", items=[Cell(i) for i in range(index(I, a), index(I, b) + 1)]),
         "indices": lambda I, a, b=None: v_iota(I, a, b) if b is not None else v_iota(I, 0, a)}


def apply_view(I, name, base, extra):
    f, n = VIEWS[name]
    b = I.rv(base)
    if isinstance(b, Nat) and b.name == "iota":
        if name == "take":
            return Nat("pick", items=[Cell(b.start + i) for i in range(index(I, extra[0]))])
        if name == "transform":
            raise Undecided("unbounded iota")
        raise Undecided("unbounded iota")
    return f(I, base, *extra)


def _mkv(name):
    def g(I, obj, args, e):
        n = VIEWS[name][1]
        if len(args) == n + 1:
            return apply_view(I, name, args[0], args[1:])
        if len(args) == n:
            return Nat("closure", view=name, extra=list(args))
        raise Undecided("views::%s with %d arguments" % (name, len(args)))
    return g


def _cap(n):
    return "".join(p.capitalize() for p in n.split("_"))


for _n in VIEWS:
    f = _mkv(_n)
    for nm in ("ranges::views::%s_fn::operator()" % _n, "ranges::views::%s_base_fn::operator()" % _n, "ranges::views::%sfn::operator()" % _n,
               "std::ranges::views::_%s::operator()" % _cap(_n), "ranges::views::cpp20::%s_fn::operator()" % _n):
        NATIVE[nm] = (f, False)
NATIVE["std::ranges::views::_Elements::operator()"] = (lambda I, obj, args, e: elements(int(targs_of(e["n"])[0].rstrip("ul")))(I, args[0]), False)
for _n in CALLS:
    def _mkcall(f):
        return lambda I, obj, args, e: f(I, *args)
    f = _mkcall(CALLS[_n])
    for nm in ("ranges::views::%s_fn::operator()" % _n, "std::ranges::views::_%s::operator()" % _cap(_n), "ranges::views::%s_base_fn::operator()" % _n,
               "ranges::views::cpp20::%s_fn::operator()" % _n):
        NATIVE[nm] = (f, False)


def view_name(name):
    """The range adaptor that a global of this name is, if it needs no further arguments before a pipe."""
    n = strip(name)
    if "views::" not in n:
        return None
    last = n.split("::")[-1]
    if last.startswith("_") or last not in VIEWS:
        return None
    return last


def pipe(I, base, r):
    if r.name == "vt":
        return Nat("view", fn=r.fn, base=base)
    if r.name == "vf":
        return v_filter(I, base, r.fn)
    if r.name == "to":
        return M.to_container(I, base, r.t)
    if r.name == "vrev":
        return Nat("reverse", base=base)
    if r.name == "closure":
        return apply_view(I, r.view, base, r.extra)
    if r.name == "chain":
        return pipe(I, pipe(I, base, r.a), r.b)
    if r.name == "niebloid" and getattr(r, "view", None):
        return apply_view(I, r.view, base, [])
    raise Undecided("pipe into %r" % (r,))


# --------------------------------------------------------------------------------------------- callables and wrappers
def call_native(I, fn, args, e):
    if fn.name == "memptr":
        o = I.rv(args[0])
        if isinstance(o, Ptr) and o.c is not None:
            o = I.rv(o.c)
        if isinstance(o, Tup):
            return o.items[{"first": 0, "second": 1}[fn.field]]
        if isinstance(o, Obj) and fn.field in o.f:
            return o.f[fn.field]
        raise Undecided("member pointer %s" % fn.field)
    if fn.name == "bound":
        out = []
        for a in fn.args:
            v = I.rv(a)
            out.append(args[v.index - 1] if isinstance(v, Nat) and v.name == "placeholder" else a)
        return I.invoke(fn.fn, out)
    if fn.name == "notfn":
        return I.lnot(I.rv(I.invoke(fn.fn, args)))
    if fn.name in ("niebloid", "vt", "vf", "closure", "to", "chain"):
        if fn.name != "niebloid":
            return pipe(I, args[0], fn)
        if fn.view:
            n = VIEWS[fn.view][1]
            if len(args) == n + 1:
                return apply_view(I, fn.view, args[0], args[1:])
            return Nat("closure", view=fn.view, extra=list(args))
        last = strip(fn.full).split("::")[-1]
        if last in CALLS and "views::" in fn.full:
            return CALLS[last](I, *args)
        if last == "elements" or "views::" in fn.full:
            raise Undecided("range adaptor %s" % fn.full)
        nat = NATIVE.get("std::" + last)
        if nat:
            return nat[0](I, None, args, {"n": fn.full})
    raise Undecided("call of %r" % (fn,))


@native("std::bind")
def n_bind(I, obj, args, e):
    return Nat("bound", fn=cp(I, args[0]), args=[Cell(cp(I, a)) for a in args[1:]])


@native("std::bind_front", "std::bind_back")
def n_bind_front(I, obj, args, e):
    f, xs, front = cp(I, args[0]), [Cell(cp(I, a)) for a in args[1:]], strip(e["n"]).endswith("front")
    return Nat("pyfn", fn=lambda I, more: I.invoke(f, xs + list(more) if front else list(more) + xs))


@native("std::not_fn")
def n_not_fn(I, obj, args, e):
    return Nat("notfn", fn=cp(I, args[0]))


@native("std::mem_fn")
def n_mem_fn(I, obj, args, e):
    return args[0]


@native("std::invoke", "std::__invoke")
def n_invoke(I, obj, args, e):
    return I.invoke(args[0], list(args[1:]))


@native("std::apply")
def n_apply(I, obj, args, e):
    return I.invoke(args[0], list(I.rv(args[1]).items))


def construct(I, t, sn, args, a):
    if sn == "std::_Placeholder":
        return Nat("placeholder", index=int(targs_of(t)[0]))
    if sn == "std::ostream_iterator":
        return Nat("ostream_iterator", st=args[0], t=targs_of(t)[0], sep=args[1] if len(args) > 1 else None)
    if sn == "fmt::basic_memory_buffer":
        return Nat("buffer", text=Cell(Str()))
    if sn in ("std::ranges::ref_view", "std::ranges::owning_view", "ranges::ref_view"):
        return args[0]
    m = re.fullmatch(r"(.*?) ?\[(\d+)\]", t)
    if m:
        if m.group(1) in M.INT or m.group(1) in M.FLT:
            from absint import Uninit
            return Arr([Cell(a[i] if i < len(a) else 0 if a else Uninit(m.group(1))) for i in range(int(m.group(2)))])
        return Arr([args[i] if i < len(args) else Cell(I.zero(m.group(1))) for i in range(int(m.group(2)))])
    if sn in ("std::ranges::reverse_view",):
        return Nat("reverse", base=args[0])
    if sn in ("std::ranges::take_view", "std::ranges::drop_view", "std::ranges::transform_view", "std::ranges::filter_view", "std::ranges::subrange"):
        if sn.endswith("subrange"):
            return Nat("subrange", a=a[0], b=a[1])
        return apply_view(I, sn.split("::")[-1][:-5], args[0], list(args[1:]))
    if sn.startswith("std::ranges::") or sn.startswith("ranges::"):
        if a and isinstance(a[0], Nat) and a[0].name in ("view", "pick", "reverse", "subrange"):
            return a[0]
    if sn in ("std::back_insert_iterator", "std::insert_iterator", "std::front_insert_iterator") and a:
        if isinstance(a[0], Nat):
            return a[0]
        return Nat("inserter", target=Cell(I.rv(a[0].c)) if isinstance(a[0], Ptr) else args[0], how="back_inserter", pos=None)
    if sn == "std::pair" or sn == "std::span":
        return None
    if sn in ("std::unordered_map", "std::reference_wrapper") and a:
        return args[0]
    if sn == "std::istreambuf_iterator":
        from absint import Stream
        x = a[0] if a else None
        x = I.rv(x.c) if isinstance(x, Ptr) and x.c is not None else x
        if isinstance(x, Nat) and x.name == "streambuf":
            return x
        if x is None or isinstance(x, Stream):
            return Nat("streambuf", s=x)
        raise Undecided(sn)
    if sn == "std::istream_iterator":
        raise Undecided(sn)
    if sn == "std::errc" or sn == "std::error_code":
        return 0
    if sn.startswith("std::chars_format"):
        return a[0] if a else 0
    return None


@native("std::next_permutation", "std::prev_permutation")
def n_perm(I, obj, args, e):
    cells, rest, it = rng(I, args)
    comp = rest[0] if rest else None
    fwd = "next" in strip(e["n"])

    def lt2(x, y):
        return lt(I, comp, Cell(x), Cell(y)) if fwd else lt(I, comp, Cell(y), Cell(x))
    v = [c.v for c in cells]
    i = len(v) - 2
    while i >= 0 and not lt2(v[i], v[i + 1]):
        i -= 1
    if i < 0:
        v.reverse()
    else:
        j = len(v) - 1
        while not lt2(v[i], v[j]):
            j -= 1
        v[i], v[j] = v[j], v[i]
        v[i + 1:] = reversed(v[i + 1:])
    for c, x in zip(cells, v):
        c.v = x
    return i >= 0


NATIVE["std::_V2::rotate"] = NATIVE["std::rotate"]


# --------------------------------------------------------------------------------------------------------- formatting
def float_format(x, spec):
    """{fmt}'s rendering of a double under a specification."""
    import math
    m = re.fullmatch(r"(?:(.)?([<>^]))?([-+ ]?)(#?)(0?)(\d*)(?:\.(\d+))?L?([eEfFgGaA]?)", spec)
    if not m or m.group(4) or m.group(8) in ("a", "A"):
        raise Undecided("float format %r" % spec)
    fill, al, sg, alt, zero, width, prec, ty = m.groups()
    neg = math.copysign(1, x) < 0
    if math.isnan(x) or math.isinf(x):
        body = "nan" if math.isnan(x) else "inf"
        zero = ""
    elif ty or prec is not None:
        body = ("%%.%d%s" % (int(prec) if prec is not None else 6, ty or "g")) % abs(x)
    else:
        body = M.float_shortest(abs(x)).decode()
    if ty and ty.isupper():
        body = body.upper()
    head = "-" if neg else sg if sg in ("+", " ") else ""
    w = int(width or 0)
    if zero and not al:
        return (head + body.rjust(w - len(head), "0")).encode()
    s = head + body
    fill = fill or " "
    return (s.ljust(w, fill) if al == "<" else s.center(w, fill) if al == "^" else s.rjust(w, fill)).encode()


def debug_text(I, s):
    c = s.concrete()
    if c is None:
        raise Undecided("debug format of opaque text")
    out = b'"'
    for b in c:
        ch = bytes([b])
        if ch in b'"\\':
            out += b"\\" + ch
        elif b in (9, 10, 13):
            out += {9: b"\\t", 10: b"\\n", 13: b"\\r"}[b]
        elif b < 32 or b == 127:
            out += b"\\x%02x" % b
        elif b > 127:
            raise Undecided("debug format of non-ASCII text")
        else:
            out += ch
    return Str.lit(out + b'"')


# ------------------------------------------------------------------------------------------------------------ input
def fixed_text(I, s):
    return M.need_fixed(I, s.buf)


@native("std::getline")
def n_getline(I, obj, args, e):
    st = I.rv(args[0])
    from absint import Stream
    if not isinstance(st, Stream):
        raise Undecided("getline of %r" % (st,))
    d = M.byte(I.rv(args[2])) if len(args) > 2 else 10
    txt = fixed_text(I, st)
    pos = getattr(st, "pos", 0)
    if st.flags.get("fail") or pos >= len(txt.p):
        st.flags["fail"] = st.flags["eof"] = True
        args[1].v = Str() if not st.flags.get("started") else args[1].v
        return args[0]
    i = pos
    while i < len(txt.p) and not I.truth(M.piece_eq(txt.p[i], d)):
        i += 1
    args[1].v = Str(txt.p[pos:i])
    if i == len(txt.p):
        st.flags["eof"] = True
    st.pos = i + 1
    return args[0]


def stream_read(I, cell, s, name, args, e):
    txt = fixed_text(I, s)
    pos = getattr(s, "pos", 0)
    ws = Str.lit(" \t\n\v\f\r")
    if name in ("get", "peek") and not args:
        if pos >= len(txt.p):
            s.flags["eof"] = True
            if name == "get":
                s.flags["fail"] = True
            return -1
        if name == "get":
            s.pos = pos + 1
        return txt.p[pos]
    if name == "get" and len(args) == 1:
        if pos >= len(txt.p):
            s.flags["fail"] = s.flags["eof"] = True
            return cell
        args[0].v = M.char_of(txt.p[pos])
        s.pos = pos + 1
        return cell
    if name == "unget":
        s.pos = pos - 1
        return cell
    if name == "ignore":
        s.pos = pos + (index(I, args[0]) if args else 1)
        return cell
    if name == "operator>>":
        return read_value(I, cell, s, args[0], e)
    raise Undecided("stream %s" % name)


def read_value(I, cell, s, target, e):
    txt = fixed_text(I, s)
    pos = getattr(s, "pos", 0)
    ws = Str.lit(" \t\n\v\f\r")
    while pos < len(txt.p) and I.truth(M.char_in(txt.p[pos], ws)):
        pos += 1
    if s.flags.get("fail") or pos >= len(txt.p):
        s.flags["fail"] = s.flags["eof"] = True
        return cell
    old = I.rv(target)
    if isinstance(old, Str):
        i = pos
        while i < len(txt.p) and not I.truth(M.char_in(txt.p[i], ws)):
            i += 1
        target.v = Str(txt.p[pos:i])
        s.pos = i
        if i == len(txt.p):
            s.flags["eof"] = True
        return cell
    t = M.base_type(re.sub(r".*\((.*)\).*", r"\1", (e or {}).get("key", ""))) if e else ""
    if "char" in t:
        target.v = M.char_of(txt.p[pos])
        s.pos = pos + 1
        return cell
    if t in M.INT or t.rstrip("& ") in M.INT:
        t = t.rstrip("& ")
        val, used = scan_int(I, Str(txt.p[pos:]), 10)
        if not used:
            s.flags["fail"] = True
            target.v = 0
            return cell
        lo, hi = int_range(t)
        if I.truth(lift(lambda a: not lo <= a <= hi, val)):
            s.flags["fail"] = True
            val = lift(lambda a: min(max(a, lo), hi), val)
        target.v = val
        s.pos = pos + used
        if s.pos >= len(txt.p):
            s.flags["eof"] = True
        return cell
    raise Undecided("stream extraction of %s" % t)


@native("std::operator>>")
def n_shr(I, obj, args, e):
    from absint import Stream
    st = I.rv(args[0])
    if isinstance(st, Stream):
        return read_value(I, args[0], st, args[1], e)
    raise Undecided("operator>> of %r" % (st,))


# ------------------------------------------------------------------------------------------------- from_chars/to_chars
def chars_range(I, a, b):
    if isinstance(a, CStr) and isinstance(b, CStr):
        return Str(M.need_fixed(I, a.s).p[a.pos:b.pos])
    if isinstance(a, It) and isinstance(b, It):
        return Str(tuple(M.byte(I.rv(c)) for c in it_range(I, a, b)))
    raise Undecided("from_chars of %r" % (a,))


@native("std::from_chars")
def n_from_chars2(I, obj, args, e):
    a, b = I.rv(args[0]), I.rv(args[1])
    s = chars_range(I, a, b)
    o = Obj("std::from_chars_result")
    m = re.search(r"const char ?\*, (?:const char ?\*, )?([a-z ]+?) ?&", e.get("key", ""))
    t = m.group(1) if m else None
    if t is None and e.get("ta"):
        t = M.base_type(e["ta"][0])
    if t not in M.INT:
        raise Undecided("from_chars of %s" % t)
    if s.p and I.truth(M.char_in(s.p[0], Str.lit(" \t\n\v\f\r+"))) or s.p and t.startswith("unsigned") and I.truth(M.piece_eq(s.p[0], 45)):
        val, used = 0, 0
    else:
        base = index(I, args[3]) if len(args) > 3 else 10
        val, used = scan_int(I, s, base) if base != 16 else scan_hex(I, s)
    ec = 0
    lo, hi = int_range(t)
    if not used:
        ec = 22
    elif I.truth(lift(lambda q: not lo <= q <= hi, val)):
        ec = 34
    else:
        args[2].v = val
    o.f["ptr"] = Cell(M.it_add(I, a, used))
    o.f["ec"] = Cell(ec)
    return o


def scan_hex(I, s):
    if len(s.p) > 1 and I.truth(M.char_in(s.p[1], Str.lit("xX"))):
        return 0, 1
    return scan_int(I, s, 16)


@native("std::to_chars")
def n_to_chars2(I, obj, args, e):
    a, b, v = I.rv(args[0]), I.rv(args[1]), I.rv(args[2])
    o = Obj("std::to_chars_result")
    if not isinstance(v, int) or isinstance(v, bool):
        raise Undecided("to_chars of %r" % (v,))
    base = index(I, args[3]) if len(args) > 3 else 10
    ds = "0123456789abcdefghijklmnopqrstuvwxyz"
    n, txt = abs(v), ""
    while True:
        txt = ds[n % base] + txt
        n //= base
        if not n:
            break
    txt = ("-" if v < 0 else "") + txt
    a = It(a, 0) if isinstance(a, Arr) else a
    b = It(b, 0) if isinstance(b, Arr) else b
    if not isinstance(a, It) or not isinstance(b, It):
        raise Undecided("to_chars into %r" % (a,))
    if len(it_range(I, a, b)) < len(txt):
        o.f["ptr"], o.f["ec"] = Cell(b), Cell(75)
        return o
    o.f["ptr"], o.f["ec"] = Cell(put(I, a, [ord(c) for c in txt])), Cell(0)
    return o


@native("__builtin_add_overflow", "__builtin_sub_overflow", "__builtin_mul_overflow")
def n_overflow(I, obj, args, e):
    p = I.rv(args[2])
    t = (e.get("a") or [{}, {}, {}])[2].get("t", "")
    t = M.base_type(t.rstrip(" *"))
    if not isinstance(p, M.Ptr) or p.c is None or t not in M.INT:
        raise Undecided("%s into %r (%s)" % (e["n"], p, t))
    op = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}[e["n"].split("_")[3]]
    exact = M.lift(op, I.rv(args[0]), I.rv(args[1]))
    w = I.conv_int(exact, t)
    p.c.v = w
    return M.lift(lambda x, y: x != y, exact, w)


@native("snprintf", "std::snprintf", "sprintf", "std::sprintf")
def n_snprintf(I, obj, args, e):
    bounded = "snprintf" in e["n"]
    k = 3 if bounded else 2
    fmt = M.to_string(I, args[k - 1])
    if any(not isinstance(c, int) for c in fmt.p):
        raise Undecided("snprintf with a computed format")
    fmt = bytes(fmt.p).decode("latin-1")
    out, rest, i = [], list(args[k:]), 0
    while i < len(fmt):
        if fmt[i] != "%":
            out.append(ord(fmt[i]))
            i += 1
            continue
        m = re.compile(r"%([-+ 0#]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t)?([diuxXosc%])").match(fmt, i)
        if not m:
            raise Undecided("snprintf format %r" % fmt)
        i = m.end()
        fl, width, prec, size, c = m.groups()
        if c == "%":
            out.append(37)
            continue
        x = I.rv(rest.pop(0))
        if c == "s":
            s = M.to_string(I, x).p
        elif c == "c":
            s = (M.byte(x),)
        else:
            t = {"hh": "char", "h": "short", None: "int"}.get(size, "long")
            v = I.conv_int(x, t if c in "di" else "unsigned " + t)
            spec = "%" + fl + width + ("." + prec if prec else "") + {"u": "d", "i": "d"}.get(c, c)
            s = M.need_fixed(I, M.piece(M.lift(lambda n: (spec % n).encode(), v))).p
            width = ""
        if width:
            n = int(width) - len(s)
            if any(isinstance(q, Atom) for q in s):
                raise Undecided("padded opaque text")
            s = tuple(s) + (32,) * n if "-" in fl else (32,) * n + tuple(s)
        out += list(s)
    out = list(M.need_fixed(I, M.norm(tuple(out))).p)
    b = I.rv(args[0])
    b = It(b, 0) if isinstance(b, Arr) else b
    if not isinstance(b, It):
        raise Undecided("snprintf into %r" % (b,))
    if any(isinstance(q, Atom) for q in out):
        raise Undecided("snprintf of opaque text")
    n = index(I, args[1]) if bounded else len(out) + 1
    if n:
        put(I, b, out[:n - 1] + [0])
    return len(out)
