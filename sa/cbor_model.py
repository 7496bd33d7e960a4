"""tree-gen's CBOR writers and readers: a map is the list of its (key, kind, value), an array the list of its (kind, value)."""
from absint import Cell, MapV, Obj, Str, VOID, Vec
import models
from models import throw, to_string

W = ("tree::cbor::MapWriter", "tree::cbor::ArrayWriter")
KIND = {"append_null": "null", "append_bool": "bool", "append_int": "int", "append_float": "float", "append_string": "string", "append_binary": "binary"}


def writer(cls, sink):
    o = Obj("tree::cbor::" + cls)
    o.sink = sink
    return Cell(o)


def put(o, key, kind, v):
    if getattr(o, "closed", False):
        o.sink.append(("$late", kind, v))
    o.sink.append((key, kind, v))


def append(n):
    def go(I, o, sn, obj, args, e):
        if o.cls not in W or not hasattr(o, "sink"):
            return NotImplemented
        args = list(args)
        key = to_string(I, args.pop(0)) if o.cls == W[0] else None
        if n in KIND:
            v = I.rv(args[0]) if args else None
            if KIND[n] in ("string", "binary"):
                v = to_string(I, v)
            elif v is not None:
                v = models.coerce(I, {"bool": "bool", "int": "long", "float": "double"}[KIND[n]], v)
            put(o, key, KIND[n], v)
            return VOID
        sub = []
        put(o, key, "array" if n == "append_array" else "map", sub)
        return writer("ArrayWriter" if n == "append_array" else "MapWriter", sub).v
    return go


def close(I, o, sn, obj, args, e):
    if o.cls not in W or not hasattr(o, "sink"):
        return NotImplemented
    o.closed = True
    return VOID


def reader(kind, v):
    o = Obj("tree::cbor::Reader")
    o.kind, o.value = kind, v
    return Cell(o)


def map_reader(sink):
    return MapV("std::map", [(k, reader(kind, v)) for k, kind, v in sorted(sink, key=lambda t: repr(t[0]))])


def as_(kind):
    def go(I, o, sn, obj, args, e):
        if o.cls != "tree::cbor::Reader":
            return NotImplemented
        if o.kind != kind:
            throw(I, "std::runtime_error", "unexpected CBOR type")
        if kind == "array":
            return Vec([reader(k, v) for _, k, v in o.value])
        if kind == "map":
            return map_reader(o.value)
        return o.value
    return go


def is_(kind):
    def go(I, o, sn, obj, args, e):
        return o.kind == kind if o.cls == "tree::cbor::Reader" else NotImplemented
    return go


HOOKS = {n: append(n) for n in list(KIND) + ["append_array", "append_map"]}
HOOKS["close"] = close
for _k in ("bool", "int", "float", "string", "binary", "array", "map"):
    HOOKS["as_" + _k] = as_(_k)
    HOOKS["is_" + _k] = is_(_k)
HOOKS["is_null"] = is_("null")
