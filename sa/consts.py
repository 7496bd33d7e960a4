"""Constants the analysed code compares lengths and numbers with (used to place test lengths at every threshold)."""


def int_constants(prog, roots, depth=4):
    """Integer literals in the given functions and in the repository functions they call."""
    out, seen, todo = set(), set(), [(f, 0) for f in roots]
    while todo:
        f, d = todo.pop()
        if f["key"] in seen:
            continue
        seen.add(f["key"])

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "int":
                    out.add(int(x["v"]))
                if x.get("k") == "var" and "g" in x:
                    g = prog.globals.get(x["g"])
                    if g is not None and "val" in g:
                        out.add(int(g["val"]))
                    elif g is not None and g.get("init"):
                        walk(g["init"])
                for kk in ("key",):
                    k = x.get(kk)
                    g = prog.functions.get(k) if isinstance(k, str) else None
                    if g and d < depth and x.get("k") in ("call", "ctor", "lam"):
                        todo.append((g, d + 1))
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(f["body"])
        walk(f.get("inits", []))
    return out
