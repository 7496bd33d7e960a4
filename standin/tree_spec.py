"""Parser for tree-gen's .tree description files (used by the stand-in generator and by the checkers)."""
import re


class Node:
    def __init__(self, name, parent):
        self.name, self.parent = name, parent
        self.children, self.fields = [], []  # fields: (name, edge, target, external)

    @property
    def cls(self):
        return "".join(p.capitalize() for p in self.name.split("_"))

    def all_fields(self):
        return self.fields + (self.parent.all_fields() if self.parent else [])

    def ancestors(self):
        n, out = self, []
        while n:
            out.append(n)
            n = n.parent
        return out

    def leaves(self):
        if not self.children:
            return [self]
        return [l for c in self.children for l in c.leaves()]


class Tree:
    def __init__(self):
        self.nodes, self.order = {}, []
        self.namespace, self.header = [], None
        self.includes, self.src_includes = [], []
        self.location = None
        self.init_fn = self.ser_fn = self.des_fn = None

    def by_cls(self, cls):
        for n in self.order:
            if n.cls == cls:
                return n
        return None


def _strip(text):
    out = []
    for line in text.splitlines():
        # comments: '#' or '//' to the end of line (never inside strings in these files)
        q = False
        res = ""
        i = 0
        while i < len(line):
            c = line[i]
            if c == '"':
                q = not q
            if not q and (c == "#" or line.startswith("//", i)):
                break
            res += c
            i += 1
        out.append(res)
    return "\n".join(out)


def parse_tree(path):
    text = _strip(open(path).read())
    t = Tree()
    pos = 0
    head = re.compile(
        r'\s*(?:(source)\b|header\s+"([^"]*)"|(src_include|include)\s+"([^"]*)"|(tree_namespace)\s+(\S+)|(import)\s+(\S+)'
        r'|(initialize_function)\s+(\S+)|(serdes_functions)\s+(\S+)\s+(\S+)|(location)\s+(\S+)|namespace\s+(\w+))')
    while True:
        m = head.match(text, pos)
        if not m:
            break
        pos = m.end()
        if m.group(2):
            t.header = m.group(2)
        elif m.group(3) == "include":
            t.includes.append(m.group(4))
        elif m.group(3) == "src_include":
            t.src_includes.append(m.group(4))
        elif m.group(9):
            t.init_fn = m.group(10)
        elif m.group(11):
            t.ser_fn, t.des_fn = m.group(12), m.group(13)
        elif m.group(14):
            t.location = m.group(15)
        elif m.group(16):
            t.namespace.append(m.group(16))
    toks = re.findall(r"[A-Za-z_][\w]*(?:::[A-Za-z_]\w*)*|[{}:;<>]", text[pos:])
    i = 0

    def node(parent):
        nonlocal i
        n = Node(toks[i], parent)
        assert toks[i + 1] == "{", "expected { after node name " + toks[i]
        i += 2
        t.nodes[n.name] = n
        t.order.append(n)
        if parent:
            parent.children.append(n)
        while toks[i] != "}":
            if toks[i + 1] == ":":
                fname = toks[i]
                i += 2
                ext = False
                if toks[i] == "external":
                    ext = True
                    i += 1
                if toks[i + 1] == "<":
                    edge, target = toks[i], toks[i + 2]
                    assert toks[i + 3] == ">"
                    i += 4
                else:
                    edge, target = "Prim", toks[i]
                    i += 1
                assert toks[i] == ";", "expected ; after field " + fname
                i += 1
                n.fields.append((fname, edge, target, ext))
            else:
                node(n)
        i += 1

    while i < len(toks):
        node(None)
    return t
