"""Front end: regenerates the tree/ANTLR stand-ins from the current sources, type-checks every translation unit with
clang and loads the resolved syntax trees.  Results are cached by the content of everything that goes in."""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
LLVM = "/usr/lib/llvm-18"


class FrontError(Exception):
    pass


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _files(root, exts):
    out = []
    for d, dirs, fs in os.walk(root):
        dirs[:] = sorted(x for x in dirs if not x.startswith((".", "_build", "__pycache__")))
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def extractor():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    out = os.path.join(CACHE, "extract-" + _h(_read(src)))
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_LIMIT_MACROS", "-I" + LLVM + "/include", src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM.so.18.1"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise FrontError("cannot build the extractor:\n" + r.stderr[-3000:])
    os.rename(tmp, out)
    return out


def source_units():
    src = os.path.join(REPO, "src")
    us = _files(src, (".cpp",))
    em = os.path.join(REPO, "emscripten", "emscripten_wrapper.cpp")
    if os.path.exists(em):
        us.append(em)
    return us


PROBES = os.path.join(VERIF, "sa", "probes")


def tree_files():
    return _files(os.path.join(REPO, "src"), (".tree",))


def grammar_files():
    l = [f for f in _files(os.path.join(REPO, "src"), (".g4",))]
    lexer = [f for f in l if "Lexer" in os.path.basename(f)]
    parser = [f for f in l if "Parser" in os.path.basename(f)]
    if len(lexer) != 1 or len(parser) != 1:
        raise FrontError("expected one lexer and one parser grammar, found %r" % l)
    return lexer[0], parser[0]


def generate():
    """The stand-in for tree-gen's and ANTLR's output, generated from the current .tree and .g4 files."""
    sd = os.path.join(VERIF, "standin")
    ins = tree_files() + list(grammar_files()) + _files(sd, (".py",))
    key = _h(*[x for f in ins for x in (f, _read(f))])
    out = os.path.join(CACHE, "gen-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="gen-tmp", dir=CACHE)
    try:
        for cmd in ([sys.executable, sd + "/gen_tree.py", tmp] + tree_files(),
                    [sys.executable, sd + "/gen_antlr.py", tmp] + list(grammar_files())):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise FrontError("cannot generate the stand-in for generated code: " + " ".join(cmd) + "\n" + r.stderr[-3000:])
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.exists(out):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def _header_key():
    hdrs = []
    for d in (os.path.join(REPO, "include"), os.path.join(REPO, "emscripten"), os.path.join(VERIF, "standin", "include")):
        hdrs += _files(d, (".hpp", ".h"))
    return _h(*[x for f in hdrs for x in (f, _read(f))])


def _extract(unit, gen, tool, hdr_key):
    key = _h(unit, _read(unit), gen, tool, hdr_key)
    out = os.path.join(CACHE, "tu-" + key + ".json")
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        roots = ":".join(os.path.join(REPO, d) + "/" for d in ("src", "include", "emscripten")) + ":" + PROBES + "/"
        cmd = [tool, tmp, roots, unit, "--", "-std=c++20", "-resource-dir", LLVM + "/lib/clang/18",
               "-DFMT_HEADER_ONLY", "-I" + gen, "-I" + os.path.join(VERIF, "standin", "include"),
               "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "emscripten")]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if not os.path.exists(tmp):
            raise FrontError("extractor failed on %s:\n%s" % (unit, r.stderr[-3000:]))
        if r.returncode:
            with open(tmp) as f:
                d = json.load(f)
            d["errors"] = max(1, d.get("errors", 0))
            d["diag"] = r.stderr[-2000:]
            with open(tmp, "w") as f:
                json.dump(d, f)
        if key != _h(unit, _read(unit), gen, tool, _header_key()):
            os.unlink(tmp)
            raise FrontError("the sources changed while %s was being read" % unit)
        os.rename(tmp, out)
    with open(out) as f:
        return json.load(f)


class Program:
    def __init__(self):
        self.functions, self.records, self.globals, self.enums = {}, {}, {}, {}
        self.units, self.bad_units = [], {}
        self.gen = None
        self.overriders = {}
        self.by_unit = {}
        self.const_casts = []

    def by_name(self, qn):
        """Functions with the given qualified name (template arguments ignored)."""
        from absint import strip
        return [f for f in self.functions.values() if f["sn"] == qn and not f.get("dflt")]


def load(units=None):
    """Loads the given source files (relative to the repository), or all of them."""
    from absint import strip
    tool, gen = extractor(), generate()
    hdr_key = _header_key()
    us = source_units() if units is None else [os.path.join(REPO, u) for u in units]
    for u in us:
        if not os.path.exists(u):
            raise FrontError("source file %s is gone" % u)
    p = Program()
    p.gen = gen
    with cf.ThreadPoolExecutor(8) as ex:
        datas = list(ex.map(lambda u: _extract(u, gen, tool, hdr_key), us))
    for u, d in zip(us, datas):
        p.units.append(u)
        if d["errors"]:
            p.bad_units[u] = d.get("diag", "")
        p.by_unit[u] = d["functions"]
        for k, f in d["functions"].items():
            f["key"], f["unit"] = k, u
            f["sn"] = strip(f["n"])
            if k not in p.functions:
                p.functions[k] = f
        for k, r in d["records"].items():
            if k not in p.records or (p.records[k].get("ext") and not r.get("ext")):
                r["unit"] = u
                p.records[k] = r
        for k, g in d["globals"].items():
            if k not in p.globals or ("init" in g and "init" not in p.globals[k]):
                g["unit"] = u
                p.globals[k] = g
        p.enums.update(d["enums"])
        p.const_casts += [c for c in d.get("constcasts", ()) if c not in p.const_casts]
    for k, f in p.functions.items():
        for o in f.get("over", ()):
            p.overriders.setdefault(o, []).append(k)
    for r in p.records.values():
        for m in r.get("methods", ()):
            for o in m.get("over", ()):
                if m["key"] not in p.overriders.setdefault(o, []):
                    p.overriders[o].append(m["key"])
    return p


def rel(path):
    return os.path.relpath(path, REPO) if path.startswith(REPO) else path
