"""Validates the library models: every mt::t_* function of cases.cpp is run natively and interpreted; the texts must agree.
Not a check: it validates the transfer functions the checks rest on.  Run: python3-vt tests_models/run.py [name...]"""
import os
import re
import subprocess
import sys
import tempfile
import json

D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(D), "sa"))
import front
import models
from absint import Interp, Undecided, strip

src = os.path.join(D, "cases.cpp")
names = re.findall(r"std::string (t_\w+)\(\)", open(src).read())
if len(sys.argv) > 1:
    names = sys.argv[1:]
t = tempfile.mkdtemp()
with open(t + "/main.cpp", "w") as f:
    f.write('#include "%s"\n#include <cstdio>\nint main(){\n' % src)
    for n in names:
        f.write('{ auto s = mt::%s(); std::printf("%s\\t%%s\\n", fmt::format("{:?}", s).c_str()); }\n' % (n, n))
    f.write("}\n")
r = subprocess.run(["g++", "-std=c++20", "-DFMT_HEADER_ONLY", "-w", t + "/main.cpp", "-o", t + "/a"], capture_output=True, text=True)
if r.returncode:
    sys.exit(r.stderr[:3000])
want = dict(l.split("\t", 1) for l in subprocess.run([t + "/a"], capture_output=True, text=True).stdout.splitlines())
out = t + "/o.json"
tool = front.extractor()
r = subprocess.run([tool, out, D + "/", src, "--", "-std=c++20", "-resource-dir", front.LLVM + "/lib/clang/18", "-DFMT_HEADER_ONLY"], capture_output=True, text=True)
d = json.load(open(out))
if d["errors"]:
    sys.exit(r.stderr[:3000])
p = front.Program()
for k, f in d["functions"].items():
    f["key"], f["unit"], f["sn"] = k, src, strip(f["n"])
    p.functions[k] = f
p.records, p.globals, p.enums = d["records"], d["globals"], d["enums"]
p.by_unit[src] = d["functions"]
subprocess.run(["rm", "-rf", t])
bad = 0
I = Interp(p)
for n in names:
    try:
        res = list(I.explore(lambda I: I.rv(I.call_by_name("mt::" + n, []))))
        x = res[0]
        if len(res) != 1 or x.kind != "return":
            got = "%d paths, %s %s" % (len(res), x.kind, getattr(x, "what", ""))
        else:
            c = x.value.concrete()
            got = c.decode("latin-1") if c is not None else repr(x.value)
    except Undecided as u:
        got = "UNDECIDED %s" % u
    except Exception as u:
        if "-v" in os.environ.get("V", ""):
            raise
        got = "CRASH %r" % u
    w = json.loads(want[n])
    if got != w:
        bad += 1
        print("%-14s want %r\n%14s got  %s" % (n, w, "", got[:200]))
print("%d of %d models agree" % (len(names) - bad, len(names)))
