#!/usr/bin/env python3
"""Rewrites the list of seeded changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "## Seeded changes\n"
rows = []
for p in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"], m["what_it_breaks"].replace("|", "\\|")))
d = os.path.join(V, "DESIGN.md")
s = open(d).read()
s = s[:s.index(HEAD)] + HEAD + """
Each is caught by the check of the property it is planted against (`seedkit/validate.sh` confirms it, and that the
repository's tests still pass with it). Besides these, single-edit mutants of every source file the properties are
anchored in were generated and run against the checks (`W=8 mutgen FILE CHECKS`; not kept); those that survive are
equivalent, or change only the wording of a message.

| change | property and check | what it breaks |
|---|---|---|
""" + "\n".join(rows) + "\n"
open(d, "w").write(s)
