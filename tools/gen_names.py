#!/usr/bin/env python3
"""Rewrites sa/names.json: the functions of the reference tree and their number of parameters.  The analysis
uses it only to find a function again that was renamed (Program.renamed)."""
import ast, json, os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.program import Program, _flat, arity

p = Program()
out = {}
for mn, m in p.modules.items():
    for n in _flat(m.tree.body):
        if isinstance(n, ast.FunctionDef):
            out["%s:%s" % (mn, n.name)] = arity(n)
        if isinstance(n, ast.ClassDef):
            for x in _flat(n.body):
                if isinstance(x, ast.FunctionDef):
                    out["%s:%s.%s" % (mn, n.name, x.name)] = arity(x)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(out, open(os.path.join(here, "sa", "names.json"), "w"), indent=0)
