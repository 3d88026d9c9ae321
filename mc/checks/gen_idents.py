#!/usr/bin/env python3
"""Writes src/p28_idents.rs: every identifier of up to 4 characters out of
a B _ 1, and a few longer and non-ASCII ones, in groups whose names stay
distinct under every rule."""
import itertools, os, re

def words(s):
    out, cur = [], ""
    for c in s:
        if c == "_":
            if cur: out.append(cur)
            cur = ""
        elif c.isupper():
            if cur: out.append(cur)
            cur = c
        else:
            cur += c
    if cur: out.append(cur)
    return out

def names(s):
    w = words(s)
    return {"name:" + s, "camel:" + "".join(x.capitalize() for x in w), "snake:" + "_".join(w).lower()}

ids = []
for n in range(1, 5):
    for t in itertools.product("aB_1", repeat=n):
        s = "".join(t)
        if s[0] == "1" or s == "_": continue
        ids.append(s)
ids += ["field_name", "fieldName", "FieldName", "FIELD_NAME", "_field__name_", "f1_2x", "ident9", "ABCdef", "abcDEF",
        "naïve_été", "Éa_ß", "ßa", "ǆx", "δοκιμή", "文字", "aİb"]
groups = []
for s in ids:
    k = names(s)
    for g, seen in groups:
        if not (k & seen):
            g.append(s); seen |= k
            break
    else:
        groups.append(([s], set(k)))
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "src/p28_idents.rs"), "w") as f:
    f.write("// Written by gen_idents.py.\n#[macro_export]\nmacro_rules! idents {\n    ($m:ident) => {\n        $m! {\n")
    for i, (g, _) in enumerate(groups):
        f.write(f"            G{i} {{ {' '.join(g)} }}\n")
    f.write("        }\n    };\n}\n")
print(len(ids), "identifiers", len(groups), "groups")
