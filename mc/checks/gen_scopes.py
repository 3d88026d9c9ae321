#!/usr/bin/env python3
"""Writes src/p28_scopes.rs: names given by every set of up to three attributes
which apply to one mode or all, to one direction or both."""
import itertools, os

MODES = [("", ""), ("Binary, ", "B"), ("Text, ", "T"), ("mode = Custom, ", "C")]
DIRS = [("", ""), ("encode_only, ", "e"), ("decode_only, ", "d")]
ATTRS = [(m + d, a, b) for m, a in MODES for d, b in DIRS]
sets = [s for n in (0, 1, 2, 3) for s in itertools.combinations(ATTRS, n)]
pairs = [s for n in (1, 2) for s in itertools.combinations(ATTRS, n)]

def show(s):
    return "[" + ", ".join(f'("{m}", "{d}")' for _, m, d in s) + "]"

here = os.path.dirname(os.path.abspath(__file__))
out = ["// Written by gen_scopes.py.", "use super::*;", ""]
def attrs(k, s, what="name"):
    return " ".join(f'#[musli({a}name = "{k}{m}{d}")]' for a, m, d in s)
out.append("/// The modes and directions of the attributes of every field and variant.")
out.append(f"pub const SETS: &[&[(&str, &str)]] = &[{', '.join('&' + show(s) for s in sets)}];")
PART = 60
parts = [list(range(i, min(i + PART, len(sets)))) for i in range(0, len(sets), PART)]
for p, ks in enumerate(parts):
    out.append("#[derive(Debug, Clone, PartialEq, Default, Encode, Decode)]\n#[musli(name(type = str))]\n#[musli(mode = Custom, name(type = str))]")
    out.append(f"pub struct Fields{p} {{")
    for k in ks:
        out.append(f"    {attrs(k, sets[k])} #[musli(default, skip_encoding_if = zero)] pub f{k}: u8,")
    out.append("}")
    out.append("#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]\n#[musli(name(type = str))]\n#[musli(mode = Custom, name(type = str))]")
    out.append(f"pub enum Unit{p} {{")
    for k in ks:
        out.append(f"    {attrs(k, sets[k])} f{k},")
    out.append("}")
    out.append("#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]\n#[musli(name(type = str))]\n#[musli(mode = Custom, name(type = str))]")
    out.append(f"pub enum Full{p} {{")
    for k in ks:
        out.append(f"    {attrs(k, sets[k])} f{k} {{ x: u8 }},")
    out.append("}")
    out.append(f"impl Part for Fields{p} {{\n    const NAME: &'static str = \"field\";\n    fn all() -> Vec<(usize, Self)> {{\n        vec![")
    for k in ks:
        out.append(f"            ({k}, Self {{ f{k}: 200, ..Self::default() }}),")
    out.append("        ]\n    }\n    fn with(name: &str, _: Den) -> Den {\n        Den::Map(vec![(Den::str(name), Den::U8(200))])\n    }\n}")
    out.append(f"impl Part for Unit{p} {{\n    const NAME: &'static str = \"unit\";\n    fn all() -> Vec<(usize, Self)> {{\n        vec![")
    for k in ks:
        out.append(f"            ({k}, Self::f{k}),")
    out.append("        ]\n    }\n    fn with(name: &str, _: Den) -> Den {\n        Den::str(name)\n    }\n}")
    out.append(f"impl Part for Full{p} {{\n    const NAME: &'static str = \"variant\";\n    fn all() -> Vec<(usize, Self)> {{\n        vec![")
    for k in ks:
        out.append(f"            ({k}, Self::f{k} {{ x: 201 }}),")
    out.append("        ]\n    }\n    fn with(name: &str, x: Den) -> Den {\n        Den::var(Den::str(name), Den::Map(vec![(x, Den::U8(201))]))\n    }\n}")
RULES = ["PascalCase", "SCREAMING-KEBAB-CASE"]
cn = []
for i, s in enumerate(pairs):
    out.append("#[derive(Debug, Clone, PartialEq, Encode, Decode)]")
    if not any(m == "C" for _, m, _ in s):
        out.append("#[musli(mode = Custom, encode_only, bound = {})]")
    out.append(" ".join(f'#[musli({a}name_all = "{r}")]' for (a, _, _), r in zip(s, RULES)))
    out.append(f"pub struct All{i} {{ first_field: u8 }}")
    out.append(f"impl Whole for All{i} {{ const SET: &'static [(&'static str, &'static str, &'static str)] = &[" +
               ", ".join(f'("{m}", "{d}", "{r}")' for (_, m, d), r in zip(s, RULES)) +
               f"]; fn new() -> Self {{ Self {{ first_field: 77 }} }} }}")
out.append("pub fn add<F: Format>(c: &mut Check)\nwhere")
for p in range(len(parts)):
    for t in ("Fields", "Unit", "Full"):
        out.append(f"    {t}{p}: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,")
for i in range(len(pairs)):
    out.append(f"    All{i}: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,")
out.append("{")
for p in range(len(parts)):
    for t in ("Fields", "Unit", "Full"):
        out.append(f"    part::<F, {t}{p}>(c, {p});")
for i in range(len(pairs)):
    out.append(f"    whole::<F, All{i}>(c);")
out.append("}")
open(os.path.join(here, "src/p28_scopes.rs"), "w").write("\n".join(out) + "\n")
print(len(sets), "sets", len(pairs), "pairs")
