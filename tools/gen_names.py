#!/usr/bin/env python3
"""Writes driver/src/names.rs: macros listing every public name of the palette
(so the drivers can enumerate them).  Reads the tables exported from the spec:
OUT=tables.json tlc ExportTables."""
import json
import re
import sys
t = json.load(open(sys.argv[1]))


def snake(n):
    return re.sub(r"(?<!^)(?=[A-Z])", "_", n).lower()


o = ["// Generated by tools/gen_names.py from the palette of the specification.", ""]
o.append("/// calls `$m! { index Name method into_method on_method into_on_method ... }` for the sixteen ANSI colors with methods")
o.append("#[macro_export]\nmacro_rules! ansi_methods {\n    ($m:ident $($x:tt)*) => { $m! { $($x)*")
for i, n in enumerate(t["ansiNames"][:16]):
    s = snake(n)
    o.append(f"        ({i} {n} {s} into_{s} on_{s} into_on_{s})")
o.append("    } };\n}")
for k in ("ansi", "xterm", "css"):
    o.append(f"#[macro_export]\nmacro_rules! {k}_names {{\n    ($m:ident $($x:tt)*) => {{ $m! {{ $($x)*")
    line = "       "
    for i, n in enumerate(t[k + "Names"]):
        line += f" ({i} {n})"
        if len(line) > 100:
            o.append(line)
            line = "       "
    o.append(line + "\n    } };\n}")
o.append("/// index, variant, builder method, into_ method")
o.append("#[macro_export]\nmacro_rules! effect_names {\n    ($m:ident $($x:tt)*) => { $m! { $($x)*")
for i, e in enumerate(t["effects"]):
    o.append(f"        ({i} {e['name']} {e['method']} into_{e['method']})")
o.append("    } };\n}")
open("/verif/driver/src/names.rs", "w").write("\n".join(o) + "\n")
