#!/usr/bin/env python3
"""Lists every harness in harness/src/table.rs."""
import re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []; mods = []
for f in sorted(glob.glob(V + "/harness/src/*.rs")):
    m = os.path.basename(f)[:-3]
    if m in ("lib", "table"): continue
    mods.append(m)
    for h in re.findall(r'pub extern "C" fn (h_\w+)\(\)', open(f).read()): rows.append((m, h))
open(V + "/harness/src/table.rs", "w").write("//! Written by tools/gentable.py.\npub static ALL: &[(&str, extern \"C\" fn())] = &[\n" + "".join('    ("%s", crate::%s::%s),\n' % (h, m, h) for m, h in rows) + "];\n")
open(V + "/harness/src/lib.rs", "w").write("//! Harnesses: symbolic inputs -> real code of /repo -> checked assertions.\n//! Written by tools/gentable.py.\n" + "".join("pub mod %s;\n" % m for m in mods) + "pub mod table;\npub use table::ALL;\n")
