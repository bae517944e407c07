#!/usr/bin/env python3
"""Writes the root of the shadow prover crate from /repo's own lib.rs: the same file with absolute
module paths, without the debug tools (they need parts of stwo that the stand-ins do not model)."""
import os, re
src = "/repo/crates/prover/src"
out = "/verif/harness/prove/shadow/gen/lib.rs"
def mod(m):
    name = m.group(2)
    if name == "debug_tools":
        return ""
    p = f"{src}/{name}.rs"
    if not os.path.exists(p):
        p = f"{src}/{name}/mod.rs"
    return f'#[path = "{p}"]\n{m.group(1)}mod {name};'
text = re.sub(r"^((?:pub(?:\([a-z]+\))? )?)mod (\w+);", mod, open(f"{src}/lib.rs").read(), flags=re.M)
os.makedirs(os.path.dirname(out), exist_ok=True)
if not os.path.exists(out) or open(out).read() != text:
    open(out, "w").write(text)
