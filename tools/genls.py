#!/usr/bin/env python3
"""Writes the root of the shadow language server from /repo's own lib.rs: the same file with absolute
module paths, with the controlled standard library in place of std, without the log layer."""
import os, re
src = "/repo/crates/cairo-m-ls/src"
out = "/verif/harness/ls/shadow/gen/lib.rs"
def mod(m):
    name = m.group(2)
    if name == "lsp_tracing":
        return ""
    p = f"{src}/{name}.rs"
    if not os.path.exists(p):
        p = f"{src}/{name}/mod.rs"
    return f'#[path = "{p}"]\n{m.group(1)}mod {name};'
text = re.sub(r"^((?:pub(?:\([a-z]+\))? )?)mod (\w+);", mod, open(f"{src}/lib.rs").read(), flags=re.M)
text += "\nextern crate vpstd as std;\n"
os.makedirs(os.path.dirname(out), exist_ok=True)
if not os.path.exists(out) or open(out).read() != text:
    open(out, "w").write(text)
