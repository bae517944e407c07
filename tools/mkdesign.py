import json,re
t=open('/verif/tools/design_head.md').read()
head,rest=t.split('## Known findings',1)
head=head.replace('| `vpmc` | C01-C19 |','| `vpmc` | C01-C21 |').replace('| `vppipe` | P01-P11 |','| `vppipe` | P01-P12 |')
head=head.replace("fresh database. **C19** the same for the delta tracker, with two crates served by one tracker.\n","""fresh database. **C19** the same for the delta tracker, with two crates served by one tracker.
* **C20** diagnostics across modules and as text: lists of items (valid and with errors, using each other) spread over modules
  in every way must give the diagnostics of the single file at the moved places; for every text of up to 5 (6) characters out of
  6 (line ends, wide characters, tab) and every span and related span, the rendered report is read back: file, line, column and
  underlined text must be those of the span (ariadne shows an empty span at the start of a line on the line before: accepted);
  filters and orders of the diagnostics collection against a list model.
* **C21** projects on disk: manifests in every subset of nested directories x every start path, absolute or relative; every
  subset of 11 files x every form of entry point; odd file names; every subset of manifest lines. Model: nearest manifest
  upwards, modules are the `.cm` files below `src` named by their path. Unspecified and left out: entry points in nested
  directories, hidden or git-ignored files, single files in a directory named `src`. Everything happens in a scratch directory.
""")
head=head.replace("""parameters and results, values and near misses, all texts of arguments over 16
  tokens.
""","""parameters and results, values and near misses, all texts of arguments over 16
  tokens.
* **P12** one program, every division in modules: items of a family distributed over up to three modules in every way and order,
  functions of the same name in different modules, functions named like generated labels, numbers of functions around powers of
  two; every division must compute what the undivided program computes, and compiling twice must give the same program.
  (A constant must stand before the functions that use it; the generator respects this.)
""")
lines=[l for l in open('/verif/known-findings.jsonl') if l.strip()]
known=[];fixed=[]
for l in lines:
    if l.startswith('fixed:'):
        m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l); fixed.append(f"* {m[1]} {m[2]}: {m[3]}")
    else:
        d=json.loads(l); known.append(f"* **{d['property']} {d['id']}**: {d['what']}.")
import os
cost=open('/verif/tools/costs.md').read() if os.path.exists('/verif/tools/costs.md') else ''
catch=open('/verif/tools/catches.md').read() if os.path.exists('/verif/tools/catches.md') else ''
out=head+cost+catch+"""## Known findings

Genuine defects that are recorded, not repaired (`known-findings.jsonl`; matched by witness):

"""+"\n".join(known)+"""

## Repaired defects (fix: commits in /repo)

Each was found by the check named.

"""+"\n".join(fixed)+"\n"
open('/verif/DESIGN.md','w').write(out)
