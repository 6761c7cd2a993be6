#!/usr/bin/env python3
"""tools/mkseeded.py: rewrites section 5 of DESIGN.md (planted bugs) from seeded/*/meta.json; development aid, no check reads seeded/."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''## 5. Planted bugs

%d changes in `seeded/`, each confirmed in a scratch copy (`tools/plant.py`): it applies, compiles, passes the seven tests, and
its demonstration fails with it and passes without. They were written from the property texts and the code. Every one is
caught by the quick check of its own property (seed 1); `tools/sens.sh` repeats this. What was missed when it was first
planted led to the extension named here:

* far indices (`c01-index-16bit`, `c04-symbolic-id-8bit`, `c28-variable-16bit`, `c29-pd-8bit`): indices up to 2^32, and pairs
  which agree in their lower bits, in all generators;
* `c03-list-substitute-leak`: C03 substitutes parts that do occur, and lists of them; vectors, translators and quadrature
  objects take part in the histories;
* deep trees (`c06-pass-limit`), whole vectors as searched items, unusual constants (`dict.hpp`), compile-time formulas stored
  in runtime objects, functors without a `modifies` of their own.

Mutation testing (`+`/`-`, exchanged operands, dropped conditions, deleted statements, one at a time on random lines of
the library) was used in the same way; what survived was looked at one by one, see the end of this section.

| change | check | what it needs to show |
|---|---|---|
'''
rows = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'].replace('|', '/')))
p = V + '/DESIGN.md'; s = open(p).read()
tail = ''
if '\n### Mutants' in s: tail = s[s.index('\n### Mutants'):]
if '## 5. Planted bugs' in s: s = s[:s.index('## 5. Planted bugs')]
elif tail: s = s[:s.index('\n### Mutants')]
open(p, 'w').write(s.rstrip('\n') + '\n\n' + HEAD % len(rows) + '\n'.join(rows) + '\n' + tail)
