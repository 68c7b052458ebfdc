"""Fills the generated parts of DESIGN.md (units, findings, not applicable, planted changes) from their sources."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import config, verify, extract
U = json.load(open(os.path.join(V, 'tools', 'units.json')))
def units():
    out = ['| unit | properties | functions of /repo under contract | obligations (verifier results) | wall |', '|---|---|---|---|---|']
    for n in verify.units():
        meta, _, fns, _ = extract.generate(os.path.join(V, 'contracts', n + '.rs'), '/repo')
        files = sorted({f['src'].replace('prost-reflect/src/', '') for f in fns})
        out.append(f"| `{n}` | {' '.join(meta['props'][0].split())} | {len(fns)} in {', '.join(files)} | {U.get(n, ['?', '?'])[0]} | {U.get(n, ['?', '?'])[1]} |")
    return '\n'.join(out)
def findings():
    out = []
    for l in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        if m: out.append(f'- {m.group(1)} `{m.group(2)}`: {m.group(3)}')
    return '\n'.join(out)
def na(): return '\n'.join(f'- **{p}**: {r}' for p, r in sorted(config.NOT_APPLICABLE.items()))
def seeds():
    C = json.load(open(os.path.join(V, 'tools', 'caught.json')))
    out = ['| change | property | what manifests it | caught by |', '|---|---|---|---|']
    for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
        out.append(f"| {i} | {m['property']} | {m['needs']} | {C.get(i, '?')} |")
    return '\n'.join(out)
t = open(os.path.join(V, 'tools', 'DESIGN.tpl.md')).read()
for k, f in dict(UNITS_TABLE=units, FINDINGS=findings, NA=na, SEEDS=seeds).items(): t = re.sub(rf'^{k}$', lambda m: f(), t, flags=re.M)
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
