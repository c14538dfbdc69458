#!/usr/bin/env python3
# DESIGN.md from tools/design_head.md, the harness comments, the notes below and the planted bugs
import glob, json, os, re
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(base + '/tools/design_notes.json'))
out = [open(base + '/tools/design_head.md').read().rstrip(), '', '## Properties, one by one', '']
seeds = {}
for d in sorted(glob.glob(base + '/seeded/*/meta.json')):
    m = json.load(open(d))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
for l in open(base + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out += [f"### {i} {p['title']}", '']
    out += [NOTES.get(i, ''), '']
    f = f'{base}/harness/{i}.go'
    if os.path.exists(f):
        s = open(f).read()
        for m in re.finditer(r'((?://[^\n]*\n)+)func (vh\w+)\(\)', s):
            ls = m.group(1).strip().split('\n')
            if not any(x.startswith('//verif:') for x in ls):
                continue
            doc = ' '.join(x[2:].strip() for x in ls if not x.startswith('//verif:') and not x.startswith('//uses'))
            d = ' '.join(x[8:] for x in ls if x.startswith('//verif:'))
            extra = []
            if ' fp' in ' ' + d: extra.append('IEEE floats')
            if 'thorough ' in d + ' ' and re.search(r'\bthorough\b', d): extra.append('thorough only')
            for r in re.findall(r'stub=(\w+):', d): extra.append(f'{r} replaced')
            for r in re.findall(r'redirect=(\S+?):', d): extra.append('plot.New replaced by an empty plot without fonts' if r.endswith('plot.New') else r.split('.')[-1] + ' replaced by exact normal equations')
            out.append(f"- {doc}" + (f" [{'; '.join(extra)}]" if extra else ''))
        out.append('')
    if i in seeds:
        out.append('Planted bugs caught by the quick check: ' + ', '.join(f'`{n}`' for n, m in seeds[i] if not m.get('missed')) + '.')
        ms = [f'`{n}`' for n, m in seeds[i] if m.get('missed')]
        if ms:
            out.append('Not caught: ' + ', '.join(ms) + '.')
        out.append('')
out.append(open(base + '/tools/design_tail.md').read().rstrip())
open(base + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
