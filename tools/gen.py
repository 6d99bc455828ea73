#!/usr/bin/env python3-vt
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import proptext, specs
with open(V + '/properties.jsonl', 'w') as f:
    for i in sorted(proptext.TEXT):
        d = {k: v for k, v in proptext.TEXT[i].items() if k != 'level_note'}
        assert len(d['title']) <= 80, i
        f.write(json.dumps(d) + '\n')
checks = [{'property': i, 'quick_cmd': 'python3-vt check.py %s' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
           'technique': 'symbolic execution of the LLVM IR + SMT (z3/cvc5) and exact polynomial/trigonometric normalisation', 'level': 'model_checking', 'level_note': proptext.TEXT[i]['level_note'].strip()}
          for i in sorted(proptext.TEXT) if i in specs.PROPS]
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sympy" && clang++-18 --version', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': r} for i, r in sorted(proptext.NA.items())],
     'notes': 'check.py compiles the current sources of /repo to LLVM IR on every run; see DESIGN.md.'}
missing = [i for i in proptext.TEXT if i not in specs.PROPS and i not in proptext.NA]
assert not missing, missing
extra = [i for i in specs.PROPS if i not in proptext.TEXT]
if extra: print('no text for', extra)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

# DESIGN.md
import glob
def short(x): return x if len(x) < 90 else x[:87] + '...'
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## 6. Per property', '',
       'Every unit is one harness entry: *name* (`harness file`: entry point), with the enumerated choices (the number of values of each), and the arithmetic when it is not exact reals.', '']
seeds = {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(d)); seeds.setdefault(j['property'], []).append((os.path.basename(os.path.dirname(d)), j))
known = [l.strip() for l in open(V + '/known_findings.txt') if l.strip() and not l.startswith('#')]
for i in sorted(proptext.TEXT):
    t = proptext.TEXT[i]
    out += ['### %s. %s' % (i, t['title']), '', t['statement'], '', '*For all:* %s.' % t['quantifier']['text'], '', '*Why tests cannot settle it:* ' + t['why_tests_cant'], '']
    if i in proptext.NA: out += ['*Not applicable:* ' + proptext.NA[i], '']; continue
    out += ['*Decided by:* ' + t['level_note'].strip(), '']
    u_ = {}
    for u in specs.PROPS[i]['units']:
        sp = ', '.join('%s:%s' % (k, len(v) if isinstance(v, (list, tuple)) else v) for k, v in (u.split or {}).items())
        key = (u.harness, u.entry, sp, u.mode, tuple(u.tiers))
        u_.setdefault(key, []).append(u.name)
    for (h, e, sp, mode, tiers), ns in u_.items():
        out.append('- %s (`%s`: `%s`)%s%s%s' % (', '.join(ns), h, e, '; ' + sp if sp else '', '; bit-precise' if mode != 'real' else '', '; only ' + tiers[0] if len(tiers) == 1 else ''))
    out.append('')
    fx = [l for l in known if ('property=%s ' % i) in l]
    fi = [l for l in fx if l.startswith('finding')]; fd = [l for l in fx if l.startswith('fixed')]
    if fi: out += ['*Known findings:* %d (see `known_findings.txt`).' % len(fi), '']
    if fd: out += ['*Defects repaired:* ' + '; '.join(l.split(None, 2)[2] for l in fd) + '.', '']
    if i in seeds: out += ['*Planted bugs caught by this check:* ' + '; '.join('%s (%s; needs: %s)' % (n, j['what_it_breaks'], j['needs']) for n, j in seeds[i]) + '.', '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
