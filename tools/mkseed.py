"""mkseed.py: helper used interactively: mk(id, prop, path, [(old,new)], needs, breaks, demo_cpp, sources, flags)"""
import os, subprocess, json
RUN = '''#!/bin/bash
# run in /repo after build.sh: exit 0 if the property holds on this input
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++11 -w -g %s -I sources -I /usr/include/eigen3 "$here/demo.cpp" %s -o "$t/demo" -ldl || exit 9
cd "$t" && timeout 100 ./demo > out.txt 2>&1; r=$?; tail -5 out.txt; exit $r
'''
CORE = ' '.join('sources/core/%s.cpp' % n for n in ('common', 'params', 'data', 'data_storage', 'vertical_segment'))
REPO = os.environ.get('SEED_REPO', '/repo')
def mk(id, prop, edits, needs, breaks, demo, sources=CORE, flags='-O1'):
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(['git', '-C', REPO, 'status', '--porcelain'])
    for path, old, new in edits:
        f = REPO + '/' + path; s = open(f, encoding='latin-1', newline='').read(); assert s.count(old) == 1, (path, s.count(old), old)
        open(f, 'w', encoding='latin-1', newline='').write(s.replace(old, new))
    open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', REPO, 'diff']))
    subprocess.check_call(['git', '-C', REPO, 'checkout', '--', '.'])
    open(d + '/demo.cpp', 'w').write(demo); open(d + '/demo.sh', 'w').write(RUN % (flags, sources))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print(id, open(d + '/patch.diff').read().count('\n'))
