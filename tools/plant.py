"""plant(id, prop, [(file, old, new)], demo, needs, what): writes seeded/<id>/ from a textual edit of /repo's HEAD (development aid)"""
import json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# run with cwd /repo after the build; everything else happens in a scratch directory
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
F=$R/bin/funge
'''


def plant(id, prop, edits, demo, needs, what):
    top = tempfile.mkdtemp()
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar -x -C ' + top + ' && cd ' + top + ' && git init -q . && git add -A && git -c user.name=a -c user.email=a commit -qm a', shell=True)
        for f, a, b in edits:
            p = top + '/' + f
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        d = subprocess.check_output(['git', '-C', top, 'diff']).decode()
        o = V + '/seeded/' + id
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(d)
        open(o + '/demo.sh', 'w').write(HEAD + demo)
        os.chmod(o + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(o + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(top)
