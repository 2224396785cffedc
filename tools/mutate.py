"""usage: mutate.py MUTANTS.py PROP [INDEX...]: runs the check PROP on a scratch copy of
/repo for every mutant (file, old, new[, 'eq' if behaviour is the same]) listed in M and
reports the ones that are not noticed.  Work in progress tool, not used by checks."""
import os, shutil, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
prop = sys.argv[2]
only = [int(x) for x in sys.argv[3:]]
top = f'/tmp/mut/{prop}'
repo = top + '/repo'
if not os.path.isdir(repo):
    os.makedirs(top, exist_ok=True)
    subprocess.run(['git', 'clone', '-q', os.environ.get('MUT_SRC', '/repo'), repo], check=True)
else:
    subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
    subprocess.run(['git', '-C', repo, 'pull', '-q'], check=True)
env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=top + '/build', VERIF_WORK=top + '/work', VERIF_OUT=top + '/out', VERIF_SEED='1', VERIF_SKIP_MC='1')
for k, m in enumerate(ns['M']):
    if only and k not in only:
        continue
    f, old, new = m[:3]
    src = open(f'{repo}/{f}').read()
    if src.count(old) != 1:
        print(k, 'BAD MUTANT', src.count(old), repr(old[:60]), flush=True)
        continue
    open(f'{repo}/{f}', 'w').write(src.replace(old, new))
    r = subprocess.run(['/verif/bin/check', prop, 'quick'], env=env, capture_output=True, text=True)
    open(f'{repo}/{f}', 'w').write(src)
    res = {0: 'missed', 1: 'caught', 2: 'NO ANSWER'}.get(r.returncode, r.returncode)
    print(k, res, '(equivalent)' if len(m) > 3 else '', os.path.basename(f), repr(new[:70]), '' if r.returncode < 2 else r.stdout[-300:], flush=True)
