"""Runs checks against the planted bugs and writes the table of DESIGN.md.

   plantcheck.py [--tests] [ids...]     own checks of the given (default: all) bugs, quick tier, seed 1
The result is kept in tools/plants.json, so that the table can be made from several runs."""
import glob, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MORE = {'C19-oneway': ['C05'], 'C21-jointlag': ['C10'], 'C06-hyst': ['C05'], 'C12-points': ['C03', 'C04', 'C06'], 'C09-inplace': ['C12'],
        'C11-order': ['C14'], 'C02-clamp': ['C17'], 'C17-bary': ['C02'], 'C01-repivot': ['C03'], 'C15-alias': ['C19'], 'C14-overshoot': ['C15']}
args = sys.argv[1:]
tests = '--tests' in args
ids = [a for a in args if a[0] != '-'] or [os.path.basename(d) for d in sorted(glob.glob(V + '/seeded/*'))]
P = V + '/tools/plants.json'
table = json.load(open(P)) if os.path.exists(P) else {}
if '--table' not in args:
    for i in ids:
        W = tempfile.mkdtemp()
        try:
            subprocess.check_call(['cp', '-a', '/repo', W + '/r'])
            subprocess.check_call(['git', '-C', W + '/r', 'apply', '%s/seeded/%s/patch.diff' % (V, i)])
            own = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
            env = dict(os.environ, VERIF_REPO=W + '/r', VERIF_SEED='1', PYTHONDONTWRITEBYTECODE='1', SDL_VIDEODRIVER='dummy')
            if tests:
                t = time.time()
                q = subprocess.run(['timeout', '400', '/opt/venv/bin/python', '-m', 'pytest', '-q', 'tests', '-p', 'no:cacheprovider'], cwd=W + '/r',
                                   env=env, capture_output=True, text=True)
                print(i, 'tests', q.returncode, '%.0f s' % (time.time() - t), q.stdout.strip().split('\n')[-1])
            e = table.setdefault(i, {})
            for c in [own] + MORE.get(i, []):
                t = time.time()
                q = subprocess.run(['/opt/venv/bin/python', '%s/checks/%s.py' % (V, c)], env=env, capture_output=True, text=True)
                e[c] = q.returncode
                print(i, c, q.returncode, '%.0f s' % (time.time() - t), flush=True)
            json.dump(table, open(P, 'w'), indent=1, sort_keys=True)
        finally:
            shutil.rmtree(W)
rows = ['| planted bug | what it needs | caught by | not by |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*')):
    i = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    e = table.get(i, {})
    rows.append('| %s | %s | %s | %s |' % (i, m['needs'], ' '.join(c for c in sorted(e) if e[c] == 1), ' '.join(c for c in sorted(e) if e[c] == 0)))
s = open(V + '/DESIGN.md').read()
a, b = '<!-- plants -->\n', '<!-- end of plants -->\n'
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n\n' + s[s.index(b):]
F = json.load(open(V + '/KNOWN-FINDINGS.json'))['entries']
a, b = '<!-- findings -->\n', '<!-- end of findings -->\n'
s = s[:s.index(a) + len(a)] + '\n' + ''.join('* %s `%s`: %s\n' % (f['property'], f['commit'][:7], f['what']) for f in F if f['kind'] == 'fixed') + '\n' + s[s.index(b):]
open(V + '/DESIGN.md', 'w').write(s)
