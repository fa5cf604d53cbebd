"""
Runs checks against the planted changes, each in its own copy of /repo (development aid, not a check).
seeded.py [--only SUBSTR,...] [--props own|all|C01,C02] [--jobs N]
"""
import sys, os, json, subprocess, shutil, time, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
opt = dict(zip(sys.argv[1::2], sys.argv[2::2]))
only = opt.get('--only', '').split(',')
which = opt.get('--props', 'own')
ALL = ['C%02d' % i for i in range(1, 15)]
for b in sorted(os.listdir(HERE + '/seeded')):
    d = HERE + '/seeded/' + b
    if not os.path.exists(d + '/patch.diff') or not any(o in b for o in only): continue
    meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='seeded-')
    try:
        shutil.copytree('/repo', w + '/r', symlinks=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w + '/r', check=True)
        out = []
        for p in ([meta['property']] if which == 'own' else ALL if which == 'all' else which.split(',')):
            t = time.time()
            r = subprocess.run([HERE + '/check', p], env=dict(os.environ, DST_REPO=w + '/r'), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('violation:')]
            out.append('%s:%s(%ds)%s' % (p, {0: '-', 1: 'CAUGHT'}.get(r.returncode, 'ERROR %d' % r.returncode), time.time() - t, ' ' + v[0][:110] if v else ''))
            if r.returncode not in (0, 1): print(r.stdout[-2000:], r.stderr[-2000:])
        print('%-24s %s' % (b, '\n                         '.join(out)), flush=True)
    finally: shutil.rmtree(w, ignore_errors=True)
