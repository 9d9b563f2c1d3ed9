"""Build and try out planted bugs (development tool; no check reads its output).

usage: plant.py SPEC.py [...]            build seeded/<id>/ from a spec and verify it
       plant.py --recheck ID [...]       run the check again for existing seeded bugs

A spec is a Python file that defines BUGS, a list of dicts with ID, PROP,
EDITS [(file, old, new)], NEEDS, BREAKS and DEMO (source of demo.py).
"""
import sys, os, json, subprocess, shutil, runpy, re, glob, tempfile
import xml.etree.ElementTree as ET
PY = '/opt/venv/bin/python'
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           JAX_PLATFORMS='cpu', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/vp/cache/mpl',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', OPENBLAS_CORETYPE='Haswell')
DEMO_HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
import numpy as np
'''
DEMO_SH = '''#!/bin/bash
# run with cwd /repo; exit 0 when the property holds
d="$(cd "$(dirname "$0")" && pwd)"
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$d/demo.py"
'''


def scratch(tag):
    d = '/tmp/plant_' + tag
    subprocess.run(['rm', '-rf', d])
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    return d


def run_tests(d, tag):
    base = json.load(open('/opt/vp/BASELINE.json'))
    rep = '/tmp/plantrep_' + tag
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(rep)
    dirs = sorted({os.path.dirname(p) for p in glob.glob(d + '/tests/**/test_*.py', recursive=True)})
    ps = []
    for x in dirs:
        n = re.sub('[^a-zA-Z0-9]', '_', os.path.relpath(x, d))
        files = sorted(os.path.basename(p) for p in glob.glob(x + '/test_*.py'))
        ps.append(subprocess.Popen(
            ['timeout', '780', PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:xdist',
             '--rootdir=' + d, '--timeout=300', '--continue-on-collection-errors', '-W', 'ignore',
             '-o', 'junit_family=xunit2', '--junitxml=%s/%s.xml' % (rep, n)] + files,
            cwd=x, env=dict(ENV, PYTHONPATH=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in ps:
        p.wait()
    good, bad = set(), set()
    for f in glob.glob(rep + '/*.xml'):
        for tc in ET.parse(f).getroot().iter('testcase'):
            k = (tc.get('classname') or '') + '::' + tc.get('name')
            (bad if any(c.tag in ('failure', 'error') for c in tc) else good).add(k)
    shutil.rmtree(rep, ignore_errors=True)
    return good, bad, base


def demo(folder, cwd):
    r = subprocess.run(['bash', folder + '/demo.sh'], cwd=cwd, env=ENV, capture_output=True, text=True, timeout=300)
    return r


def check(prop, d, tag, seed='1'):
    env = dict(os.environ, VERIF_REPO=d, VERIF_SEED=seed, VERIF_TIER='quick')
    r = subprocess.run(['./check', prop, 'quick'], cwd=VER, env=env, capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return r.returncode, v, r


def substitute(src, old, new):
    """Replace the one place where old occurs, comparing without white space and comments."""
    import io, re, tokenize
    starts = [0]
    for l in src.splitlines(True):
        starts.append(starts[-1] + len(l))
    skip = set()
    for tk in tokenize.generate_tokens(io.StringIO(src).readline):
        if tk.type == tokenize.COMMENT:
            a = starts[tk.start[0] - 1]
            skip.update(range(a + tk.start[1], a + tk.end[1]))
    pos = [i for i, c in enumerate(src) if not c.isspace() and i not in skip]
    flat = ''.join(src[i] for i in pos)
    key = ''.join(re.sub('#[^\n]*', '', old).split())
    n = flat.count(key)
    if n != 1:
        return n
    k = flat.index(key)
    a, b = pos[k], pos[k + len(key) - 1] + 1
    line = src[src.rfind('\n', 0, a) + 1:a]
    ind = line[:len(line) - len(line.lstrip())]
    import textwrap
    new = textwrap.dedent(new).strip('\n')
    return src[:a] + new.replace('\n', '\n' + ind) + src[b:]


def build(s):
    ID, prop = s['ID'], s['PROP']
    out = os.path.join(VER, 'seeded', ID)
    d = scratch(ID)
    try:
        for f, old, new in s['EDITS']:
            p = os.path.join(d, f)
            src = open(p).read()
            res = substitute(src, old, new)
            if isinstance(res, int):
                print(ID, 'EDIT does not match once (%d): %r' % (res, old), flush=True); return
            open(p, 'w').write(res)
        diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(DEMO_HEAD + s['DEMO'].lstrip('\n'))
        json.dump({'property': prop, 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
                  open(out + '/meta.json', 'w'), indent=1)
        r0 = demo(out, '/repo'); r1 = demo(out, d)
        msg = []
        if r0.returncode: msg.append('DEMO FAILS ON CLEAN: ' + (r0.stdout + r0.stderr)[-600:])
        if not r1.returncode: msg.append('DEMO PASSES ON BUG')
        elif 'AssertionError' not in r1.stderr: msg.append('demo failed otherwise: ' + r1.stderr[-400:])
        if not os.environ.get('SKIPTEST'):
            good, bad, base = run_tests(d, ID)
            if CLEAN is not None:
                lost = CLEAN - good
                lost = {x for x in lost if 'test_compile_speedup' not in x}
                if lost and len(lost) < 4:
                    lost -= run_tests(d, ID)[0]
                if lost: msg.append('TESTS BROKEN: %s' % sorted(lost)[:4])
        rc, v, r = check(prop, d, ID)
        print('%s %s: %s | check rc=%d %s' % (ID, prop, 'OK' if not msg else ' ; '.join(msg), rc,
              'CAUGHT ' + re.sub(r'.*replay=', '', v[0]) if v else '*** MISSED ***'), flush=True)
        if rc not in (0, 1): print(r.stdout[-1500:], r.stderr[-1500:])
        if v: 
            m = [l for l in r.stdout.splitlines() if not l.startswith('VIOLATION')]
            print('     ', '\n      '.join(x[:200] for x in m if 'iolat' in x or 'FAIL' in x)[:600])
    finally:
        subprocess.run(['rm', '-rf', '/tmp/plant_' + ID])


def recheck(ID, seed='1'):
    out = os.path.join(VER, 'seeded', ID)
    prop = json.load(open(out + '/meta.json'))['property']
    d = scratch(ID)
    try:
        subprocess.run(['git', 'apply', out + '/patch.diff'], cwd=d, check=True)
        rc, v, r = check(prop, d, ID, seed)
        print('%s %s: seed %s rc=%d %s' % (ID, prop, seed, rc, 'CAUGHT' if v else '*** MISSED ***'), flush=True)
    finally:
        subprocess.run(['rm', '-rf', '/tmp/plant_' + ID])


def clean_tests():
    f = '/tmp/plant_clean.json'
    head = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    if os.path.exists(f):
        j = json.load(open(f))
        if j['head'] == head:
            return set(j['good'])
    good = None
    for k in range(2):
        g, b, _ = run_tests('/repo', 'clean')
        good = g if good is None else good & g
    json.dump({'head': head, 'good': sorted(good)}, open(f, 'w'))
    print('clean tests', len(good))
    return good


if __name__ == '__main__':
    if sys.argv[1] == '--recheck':
        for seed in os.environ.get('SEEDS', '1').split():
            for i in sys.argv[2:]:
                recheck(i, seed)
    else:
        CLEAN = clean_tests()
        bugs = [b for f in sys.argv[1:] for b in runpy.run_path(f)['BUGS']]
        if os.environ.get('ONLY'):
            bugs = [b for b in bugs if b['ID'] in os.environ['ONLY'].split()]
        from concurrent.futures import ThreadPoolExecutor
        def go(b):
            try:
                build(b)
            except Exception as e:
                print(b['ID'], 'runner error', repr(e)[:300], flush=True)
        with ThreadPoolExecutor(int(os.environ.get('PAR', '2'))) as ex:
            list(ex.map(go, bugs))
