"""check <ID> [quick|thorough]   |   check replay <file>   |   (internal) worker"""
import glob, json, os, subprocess, sys, tempfile, time, zipfile, shutil, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


def provision():
    """Directory holding Hypothesis (unpacked from the committed wheels; nothing is installed)."""
    d = tempfile.mkdtemp(prefix='verif_hyp_')
    for w in glob.glob(os.path.join(VERIF, 'vendor', 'wheels', '*.whl')):
        zipfile.ZipFile(w).extractall(d)
    return d


def setup_path():
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    h = os.environ.get('VERIF_HYP')
    if h:
        sys.path.append(h)


def load(prop):
    import importlib
    from pbt import core
    importlib.import_module('props.%s' % prop.lower())
    import tmdsimpy
    assert os.path.abspath(tmdsimpy.__file__).startswith(REPO), tmdsimpy.__file__
    return core


def worker(prop, idx, shard, tier, seed, out):
    setup_path()
    core = load(prop)
    cl = core.CLAUSES[idx]
    budget = 200.0 if tier == 'quick' else 640.0
    try:
        res = core.run_clause(prop, cl, tier, seed, shard, budget)
    except BaseException:
        res = dict(clause=cl.name, shard=shard, error=traceback.format_exc())
    with open(out, 'w') as f:
        json.dump(res, f, default=core._jd)


def list_clauses(prop):
    r = subprocess.run([sys.executable, os.path.join(HERE, 'main.py'), 'clauses', prop],
                       capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr)
        sys.exit(3)
    return json.loads(r.stdout.strip().splitlines()[-1])


def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == prop]


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    hyp = provision()
    os.environ['VERIF_HYP'] = hyp
    tmp = tempfile.mkdtemp(prefix='verif_run_')
    try:
        clauses = list_clauses(prop)
        only = os.environ.get('VERIF_CLAUSE')
        jobs = [(i, s) for i, c in enumerate(clauses) for s in range(c['shards'])
                if not only or c['name'] == only]

        def go(job):
            i, s = job
            if stop:
                return dict(clause=clauses[i]['name'], shard=s, error='not run: failed already')
            out = os.path.join(tmp, 'r%d_%d.json' % (i, s))
            try:
                r = subprocess.run([sys.executable, os.path.join(HERE, 'main.py'), 'worker', prop, str(i), str(s),
                                    tier, str(seed), out], capture_output=True, text=True, cwd=tmp,
                                   timeout=600 if tier == 'quick' else 1500)
            except subprocess.TimeoutExpired:
                return dict(clause=clauses[i]['name'], shard=s, error='worker ran out of time')
            if not os.path.exists(out):
                return dict(clause=clauses[i]['name'], shard=s,
                            error='worker died rc=%s\n%s' % (r.returncode, r.stderr[-3000:]))
            r = json.load(open(out))
            if 'failure' in r and os.environ.get('VERIF_FAILFAST'):
                stop.append(1)
            return r
        stop = []
        with ThreadPoolExecutor(NPROC) as ex:
            results = list(ex.map(go, jobs))
    finally:
        shutil.rmtree(hyp, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)

    errors = [r for r in results if 'error' in r]
    fails = [r for r in results if 'failure' in r]
    cov = dict(evaluations=0, distinct_nontrivial=0,
               rule='; '.join('%s: %s' % (c['name'], c['rule']) for c in clauses), samples=[], clauses={})
    for r in results:
        if 'error' in r:
            continue
        c = cov['clauses'].setdefault(r['clause'], dict(evaluations=0, nontrivial=0, skipped=0, labels={},
                                                        not_run_out_of_budget=0, wall_s=0.0))
        c['evaluations'] += r['evaluations']
        c['nontrivial'] += r['nontriv']
        c['skipped'] += r['skipped']
        c['not_run_out_of_budget'] += r['out_of_budget']
        c['wall_s'] = round(c['wall_s'] + r['wall'], 2)
        for k, v in r['labels'].items():
            c['labels'][k] = c['labels'].get(k, 0) + v
        cov['evaluations'] += r['evaluations']
        cov['distinct_nontrivial'] += r['nontriv']
        if r['shard'] == 0:
            for s in r['samples'][:2]:
                if len(cov['samples']) < 12:
                    cov['samples'].append(dict(clause=r['clause'], case=s))
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=len(fails),
              assumptions=['floating point comparison within the tolerance stated in each clause',
                           'cases are drawn from the generators described by the rule; absence is not established'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    if errors:
        for r in errors:
            sys.stderr.write('HARNESS ERROR in %s/%s: %s\n' % (prop, r['clause'], r['error']))
    kn = known(prop)
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rc = 0
    done = set()
    for r in fails:
        if r['clause'] in done:
            continue
        done.add(r['clause'])
        od = os.path.join(VERIF, 'out')
        os.makedirs(od, exist_ok=True)
        path = os.path.join(od, '%s-%s.json' % (prop, r['clause']))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, clause=r['clause'], case=r['failure']['case'],
                           msg=r['failure']['msg'], seed=seed), f, indent=1)
        print('%s/%s: %s' % (prop, r['clause'], r['failure']['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    if rc == 0 and errors:
        rc = 3
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %d errors, %.1fs'
          % (prop, tier, seed, cov['evaluations'], cov['distinct_nontrivial'], len(fails), len(errors),
             time.time() - t0))
    return rc


def replay(path):
    d = json.load(open(path))
    hyp = provision()
    os.environ['VERIF_HYP'] = hyp
    try:
        setup_path()
        core = load(d['property'])
        cl = [c for c in core.CLAUSES if c.name == d['clause']][0]
        status, msg, t = core.judge(cl, d['case'])
    finally:
        shutil.rmtree(hyp, ignore_errors=True)
    print('%s/%s: %s %s' % (d['property'], d['clause'], status, msg))
    if status == 'fail':
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    return 0


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'worker':
        worker(a[1], int(a[2]), int(a[3]), a[4], int(a[5]), a[6])
    elif a[0] == 'clauses':
        setup_path()
        core = load(a[1])
        print(json.dumps([dict(name=c.name, shards=c.shards, rule=c.rule) for c in core.CLAUSES]))
    elif a[0] == 'setup':
        os.environ['VERIF_HYP'] = d = provision()
        setup_path()
        import hypothesis, numpy, scipy, jax, tmdsimpy
        shutil.rmtree(d, ignore_errors=True)
        print('hypothesis', hypothesis.__version__, 'tmdsimpy', tmdsimpy.__file__)
    elif a[0] == 'replay':
        sys.exit(replay(a[1]))
    else:
        tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
        sys.exit(run(a[0], tier))
