"""Mutation run (development tool; no check reads its output).

usage: mutate.py OUT.jsonl [N] [SEED] [FILEREGEX]
Draws N small syntactic changes of /repo/tmdsimpy (stratified by function), drops those that the relevant existing tests
notice, runs the related checks on the rest and, when all stay quiet, the whole test-suite.  Lines with
"status": "MISSED" are to be read by hand (many are equivalent or outside the stated properties).
"""
import ast, json, os, random, re, subprocess, sys, threading, queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
REPO = '/repo'

VS = {'__init__': 'C18 C11', 'add_nl_force': 'C18 C10', 'init_force_history': 'C18', 'update_force_history': 'C18',
      'set_prestress_mu': 'C18', 'reset_real_mu': 'C18', 'set_aft_initialize': 'C18', 'set_new_C': 'C18',
      'static_res': 'C18', 'total_aft': 'C10 C11', 'hbm_res': 'C11', 'hbm_res_dFl': 'C11', 'linear_frf': 'C16',
      'epmc_res': 'C14', 'hbm_base_res': 'C13', 'linear_frf_base': 'C13', 'shooting_res': 'C17', '_shooting_state_space': 'C17',
      'vprnm_single_eqn': 'C15', 'vprnm_res': 'C15', 'hbm_amp_control_res': 'C12',
      'hbm_amp_phase_control_res': 'C12', 'hbm_amp_phase_control_dA_res': 'C12', 'vprnm_amp_phase_res': 'C15'}
UH = {'Nhc': 'C01', 'harmonic_stiffness': 'C02', 'time_series_deriv': 'C01', 'get_fourier_coeff': 'C01',
      'harmonic_wise_conditioning': 'C29', 'predict_harmonic_solution': 'C26', 'zero_crossing': 'C03',
      'shift_pm_pi': 'C03', 'rotate_subtract_phase': 'C03'}
N, J = 'tmdsimpy/nlforces/', 'tmdsimpy/jax/nlforces/'
MAP = {  # file: (quick tests, checks or per-function checks)
    'tmdsimpy/solvers.py': ('test_solver.py', 'C19 C16'),
    'tmdsimpy/roms/epmc.py': ('roms/test_epmc_roms.py', 'C24'),
    'tmdsimpy/roms/vprnm.py': ('roms/test_vprnm_roms.py', 'C25'),
    'tmdsimpy/vibration_system.py': ('test_hbm.py test_epmc.py test_vprnm.py test_hbm_amp_phase.py test_hbm_base.py '
                                     'test_hbm_control.py test_static_analysis.py test_shooting.py', VS),
    'tmdsimpy/continuation.py': ('test_continuation.py', 'C22 C21'),
    'tmdsimpy/utils/continuation.py': ('test_continuation.py', 'C27'),
    'tmdsimpy/utils/harmonic.py': ('test_harmonic_utils.py test_harmonic_predict.py', UH),
    'tmdsimpy/postprocess/continuation.py': ('postprocess/test_continuation_post.py', 'C23'),
    'tmdsimpy/postprocess/harmonic.py': ('postprocess/test_harmonic.py', 'C28'),
    'tmdsimpy/postprocess/shooting.py': ('test_shooting.py', 'C17'),
    'tmdsimpy/jax/solvers.py': ('jax/test_solver.py', 'C20'),
    'tmdsimpy/jax/harmonic_utils.py': ('jax/test_jax_harmonic_utils.py', 'C01'),
    N + 'nonlinear_force.py': ('nlforces/test_cubic_damping.py nlforces/test_duffing_aft.py '
                               'nlforces/test_jenkins_hysteretic_aft.py nlforces/test_iwan4.py', 'C04 C05 C06 C07 C10 C28'),
    N + 'jenkins_element.py': ('nlforces/test_jenkins_hysteretic_aft.py', 'C06 C05 C07 C28'),
    N + 'iwan4_element.py': ('nlforces/test_iwan4.py', 'C06 C05 C07 C28'),
    N + 'vector_jenkins.py': ('nlforces/test_vector_jenkins.py', 'C07 C05 C28'),
    N + 'vector_iwan4.py': ('nlforces/test_vector_iwan4.py', 'C07 C05 C28'),
    N + 'general_poly_stiffness.py': ('nlforces/test_general_poly_stiffness.py', 'C04 C05 C28'),
    N + 'iwan_bb_conserve.py': ('nlforces/test_iwan_bb_conserve.py', 'C04 C05 C28'),
    N + 'unilateral_spring.py': ('nlforces/test_unilateral_spring.py', 'C04 C05 C28'),
    N + 'cubic_damping.py': ('nlforces/test_cubic_damping.py', 'C04 C05 C28'),
    N + 'cubic_stiffness.py': ('nlforces/test_duffing_aft.py', 'C04 C05 C28'),
    N + 'quintic_stiffness.py': ('nlforces/test_quintic_stiffness.py', 'C04 C05 C28'),
    J + 'jenkins_element.py': ('jax/test_jax_jenkins.py', 'C07 C05'),
    J + 'vector_jenkins.py': ('jax/test_jax_vector_jenkins.py', 'C07 C05'),
    J + 'elastic_dry_fric_2d.py': ('jax/test_jax_2d_eldry.py', 'C08 C05 C18'),
    J + 'elastic_dry_fric_3d.py': ('jax/test_jax_3d_eldry.py', 'C08 C05 C18'),
    J + 'roughcontact/rough_contact.py': ('roughcontact/test_rc_friction.py', 'C09 C05 C18'),
    J + 'roughcontact/_asperity_functions.py': ('roughcontact/test_rc_friction.py', 'C09 C05'),
}
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is']}
CMPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not'}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.Pow: ('**', '*'),
       ast.BitAnd: ('&', '|'), ast.BitOr: ('|', '&')}


NONNUM = {'self', 'solver', 'fun', 'funs_list', 'vib_sys', 'fname', 'config', 'new_config', 'nlforce', 'verbose', 'calc_grad', 'equation',
          'vibration_system', 'return_grad', 'return_aux', 'only_C', 'subset_by_index', 'callback', 'M', 'C', 'K', 'Fl', 'b'}
TRACED = re.compile('^_')


def conds(path, fn, node):
    """Conditions under which a conditional mutant acts (names known in the function)."""
    a = [x.arg for x in node.args.args]
    out = []
    if '/jax/nlforces/' in path or 'jax/harmonic_utils' in path:
        if 'htuple' in a:
            out += ['len(htuple) > 2', 'htuple[0] != 0', 'htuple[-1] > 3']
        if 'Nt' in a:
            out += ['Nt > 16']
        return out
    if 'h' in a:
        out += ['len(h) > 3', 'h[-1] > 5', 'h[0] != 0', 'h[0] != 0 and h[0] != 1', 'h[-1] == 2']
    if 'Nt' in a:
        out += ['Nt > 64', 'Nt < 16']
    if 'calc_grad' in a:
        out += ['not calc_grad']
    if 'vibration_system' in path and 'self' in a:
        out += ['self.M.shape[0] > 3', 'self.M.shape[0] == 1', 'len(self.nonlinear_forces) > 1',
                'len(self.nonlinear_forces) == 0', 'self.ab is None']
    if '/nlforces/' in path and 'self' in a and fn != '__init__':
        out += ['self.Q.shape[0] > 1', 'self.Q.shape[1] > 2', 'self.Q.shape[1] == 1']
    for p in a:
        if p in NONNUM or p in ('h', 'Nt'):
            continue
        out += ['np.size(%s) > 6' % p, 'np.size(%s) == 1' % p, 'np.max(np.abs(%s)) > 2' % p, 'np.min(%s) < 0' % p,
                'np.any(np.equal(%s, 0))' % p]
    return out


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l) + 1)
    pos = lambda ln, c: offs[ln - 1] + len(lines[ln - 1].encode()[:c].decode())
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def add(n, a, b, new, fn, kind):
        out.append(dict(file=path, fn=fn, line=n.lineno, a=a, b=b, new=new, kind=kind, old=src[a:b][:120]))

    def between(l, r, sym, new, node, fn, kind):
        a, b = span(l)[1], span(r)[0]
        seg = src[a:b]
        k = seg.find(sym)
        if k >= 0 and seg.count(sym) == 1:
            add(node, a + k, a + k + len(sym), new, fn, kind)

    def walk(node, fn, skip=False):
        for ch in ast.iter_child_nodes(node):
            f2 = fn
            if isinstance(ch, (ast.FunctionDef,)):
                f2 = ch.name if fn is None else fn + '.' + ch.name if fn else ch.name
                if 'plot' in ch.name:
                    continue
            if isinstance(ch, ast.Raise) or isinstance(ch, ast.Assert) or isinstance(ch, (ast.Import, ast.ImportFrom)):
                continue
            if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant):
                continue
            if isinstance(ch, ast.Call) and getattr(ch.func, 'id', getattr(ch.func, 'attr', '')) in ('print', 'warn', 'format'):
                continue
            if isinstance(ch, ast.JoinedStr):
                continue
            if isinstance(ch, (ast.AugAssign,)) or (isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Call)
                    and getattr(ch.value.func, 'id', '') != 'print'):
                a, b = span(ch)
                add(ch, a, b, 'pass', f2, 'delete')
            if isinstance(ch, ast.AugAssign):
                y = {ast.Add: ('+=', '-='), ast.Sub: ('-=', '+='), ast.Mult: ('*=', '/='), ast.Div: ('/=', '*=')}.get(type(ch.op))
                if y:
                    between(ch.target, ch.value, y[0], y[1], ch, f2, 'aug')
            if isinstance(ch, (ast.If, ast.While)):
                a, b = span(ch.test)
                if isinstance(ch, ast.If):
                    add(ch, a, b, 'True', f2, 'if')
                add(ch, a, b, 'False', f2, 'if')
            if isinstance(ch, ast.Compare) and len(ch.ops) == 1 and type(ch.ops[0]) in CMP:
                between(ch.left, ch.comparators[0], CMPS[type(ch.ops[0])], CMP[type(ch.ops[0])][0], ch, f2, 'cmp')
            if isinstance(ch, ast.BoolOp) and len(ch.values) == 2:
                s = ('and', 'or') if isinstance(ch.op, ast.And) else ('or', 'and')
                between(ch.values[0], ch.values[1], s[0], s[1], ch, f2, 'bool')
            if isinstance(ch, ast.BinOp) and type(ch.op) in BIN:
                o = BIN[type(ch.op)]
                if not (isinstance(ch.left, ast.Constant) and isinstance(ch.left.value, str)):
                    between(ch.left, ch.right, o[0], o[1], ch, f2, 'bin')
            if isinstance(ch, ast.UnaryOp) and isinstance(ch.op, (ast.USub, ast.Not)):
                a, b = span(ch)
                add(ch, a, b, src[slice(*span(ch.operand))], f2, 'unary')
            if isinstance(ch, ast.Constant) and type(ch.value) in (int, float, bool):
                a, b = span(ch)
                v = ch.value
                if type(v) is bool:
                    new = repr(not v)
                elif type(v) is int:
                    new = repr(v + 1)
                    if v > 0:
                        add(ch, a, b, repr(v - 1), f2, 'const')
                else:
                    new = repr(v * 1.25 if v else 1e-3)
                add(ch, a, b, new, f2, 'const')
            if isinstance(ch, ast.Call) and len(ch.args) == 2 and not ch.keywords:
                a0, a1 = [src[slice(*span(x))] for x in ch.args]
                if a0 != a1 and '\n' not in a0 + a1:
                    a, b = span(ch.args[0])[0], span(ch.args[1])[1]
                    add(ch, a, b, a1 + ', ' + a0, f2, 'swapargs')
            if isinstance(ch, ast.keyword) and ch.arg:
                a, b = span(ch)
                j = b
                while j < len(src) and src[j] in ' \n\t':
                    j += 1
                if src[j] == ',':
                    add(ch, a, j + 1, '', f2, 'dropkw')
            if isinstance(ch, ast.Attribute) and ch.attr == 'copy':
                pass
            if isinstance(ch, ast.Call) and isinstance(ch.func, ast.Attribute) and ch.func.attr == 'copy' and not ch.args:
                a, b = span(ch)
                add(ch, a, b, src[slice(*span(ch.func.value))], f2, 'nocopy')
            walk(ch, f2)
    walk(tree, None)
    if os.environ.get('COND'):
        fns = {n.name: n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)}
        ex = [n for n in ast.walk(tree) if isinstance(n, (ast.BinOp, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Constant, ast.Call))]
        spans = {}
        for n in ex:
            spans.setdefault(span(n), n)
        res = []
        rnd = random.Random(path + os.environ.get('COND'))
        for m in out:
            f = (m['fn'] or '').split('.')[-1]
            if f not in fns or m['kind'] not in ('bin', 'const', 'unary', 'cmp', 'bool', 'swapargs', 'nocopy', 'if', 'delete'):
                continue
            cs = conds(path, f, fns[f])
            if not cs:
                continue
            c = rnd.choice(cs)
            if m['kind'] == 'delete':
                old = src[m['a']:m['b']]
                if '\n' in old:
                    continue
                new = 'if not (%s): %s' % (c, old)
                if ';' in old or new is None:
                    continue
                res.append(dict(m, new=new, kind='cond-delete'))
                continue
            # smallest expression containing the mutated text
            best = None
            for (a, b), n in spans.items():
                if a <= m['a'] and m['b'] <= b and (best is None or b - a < best[1] - best[0]):
                    best = (a, b)
            if best is None:
                continue
            a, b = best
            inner = src[a:m['a']] + m['new'] + src[m['b']:b]
            res.append(dict(m, a=a, b=b, old=src[a:b][:120], new='((%s) if %s else (%s))' % (inner, c, src[a:b]), kind='cond-' + m['kind']))
        out = res
    res, seen = [], set()
    for m in out:
        new = src[:m['a']] + m['new'] + src[m['b']:]
        if (m['a'], m['b'], m['new']) in seen:
            continue
        seen.add((m['a'], m['b'], m['new']))
        try:
            if ast.dump(ast.parse(new)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append(m)
    return res


def apply(m, d):
    p = os.path.join(d, m['file'])
    src = open(os.path.join(REPO, m['file'])).read()
    open(p, 'w').write(src[:m['a']] + m['new'] + src[m['b']:])


def checks_for(m):
    c = MAP[m['file']][1]
    if isinstance(c, dict):
        c = c.get((m['fn'] or '').split('.')[0], 'C11')
    return c.split()


def quicktests(m, d):
    for t in MAP[m['file']][0].split():
        cwd = os.path.join(d, 'tests', os.path.dirname(t))
        try:
            r = subprocess.run([plant.PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--timeout=200',
                            '--rootdir=' + d, '-W', 'ignore', os.path.basename(t)] +
                           (['--deselect', BASEFAIL] if 0 else []), cwd=cwd,
                           env=dict(plant.ENV, PYTHONPATH=d), capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return False
        if r.returncode:
            fails = set(re.findall(r'^(?:FAILED|ERROR) \S*::(\w+)', r.stdout, re.M))
            if not fails or fails - FLAKY:
                return False
    return True


FLAKY = {'test_compile_speedup'}


def work(m, d):
    apply(m, d)
    if not quicktests(m, d):
        return dict(status='tests')
    for c in checks_for(m):
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick', VERIF_FAILFAST='1', VERIF_JOBS='3')
        r = subprocess.run(['./check', c, 'quick'], cwd=plant.VER, env=env, capture_output=True, text=True)
        if r.returncode == 1:
            return dict(status='caught', by=c)
        if r.returncode != 0:
            return dict(status='RC%d' % r.returncode, by=c, err=r.stderr[-500:])
    good, bad, base = plant.run_tests(d, os.path.basename(d))
    lost = {x for x in CLEAN - good if 'test_compile_speedup' not in x}
    if lost:
        return dict(status='tests-full', lost=sorted(lost)[:2])
    return dict(status='MISSED')


if __name__ == '__main__':
    out = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 100
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    rx = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
    done = set()
    if os.path.exists(out):
        for l in open(out):
            j = json.loads(l); done.add((j['file'], j['a'], j['b'], j['new']))
    groups = {}
    tot = 0
    for f in MAP:
        if rx.search(f):
            for m in mutants(f):
                tot += 1
                groups.setdefault((f, m['fn']), []).append(m)
    print(tot, 'mutants in', len(groups), 'functions')
    if n == 0:
        for k, v in sorted(groups.items(), key=str): print(len(v), k)
        sys.exit()
    # stratified: square-root weight per function
    todo = []
    pools = {k: rnd.sample(v, len(v)) for k, v in groups.items()}
    keys = sorted(pools, key=str)
    wt = [max(1.0, len(pools[k]) ** .7) for k in keys]
    while len(todo) < n and any(pools.values()):
        k = rnd.choices(keys, wt)[0]
        if pools[k]:
            m = pools[k].pop()
            if (m['file'], m['a'], m['b'], m['new']) not in done:
                todo.append(m)
    CLEAN = plant.clean_tests()
    q = queue.Queue()
    for m in todo:
        q.put(m)
    lock = threading.Lock()

    def thread(i):
        d = '/tmp/plant_mut%d' % i
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            subprocess.run(['rm', '-rf', d]); subprocess.run(['cp', '-a', REPO, d])
            try:
                r = work(m, d)
            except Exception as e:
                r = dict(status='ERR', err=repr(e)[:300])
            with lock:
                with open(out, 'a') as f:
                    f.write(json.dumps(dict(m, **r)) + '\n')
            subprocess.run(['rm', '-rf', d])
    ts = [threading.Thread(target=thread, args=(i,)) for i in range(int(os.environ.get('PAR', '4')))]
    [t.start() for t in ts]
    [t.join() for t in ts]
