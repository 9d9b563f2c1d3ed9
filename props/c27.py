"""C27 Result callbacks record every continuation point faithfully."""
import os, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, cont
from pbt.core import clause, arr


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif_c27_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


@st.composite
def hist(draw):
    nf = draw(st.integers(1, 3))
    n = [draw(st.integers(1, 6)) for _ in range(nf)]
    ops = draw(st.lists(st.integers(0, nf - 1), min_size=1, max_size=draw(st.sampled_from([12, 12, 12, 40]))))
    return dict(n=n, ops=ops, seed=draw(st.integers(0, 10 ** 6)), mag=draw(st.sampled_from([1e-12, 1.0, 1.0, 1e8])),
                nan=draw(st.integers(0, 2)), ints=draw(st.integers(0, 5)) == 0)


@clause(lambda: hist(), quick=300, rule='some file receives at least 3 points')
def save_history(c, t):
    """Files written in any interleaving hold exactly what each of them was given, in order, after every call."""
    from tmdsimpy.utils import continuation as uc
    rs = np.random.RandomState(c['seed'])
    want = [[] for _ in c['n']]
    with Scratch() as d:
        name = [os.path.join(d, 'file%d.npz' % i) for i in range(len(c['n']))]
        for k, f in enumerate(c['ops']):
            n1 = c['n'][f] + 1
            X, D = rs.uniform(-1, 1, n1) * c['mag'], rs.uniform(-1, 1, n1) * 10.0 ** rs.randint(-3, 4)
            again = rs.randint(6) if want[f] else 5        # repeated points, directions or parameter values
            if again in (0, 1):
                X = want[f][-1][0].copy()
            if again in (0, 2):
                D = want[f][-1][1].copy()
            if again == 3:
                X[-1] = want[f][-1][0][-1]
            if again == 4:
                X = np.sort(np.abs(X))[::-1] * 0.0
            if not want[f] and c['nan'] > 0:
                D = D * np.nan                             # as the first callback of a continuation
            if k == len(c['ops']) - 1 and c['nan'] > 1:
                X = X * np.nan                             # as the last one
            X0, D0 = X.copy(), D.copy()
            uc.continuation_save(X, D, name[f])
            t.same(X, X0, 'point modified'); t.same(D, D0, 'direction modified')
            want[f].append((X0, D0))
            for g in range(len(c['n'])):
                if not want[g]:
                    t.ok(not os.path.exists(name[g]), 'file of another callback created')
                    continue
                with np.load(name[g], allow_pickle=False) as z:
                    t.ok(sorted(z.files) == ['XlamP', 'dirP_prev'], 'names of the saved variables', got=z.files)
                    t.same(z['XlamP'], np.array([a for a, _ in want[g]]), 'saved points after call %d' % k)
                    t.same(z['dirP_prev'], np.array([b for _, b in want[g]]), 'saved directions after call %d' % k)
        t.ok(sorted(os.listdir(d)) == sorted(os.path.basename(name[g]) for g in range(len(name)) if want[g]), 'stray files',
             got=os.listdir(d))
    t.label('%d files' % len([w for w in want if w]))
    t.nontrivial(max(map(len, want)) >= 3)


KINDS = ('epmc', 'hbm_amp', 'hbm_amp_phase', 'vprnm', 'vprnm_amp_phase')


@st.composite
def summary(draw):
    files = []
    for _ in range(draw(st.integers(1, 3))):
        wide = draw(st.integers(0, 7)) == 0
        N = draw(st.integers(1, 4) if not wide else st.integers(5, 9))
        h = draw(gen.harmonics(7, max_n=4) if not wide else gen.harmonics(20, max_n=8))
        files.append(dict(kind=draw(st.sampled_from(KINDS)), N=N, h=h, order=draw(st.integers(0, 3)), corder=draw(st.integers(0, 2)),
                          recs=[[draw(gen.vec(N, 2.0)), draw(st.sampled_from(h))] for _ in range(draw(st.integers(1, 4)))]))
    return dict(files=files, ops=draw(st.lists(st.integers(0, len(files) - 1), min_size=1, max_size=draw(st.sampled_from([9, 9, 9, 30])))),
                seed=draw(st.integers(0, 10 ** 6)), mag=draw(st.sampled_from([1e-9, 1e-2, 1.0, 1.0, 1e5])),
                wm=draw(st.sampled_from([0.3, 5.0, 2000.0])), nan=draw(st.booleans()))


def expect(f, X, freq, amp):
    """documented columns of one row: (value, kind) with kind 'fix' (absolute 1e-3 resolution) or 'exp' (relative)"""
    def resp(w, rec, harm):
        i = ref.nhc([k for k in f['h'] if k < harm]) * f['N']
        r = arr(rec)
        z = r @ X[i:i + f['N']]
        if harm:
            z = z + 1j * (r @ X[i + f['N']:i + 2 * f['N']])
        return abs(z) * float(harm * w) ** f['order']
    H = 2 * np.pi
    k, r0 = f['kind'], f['recs'][0]
    if k == 'epmc':
        return [(X[-1], 0), (X[-3] / H, 0), (X[-2] / (2 * X[-3]), 1)]
    if k == 'hbm_amp':
        return [(X[-1] / H, 0), (X[-2], 0), (resp(X[-1], *r0), 1)]
    if k == 'hbm_amp_phase':
        return [(freq / H, 0), (amp, 0), (X[-3], 1), (X[-2], 1), (resp(freq, *r0), 1)]
    if k == 'vprnm':
        return [(X[-1], 0), (X[-2] / H, 0)] + [(resp(X[-2], *r), 1) for r in f['recs']]
    return [(X[-1], 0), (X[-4], 0), (X[-3], 0), (X[-2] / H, 0)] + [(resp(X[-2], *r), 1) for r in f['recs']]


EXTRA = dict(epmc=3, hbm_amp=2, hbm_amp_phase=3, vprnm=2, vprnm_amp_phase=4)


def invoke(f, X, D, name, freq, amp):
    from tmdsimpy.utils import continuation as uc
    h = np.array(f['h'])
    recs = [(arr(r), k) for r, k in f['recs']]
    k = f['kind']
    if k == 'epmc':
        uc.print_epmc_stats(X, D, name)
    elif k == 'hbm_amp':
        uc.print_hbm_amp_stats(X, D, name, h, f['order'], *recs[0])
    elif k == 'hbm_amp_phase':
        uc.print_hbm_amp_phase_stats(X, D, name, freq, amp, h, f['order'], *recs[0])
    elif k == 'vprnm':
        uc.print_vprnm_stats(X, D, name, h, f['order'], recs)
    else:
        uc.print_vprnm_amp_phase_stats(X, D, name, h, f['corder'], f['order'], recs)


def parse(name):
    """rows of numbers and number of other (header) lines"""
    rows, head = [], 0
    with open(name) as fh:
        for line in fh.read().splitlines():
            try:
                rows.append([float(x) for x in line.split('&')])
            except ValueError:
                head += 1
    return rows, head


@clause(lambda: summary(), quick=700, rule='some file receives at least 2 points')
def summary_rows(c, t):
    rs = np.random.RandomState(c['seed'])
    want = [[] for _ in c['files']]
    heads, last = [None] * len(c['files']), {}
    with Scratch() as d:
        name = [os.path.join(d, 'sum%d.dat' % i) for i in range(len(c['files']))]
        for k, i in enumerate(c['ops']):
            f = c['files'][i]
            X = np.r_[rs.uniform(-1, 1, ref.nhc(f['h']) * f['N']) * c['mag'], rs.uniform(-1, 1, EXTRA[f['kind']]) * 100.0]
            w = c['wm'] * rs.uniform(0.5, 2.0)
            pos = dict(epmc=-3, hbm_amp=-1, vprnm=-2, vprnm_amp_phase=-2).get(f['kind'])
            if pos is not None:
                X[pos] = w if f['kind'] != 'epmc' or k % 3 else -w      # an EPMC solution may have w < 0
            amp = rs.uniform(0.1, 50.0)
            again = rs.randint(6) if want[i] else 5        # the same point again, or a point at rest
            if again == 0:
                X = last[i].copy()
            elif again == 1:
                X[:-EXTRA[f['kind']]] = 0.0
            last[i] = X.copy()
            if k == len(c['ops']) - 1 and c['nan']:
                X = X * np.nan
            D = rs.uniform(-1, 1, X.size) * (np.nan if not want[i] else 10.0 ** rs.randint(-2, 4))
            X0, D0 = X.copy(), D.copy()
            invoke(f, X, D, name[i], w, amp)
            t.same(X, X0, 'point modified'); t.same(D, D0, 'direction modified')
            want[i].append(expect(f, X0, w, amp))
            for g in range(len(name)):
                if not want[g]:
                    t.ok(not os.path.exists(name[g]), 'file of another callback created')
                    continue
                rows, head = parse(name[g])
                t.ok(len(rows) == len(want[g]), '%s: one row per point after call %d' % (c['files'][g]['kind'], k),
                     got=len(rows), want=len(want[g]))
                t.ok(heads[g] in (None, head), 'header repeated')
                heads[g] = head
                for a, b in zip(rows, want[g]):
                    t.ok(len(a) == len(b), '%s: columns' % c['files'][g]['kind'], got=len(a), want=len(b))
                    for j, (x, (v, e)) in enumerate(zip(a, b)):
                        if np.isnan(v):
                            t.ok(np.isnan(x), '%s: column %d should be nan' % (c['files'][g]['kind'], j), got=x)
                        else:
                            tol = 6e-4 * abs(v) + 1e-300 if e else 6e-4 + 1e-12 * abs(v)
                            t.ok(abs(x - v) <= tol, '%s: column %d' % (c['files'][g]['kind'], j), got=x, want=v)
    for i in set(c['ops']):
        f = c['files'][i]
        t.label(f['kind'], 'harmonic 0' if any(r[1] == 0 for r in f['recs']) else 'harmonics > 0')
    t.nontrivial(max(map(len, want)) >= 2)


@st.composite
def combi(draw):
    return dict(n=draw(st.integers(0, 6)), m=draw(st.integers(1, 8)), seed=draw(st.integers(0, 10 ** 6)),
                order=draw(st.lists(st.integers(0, 5), max_size=8)))


@clause(lambda: combi(), quick=300, rule='at least two callbacks, some of them listed twice')
def combined_callbacks(c, t):
    from tmdsimpy.utils import continuation as uc
    rs = np.random.RandomState(c['seed'])
    log = []
    funs = [(lambda X, d, j=j: log.append((j, X, d))) for j in range(6)]
    lst = [funs[j] for j in c['order']]
    keep = list(lst)
    for call in range(2):
        X, D = rs.uniform(-1, 1, c['m']), rs.uniform(-1, 1, c['m'])
        X0, D0 = X.copy(), D.copy()
        del log[:]
        uc.combine_callback_funs(lst, X, D)
        t.ok([a for a, _, _ in log] == c['order'], 'each callback once and in order', got=[a for a, _, _ in log], want=c['order'])
        for _, x, d in log:
            t.same(x, X0, 'point given to a callback'); t.same(d, D0, 'direction given to a callback')
        t.ok(lst == keep, 'list of callbacks modified')
        t.same(X, X0, 'point modified'); t.same(D, D0, 'direction modified')
    t.nontrivial(len(c['order']) > len(set(c['order'])) > 1)


@clause(lambda: cont.run_case(), quick=250, shards=2, rule='at least three points')
def within_continuation(c, t):
    """Whole continuation runs with a combined callback: the file equals what an in-memory recorder saw and what the
    continuation returned."""
    from tmdsimpy.utils import continuation as uc
    z = cont.setup(c)
    if z is None:
        t.skip('start at a fold')
    pr, x0, lam0, lam1, P0, sg = z
    with Scratch() as d:
        fn, fe = os.path.join(d, 'a.npz'), os.path.join(d, 'b.dat')
        a, b = [], []
        lst = [lambda X, D: a.append((np.array(X), np.array(D))), lambda X, D: uc.continuation_save(X, D, fn),
               lambda X, D: b.append((np.array(X), np.array(D)))]
        if pr.n >= 2:
            lst.append(lambda X, D: uc.print_epmc_stats(X, D, fe))
        ct, sol, kw, cf = cont.make(c, cb=lambda X, D: uc.combine_callback_funs(lst, X, D))
        rows, exc, out = cont.execute(ct, pr, x0.copy(), lam0, lam1)
        if exc is not None:
            t.ok(not os.path.exists(fn) and not a, 'saved although the initial solution failed')
            t.label('initial failure')
            return
        t.ok(len(a) == len(b), 'callbacks around the saving one')
        with np.load(fn, allow_pickle=False) as s:
            t.same(s['XlamP'], np.array([x for x, _ in a]), 'saved points')
            t.same(s['dirP_prev'], np.array([x for _, x in a]), 'saved directions')
            t.same(s['XlamP'], np.array([x for x, _ in b]), 'points of the later callback')
            t.same(s['XlamP'][:len(rows)], np.array(rows), 'saved points against the returned points')
        if pr.n >= 2:
            r, head = parse(fe)
            t.ok(len(r) == len(a), 'rows of the summary', got=len(r), want=len(a))
            for p, (x, _) in zip(r[:len(rows)], a):
                t.ok(abs(p[0] - x[-1]) <= 6e-4 and abs(p[1] - x[-3] / 2 / np.pi) <= 6e-4, 'summary of the continuation', got=p, want=x)
    t.nontrivial(len(rows) >= 3)
