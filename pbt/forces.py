"""Force specifications: generation and construction of the repository's objects from them.

spec = {'type': ..., 'p': {...parameters}, 'Q': rows, 'T': rows}
"""
import numpy as np
from hypothesis import strategies as st
from pbt import gen
from pbt.ref import A

POLY = ('cubic', 'quintic', 'genpoly')
INST = ('cubic', 'quintic', 'cubdamp', 'genpoly', 'unispring', 'iwanbb')
HYST = ('jenkins', 'vecjenkins', 'iwan4', 'veciwan4')
JAXH = ('jaxjenkins', 'jaxvecjenkins')
ELDRY = ('eldry2d', 'eldry3d')
SMOOTH = ('cubic', 'quintic', 'cubdamp', 'genpoly')
ROUGH = ('roughtan', 'roughmif')
# material: E, nu, Re, Etan, yield stress (scaled units; two- and one-sided plastic onset near the motion amplitude)
ROUGHMAT = ((200.0, 0.3, 1.0, 20.0, 2.0), (200.0, 0.2, 0.5, 5.0, 20.0), (50.0, 0.4, 2.0, 40.0, 0.6))
ROUGHRAD = 5
ROUGHQ = 0.02
JAXCOMBO = (([0, 1], 16), ([0, 1, 2, 6], 32), ([1, 3], 32), ([0, 1, 3, 4], 32))


@st.composite
def params(draw, ty, nnl, big=False):
    if ty == 'cubic' or ty == 'quintic':
        return dict(k=draw(gen.vec(nnl, 4.0)))
    if ty == 'cubdamp':
        return dict(c=draw(gen.vec(nnl, 2.0)))
    if ty == 'genpoly':
        nt = draw(st.integers(1, 4) if not big else st.integers(1, 9))
        q = draw(st.lists(st.lists(st.integers(0, 7 if big and nnl < 3 else 3), min_size=nnl, max_size=nnl), min_size=nt, max_size=nt))
        return dict(E=draw(gen.mat(nnl, nt, 3.0)), q=q)
    if ty == 'unispring':
        if draw(st.booleans()):
            return dict(k=[abs(x) + 0.05 for x in draw(gen.vec(nnl, 5.0))], N=draw(gen.vec(nnl, 1.0)),
                        d=draw(gen.vec(nnl, 1.0)))
        return dict(k=draw(gen.logn(0.1, 10.0)), N=draw(gen.num(-1, 1)), d=draw(gen.num(-1, 1)))
    if ty in ('iwanbb', 'iwan4', 'veciwan4'):
        d = dict(kt=draw(gen.logn(0.2, 10.0)), Fs=draw(gen.logn(0.05, 5.0)), chi=draw(gen.num(-0.8, 1.5, 23)),
                 beta=draw(gen.num(0.0, 2.0, 40)))
        if ty != 'iwanbb':
            d['n'] = draw(st.one_of(st.integers(2, 14), st.integers(2, 14), st.sampled_from([1, 25, 60])))
            d['alpha'] = draw(st.sampled_from([1.0, 1.0, 1.2, 1.5]))
        return d
    if ty in ('jenkins', 'vecjenkins'):
        return dict(kt=draw(gen.logn(0.2, 10.0)), Fs=draw(gen.logn(0.05, 5.0)))
    if ty in JAXH:
        d = dict(kt=draw(gen.logn(0.2, 10.0)), Fs=draw(gen.logn(0.05, 5.0)))
        d['u0'] = draw(st.one_of(st.just(0.0), st.none(), gen.num(-2, 2, 40)))
        return d
    if ty in ELDRY:
        d = dict(kt=draw(gen.logn(0.2, 10.0)), kn=draw(gen.logn(0.2, 10.0)), mu=draw(gen.num(0.0, 1.5, 30)),
                 gap=draw(gen.num(-1.0, 1.0, 40)))
        d['u0'] = draw(st.one_of(st.just(0.0), st.none(), gen.vec(nnl, 1.5)))
        return d
    if ty in ROUGH:
        d = dict(mat=draw(st.integers(0, len(ROUGHMAT) - 1)), mu=draw(gen.num(0.0, 1.0, 20)),
                 mgap=draw(gen.num(0.0, 0.02, 16)), gaps=[abs(x) for x in draw(gen.vec(3, 0.03))],
                 gw=[abs(x) + 0.1 for x in draw(gen.vec(3, 2.0))])
        if draw(st.integers(0, 3)) == 0:
            d['mgap'] = -min(d['gaps'])          # the closest asperity touches at zero displacement
        d['u0'] = draw(st.one_of(st.just(0.0), gen.num(-0.03, 0.03, 12), gen.vec(2, 0.03), gen.vec(3, 0.03)))
        return d
    raise KeyError(ty)


def nnl_for(ty, maxn=3):
    if ty in HYST or ty in JAXH:
        return st.just(1)
    if ty == 'eldry2d':
        return st.sampled_from([2, 2, 4])
    if ty == 'eldry3d':
        return st.sampled_from([3, 3, 6])
    if ty in ROUGH:
        return st.just(3)
    if ty == 'iwanbb':
        return st.integers(1, 2)
    return st.integers(1, maxn)


@st.composite
def spec(draw, types, N, nnl=None, qscale=1.0, big=False):
    ty = draw(st.sampled_from(list(types)))
    n = draw(nnl_for(ty, 6 if big else 3)) if nnl is None else nnl
    Q, T = draw(gen.qt(N, n))
    if ty in ROUGH:
        Q = (np.array(Q) * ROUGHQ).tolist()
    if qscale != 1.0:
        Q = (np.array(Q) * qscale).tolist()
    return dict(type=ty, p=draw(params(ty, n, big)), Q=Q, T=T)


def build(s, share=None):
    """The repository object; with a dictionary `share`, equal parameter arrays are one and the same array object (as in a
    script that defines a starting position or a map once)."""
    import tmdsimpy.nlforces as nf

    def A(x):
        a = np.array(x, dtype=float)
        return a if share is None else share.setdefault((a.shape, a.tobytes()), a)
    Q, Tm, p, ty = A(s['Q']), A(s['T']), s['p'], s['type']
    if ty == 'cubic':
        return nf.CubicForce(Q, Tm, A(p['k']))
    if ty == 'quintic':
        return nf.QuinticForce(Q, Tm, A(p['k']))
    if ty == 'cubdamp':
        return nf.CubicDamping(Q, Tm, A(p['c']))
    if ty == 'genpoly':
        return nf.GenPolyForce(Q, Tm, A(p['E']), np.array(p['q'], dtype=int))
    if ty == 'unispring':
        f = (lambda x: A(x) if isinstance(x, list) else x)
        return nf.UnilateralSpring(Q, Tm, f(p['k']), Npreload=f(p['N']), delta=f(p['d']))
    if ty == 'iwanbb':
        return nf.ConservativeIwanBB(Q, Tm, p['kt'], p['Fs'], p['chi'], p['beta'])
    if ty == 'jenkins':
        return nf.JenkinsForce(Q, Tm, p['kt'], p['Fs'])
    if ty == 'vecjenkins':
        return nf.VectorJenkins(Q, Tm, p['kt'], p['Fs'])
    if ty in ('iwan4', 'veciwan4'):
        c = nf.Iwan4Force if ty == 'iwan4' else nf.VectorIwan4
        return c(Q, Tm, p['kt'], p['Fs'], p['chi'], p['beta'], Nsliders=p['n'], alphasliders=p['alpha'])
    import tmdsimpy.jax.nlforces as jf
    if ty == 'jaxjenkins':
        from tmdsimpy.jax.nlforces.jenkins_element import JenkinsForce
        return JenkinsForce(Q, Tm, p['kt'], p['Fs'], u0=p['u0'])
    if ty == 'jaxvecjenkins':
        from tmdsimpy.jax.nlforces.vector_jenkins import VectorJenkins
        return VectorJenkins(Q, Tm, p['kt'], p['Fs'], u0=p['u0'])
    if ty in ELDRY:
        c = jf.ElasticDryFriction2D if ty == 'eldry2d' else jf.ElasticDryFriction3D
        u0 = p['u0']
        return c(Q, Tm, p['kt'], p['kn'], p['mu'], u0=A(u0) if isinstance(u0, list) else u0, meso_gap=p['gap'])
    if ty in ROUGH:
        from tmdsimpy.jax.nlforces.roughcontact.rough_contact import RoughContactFriction
        E, nu, Re, Et, sy = ROUGHMAT[p['mat']]
        u0 = p['u0']
        return RoughContactFriction(Q, Tm, E, nu, Re, Et, sy, p['mu'], u0=A(u0) if isinstance(u0, list) else u0,
                                    meso_gap=p['mgap'], gaps=A(p['gaps']), gap_weights=A(p['gw']),
                                    tangent_model=ty[5:].upper(), N_radial_quad=ROUGHRAD)
    raise KeyError(ty)


def unchanged(t, share):
    """The arrays collected by build(s, share) still hold what they were made with."""
    for (shape, b), a in share.items():
        t.same(a, np.frombuffer(b).reshape(shape), 'parameter array of the caller modified')


def has_grad_flag(ty):
    return ty in INST or ty in ELDRY or ty in ROUGH
