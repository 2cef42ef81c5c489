"""Reference equations, written from the mathematics (not from the source), in
the same normal form the interpreter produces."""
from . import expr as X
from .expr import lift
from . import models as M

IM = X.IMAG
HALF = lift(1)/2


class Fourier(object):
    """Tensor product Fourier space of dimension nd."""
    def __init__(self, nd, dealias='2/3-rule', precision='double'):
        self.nd = nd
        self.axes = tuple(range(nd))
        self.sig = tuple(('F', 'N%d' % i, 'r' if i == nd-1 else 'c') for i in range(nd))
        self.var = {'3/2-rule': 'pad3/2', '2/3-rule': 'direct', 'None': ''}[dealias]
        self.K = [X.sym('K%d' % i, (i,), ('real', 'wavenum')) for i in range(nd)]
        self.K2 = sum((k*k for k in self.K), lift(0))
        z = X.cond('eq0', self.K2)
        self.ok = z
        den = z + (lift(1) - z)*self.K2
        self.KK = [k*X.inverse(den) for k in self.K]
        self.mask = X.sym('mask', self.axes, ('real', 'idem'))

    def fwd(self, e, var=None):
        return X.linop(('fwd', self.sig, self.var if var is None else var), e, self.axes)

    def bwd(self, e, var=None):
        return X.linop(('bwd', self.sig, self.var if var is None else var), e, self.axes)


def cross(a, b):
    return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]


def scross(s, v):
    return [s*x for x in v]


def curl_hat(K, u):
    return [IM*c for c in cross(K, u)]


def ns_conv(F, u, form):
    """The (negative) convective term of the momentum equation, transformed."""
    K = F.K
    n = F.nd
    up = [F.bwd(x) for x in u]
    if form == 'Vortex':
        if n == 2:
            w = F.bwd(IM*(K[0]*u[1] - K[1]*u[0]))
            return [F.fwd(up[1]*w), F.fwd(-up[0]*w)]
        w = [F.bwd(x) for x in curl_hat(K, u)]
        return [F.fwd(x) for x in cross(up, w)]
    std = [-F.fwd(sum((up[j]*F.bwd(IM*K[j]*u[i]) for j in range(n)), lift(0))) for i in range(n)]
    div = [-sum((IM*K[j]*F.fwd(up[i]*up[j]) for j in range(n)), lift(0)) for i in range(n)]
    if form == 'Standard':
        return std
    if form == 'Divergence':
        return div
    return [HALF*(a+b) for a, b in zip(std, div)]


def project(F, r):
    p = sum((r[i]*F.KK[i] for i in range(len(r))), lift(0))
    return [r[i] - p*F.K[i] for i in range(len(r))], p


def ns_rhs(F, u, form, nu, source, mask):
    c = ns_conv(F, u, form)
    m = F.mask if mask else lift(1)
    c = [m*x for x in c]
    r, p = project(F, c)
    return [r[i] - nu*F.K2*u[i] + source[i] for i in range(len(u))], p


def vv_rhs(F, w, nu, source, mask):
    uh = [IM*c for c in cross(F.KK, w)]
    u = [F.bwd(x) for x in uh]
    wp = [F.bwd(x) for x in w]
    c = curl_hat(F.K, [F.fwd(x) for x in cross(u, wp)])
    m = F.mask if mask else lift(1)
    return [m*c[i] - nu*F.K2*w[i] + source[i] for i in range(3)]


def mhd_rhs(F, ub, nu, eta, mask):
    K = F.K
    p = [F.bwd(x) for x in ub]
    zp = [p[i]+p[i+3] for i in range(3)]
    zm = [p[i]-p[i+3] for i in range(3)]
    m = F.mask if mask else lift(1)
    # momentum: -div(uu - bb), induction: -div(ub - bu)
    Z = [[F.fwd(zp[i]*zm[j]) for j in range(3)] for i in range(3)]
    mu = [-m*sum((IM*K[j]*HALF*(Z[i][j]+Z[j][i]) for j in range(3)), lift(0)) for i in range(3)]
    mb = [m*sum((IM*K[j]*HALF*(Z[j][i]-Z[i][j]) for j in range(3)), lift(0)) for i in range(3)]
    mu, pr = project(F, mu)
    return ([mu[i] - nu*F.K2*ub[i] for i in range(3)] +
            [mb[i] - eta*F.K2*ub[i+3] for i in range(3)]), pr


def bq2d_rhs(F, q, nu, Ri, Pr, mask):
    K = F.K
    u, rho = q[:2], q[2]
    m = F.mask if mask else lift(1)
    c = [m*x for x in ns_conv(F, u, 'Vortex')]
    up = [F.bwd(x) for x in u]
    rp = F.bwd(rho)
    adv = -m*sum((IM*K[j]*F.fwd(up[j]*rp) for j in range(2)), lift(0))
    f = [c[0], c[1] - Ri*rho]
    f, p = project(F, f)
    return [f[0] - nu*F.K2*u[0], f[1] - nu*F.K2*u[1], adv - nu*F.K2*rho*X.inverse(Pr)], p


class Channel(object):
    """Chebyshev in direction `axis`, Fourier in the two others (a, b)."""
    def __init__(self, axis=0, dealias='2/3-rule', Dquad='GC', Bquad='GC', rank=0, odd='K'):
        self.axis = axis
        self.a, self.b = [i for i in range(3) if i != axis]
        self.quad = {'D': Dquad, 'B': Bquad, 'T': Dquad}
        self.N = 'N%d' % axis
        self.var = {'3/2-rule': 'pad3/2', '2/3-rule': 'direct', 'None': ''}[dealias]
        self.K = [X.sym('%s%d' % ('K' if i != axis else 'kc', i), (i,), ('real', 'wavenum')) for i in range(3)]
        # wavenumbers of odd derivatives (Kx: Nyquist frequency eliminated)
        self.Ko = [X.sym('%s%d' % (odd, i), (i,), ('real', 'wavenum')) for i in range(3)]
        self.K2 = self.K[self.a]**2 + self.K[self.b]**2
        self.K4 = self.K2*self.K2
        z = X.cond('eq0', self.K2)
        den = z + (lift(1)-z)*self.K2
        self.KK = [k*X.inverse(den) for k in self.K]
        self.mask = X.sym('mask', (self.a, self.b), ('real', 'idem'))
        self.rank = rank
        self.region = ((self.a, 0), (self.b, 0))
        self.ax = frozenset((axis,))

    def sig(self, kind, bc=None):
        last = max(self.a, self.b)
        return tuple((kind, self.N, self.quad[kind], bc) if i == self.axis else
                     ('F', 'N%d' % i, 'r' if i == last else 'c') for i in range(3))

    def bwd(self, kind, e, var=None, bc=None):
        return X.linop(('bwd', self.sig(kind, bc), self.var if var is None else var), e, (0, 1, 2))

    def fwd(self, kind, e, var=None, bc=None):
        return X.linop(('fwd', self.sig(kind, bc), self.var if var is None else var), e, (0, 1, 2))

    def key(self, t, d, s, e):
        return ((t, self.N, self.quad[t]), d, (s, self.N, self.quad[s]), e)

    def mat(self, t, s, e, v):
        """Mass/stiffness matrix (test t, trial s differentiated e times)."""
        return X.linop(('mat', self.key(t, 0, s, e)), v, self.ax)

    def inv(self, t, v):
        return X.linop(('inv', self.key(t, 0, t, 0)), v, self.ax)

    def helmholtz(self, alfa, beta, b, kind='D'):
        """Solve (alfa*A + beta*B) u = b."""
        keys = (self.key(kind, 0, kind, 2), self.key(kind, 0, kind, 0))
        return X.linop(('solve', 'helmholtz', keys, beta/alfa), b/alfa, self.ax)

    def biharmonic(self, a0, alfa, beta, b):
        keys = tuple(self.key('B', 0, 'B', k) for k in (4, 2, 0))
        return X.linop(('solve', 'biharmonic', keys, alfa/a0, beta/a0), b/a0, self.ax)

    def ddw(self, v):
        """Chebyshev coefficients of the wall normal derivative of a Dirichlet function."""
        return X.linop(('ctd',), v, self.ax)


def kmm_step(C, u, g, H, Sk, nu, tau):
    """One implicit (Crank-Nicolson) step of length tau of the velocity-vorticity
    system with explicit term H (already extrapolated and masked), from u, g."""
    a, b, w = C.a, C.b, C.axis
    K2, K4, Ko = C.K2, C.K4, C.Ko
    hv = -K2*C.mat('B', 'D', 0, H[w]) - IM*Ko[a]*C.mat('B', 'D', 1, H[a]) - IM*Ko[b]*C.mat('B', 'D', 1, H[b])
    hg = IM*Ko[a]*C.mat('D', 'D', 0, H[b]) - IM*Ko[b]*C.mat('D', 'D', 0, H[a])
    c = nu*tau*HALF
    # (1 - nu tau/2 lap) lap u = (1 + nu tau/2 lap) lap u + tau hv
    lap_u = C.mat('B', 'B', 2, u[w]) - K2*C.mat('B', 'B', 0, u[w])
    lap2_u = C.mat('B', 'B', 4, u[w]) - 2*K2*C.mat('B', 'B', 2, u[w]) + K4*C.mat('B', 'B', 0, u[w])
    un = C.biharmonic(-c, 1 + 2*c*K2, -K2 - c*K4, lap_u + c*lap2_u + tau*hv)
    # (1 - nu tau/2 lap) g = (1 + nu tau/2 lap) g + tau hg
    lap_g = C.mat('D', 'D', 2, g) - K2*C.mat('D', 'D', 0, g)
    gn = C.helmholtz(-c, 1 + c*K2, C.mat('D', 'D', 0, g) + c*lap_g + tau*hg)
    f = C.inv('D', -C.mat('D', 'B', 1, un))
    out = [None]*3
    out[w] = un
    out[a] = -IM*(C.KK[a]*f - C.KK[b]*gn)
    out[b] = -IM*(C.KK[b]*f + C.KK[a]*gn)
    if C.rank == 0:
        R = C.region
        d = X.region_ind(R)
        for i in (a, b):
            u0, h0 = X.restrict(u[i], R), X.restrict(H[i], R)
            r = C.mat('D', 'D', 0, u0) + c*C.mat('D', 'D', 2, u0) + tau*C.mat('D', 'D', 0, h0)
            if i == a:
                r = r - tau*X.restrict(Sk[a], R)
            m = C.helmholtz(-c, lift(1), r)
            out[i] = out[i]*(1-d) + d*m
        out[w] = out[w]*(1-d)
    return out, gn


def channel_kinds(C):
    return ['B' if i == C.axis else 'D' for i in range(3)]


def channel_curl(C, u, g):
    """Physical vorticity (dealiased)."""
    a, b, w = C.a, C.b, C.axis
    c = [None]*3
    c[w] = C.bwd('D', g)
    c[a] = C.bwd('B', IM*C.Ko[b]*u[w]) - C.bwd('T', C.ddw(u[b]))
    c[b] = -C.bwd('B', IM*C.Ko[a]*u[w]) + C.bwd('T', C.ddw(u[a]))
    return c


def channel_conv(C, u, g, form):
    kinds = channel_kinds(C)
    up = [C.bwd(k, x) for k, x in zip(kinds, u)]
    if form == 'Vortex':
        return [C.fwd('D', x) for x in cross(up, channel_curl(C, u, g))]
    raise NotImplementedError(form)


def channel_grad(C, u, kind_w):
    """grad[i][j] = d u_i / d x_j in physical space (dealiased)."""
    kinds = ['D']*3
    kinds[C.axis] = kind_w
    w = C.axis
    out = []
    for i in range(3):
        row = []
        for j in range(3):
            if j != w:
                row.append(C.bwd(kinds[i], IM*C.Ko[j]*u[i]))
            elif i == w:
                row.append(C.bwd('D', C.inv('D', C.mat('D', kind_w, 1, u[w]))))
            else:
                row.append(C.bwd('T', C.ddw(u[i])))
        out.append(row)
    return out


def channel_forms(C, u, g, form, kind_w):
    """Convection H (with its sign) in any form; g: wall normal vorticity or
    None (computed from the velocity)."""
    w = C.axis
    kinds = ['D']*3
    kinds[w] = kind_w
    up = [C.bwd(k, x) for k, x in zip(kinds, u)]
    gr = channel_grad(C, u, kind_w)
    if form == 'Vortex':
        c = [gr[2][1] - gr[1][2], gr[0][2] - gr[2][0], gr[1][0] - gr[0][1]]
        if g is not None:
            c[w] = C.bwd('D', g)
        return [C.fwd('D', x) for x in cross(up, c)]
    std = [-C.fwd('D', sum((up[j]*gr[i][j] for j in range(3)), lift(0))) for i in range(3)]
    div = [-(C.inv('D', C.mat('D', 'D', 1, C.fwd('D', up[w]*up[i]))) +
             sum((IM*C.Ko[j]*C.fwd('D', up[j]*up[i]) for j in (C.a, C.b)), lift(0))) for i in range(3)]
    return {'Standard': std, 'Divergence': div, 'Skew': [HALF*(a+b) for a, b in zip(std, div)]}[form]


def same_functions(C, e):
    """Rewrites with the same value: a function moved exactly to the orthogonal
    (Chebyshev) basis is still that function, and its derivative likewise."""
    massT = ('inv', C.key('T', 0, 'T', 0))

    def single(e):
        return next(iter(e.t.items())) if len(e.t) == 1 else None

    def peel(e):
        """c * inv(T){mat(T,s,d){v}} -> (c, s, d, v)"""
        it = single(e)
        if it is None:
            return None
        mono, co = it
        rest = lift(1)*co
        hit = None
        for aid, p in mono:
            a = X._BYID[aid]
            if hit is None and p == 1 and a.kind == 'lin' and a.args[0] == massT:
                inner = a.args[2]
                i2 = single(inner)
                if i2 is None:
                    return None
                m2, c2 = i2
                r2 = lift(1)*c2
                h2 = None
                for b_id, q in m2:
                    b = X._BYID[b_id]
                    if h2 is None and q == 1 and b.kind == 'lin' and b.args[0][0] == 'mat' and b.args[0][1][0][0] == 'T':
                        h2 = b
                    else:
                        r2 = r2*X.power(X.atom_expr(b), q)
                if h2 is None or h2.args[0][1][1] != 0:
                    return None
                hit = h2
                rest = rest*r2
            else:
                rest = rest*X.power(X.atom_expr(a), p)
        if hit is None:
            return None
        return rest, hit.args[0][1][2][0], hit.args[0][1][3], hit.args[2]

    def f(a):
        if a.kind != 'lin':
            return None
        op, axes, inner = a.args[:3]
        inner2 = X.substitute(inner, f)
        if op[0] == 'bwd' and op[1][C.axis][0] == 'T':
            r = peel(inner2)
            if r is not None and r[2] == 0:
                sig = tuple((r[1],) + s[1:] if i == C.axis else s for i, s in enumerate(op[1]))
                return X.linop((op[0], sig) + tuple(op[2:]), r[0]*r[3], axes)
        if op == massT:
            r = peel(X.linop(op, inner2, axes))
            if r is not None and r[1] == 'D' and r[2] == 1:
                return r[0]*C.ddw(r[3])
        if inner2 == inner:
            return None
        return X.linop(op, inner2, axes)
    return X.substitute(e, f)

