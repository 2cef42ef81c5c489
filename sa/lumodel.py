"""Summary of the Cython band kernels in spectralDNS.shen.LUsolve (their bodies
are analysed separately, entry by entry, by the kernel checks)."""
from . import expr as X
from .values import *  # noqa
from . import models as M


def install(it):
    def ctd3(it, f, args, kwargs, node):
        names = [a.arg for a in f.node.args.args]
        if len(args) + len(kwargs) != len(names):
            raise AbsRaise('TypeError', '%s() takes %d arguments' % (f.name, len(names)), node)
        v = dict(zip(names, args))
        v.update(kwargs)
        n, vh, wh, bv, bw, axis = [v[k] for k in names]
        if not isinstance(axis, int) or not all(isinstance(q, Arr) for q in (vh, wh, bv, bw)):
            return it.top('%s with unknown arguments' % f.name, node)
        for src, dst in ((vh, bv), (wh, bw)):
            if M.shares(src, dst) or M.shares(bv, bw):
                it.suspects.append(('matvec-alias', it.loc(node), '%s output aliases input' % f.name))
            e = it.arr_get(src)
            if any(isinstance(q, Top) for q in e):
                for k in dst.idx:
                    dst.store.cells[k] = Top('ctd of unknown')
                continue
            N = M.simp(n) if not isinstance(n, int) else n
            want = M.gdim(axis)
            tag = ('ctd',) if X.lift(N) == want else ('ctd', 'N=%s' % (N,))
            ax = src.axes[axis] if len(src.axes) > axis else axis
            it.arr_set(dst, [X.linop(tag, q, (ax,)) for q in e], node, whole=True)
        return None
    it.opaque_calls['spectralDNS.shen.LUsolve.Mult_CTD_3D_ptr'] = ctd3
