"""Block convolution is the full linear convolution of every channel with its kernel."""
from symx.lib import ac, np, run, cat, src, o, new

BOUNDS = ('signal 1..5 samples, kernel 1..5 taps (thorough 1..8), block sizes 1..6 (thorough 1..9); all sample and '
          'tap values symbolic; 1-D kernel, (L,1) kernel and one kernel per channel, 2 channels; two successive runs')


def conv(c, Mmax, Lmax, nmax, kshape):
    M = c.cint('M', 1, Mmax)
    L = c.cint('L', 1, Lmax)
    num = c.cint('num', 1, nmax)
    x = c.array('x', (M, 2), -2, 2)
    k = c.array('k', {'1d': (L,), 'col': (L, 1), 'multi': (L, 2)}[kshape], -2, 2)
    t = new(ac().TimeConvolve, source=src(x), kernel=k)
    got = run(t, num)
    exp = np.zeros((M + L - 1, 2), dtype=object if c.symbolic else float)
    for ch in range(2):
        kk = k[:, ch] if kshape == 'multi' else k.reshape(-1)
        for i in range(M):
            for j in range(L):
                exp[i + j, ch] = exp[i + j, ch] + x[i, ch] * kk[j]
    c.same('block lengths', [b.shape[0] for b in got[:-1]], [num] * (len(got) - 1))
    c.true('last block not longer', 1 <= got[-1].shape[0] <= num)
    c.eq('full linear convolution', cat(got), exp)


def rekernel(c):
    """changing the kernel or the block size of a used object takes effect"""
    x = c.array('x', (3, 1), -2, 2)
    k1 = c.array('k', (2, 1), -2, 2)
    k2 = c.array('h', (3, 1), -2, 2)
    n1, n2 = c.cint('n1', 1, 4), c.cint('n2', 1, 4)
    t = new(ac().TimeConvolve, source=src(x), kernel=k1)
    run(t, n1)
    from symx.lib import setattrs
    setattrs(t, kernel=k2)
    got = cat(run(t, n2))
    exp = np.zeros((5, 1), dtype=object if c.symbolic else float)
    for i in range(3):
        for j in range(3):
            exp[i + j, 0] = exp[i + j, 0] + x[i, 0] * k2[j, 0]
    c.eq('convolution with the new kernel', got, exp)


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for ks in ('1d', 'col', 'multi'):
        out.append(dict(name='conv_' + ks, fn=conv, params=dict(Mmax=7 if big else 4, Lmax=8 if big else 5,
                                                               nmax=9 if big else 6, kshape=ks),
                        opts=dict(max_s=3000 if big else 250), cost=3))
    out.append(dict(name='rekernel', fn=rekernel))
    return out
