"""The sample buffer hands out the source signal without loss, repetition or reordering."""
from symx.lib import ac, np, run, cat, src, new

BOUNDS = ('source of 1..7 samples (thorough 1..10), buffer length up to 8 (10), read sizes 1..4 (5), source blocks 1..4 (5), '
          'window sizes 1..5 changed before every block; all sample values symbolic')


def lossless(c, Tmax, Lmax, nmax):
    T = c.cint('T', 1, Tmax)
    sn = c.cint('source_num', 1, nmax)
    L = c.cint('length', sn, Lmax)
    num = c.cint('num', 1, nmax)
    x = c.array('x', (T, 1), -2, 2)
    b = ac().process.SamplesBuffer(source=src(x), length=L, source_num=sn)
    got = run(b, num)
    c.true('no block larger than requested', all(1 <= len(g) <= num for g in got))
    c.eq('same signal', cat(got), x)
    c.eq('second run', cat(run(b, num)), x)


def default_num(c, Tmax, nmax):
    T = c.cint('T', 1, Tmax)
    num = c.cint('num', 1, nmax)
    L = c.cint('length', num, 2 * nmax + 1)
    x = c.array('x', (T, 2), -2, 2)
    b = ac().process.SamplesBuffer(source=src(x), length=L)
    got = run(b, num)
    c.eq('same signal', cat(got), x)
    c.true('full blocks', all(len(g) == num for g in got[:-1]))


def window(c, Tmax, nmax, rmax, vary):
    """reads of result_num samples that advance by num samples: sliding windows"""
    T = c.cint('T', 1, Tmax)
    num = c.cint('num', 1, nmax)
    x = c.array('x', (T, 1), -2, 2)
    sn = num
    b = ac().process.SamplesBuffer(source=src(x), length=rmax + 2 * sn, shift_index_by='num')
    b.result_num = R = c.cint('R0', 1, rmax)
    k = 0
    gen = b.result(num)
    for blk in gen:
        c.eq('window', blk, x[k * num:k * num + R])
        k += 1
        if vary:
            R = c.cint('R%d' % k, 1, rmax) if k < 3 else rmax
            b.result_num = R
        c.true('stops at the end of the source', (k - 1) * num < T)
    c.true('whole source seen', k * num >= T)


def grow(c, Tmax):
    """a window longer than the buffer enlarges the buffer"""
    T = c.cint('T', 1, Tmax)
    num = c.cint('num', 1, 3)
    R = c.cint('R', 1, 7)
    x = c.array('x', (T, 1), -2, 2)
    b = ac().process.SamplesBuffer(source=src(x), length=2 * num, shift_index_by='num', result_num=R)
    got = run(b, num)
    c.eq('first window', got[0][:min(R, num)], x[:min(R, num, T)])
    k = 0
    for g in got:
        c.eq('prefix of the window', g, x[k * num:k * num + len(g)])
        k += 1
    c.true('whole source seen', k * num >= T)


def scenarios(tier):
    big = tier == 'thorough'
    return [
        dict(name='lossless', fn=lossless, params=dict(Tmax=9 if big else 6, Lmax=9 if big else 6, nmax=5 if big else 4),
             opts=dict(max_s=2500 if big else 400), cost=3),
        dict(name='default_num', fn=default_num, params=dict(Tmax=9 if big else 7, nmax=5 if big else 4)),
        dict(name='window', fn=window, params=dict(Tmax=9 if big else 7, nmax=4, rmax=5, vary=False)),
        dict(name='window_vary', fn=window, params=dict(Tmax=7 if big else 5, nmax=3 if big else 2, rmax=4 if big else 3, vary=True), cost=2,
             opts=dict(max_s=2500 if big else 400)),
        dict(name='grow', fn=grow, params=dict(Tmax=8)),
    ]
