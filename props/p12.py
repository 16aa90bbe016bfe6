"""Selecting the frequency lines by index or by frequency, in any order and with reads in between."""
from symx.lib import ac, np, src

BOUNDS = ('1..9 frequency lines (FFT length 2..16), one limit pair as symbolic frequencies, indices -3..nf+2 or none, histories of up to 3 '
          'settings (thorough 4) with optional reads in between')
ASSUMPTIONS = []


def ps(bs, fs=16.0):
    p = ac().PowerSpectra(source=src(np.zeros((4, 1)), fs=fs), cached=False)
    p.__dict__['block_size'] = bs
    return p


def by_freq(c, bss, open_end=False):
    bs = c.choice('bs', bss)
    lo = c.real('lo', -1, 20)
    hi = None if open_end else c.real('hi', -1, 20)
    if not open_end:
        c.assume(lo <= hi)
    p = ps(bs)
    p.freq_range = (lo, hi) if not c.symbolic else [lo, hi]
    f = [k * 16.0 / bs for k in range(bs // 2 + 1)]
    ind = [int(i) for i in p.indices]
    for k in range(bs // 2):
        inside = (f[k] >= lo) if hi is None else ((f[k] >= lo) & (f[k] < hi))
        c.true('a line is selected exactly if it lies in the range', inside == (k in ind) if not c.symbolic else
               (inside if k in ind else _not(inside)))
    if hi is None:
        c.true('the last line belongs to an open range', bs // 2 in ind)


def _not(b):
    return ~b if hasattr(b, 'e') else not b


def by_index(c, bss):
    bs = c.choice('bs', bss)
    nf = bs // 2 + 1
    lo = c.cint('lo', 0, nf + 1)
    hi = c.choice('hi', [None, -1, -2] + list(range(0, nf + 3)))
    p = ps(bs)
    if c.bool('read'):
        p.indices, p.freq_range
    p.ind_low = lo
    p.ind_high = hi
    low = min(lo, nf - 1)
    want = list(range(nf))[low:(hi if hi is None else min(hi, nf - 1))]
    c.same('selected lines', [int(i) for i in p.indices], want)
    fr = p.freq_range
    f = np.arange(nf) * 16.0 / bs
    c.same('lower frequency', float(fr[0]), f[low])
    if hi is not None and -nf <= hi:
        c.same('upper frequency', float(fr[1]), f[min(hi, nf - 1)])


def history(c, steps):
    """reading values in between never matters: same state as a new object with the same settings"""
    ops = []
    p = ps(8)
    for s in range(steps):
        what = c.choice('what%d' % s, ['low', 'high', 'range', 'block', 'rate'])
        if what == 'low':
            ops.append(('ind_low', c.choice('l%d' % s, [1, 2])))
        elif what == 'high':
            ops.append(('ind_high', c.choice('h%d' % s, [-1, 3])))
        elif what == 'range':
            ops.append(('freq_range', c.choice('r%d' % s, [(4.0, 6.0), (2.0, 7.0), (2.0, None)])))
        elif what == 'block':
            ops.append(('block', c.choice('b%d' % s, [8, 16])))
        else:
            ops.append(('rate', c.choice('f%d' % s, [16.0, 32.0])))

    def apply(q, o):
        if o[0] == 'block':
            old = q.block_size
            q.__dict__['block_size'] = o[1]
            q.trait_property_changed('block_size', old, o[1])
        elif o[0] == 'rate':
            q.source.sample_freq = o[1]
        else:
            setattr(q, *o)

    def state(q):
        return ([int(i) for i in q.indices], int(q.ind_low), q.ind_high if q.ind_high is None else int(q.ind_high),
                [None if v is None else float(v) for v in q.freq_range])
    for o in ops:
        state(p)
        apply(p, o)
    # a new object that gets the final settings only
    fin = dict(ops)
    n = ps(fin.get('block', 8), fin.get('rate', 16.0))
    sel = [o for o in ops if o[0] in ('ind_low', 'ind_high', 'freq_range')]
    if sel and sel[-1][0] == 'freq_range':
        apply(n, sel[-1])
    else:
        for k in ('ind_low', 'ind_high'):
            if k in fin:
                apply(n, (k, fin[k]))
    c.same('state after the settings', state(p), state(n))


def scenarios(tier):
    big = tier == 'thorough'
    opts = dict(max_s=3000 if big else 500, max_paths=60000, max_index=100)
    bss = [2, 4, 8] if not big else [2, 4, 6, 8, 12, 16]
    return [dict(name='by_freq', fn=by_freq, params=dict(bss=bss), opts=opts),
            dict(name='open_end', fn=by_freq, params=dict(bss=bss, open_end=True), opts=opts),
            dict(name='by_index', fn=by_index, params=dict(bss=bss), opts=opts),
            dict(name='history', fn=history, params=dict(steps=4 if big else 3), opts=opts, cost=4)]
