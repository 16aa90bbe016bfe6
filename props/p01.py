"""Every streaming time-domain processor delivers the same signal for every block size, in
full blocks (only the last may be shorter), and as many samples as it announces."""
from symx.lib import ac, np, run, cat, src, new

BOUNDS = ('source of 1..6 samples (thorough 1..9), 2 channels, block sizes 1..7 (thorough 1..10) compared with the '
          'one-block run; all sample values symbolic; filter coefficients concrete (one design per class), '
          'zero-phase octave filter with 40 samples and 4 block sizes')
ASSUMPTIONS = ['scipy.signal.sosfilt is its documented direct-form-II-transposed recurrence',
               'scipy.signal.sosfiltfilt is linear in its input (applied to unit vectors)',
               'fft is the exact discrete Fourier transform']


def _mix(x, s):
    return ac().Mixer(source=s, sources=[src(2 * x, fs=64.0, tag='b')])


KINDS = {
    'power': lambda x, s: ac().TimePower(source=s),
    'cumavg': lambda x, s: ac().TimeCumAverage(source=s),
    'reverse': lambda x, s: ac().TimeReverse(source=s),
    'expavg': lambda x, s: ac().TimeExpAverage(source=s, weight='F'),
    'octave': lambda x, s: ac().FiltOctave(source=s, band=1.0, order=2),
    'freqweight': lambda x, s: ac().FiltFreqWeight(source=s, weight='A'),
    'chanmix': lambda x, s: ac().ChannelMixer(source=s, weights=np.array([0.5, 2.0])),
    'mixer': _mix,
    'cache_off': lambda x, s: ac().Cache(source=s),
    'filterbank': lambda x, s: ac().OctaveFilterBank(source=s, lband=0, hband=4, fraction='Octave'),
    'average2': lambda x, s: ac().Average(source=s, num_per_average=2),
    'average3': lambda x, s: ac().Average(source=s, num_per_average=3),
    'masked': lambda x, s: ac().MaskedTimeOut(source=s, invalid_channels=[0]),
    'chain': lambda x, s: ac().TimePower(source=ac().Average(source=ac().FiltOctave(source=s, band=1.0, order=1),
                                                             num_per_average=2)),
    'writewav_passthrough': lambda x, s: ac().WriteWAV(source=s, channels=[0]),
    'freqweight_c': lambda x, s: ac().FiltFreqWeight(source=s, weight='C'),
    'freqweight_z': lambda x, s: ac().FiltFreqWeight(source=s, weight='Z'),
    'octave3': lambda x, s: ac().FiltOctave(source=s, band=8.0, fraction='Third octave', order=3),
    'expavg_slow': lambda x, s: ac().TimeExpAverage(source=s, weight='S'),
    'calib': lambda x, s: ac().Calib(source=s, data=np.array([2.0, 3.0])),
    'srcmix': lambda x, s: ac().SourceMixer(sources=[s, src(x + 1, fs=64.0, tag='o')], weights=np.array([2.0, 3.0])),
    'averaged_filter': lambda x, s: ac().Average(source=ac().TimeExpAverage(source=ac().TimePower(source=s)), num_per_average=3),
    'cum_of_masked': lambda x, s: ac().TimeCumAverage(source=ac().MaskedTimeOut(source=s, invalid_channels=[1])),
    'convolve': lambda x, s: ac().TimeConvolve(source=s, kernel=np.array([1.0, -2.0, 0.5])),
}


def block_size(c, kind, Tmax, nmax, fs=64.0):
    T = c.cint('T', 1, Tmax)
    num = c.cint('num', 1, nmax)
    x = c.array('x', (T, 2), -2, 2)
    one = run(KINDS[kind](x, src(x, fs=fs)), T + 2)
    p = KINDS[kind](x, src(x, fs=fs))
    got = run(p, num)
    if not one:
        c.same('nothing delivered', sum(b.shape[0] for b in got), 0)
        return
    ref = cat(one)
    lens = [b.shape[0] for b in got]
    c.true('at most one short block, at the end', all(n == num for n in lens[:-1]) and all(1 <= n <= num for n in lens))
    c.same('announced number of channels', got[0].shape[1], int(p.num_channels))
    if kind != 'convolve':
        c.same('announced number of samples', sum(lens), int(p.num_samples) if p.num_samples == int(p.num_samples) else p.num_samples)
    c.eq('same signal', cat(got), ref)
    # a second run of the same object starts afresh
    c.eq('second run', cat(run(p, num)), ref)


def selection(c, kind, T, nmax):
    """a selected range of a recording, and a running quantity of it, in blocks"""
    start = c.cint('start', 0, T - 1)
    stop = c.cint('stop', start + 1, T)
    num = c.cint('num', 1, nmax)
    x = c.array('x', (T, 1), -2, 2)

    def mk():
        m = ac().MaskedTimeOut(source=src(x, fs=64.0), start=start, stop=stop)
        return ac().TimeCumAverage(source=m) if kind == 'cum' else m
    got = run(mk(), num)
    c.true('at most one short block, at the end', all(b.shape[0] == num for b in got[:-1]) and 1 <= got[-1].shape[0] <= num)
    c.same('announced number of samples', sum(len(b) for b in got), int(mk().num_samples))
    c.eq('same signal', cat(got), cat(run(mk(), T + 1)))


def filtfilt(c, nums):
    T = 40
    num = c.choice('num', nums)
    x = c.array('x', (T, 1), -2, 2)
    mk = lambda: ac().FiltFiltOctave(source=src(x, fs=64.0), band=4.0, order=1)
    ref = cat(run(mk(), T))
    got = run(mk(), num)
    c.true('at most one short block, at the end', all(b.shape[0] == num for b in got[:-1]) and 1 <= got[-1].shape[0] <= num)
    c.eq('same signal', cat(got), ref)


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for k in KINDS:
        out.append(dict(name='block_' + k, fn=block_size, params=dict(kind=k, Tmax=9 if big else 6, nmax=10 if big else 7),
                        opts=dict(max_s=1500 if big else 250)))
    for k in ('plain', 'cum'):
        for T in ((8, 11) if big else (8,)):
            out.append(dict(name='selection_%s_%d' % (k, T), fn=selection, params=dict(kind=k, T=T, nmax=T + 1 if big else 5),
                            opts=dict(max_s=1500 if big else 250, max_paths=20000)))
    out.append(dict(name='filtfilt', fn=filtfilt, params=dict(nums=[1, 7, 13, 39, 40, 41] if big else [7, 13, 41]), cost=3))
    return out
