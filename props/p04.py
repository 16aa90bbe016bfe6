"""Splitting a stream: every consumer gets the whole stream, whatever the order in which the
consumers pull."""
import threading
import warnings
from collections import deque

from symx.lib import ac, np, run, cat, src, new

BOUNDS = ('pull schedules: 2 and 3 consumers, up to 4 source blocks, buffer sizes 1..3, every pull order until all consumers are done '
          '(the next consumer is a symbolic choice at every step); thread schedules: 2 consumers, 2 blocks, preemption '
          'before every source access and every buffer operation; all sample values symbolic')
ASSUMPTIONS = ['threads switch only at source accesses, buffer operations and lock operations (scheduler stand-ins)']


def _setup(c, nb, k, size, treat, own=False):
    x = c.array('x', (nb, 1), -2, 2)
    s = ac().SampleSplitter(source=src(x, reuse=True), **({} if own else dict(buffer_size=size)))
    cons = [ac().TimePower(source=s) for _ in range(k)]
    for q in cons:
        s.register_object(q, buffer_overflow_treatment=treat, **(dict(buffer_size=size) if own else {}))
    return x, s, cons


def pulls(c, nb, k, size, treat, own=False, late=False):
    x, s, cons = _setup(c, nb, k, size, treat, own)
    gens = [q.result(1) for q in cons]
    got = [[] for _ in cons]
    queue = [[] for _ in cons]      # reference: indices waiting for each consumer
    nxt, lost, running = 0, [False] * k, False
    done, started = [False] * k, [False] * k
    failed = False
    step = 0
    while not all(done) and not failed:
        can = [j for j in range(k) if not done[j]]
        if not late and not all(started):
            # one run: every consumer begins before any of them has finished
            can = [j for j in can if not (started[j] and not queue[j] and nxt == nb)]
        i = c.choice('s%d' % step, can)
        step += 1
        # reference model of one pull
        if not started[i]:
            started[i] = True
            if not running:
                running, nxt = True, 0
                for q in queue:
                    del q[:]
        if queue[i]:
            want = queue[i].pop(0)
        elif nxt == nb:
            want = None
            running = False
        elif treat == 'error' and any(len(q) >= size for q in queue):
            want = 'error'
        else:
            for j, q in enumerate(queue):
                q.append(nxt)
                if len(q) > size:
                    del q[0]
                    lost[j] = True
            nxt += 1
            want = queue[i].pop(0)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                b = next(gens[i])
            except StopIteration:
                c.same('stream ends only after its last block', want, None)
                done[i] = True
                continue
            except OSError:
                c.same('overflow reported only when a full buffer would lose a block', want, 'error')
                failed = True
                continue
        c.true('a block is delivered only while there is one', want is not None and want != 'error')
        got[i].append(want)
        c.eq('next block of the stream', b, x[want:want + 1] * x[want:want + 1])
    for i in range(k):
        c.true('in order without repetition', all(a < b for a, b in zip(got[i], got[i][1:])))
        if not lost[i] and not failed:
            c.same('whole stream', got[i], list(range(nb)))


def late3(c, nb):
    """a consumer that begins after another one has finished, while a third is in the middle"""
    x, s, cons = _setup(c, nb, 3, nb + 1, 'error')
    m = c.choice('m', range(1, nb))     # blocks the third consumer has taken when the late one begins
    mid = cons[1].result(1)
    out = [next(mid).copy() for _ in range(m)]
    c.eq('first consumer', cat(run(cons[0], 1)), x * x)
    late = cons[2].result(1)
    last = [next(late).copy()]
    out += [b.copy() for b in mid]
    last += [b.copy() for b in late]
    c.eq('late consumer', cat(last), x * x)
    c.same('consumer in the middle: number of blocks', len(out), nb)
    c.eq('consumer in the middle', cat(out), x * x)


def resize(c, nb):
    """a changed buffer size holds for the objects that are registered already"""
    size = c.choice('size', range(1, nb + 2))
    x, s, cons = _setup(c, nb, 2, 1, 'error')
    s.buffer_size = size
    gens = [q.result(1) for q in cons]
    got = []
    try:
        for b in gens[0]:
            got.append(b.copy())
    except OSError:
        c.same('overflow when the buffer is full', len(got), size)
        return
    c.true('no overflow', size >= nb)
    c.eq('whole stream', cat(got), x * x)


def again(c, nb):
    """after the stream ended, a further run delivers the whole stream again"""
    x, s, cons = _setup(c, nb, 2, nb + 1, 'error')
    for rep in range(2):
        gens = [q.result(1) for q in cons]
        live = [0, 1]
        got = [[], []]
        step = 0
        while live:
            i = c.choice('r%d_%d' % (rep, step), live)
            step += 1
            try:
                got[i].append(next(gens[i]).copy())
            except StopIteration:
                live.remove(i)
        if rep == 0 or True:
            for g in got:
                c.eq('whole stream', cat(g), x * x)
    s.remove_object(cons[0])
    c.eq('remaining consumer', cat(run(cons[1], 1)), x * x)
    try:
        run(cons[0], 1)
        c.true('removed consumer is refused', False)
    except OSError:
        c.true('removed consumer is refused', True)


class _Kill(BaseException):
    pass


class _Sched:
    """runs consumers in threads of which exactly one makes progress at a time"""

    def __init__(self):
        self.cur = None
        self.dead = False

    def pause(self):
        t = threading.current_thread()
        if not isinstance(t, _T):
            return
        t.main.release()
        t.go.acquire()
        if self.dead:
            raise _Kill


class _T(threading.Thread):
    def __init__(self, sched, fn):
        super().__init__(daemon=True)
        self.go, self.main = threading.Semaphore(0), threading.Semaphore(0)
        self.fn, self.sched = fn, sched
        self.done, self.err = False, None
        self.waiting = None

    def runnable(self):
        return not self.done and (self.waiting is None or self.waiting.owner is None)

    def run(self):
        self.go.acquire()
        try:
            if not self.sched.dead:
                self.fn()
        except _Kill:
            pass
        except BaseException as e:
            self.err = e
        self.done = True
        self.main.release()

    def step(self):
        self.go.release()
        if not self.main.acquire(timeout=60):
            raise RuntimeError('consumer thread blocked')


def _threads(c, nb, preempt):
    sch = _Sched()
    proc = ac().process

    class YDeque(deque):
        def appendleft(self, v):
            sch.pause()
            deque.appendleft(self, v)

        def append(self, v):
            sch.pause()
            deque.append(self, v)

        def pop(self):
            sch.pause()
            return deque.pop(self)

        def popleft(self):
            sch.pause()
            return deque.popleft(self)

        def __hash__(self):
            return id(self)

    class CLock:
        def __init__(self):
            self.owner, self.n = None, 0

        def acquire(self, *a, **k):
            me = threading.current_thread()
            sch.pause()
            while self.owner is not None and self.owner is not me:
                me.waiting = self
                sch.pause()
            me.waiting = None
            self.owner = me
            self.n += 1
            return True

        def release(self):
            self.n -= 1
            if self.n == 0:
                self.owner = None

        __enter__ = acquire

        def __exit__(self, *a):
            self.release()

    class Thr:
        def __getattr__(self, n):
            return getattr(threading, n)

        Lock = RLock = staticmethod(lambda: CLock())
    saved = {n: proc.__dict__[n] for n in ('deque', 'threading') if n in proc.__dict__}
    proc.__dict__.update(deque=YDeque, threading=Thr())
    ths = []
    try:
        x = c.array('x', (nb, 1), -2, 2)
        inner = src(x)
        orig = inner.result

        class Slow:
            pass
        sS = type(inner)

        def slow(num, orig=orig):
            for b in orig(num):
                sch.pause()
                yield b
        inner.__dict__['result'] = slow
        s = ac().SampleSplitter(source=inner, buffer_size=nb + 1)
        cons = [ac().TimePower(source=s) for _ in range(2)]
        s.register_object(*cons)
        got = [[], []]

        def consume(i):
            for b in cons[i].result(1):
                got[i].append(b.copy())
        # the source run is created by whoever pulls first; do this outside of the race
        s._create_source_generator(1)
        ths = [_T(sch, lambda i=i: consume(i)) for i in range(2)]
        for t in ths:
            t.start()
        step, cur, left = 0, 0, preempt
        while not all(t.done for t in ths):
            live = [i for i in range(2) if ths[i].runnable()]
            if not live:
                c.true('consumers do not block each other for ever', False)
            if cur not in live:
                cur = live[0]
            elif left and len(live) > 1:
                if c.bool('switch%d' % step):
                    cur = 1 - cur
                    left -= 1
            step += 1
            if step > 4000:
                c.true('consumers make progress', False)
            ths[cur].step()
        for t in ths:
            if t.err is not None:
                raise t.err
        for i in range(2):
            c.eq('whole stream in order for consumer', cat(got[i], 1), x * x)
    finally:
        sch.dead = True
        for t in ths:
            while not t.done:
                t.step()
        proc.__dict__.update(saved)


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    opts = dict(max_paths=60000, max_s=3000 if big else 500)
    for treat in ('error', 'warning', 'none'):
        for k, nb, size, own in ([(2, 3, 1, 0), (2, 3, 4, 0), (2, 4, 2, 1), (3, 2, 1, 0)] if not big else
                                 [(2, 3, 1, 1), (2, 4, 1, 0), (2, 5, 2, 1), (2, 5, 6, 0), (2, 4, 3, 0), (3, 2, 1, 1), (3, 2, 3, 0), (3, 3, 2, 0)]):
            out.append(dict(name='pull_%s_%dc_%db_%d' % (treat, k, nb, size), fn=pulls,
                            params=dict(nb=nb, k=k, size=size, treat=treat, own=bool(own)), opts=opts))
        out.append(dict(name='late_' + treat, fn=pulls, params=dict(nb=3, k=2, size=2, treat=treat, late=True), opts=opts))
    out.append(dict(name='late3', fn=late3, params=dict(nb=3), opts=opts))
    out.append(dict(name='resize', fn=resize, params=dict(nb=3 if not big else 5), opts=opts))
    out.append(dict(name='again', fn=again, params=dict(nb=2), opts=dict(max_s=600, max_paths=60000)))
    out.append(dict(name='threads', fn=_threads, params=dict(nb=3, preempt=3 if big else 2), opts=opts, cost=5))
    return out
