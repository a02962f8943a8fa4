"""What a harness sees. The same harness runs symbolically and natively."""
import json
import signal
import threading
import time
import traceback
import uuid

from . import plain


class NativeEnv(object):
    """Concrete run on un-instrumented code."""
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.trace = []
        self.reached = []
        self.known_hits = []
        plain.reset_uuid()

    # -- inputs ---------------------------------------------------------
    def _value(self, name, default):
        return self.inputs.get(name, default)

    def str(self, name, default=None, facts=(), maxlen=None):
        return self._value(name, default if default is not None else name)

    def key(self, name, default=None):
        """A child key: not reserved for nodespaces, no slash, not empty."""
        return self.str(name, default, facts=KEYFACTS)

    def keyfree(self, name, default=None):
        """A child key: any string that is not reserved for nodespaces."""
        return self.str(name, default, facts=KEYFREE)

    def int(self, name, lo, hi, default=None):
        return self._value(name, lo if default is None else default)

    def choice(self, name, n, default=0):
        if n <= 1:
            return 0
        return int(self._value(name, default))

    def bool(self, name, default=False):
        return bool(self.choice(name, 2, int(default)))

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choice(name, len(seq))]

    def uuid(self, name, default=1):
        return uuid.UUID(int=self.int(name, 0, 2 ** 128 - 1, default))

    # attribute access with symbolic names
    getattr = staticmethod(getattr)
    setattr = staticmethod(setattr)
    hasattr = staticmethod(hasattr)
    delattr = staticmethod(delattr)

    def json(self, text):
        """What the JSON text says."""
        return json.loads(text)

    # -- judgement --------------------------------------------------------
    def assume(self, cond):
        if not cond:
            raise plain.PathAbort()

    def check(self, cond, label, detail=''):
        ok = bool(cond)
        self.trace.append(('check', label, ok))
        if not ok:
            raise plain.CheckFailed(label, detail() if callable(detail) else detail)

    def finding(self, ok, fid, label, detail=''):
        """A check whose failure is listed in known_findings.txt as fid; the
        caller calls it for the specific failing inputs only."""
        ok = bool(ok)
        if ok:
            self.trace.append(('check', label, ok))
        elif fid in plain.known_findings():
            self.known_hits.append(fid)
            raise plain.KnownFinding(fid)
        else:
            self.check(ok, label, detail)

    def eq(self, a, b, label):
        ok = bool(a == b)
        self.trace.append(('check', label, ok))
        if not ok:
            raise plain.CheckFailed(label, 'got %s, expected %s' % (
                plain.canon(a), plain.canon(b)))

    def same(self, a, b, label):
        """a is b"""
        self.check(a is b, label, lambda: 'got %s, expected %s' % (
            plain.canon(a), plain.canon(b)))

    def eqlist(self, got, exp, label):
        got = list(got)
        self.check(len(got) == len(exp) and all(
            g is e or bool(g == e) for g, e in zip(got, exp)), label,
            lambda: 'got %s, expected %s' % (plain.canon(got), plain.canon(exp)))

    def samelist(self, got, exp, label):
        """Same objects in the same order."""
        got = list(got)
        self.check(len(got) == len(exp) and all(
            g is e for g, e in zip(got, exp)), label,
            lambda: 'got %s, expected %s' % (plain.canon(got), plain.canon(exp)))

    def raises(self, fn, *types):
        """Call fn; (None, result) or (exception, None). An exception of
        another type goes on to the caller."""
        try:
            r = fn()
        except types as e:
            self.trace.append(('raised', type(e).__name__))
            return e, None
        return None, r

    def reach(self, label):
        if label not in self.reached:
            self.reached.append(label)

    def obs(self, x):
        self.trace.append(('obs', plain.canon(x)))

    def thread(self, fn):
        """Run fn in a fresh thread and wait for it."""
        box = {}

        def run():
            try:
                box['r'] = fn()
            except BaseException as e:
                box['e'] = e
        t = threading.Thread(target=run, daemon=True)
        t.start()
        t.join(8)
        if t.is_alive():
            raise plain.PathLimit('thread does not end')
        if 'e' in box:
            raise box['e']
        return box['r']

    def threads(self, fns):
        """Run the functions as threads that take turns: each gets a function
        it calls where another one may go on; who goes on is an input."""
        box = dict(turn=None, dead=False, err=None)
        main = threading.Semaphore(0)
        sems = [threading.Semaphore(0) for f in fns]
        alive = list(range(len(fns)))

        def pause(i):
            main.release()
            sems[i].acquire()
            if box['dead']:
                raise plain.PathAbort()

        def run(i):
            sems[i].acquire()
            try:
                if not box['dead']:
                    fns[i](lambda: pause(i))
            except BaseException as e:
                if box['err'] is None and not box['dead']:
                    box['err'] = e
            alive.remove(i)
            main.release()
        for i in alive:
            threading.Thread(target=run, args=(i,), daemon=True).start()
        n = 0
        try:
            while alive:
                i = alive[self.choice('sched%d' % n, len(alive))]
                n += 1
                sems[i].release()
                if not main.acquire(timeout=20):
                    raise plain.PathLimit('thread does not end')
                if box['err'] is not None:
                    raise box['err']
        finally:
            box['dead'] = True
            for s in sems:
                s.release()


KEYFACTS = (('startswith', '__', False), ('contains', '/', False),
            ('empty', '', False))
KEYFREE = (('startswith', '__', False),)


def _alarm(signum, frame):
    raise plain.PathLimit('time')


def run_path(env, fn, kw, limit_s):
    """Run one path; returns a result dict."""
    res = dict(status='ok', label=None, detail=None)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit_s)
    try:
        try:
            fn(env, **kw)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except plain.PathAbort:
        res['status'] = 'abort'
    except plain.KnownFinding as e:
        res.update(status='known', label=e.fid)
    except plain.CheckFailed as e:
        res.update(status='fail', label=e.label, detail=str(e.detail)[:2000])
    except plain.PathLimit as e:
        res.update(status='limit', label='does not end (%s)' % e,
                   detail=traceback.format_exc()[-1500:])
    except MemoryError:
        res.update(status='limit', label='out of memory', detail='')
    except Exception as e:
        res.update(status='error', label='unexpected %s' % type(e).__name__,
                   detail=traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return res
