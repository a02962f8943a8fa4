"""Systematic path exploration with Z3 deciding every branch."""
import time
from . import core, sym, plain
from .core import z3, CUR
from .env import NativeEnv, run_path


class SymEnv(NativeEnv):
    symbolic = True
    getattr = staticmethod(sym.vgetattr)
    setattr = staticmethod(sym.vsetattr)
    hasattr = staticmethod(sym.vhasattr)
    delattr = staticmethod(sym.vdelattr)

    def __init__(self, inputs, rec):
        self.rec = rec
        NativeEnv.__init__(self, inputs)

    def json(self, text):
        from . import stubs
        return stubs.loads(text)

    def str(self, name, default=None, facts=(), maxlen=None):
        if name in self.rec.used:
            return self.rec.used[name][3]
        v = self.inputs.get(name, default if default is not None else name)
        var = z3.String(name)
        a = sym.Atom(var, v, tuple(facts) or None)
        s = sym.SymStr((a,))
        self.rec.used[name] = (var, v, tuple(facts), s)
        if maxlen is not None:
            self.rec.base(z3.Length(var) <= maxlen)
        return s

    def int(self, name, lo, hi, default=None):
        if name in self.rec.used:
            return self.rec.used[name][3]
        v = self.inputs.get(name, lo if default is None else default)
        var = z3.Int(name)
        s = sym.SymInt(var, v)
        self.rec.used[name] = (var, v, (), s)
        self.rec.base(z3.And(var >= lo, var <= hi))
        return s

    def choice(self, name, n, default=0):
        if n <= 1:
            return 0
        return self.int(name, 0, n - 1, default).__index__()


def fact_ok(v, facts):
    for m, a, want in facts:
        if m == 'startswith':
            got = v.startswith(a)
        elif m == 'endswith':
            got = v.endswith(a)
        elif m == 'contains':
            got = a in v
        elif m == 'empty':
            got = not v
        if got != want:
            return False
    return True


def fact_expr(var, facts):
    out = []
    for m, a, want in facts:
        if m == 'startswith':
            e = z3.PrefixOf(sym.zlit(a), var)
        elif m == 'endswith':
            e = z3.SuffixOf(sym.zlit(a), var)
        elif m == 'contains':
            e = z3.Contains(var, sym.zlit(a))
        elif m == 'empty':
            e = var == z3.StringVal('')
        out.append(e if want else z3.Not(e))
    return out


class Stats(object):
    def __init__(self):
        self.paths = self.aborted = self.branches = self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.solver_s = 0.0
        self.diverged = self.native_ok = self.native_bad = 0
        self.conc_skipped = self.native_hash = self.concretized = 0
        self.checks = 0
        self.xcheck = self.xdisagree = 0


class Solver(object):
    """Incremental z3 with a stack of asserted branches."""

    def __init__(self, stats, timeout_ms=4000):
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.stack = []
        self.st = stats
        self.uses = 0
        self.timeout_ms = timeout_ms

    def sync(self, path, n):
        """Assert exactly path[:n]."""
        if self.uses > 4000:       # keep the solver's heap small
            self.s = z3.Solver()
            self.s.set('timeout', self.timeout_ms)
            self.stack = []
            self.uses = 0
        c = 0
        m = min(n, len(self.stack))
        while c < m and self.stack[c].key == path[c].key:
            c += 1
        if c < len(self.stack):
            self.s.pop(len(self.stack) - c)
            del self.stack[c:]
        for b in path[c:n]:
            self.s.push()
            self.s.add(b.lit())
            self.stack.append(b)

    def query(self, extra, path, n):
        """Solve path[:n] and extra; returns (result, model)."""
        t = time.time()
        self.st.queries += 1
        self.uses += 1
        self.s.push()
        try:
            self.s.add(*extra)
            r = self.s.check()
            m = self.s.model() if r == z3.sat else None
        finally:
            self.s.pop()
        if r == z3.unknown:
            f = z3.Solver()
            f.set('timeout', 15000)
            for b in path[:n]:
                f.add(b.lit())
            f.add(*extra)
            r = f.check()
            m = f.model() if r == z3.sat else None
        self.st.solver_s += time.time() - t
        return r, m


def model_inputs(model, used, inputs):
    out = dict(inputs)
    bad = []
    for name, (var, v, facts, s) in used.items():
        mv = model[var]
        if mv is None:
            out[name] = v
            continue
        if z3.is_string(var):
            nv = sym.unescape(mv.as_string())
            if facts and not fact_ok(nv, facts):
                bad.append(name)
        else:
            nv = mv.as_long()
        out[name] = nv
    return out, bad


class Explorer(object):
    def __init__(self, fn, kw, budget, path_s=20, conc_limit=6, native=None,
                 max_violations=1, on_violation=None, hook=None):
        self.fn, self.kw = fn, kw
        self.budget = budget
        self.path_s = path_s
        self.native = native
        self.st = Stats()
        self.conc_left = {}
        self.conc_limit = conc_limit
        self.reached = {}
        self.samples = []
        self.candidates = []
        self.divergences = []
        self.history = []
        self.exhausted = False
        self.pool = {}
        self.known = {}
        self.multi = {}
        self.pending = 0
        self.on_violation = on_violation
        self.hook = hook
        self.stop = False

    def run_one(self, inputs, expect=None):
        rec = core.Recorder(inputs, expect=expect, multi=self.multi)
        CUR.rec = rec
        env = SymEnv(inputs, rec)
        res = run_path(env, self.fn, self.kw, self.path_s)
        CUR.rec = core.Recorder({})
        res['trace'] = env.trace
        res['reached'] = env.reached
        return rec, res

    def explore(self):
        t0 = time.time()
        st = self.st
        solver = Solver(st)
        work = [({}, 0, None)]
        while work:
            if time.time() - t0 > self.budget:
                self.pending = len(work)
                break
            inputs, bound, expect = work.pop()
            rec, res = self.run_one(inputs, expect)
            path = rec.path
            st.paths += 1
            st.branches += len(path)
            st.native_hash += rec.native_hash
            st.concretized += rec.concretized
            used = dict((n, u[1]) for n, u in rec.used.items())
            if expect is not None:
                ok = len(path) >= len(expect) and all(
                    p.key == e for p, e in zip(path, expect))
                if not ok:
                    st.diverged += 1
                    if len(self.divergences) < 5:
                        self.divergences.append(dict(kind='path', inputs=used,
                                                     status=res['status'], label=res['label']))
            st.checks += sum(1 for t in res['trace'] if t[0] == 'check')
            for r in res['reached']:
                self.reached[r] = self.reached.get(r, 0) + 1
            if res['status'] == 'abort':
                st.aborted += 1
            else:
                if res['status'] == 'known':
                    self.known[res['label']] = self.known.get(res['label'], 0) + 1
                self.history.append(used)
                self.judge(used, res)
                if len(self.samples) < 3 and res['status'] == 'ok' and (
                        st.paths % 7 == 1):
                    self.samples.append(dict(inputs=used, trace=res['trace'][-6:]))
            if self.stop:
                break
            for b in path:      # keeps the ids of the terms stable
                self.pool[b.key[0]] = b.expr
            # negate every undecided branch
            keys = [b.key for b in path]
            new = []
            for i in range(bound, len(path)):
                b = path[i]
                if b.kind == 'base':
                    continue
                if b.kind == 'conc':
                    left = self.conc_left.get(b.site, self.conc_limit)
                    if left <= 0:
                        st.conc_skipped += 1
                        continue
                    self.conc_left[b.site] = left - 1
                solver.sync(path, i)
                r, m = solver.query([b.neglit()], path, i)
                if r == z3.sat:
                    ni, bad = model_inputs(m, rec.used, inputs)
                    if bad:
                        extra = [b.neglit()]
                        for n in bad:
                            extra += fact_expr(rec.used[n][0], rec.used[n][2])
                        # facts of all inputs, to be sure
                        r, m = solver.query(extra, path, i)
                        if r == z3.sat:
                            ni, bad = model_inputs(m, rec.used, inputs)
                            if bad:
                                extra = [b.neglit()]
                                for n, u in rec.used.items():
                                    extra += fact_expr(u[0], u[2])
                                r, m = solver.query(extra, path, i)
                                if r == z3.sat:
                                    ni, bad = model_inputs(m, rec.used, inputs)
                if r == z3.sat:
                    st.sat += 1
                    new.append((ni, i + 1, keys[:i] + [(b.key[0], not b.taken)],))
                elif r == z3.unsat:
                    st.unsat += 1
                else:
                    st.unknown += 1
            work.extend(new)
        else:
            self.exhausted = True
            self.pending = 0
        self.wall = time.time() - t0

    def judge(self, used, res):
        st = self.st
        bad = res['status'] in ('fail', 'error', 'limit')
        nres = None
        if self.native is not None:
            nres = self.native.run(used)
            if nres['status'] in ('fail', 'error', 'limit'):
                if self.on_violation is not None and self.on_violation(used, res, nres, self.history):
                    self.stop = True
                    return
                st.native_bad += 1
                return
            same = nres['status'] == res['status'] and \
                nres['trace'] == _jsonish(res['trace'])
            if same:
                st.native_ok += 1
                return
            st.native_bad += 1
            if len(self.divergences) < 5:
                d = dict(kind='native', inputs=used, sym=res['status'],
                         label=res['label'], detail=res['detail'],
                         native=nres['status'])
                for x, y in zip(_jsonish(res['trace']), nres['trace']):
                    if x != y:
                        d['first'] = [x, y]
                        break
                self.divergences.append(d)
        if bad:
            # fails symbolically, not natively: model artifact or history
            if self.on_violation is not None and self.on_violation(used, res, nres, self.history):
                self.stop = True


def _jsonish(x):
    if isinstance(x, (list, tuple)):
        return [_jsonish(i) for i in x]
    if isinstance(x, dict):
        return dict((k, _jsonish(v)) for k, v in x.items())
    return x
