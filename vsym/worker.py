"""Explores one scenario; argv: prop scenario-json budget out-file."""
import faulthandler
import json
import os
import resource
import select
import signal
import subprocess
import sys
import time
import warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from vsym import plain, loader, sym, explore  # noqa: E402

PY = '/opt/venv/bin/python'


class Native(object):
    def __init__(self, prop, sc):
        self.prop, self.sc = prop, sc
        self.p = None

    def start(self):
        self.p = subprocess.Popen(
            [PY, '-W', 'ignore', os.path.join(HERE, 'native.py')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL)
        self.buf = b''
        self.send(dict(prop=self.prop, fn=self.sc['fn'], kw=self.sc.get('kw', {})))
        r = self.line(60)
        if r != b'ready':
            raise RuntimeError('native companion did not start: %r' % r)

    def send(self, o):
        self.p.stdin.write(json.dumps(o).encode() + b'\n')
        self.p.stdin.flush()

    def line(self, timeout):
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                return None
            d = os.read(fd, 1 << 16)
            if not d:
                return None
            self.buf += d
        r, self.buf = self.buf.split(b'\n', 1)
        return r

    def run(self, inputs):
        if self.p is None:
            self.start()
        try:
            self.send(inputs)
            r = self.line(25)
        except BrokenPipeError:
            r = None
        if r is None:
            self.kill()
            return dict(status='limit', label='does not end (native)', detail='', trace=[])
        return json.loads(r)

    def kill(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def main():
    prop, sc, budget, outf, tmp = sys.argv[1], json.loads(sys.argv[2]), \
        float(sys.argv[3]), sys.argv[4], sys.argv[5]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    plain.patch_uuid()
    loader.install()
    loader.watch()
    import importlib
    mod = importlib.import_module('checks.%s' % prop.lower())
    nat = Native(prop, sc)
    violations = []
    artifacts = []

    def confirm(inputs, history=()):
        f = os.path.join(tmp, 'cand-%d.json' % os.getpid())
        d = dict(property=prop, scenario=sc['name'], fn=sc['fn'],
                 kw=sc.get('kw', {}), inputs=inputs, history=list(history),
                 how='/opt/venv/bin/python /verif/vsym/replay.py <this file>')
        with open(f, 'w') as fh:
            json.dump(d, fh)
        try:
            r = subprocess.run([PY, '-W', 'ignore', os.path.join(HERE, 'replay.py'), f],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               timeout=40 + len(history) * .05)
            rc, out = r.returncode, r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            rc, out = 1, 'failed    does not end'
        return rc == 1 and 'failed  ' in out, d, out

    def on_violation(inputs, res, nres, history):
        if len(artifacts) > 5:
            return False
        ok, d, out = confirm(inputs)
        if not ok and len(history) > 1:
            ok, d, out = confirm(inputs, history[:-1][-20000:])
            if ok:
                h = history[:-1][-20000:]
                # shorten the history
                for n in (1, 5, 50, 500):
                    if n < len(h):
                        ok2, d2, out2 = confirm(inputs, h[-n:])
                        if ok2:
                            d, out = d2, out2
                            break
        if ok:
            label = nres['label'] if nres and nres.get('label') else res['label']
            d['label'] = label
            d['output'] = out
            violations.append(d)
            return True
        artifacts.append(dict(inputs=inputs, sym=res['label'], detail=res['detail'],
                              native=nres and nres['status']))
        return False

    ex = explore.Explorer(getattr(mod, sc['fn']), sc.get('kw', {}), budget,
                          native=nat, on_violation=on_violation,
                          conc_limit=sc.get('conc', 6))
    try:
        ex.explore()
    finally:
        nat.kill()
    st = ex.st
    out = dict(
        scenario=sc['name'], paths=st.paths, completed=st.paths - st.aborted,
        aborted=st.aborted, branches=st.branches, queries=st.queries,
        sat=st.sat, unsat=st.unsat, unknown=st.unknown,
        solver_s=round(st.solver_s, 3), wall=round(ex.wall, 2),
        diverged=st.diverged, native_ok=st.native_ok, native_bad=st.native_bad,
        conc_skipped=st.conc_skipped, native_hash=st.native_hash,
        concretized=st.concretized, checks=st.checks,
        exhausted=ex.exhausted, pending=ex.pending,
        reached=ex.reached, samples=ex.samples, divergences=ex.divergences,
        known=sorted(ex.known), artifacts=artifacts, violations=violations,
        functions=sorted(loader.FUNCS))
    with open(outf, 'w') as f:
        json.dump(out, f, default=str)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
