"""Runs harness paths on the un-instrumented code, one JSON line each."""
import json
import os
import resource
import sys
import importlib
import importlib.machinery

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
SRC = os.environ.get('VSYM_SRC', '/repo/src')
if SRC not in sys.path:
    sys.path.insert(0, SRC)
sys.dont_write_bytecode = True
CODE = {}     # compiled sources of this process


def fresh_code(self, fullname, orig=importlib.machinery.SourceFileLoader.get_code):
    # a byte code file may be outdated if the source changed within a second
    if fullname.split('.')[0] != 'node':
        return orig(self, fullname)
    path = self.get_filename(fullname)
    src = self.get_data(path)
    if (path, src) not in CODE:
        CODE[(path, src)] = self.source_to_code(src, path)
    return CODE[(path, src)]


def setup():
    importlib.machinery.SourceFileLoader.get_code = fresh_code
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    from vsym import plain
    plain.patch_uuid()


def load(prop):
    mod = importlib.import_module('checks.%s' % prop.lower())
    import node
    assert os.path.realpath(node.__file__).startswith(
        os.path.realpath(SRC)), node.__file__
    return mod


def run(mod, fn, kw, inputs, limit_s=10):
    from vsym.env import NativeEnv, run_path
    env = NativeEnv(inputs)
    res = run_path(env, getattr(mod, fn), kw, limit_s)
    res['trace'] = env.trace
    return res


def main():
    setup()
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)          # prints of the code under test go to stderr
    job = json.loads(sys.stdin.readline())
    mod = load(job['prop'])
    out.write('ready\n')
    out.flush()
    for line in sys.stdin:
        res = run(mod, job['fn'], job['kw'], json.loads(line))
        if res['status'] == 'ok' or res['status'] == 'abort':
            res['detail'] = None
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
