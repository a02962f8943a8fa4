"""Replay a counterexample: python replay.py FILE. Exit 1 if it fails."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from vsym import native  # noqa: E402


def main():
    with open(sys.argv[1]) as f:
        d = json.load(f)
    native.setup()
    mod = native.load(d['property'])
    if d.get('native_main'):
        sys.exit(getattr(mod, d['native_main'])(d))
    res = None
    for inp in d.get('history', []):
        native.run(mod, d['fn'], d['kw'], inp, 20)
    res = native.run(mod, d['fn'], d['kw'], d['inputs'], 20)
    print('scenario  %s' % d['scenario'])
    print('inputs    %s' % json.dumps(d['inputs']))
    print('status    %s' % res['status'])
    if res['status'] in ('fail', 'error', 'limit'):
        print('failed    %s' % res['label'])
        print('detail    %s' % res['detail'])
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
