"""Shared by the symbolic and the native side; does not import z3."""
import uuid as _uuid


class PathControl(BaseException):
    """Steers a path; never an Exception, so code under test lets it pass."""


class PathAbort(PathControl):
    pass


class PathLimit(PathControl):
    pass


class CheckFailed(PathControl):
    def __init__(self, label, detail=''):
        self.label = label
        self.detail = detail
        BaseException.__init__(self, label, detail)


class KnownFinding(PathControl):
    """The path ends with a defect that known_findings.txt lists."""

    def __init__(self, fid):
        self.fid = fid
        BaseException.__init__(self, fid)


_KNOWN = {}


def known_findings():
    """id -> (property, text) of the listed findings."""
    if not _KNOWN:
        import os
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                         'known_findings.txt')
        _KNOWN[''] = None
        if os.path.exists(p):
            with open(p) as f:
                for line in f:
                    if line.startswith('known: '):
                        w = line.split(None, 3)
                        _KNOWN[w[2].split('=', 1)[1]] = (
                            w[1].split('=', 1)[1], w[3].strip())
    return _KNOWN


_counter = [0]
_BASE = 0xabc0 << 112


def reset_uuid():
    _counter[0] = 0


def fake_uuid4():
    _counter[0] += 1
    n = _counter[0]
    return _uuid.UUID(int=_BASE | (4 << 76) | (8 << 60) | n)


def patch_uuid():
    _uuid.uuid4 = fake_uuid4


def canon(x, depth=0):
    if depth > 6:
        return '...'
    c = getattr(x, '_c', None)
    if type(x).__name__ in ('SymStr', 'SymInt'):
        return c
    if x is None or isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, str):
        return str(x)
    if isinstance(x, bytes):
        return 'b:%r' % bytes.__repr__(x)
    if isinstance(x, (list, tuple)):
        return [canon(i, depth + 1) for i in x]
    if isinstance(x, (set, frozenset)):
        return {'set': sorted((repr(canon(i, depth + 1)) for i in x))}
    if isinstance(x, dict):
        return {'dict': [[canon(k, depth + 1), canon(v, depth + 1)]
                         for k, v in x.items()]}
    if isinstance(x, BaseException):
        return 'exc:' + type(x).__name__
    if isinstance(x, _uuid.UUID):
        return 'uuid:%x' % canon(x.int)
    return 'obj:' + type(x).__name__
