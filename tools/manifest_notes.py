TECHNIQUE = {
    '': 'concolic symbolic execution of the real code, every branch and assertion decided by Z3',
    'C24': 'access traces extracted from the real code, interleaving encoded as SMT constraints and decided by Z3',
}
NOTES = {
    '': 'Bounded: exhausts all feasible paths of the harness within the bounds in the '
        'evidence file, with symbolic keys, names, ids, values and choices of operation; Z3 '
        'decides every branch and assertion. Explored paths are replayed on the '
        'un-instrumented code and compared. Trusts CPython, plumber, zope, and the '
        'dict/set/str models as validated by those replays.',
}
NOT_APPLICABLE = {}
