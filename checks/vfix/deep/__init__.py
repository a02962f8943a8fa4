"""Modules that may be imported or not, for dotted names."""


class Top(object):
    class Inner(object):
        class Most(object):
            pass

    def method(self):
        pass


def function():
    pass
