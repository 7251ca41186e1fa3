"""Importable classes used as values."""


class Plain(object):
    pass


class Methods(object):
    def method(self):
        return 1

    def other(self):
        return 2


class Nan(object):
    pass


class WithWhat(object):
    def __init__(self):
        self.x = 1

    def what(self):
        from whatami import What
        return What('WithWhat', {'x': self.x})


try:
    import numpy as _np

    class MyArray(_np.ndarray):
        pass
except ImportError:
    pass

try:
    import pandas as _pd

    class MyFrame(_pd.DataFrame):
        pass

    class MySeries(_pd.Series):
        pass
except ImportError:
    pass


def function_a(x=1):
    return x


def function_b(x=1):
    return x
