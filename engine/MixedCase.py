"""A module whose name has capitals, to look for classes in."""


class lower_UPPER(object):
    pass


class _Private(object):
    pass
