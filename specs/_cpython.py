"""Meaning of the CPython functions used by the Cython sources."""


def PyLong_Check(x):
    return isinstance(x, int)


def PyDict_Size(d):
    return len(d)


def PyDict_Contains(d, k):
    return k in d


def PyDict_GetItemWithError(d, k):
    return d.get(k)


def __ssize__(x):
    if isinstance(x, bool) or isinstance(x, int):
        return x
    raise TypeError("an integer is required")
