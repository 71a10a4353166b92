"""Assumed contracts of functions of the standard library, written in Python (compared with the real ones by the concrete
part of the checks).
"""


def run_end(keys, i):
    """End of the run of equal keys that starts at i"""
    for j in range(i, len(keys)):
        if keys[j] != keys[i]:
            return j
    return len(keys)


def groupby(items, key):
    """itertools.groupby: the maximal runs of consecutive items with the same key"""
    items = list(items)
    keys = [key(x) for x in items]
    return [(keys[i], items[i:run_end(keys, i)]) for i in range(len(items)) if i == 0 or keys[i - 1] != keys[i]]
