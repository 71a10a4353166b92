"""Contracts of the parallel helpers (property C01)."""


def parallel_map(items, process):
    return [process(x) for x in items]


def flatten(parts):
    return [x for part in parts for x in part]


def batches(items, size):
    out = []
    for i in range(0, len(items), size):
        out.append(items[i:i + size])
    return out


def nb_parts(nb_items, nb_lists):
    return nb_lists if nb_lists <= nb_items else nb_items


def balanced(parts, nb_items, nb_lists):
    """As many parts as asked (or as items), whose sizes differ from the mean by less than one"""
    if nb_lists > nb_items:
        return len(parts) == nb_items and all(len(part) == 1 for part in parts)
    mean = nb_items / nb_lists
    return len(parts) == nb_lists and all(mean - 1 < len(part) < mean + 1 for part in parts)
