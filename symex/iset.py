"""Sets of integers as sorted disjoint closed intervals: tuple of (lo, hi)."""

EMPTY = ()


def norm(ranges):
    out = []
    for lo, hi in sorted(ranges):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def single(v):
    return ((v, v),)


def rng(lo, hi):
    return ((lo, hi),) if lo <= hi else ()


def of(values):
    return norm([(v, v) for v in values])


def inter(a, b):
    if a is b:
        return a
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def diff(a, b):
    out = []
    j = 0
    for lo, hi in a:
        cur = lo
        while j < len(b) and b[j][1] < cur:
            j += 1
        k = j
        while k < len(b) and b[k][0] <= hi:
            if b[k][0] > cur:
                out.append((cur, b[k][0] - 1))
            cur = max(cur, b[k][1] + 1)
            if cur > hi:
                break
            k += 1
        if cur <= hi:
            out.append((cur, hi))
    return tuple(out)


def union(a, b):
    return norm(list(a) + list(b))


def shift(a, d):
    return tuple((lo + d, hi + d) for lo, hi in a) if d else a


def contains(a, v):
    for lo, hi in a:
        if lo <= v <= hi:
            return True
        if v < lo:
            return False
    return False


def size(a):
    return sum(hi - lo + 1 for lo, hi in a)


def values(a):
    for lo, hi in a:
        yield from range(lo, hi + 1)


def lo(a):
    return a[0][0]


def hi(a):
    return a[-1][1]
