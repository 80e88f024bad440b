"""Unicode predicates and case mappings as interval sets over code points."""
import sys
import unicodedata
from . import iset

ALL = ((0, 0xD7FF), (0xE000, 0x10FFFF))
_cache = {}


def pred(name):
    """Interval set of the code points whose one-character string satisfies str.<name>()."""
    s = _cache.get(name)
    if s is None:
        m = getattr(str, name)
        out = []
        start = None
        for cp in range(0x110000):
            if m(chr(cp)):
                if start is None:
                    start = cp
            elif start is not None:
                out.append((start, cp - 1))
                start = None
        if start is not None:
            out.append((start, 0x10FFFF))
        s = _cache[name] = tuple(out)
    return s


# str.split() and str.strip() without argument use the same class as isspace()
def whitespace():
    return pred('isspace')


def linebreaks():
    s = _cache.get('linebreaks')
    if s is None:
        s = _cache['linebreaks'] = iset.of([cp for cp in range(0x3000) if len(('a%sb' % chr(cp)).splitlines()) == 2])
    return s


def decimals():
    """Code points int() accepts as digits: list of (interval start, value 0) runs of ten."""
    s = _cache.get('decimals')
    if s is None:
        s = _cache['decimals'] = pred('isdecimal')
    return s


def decimal_runs():
    r = _cache.get('decruns')
    if r is None:
        runs = {}
        for cp in iset.values(decimals()):
            runs.setdefault(cp - int(chr(cp)), []).append(cp)
        r = _cache['decruns'] = sorted(runs.items())
    return r


def inert(form):
    """Code points that a Unicode normal form leaves alone whatever stands around them (if that is one of these too)."""
    key = 'inert:' + form
    s = _cache.get(key)
    if s is None:
        second = set(range(0x1161, 0x1176)) | set(range(0x11A8, 0x11C3))
        if form in ('NFC', 'NFKC'):
            for cp in range(0x110000):
                d = unicodedata.decomposition(chr(cp))
                if d and d[0] != '<' and ' ' in d:
                    second.add(int(d.split()[1], 16))
        else:
            second = ()
        s = _cache[key] = iset.of([cp for cp in range(0x110000) if not (0xD800 <= cp <= 0xDFFF) and not unicodedata.combining(chr(cp))
                                   and cp not in second and unicodedata.normalize(form, chr(cp)) == chr(cp)])
    return s


def moved(form):
    """Code points that a Unicode normal form changes where they stand alone."""
    key = 'moved:' + form
    s = _cache.get(key)
    if s is None:
        s = _cache[key] = iset.of([cp for cp in range(0x110000) if not (0xD800 <= cp <= 0xDFFF)
                                   and unicodedata.normalize(form, chr(cp)) != chr(cp)])
    return s


def mapping(name):
    """Case mapping as (single, multi): single = {delta: iset}, multi = {cp: str}."""
    key = 'map:' + name
    s = _cache.get(key)
    if s is None:
        m = getattr(str, name)
        single = {}
        multi = {}
        for cp in range(0x110000):
            r = m(chr(cp))
            if len(r) == 1:
                d = ord(r) - cp
                if d:
                    single.setdefault(d, []).append(cp)
            else:
                multi[cp] = r
        s = _cache[key] = ({d: iset.of(v) for d, v in single.items()}, multi)
    return s


def sig(name):
    """Code points a case mapping changes."""
    key = 'sig:' + name
    s = _cache.get(key)
    if s is None:
        single, multi = mapping(name)
        r = list((cp, cp) for cp in multi)
        for v in single.values():
            r.extend(v)
        s = _cache[key] = iset.norm(r)
    return s
