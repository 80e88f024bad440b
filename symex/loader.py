"""Loads the code under test from the repository through the AST pass.

Modules outside the repository are the real ones, except for the stand-ins of
models/ (database drivers, numpy, random, and the NLP libraries)."""
import builtins
import hashlib
import importlib
import os
import sys
import types

from . import rt
from .instrument import compile_source
from .values import SDict, SSet

REPO = os.environ.get('GB_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOTS = {'gb': REPO, 'props': VERIF, 'filter_wikidump': os.path.join(REPO, 'python')}
MODULES = {}
STUBS = {}
SOURCES = {}          # path -> sha256 of the text that was encoded


def find(name):
    top = name.split('.')[0]
    base = ROOTS.get(top)
    if base is None:
        return None
    p = os.path.join(base, *name.split('.'))
    if os.path.isfile(os.path.join(p, '__init__.py')):
        return os.path.join(p, '__init__.py'), True
    if os.path.isfile(p + '.py'):
        return p + '.py', False
    if os.path.isdir(p):
        return None, True
    return None


def load_file(name, path, is_pkg=False):
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = name if is_pkg else name.rpartition('.')[0]
    if is_pkg:
        m.__path__ = []
    m.__dict__['__builtins__'] = BUILTINS
    m.__dict__['_rt'] = rt
    MODULES[name] = m
    if path is not None:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        SOURCES[path] = hashlib.sha256(src.encode()).hexdigest()
        try:
            exec(compile_source(src, path, name if not name.startswith('props') else ''), m.__dict__)
        except BaseException:
            MODULES.pop(name, None)
            raise
    return m


def load(name):
    m = MODULES.get(name)
    if m is not None:
        return m
    parent, _, leaf = name.rpartition('.')
    pm = load(parent) if parent else None
    m = MODULES.get(name)
    if m is not None:
        return m
    f = find(name)
    if f is None:
        raise ModuleNotFoundError('No module named %r' % name, name=name)
    m = load_file(name, f[0], f[1])
    if pm is not None:
        setattr(pm, leaf, m)
    return m


def imp(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = (globals or {}).get('__package__') or ''
        base = pkg.split('.')
        if level > 1:
            base = base[:-(level - 1)]
        name = '.'.join(base + ([name] if name else []))
    top = name.split('.')[0]
    if top in ROOTS:
        m = load(name)
        if fromlist:
            for n in fromlist:
                if not hasattr(m, n) and hasattr(m, '__path__') and find(name + '.' + n):
                    load(name + '.' + n)
            return m
        return MODULES[top]
    if top in STUBS:
        m = STUBS[top]
        if fromlist:
            for part in name.split('.')[1:]:
                m = getattr(m, part)
        return m
    return builtins.__import__(name, globals, locals, fromlist, 0)


BUILTINS = dict(builtins.__dict__)
BUILTINS['__import__'] = imp


# -------------------------------------------------------- state between paths

_MUT = (list, dict, set, SDict, SSet)
_snap = []


def _copy(v):
    t = type(v)
    if t is SDict or t is SSet:
        return v.copy()
    return t(v)


def _restore_into(v, saved):
    t = type(v)
    if t is list:
        v[:] = saved
    elif t in (dict, set):
        v.clear()
        v.update(saved)
    elif t is SDict:
        v.pairs = list(saved.pairs)
        v._reindex()
    elif t is SSet:
        v.items = list(saved.items)
        v.native = set(saved.native)
        v.syms = list(saved.syms)


def snapshot():
    """Remembers the global state of all loaded modules (call after loading)."""
    del _snap[:]
    seen = set()

    def scan(ns, setter):
        for k, v in list(ns.items()):
            if k.startswith('__') and k != '__defaults__':
                continue
            setter_val = v
            if type(v) in _MUT and id(v) not in seen:
                seen.add(id(v))
                _snap.append(('c', v, _copy(v)))
            if isinstance(v, types.FunctionType) and id(v) not in seen:
                seen.add(id(v))
                for d in (v.__defaults__ or ()):
                    if type(d) in _MUT:
                        _snap.append(('c', d, _copy(d)))
            if isinstance(v, type) and id(v) not in seen and getattr(v, '__module__', '').split('.')[0] in ROOTS:
                seen.add(id(v))
                scan(dict(v.__dict__), v)
                _snap.append(('a', v, {a: b for a, b in v.__dict__.items() if not a.startswith('__')}))
    for m in MODULES.values():
        scan(m.__dict__, m)
        _snap.append(('m', m, dict(m.__dict__)))
    for m in STUBS.values():
        _snap.append(('m', m, dict(m.__dict__)))


def restore():
    rt.forget()
    for kind, obj, saved in _snap:
        if kind == 'm':
            d = obj.__dict__
            if len(d) != len(saved) or any(d.get(k) is not v for k, v in saved.items()):
                d.clear()
                d.update(saved)
        elif kind == 'c':
            _restore_into(obj, saved)
        else:
            for a, b in saved.items():
                if obj.__dict__.get(a) is not b:
                    setattr(obj, a, b)
            for a in list(obj.__dict__):
                if not a.startswith('__') and a not in saved:
                    delattr(obj, a)
