# -*- coding: utf-8 -*-
"""Copied into the code under test by 'mutate.py cond': when does the changed body run?"""
import sys
import threading

_t = threading.local()
_calls = {}
_last = {}
_keep = []


def _node(a):
    for n in ('self', 'inst', 'node', 'context'):
        if n in a:
            return a[n]
    return None


def _args(a):
    out = []
    for k, v in a.items():
        if k in ('self', '_next', 'cls'):
            continue
        out.extend(v if isinstance(v, tuple) and k == 'args' else [v])
    return out


def _keyid(v):
    try:
        hash(v)
        return repr(type(v)) + (repr(v) if isinstance(v, (str, int, bytes)) else str(id(v)))
    except Exception:
        return str(id(v))


def size(n):
    c = 0
    for _ in n:
        c += 1
    return c


def parents(n):
    c = 0
    while n is not None and c < 100:
        n = getattr(n, '__parent__', None)
        c += 1
    return c - 1


def c_big(a, f):
    return size(_node(a)) > 9


def c_huge(a, f):
    return size(_node(a)) > 40


def c_one(a, f):
    return size(_node(a)) == 1


def c_none(a, f):
    return size(_node(a)) == 0


def c_deep(a, f):
    return parents(_node(a)) > 3


def c_inner(a, f):
    n = _node(a)
    return parents(n) > 0 and size(n) > 0


def c_late(a, f):
    n = _node(a)
    k = (id(n), f)
    if k not in _calls:
        _keep.append(n)
    _calls[k] = _calls.get(k, 0) + 1
    return _calls[k] > 25


def c_again(a, f):
    n = _node(a)
    k = (id(n), f)
    if k not in _last:
        _keep.append(n)
    now = [_keyid(v) for v in _args(a)]
    was = _last.get(k)
    _last[k] = now
    return was == now


def c_other(a, f):
    n = _node(a)
    k = (type(n), f)
    was = _last.get(k)
    _last[k] = n
    return was is not None and was is not n


def c_thread(a, f):
    return threading.current_thread() is not threading.main_thread()


def c_exc(a, f):
    return sys.exc_info()[0] is not None


def c_oddkey(a, f):
    return any(isinstance(v, (int, bytes, tuple, float)) for v in _args(a))


def c_nonascii(a, f):
    return any(isinstance(v, str) and any(ord(c) > 127 for c in v) for v in _args(a))


def c_blank(a, f):
    return any(isinstance(v, str) and (not v or ' ' in v) for v in _args(a))


def c_long(a, f):
    return any(isinstance(v, str) and len(v) > 12 for v in _args(a))


def c_strsub(a, f):
    return any(isinstance(v, str) and type(v) is not str for v in _args(a))


def c_falsy(a, f):
    return any(v is not None and not isinstance(v, (str, bool, int)) and not v for v in _args(a))


def c_nullarg(a, f):
    return any(v is None for v in _args(a))


def c_ownname(a, f):
    n = _node(a)
    return n.__name__ is not None and any(isinstance(v, str) and v == n.__name__ for v in _args(a))


def c_full(a, f):
    """A child of that key is there already."""
    n = _node(a)
    keys = [k for k in n]
    return any(isinstance(v, str) and v in keys for v in _args(a)) and len(keys) > 3


def cond(name, a, f):
    if getattr(_t, 'on', False):
        return False
    _t.on = True
    try:
        return bool(globals()['c_' + name](dict(a), f))
    except Exception:
        return False
    finally:
        _t.on = False


NAMES = sorted(n[2:] for n in globals() if n.startswith('c_'))
