# Snapshot / restore of every piece of mutable state reachable from the pyamf
# modules (module globals, containers, class attributes, instances of pyamf
# classes), so that each simulated run starts from the state of a freshly
# imported library and is a pure function of its tape.  Works generically on
# whatever the modules contain: it names no pyamf internals.

import sys
import types

_mods = None
_saved = None

_CLASS_TYPES = (type, types.ClassType)
_SKIP_ATTRS = ('__dict__', '__weakref__', '__builtins__', '__doc__',
               '__module__', '__name__', '__file__', '__path__',
               '__package__')
_OWNERS = ('pyamf', 'weakref', 'UserDict', 'collections')
#: called at restore time (e.g. simulated locks)
extra_restore = []


def _owned(modname):
    return isinstance(modname, basestring) and (
        modname.split('.')[0] in _OWNERS)


def _is_pyamf(modname):
    return isinstance(modname, basestring) and (
        modname == 'pyamf' or modname.startswith('pyamf.'))


def take():
    global _mods, _saved
    _mods = []
    _saved = []
    seen = set()
    stack = []
    for name, m in sorted(sys.modules.items()):
        if m is None or not _is_pyamf(name):
            continue
        if not isinstance(m, types.ModuleType):
            continue
        _mods.append((name, m, dict(m.__dict__)))
        for k, v in m.__dict__.items():
            if k not in _SKIP_ATTRS:
                stack.append(v)
    while stack:
        o = stack.pop()
        i = id(o)
        if i in seen:
            continue
        t = type(o)
        if isinstance(o, dict):
            seen.add(i)
            items = [(k, dict.__getitem__(o, k)) for k in dict.keys(o)]
            _saved.append((o, 'dict', items))
            for k, v in items:
                stack.append(k)
                stack.append(v)
            if t is not dict:
                _inst(o, stack)
        elif isinstance(o, list):
            seen.add(i)
            _saved.append((o, 'list', list(list.__iter__(o))))
            stack.extend(list.__iter__(o))
            if t is not list:
                _inst(o, stack)
        elif isinstance(o, set):
            seen.add(i)
            _saved.append((o, 'set', set(o)))
            stack.extend(o)
        elif isinstance(o, (tuple, frozenset)):
            seen.add(i)
            stack.extend(o)
        elif isinstance(o, _CLASS_TYPES):
            if not _is_pyamf(getattr(o, '__module__', None)):
                continue
            seen.add(i)
            attrs = {}
            for k, v in list(o.__dict__.items()):
                if k in _SKIP_ATTRS:
                    continue
                attrs[k] = v
                stack.append(v)
            _saved.append((o, 'class', attrs))
        elif isinstance(o, types.FunctionType):
            seen.add(i)
            if not _is_pyamf(getattr(o, '__module__', None)):
                continue
            if o.func_defaults:
                stack.extend(o.func_defaults)
            if o.func_closure:
                for c in o.func_closure:
                    try:
                        stack.append(c.cell_contents)
                    except (ValueError, AttributeError):
                        pass
        elif isinstance(o, (staticmethod, classmethod, property)):
            continue
        elif _owned(getattr(t, '__module__', None)) or (
                t is types.InstanceType and
                _owned(getattr(o.__class__, '__module__', None))):
            seen.add(i)
            _inst(o, stack)


def _inst(o, stack):
    try:
        d = object.__getattribute__(o, '__dict__')
    except (AttributeError, TypeError):
        d = getattr(o, '__dict__', None)
    if d is None:
        return
    items = [(k, v) for k, v in d.items()]
    _saved.append((o, 'inst', items))
    for k, v in items:
        stack.append(v)


def restore():
    if _mods is None:
        return
    for name, m, g in _mods:
        sys.modules[name] = m
        d = m.__dict__
        if len(d) != len(g) or any(d.get(k, d) is not v
                                   for k, v in g.iteritems()):
            for k in d.keys():
                if k not in g:
                    del d[k]
            for k, v in g.iteritems():
                if d.get(k, d) is not v:
                    d[k] = v
    for o, kind, content in _saved:
        if kind == 'dict':
            if len(o) != len(content) or any(
                    dict.get(o, k, o) is not v for k, v in content):
                dict.clear(o)
                for k, v in content:
                    dict.__setitem__(o, k, v)
        elif kind == 'list':
            if len(o) != len(content) or any(
                    a is not b for a, b in zip(list.__iter__(o), content)):
                o[:] = content
        elif kind == 'set':
            if o != content:
                o.clear()
                o.update(content)
        elif kind == 'class':
            cur = o.__dict__
            for k in list(cur.keys()):
                if k not in content and k not in _SKIP_ATTRS:
                    try:
                        delattr(o, k)
                    except (AttributeError, TypeError):
                        pass
            for k, v in content.iteritems():
                if cur.get(k, o) is not v:
                    try:
                        setattr(o, k, v)
                    except (AttributeError, TypeError):
                        pass
        elif kind == 'inst':
            try:
                d = object.__getattribute__(o, '__dict__')
            except (AttributeError, TypeError):
                d = o.__dict__
            if len(d) != len(content) or any(
                    d.get(k, d) is not v for k, v in content):
                for k in list(d.keys()):
                    del d[k]
                for k, v in content:
                    d[k] = v
    for f in extra_restore:
        f()
