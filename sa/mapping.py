"""Instances of user classes derived from dict / MutableMapping, with Python's
attribute and item protocols (used when config.Params itself is analysed)."""
from .values import *  # noqa


class PObj(Obj):
    def __init__(self, cls):
        Obj.__init__(self, cls)
        self.items = ADict()
        self.attrs = ADict()         # instance __dict__

    def __repr__(self):
        return 'PObj(%s)' % self.cls.name


METHS = ('update', 'get', 'keys', 'values', 'items', 'pop', 'setdefault', 'copy', 'clear')


def is_mapping_class(cls):
    for b in cls.bases:
        if isinstance(b, ClassObj) and is_mapping_class(b):
            return True
        if isinstance(b, Ext) and b.q.endswith(('MutableMapping', 'UserDict', 'OrderedDict')):
            return True
        if isinstance(b, Builtin) and b.name == 'dict':
            return True
    return False


def mutable_mapping_first(cls):
    """Whether update() resolves to MutableMapping.update (item by item)."""
    for b in cls.bases:
        if isinstance(b, Ext) and b.q.endswith('MutableMapping'):
            return True
        if isinstance(b, Builtin) and b.name == 'dict':
            return False
        if isinstance(b, ClassObj) and is_mapping_class(b):
            return mutable_mapping_first(b)
    return False


def user(o, name):
    m = o.cls.lookup(name)
    return m[0] if m is not None and isinstance(m[0], PyFunc) else None


def get_attr(it, o, name, node):
    f = user(o, '__getattribute__')
    try:
        if f is not None and name not in ('__dict__', '__class__'):
            return it.call(f, [o, name], {}, node)
        return default_get(it, o, name, node)
    except AbsRaise as e:
        if e.name != 'AttributeError':
            raise
        g = user(o, '__getattr__')
        if g is None:
            raise
        return it.call(g, [o, name], {}, node)


def default_get(it, o, name, node):
    if name == '__dict__':
        return o.attrs
    if name == '__class__':
        return o.cls
    if name in o.attrs:
        return o.attrs[name]
    m = o.cls.lookup(name)
    if m is not None:
        return it.bind(m[0], o, m[1], node)
    if name in METHS:
        return Builtin(name, lambda it2, a, k, n: method(it2, o, name, a, k, n))
    raise AbsRaise('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name), node)


def set_attr(it, o, name, v, node):
    f = user(o, '__setattr__')
    if f is not None:
        it.call(f, [o, name, v], {}, node)
    else:
        default_set(it, o, name, v, node)


def default_set(it, o, name, v, node):
    if name == '__dict__':
        if v is o:
            o.items.update({k: x for k, x in o.attrs.items() if k not in o.items})
            o.attrs = o.items
        elif isinstance(v, dict):
            o.attrs = v
        else:
            raise AnalysisError('__dict__ of unknown')
        return
    o.attrs[name] = v


def get_item(it, o, k, node):
    f = user(o, '__getitem__')
    if f is not None:
        return it.call(f, [o, k], {}, node)
    return default_getitem(it, o, k, node)


def default_getitem(it, o, k, node):
    if k in o.items:
        return o.items[k]
    raise AbsRaise('KeyError', repr(k), node)


def set_item(it, o, k, v, node):
    f = user(o, '__setitem__')
    if f is not None:
        it.call(f, [o, k, v], {}, node)
    else:
        o.items[k] = v


def contains(it, o, k, node):
    f = user(o, '__contains__')
    if f is not None:
        return it.call(f, [o, k], {}, node)
    return k in o.items


def method(it, o, name, a, k, n):
    if name == 'update':
        new = {}
        if a:
            d = it.dict_items(a[0])
            if d is None:
                raise AnalysisError('update with unknown mapping')
            new.update(d)
        new.update(k)
        for q, v in new.items():
            if mutable_mapping_first(o.cls):
                set_item(it, o, q, v, n)
            else:
                o.items[q] = v
        return None
    if name == 'get':
        try:
            return get_item(it, o, a[0], n)
        except AbsRaise as e:
            if e.name != 'KeyError':
                raise
            return a[1] if len(a) > 1 else None
    if name == 'keys':
        return AList(o.items.keys())
    if name == 'values':
        return AList(o.items.values())
    if name == 'items':
        return AList(o.items.items())
    if name == 'pop':
        if a[0] in o.items:
            return o.items.pop(a[0])
        if len(a) > 1:
            return a[1]
        raise AbsRaise('KeyError', repr(a[0]), n)
    if name == 'setdefault':
        if a[0] not in o.items:
            set_item(it, o, a[0], a[1] if len(a) > 1 else None, n)
        return o.items[a[0]]
    if name == 'clear':
        o.items.clear()
        return None
    return it.top('mapping method ' + name, n)


def base_method(name):
    """dict.<name> / object.<name> / super().<name> applied to a PObj."""
    def f(it, a, k, n):
        o = a[0]
        if not isinstance(o, PObj):
            return it.top('dict.%s' % name, n)
        r = a[1:]
        if name == '__getattribute__':
            return default_get(it, o, r[0], n)
        if name == '__setattr__':
            return default_set(it, o, r[0], r[1], n)
        if name == '__getitem__':
            return default_getitem(it, o, r[0], n)
        if name == '__setitem__':
            o.items[r[0]] = r[1]
            return None
        if name == '__delitem__':
            if r[0] not in o.items:
                raise AbsRaise('KeyError', repr(r[0]), n)
            del o.items[r[0]]
            return None
        if name == '__contains__':
            return r[0] in o.items
        if name == '__len__':
            return len(o.items)
        if name == '__iter__':
            return AList(o.items.keys())
        if name == '__init__':
            if r:
                d = it.dict_items(r[0])
                if d is None:
                    raise AnalysisError('mapping from unknown')
                o.items.update(d)
            o.items.update(k)
            return None
        if name in METHS:
            if name == 'update':
                d = it.dict_items(r[0]) if r else {}
                if d is None:
                    raise AnalysisError('update with unknown mapping')
                o.items.update(d)
                o.items.update(k)
                return None
            return method(it, o, name, r, k, n)
        return it.top('dict.%s' % name, n)
    return Builtin('dict.' + name, f)
