"""Reference model of a data tree, canonical values and the observer.

Nothing in here depends on dsch internals: the model is driven by specs (see
:mod:`lib.gen`), and the observer only uses the public data node interface.
"""
import datetime

import numpy as np

from lib import gen


# ---------------------------------------------------------- canonical values

def _canon_floats(arr):
    """Replace every NaN by one fixed NaN (payloads are not compared)."""
    if arr.dtype.kind == 'f':
        bad = np.isnan(arr)
        if bad.any():
            arr = arr.copy()
            arr[bad] = np.nan
    elif arr.dtype.kind == 'c':
        part = arr.view(np.dtype('f%d' % (arr.dtype.itemsize // 2)))
        if np.isnan(part).any():
            arr = _canon_floats(part).view(arr.dtype)
    return arr


def canon(value):
    """Hashable form of a value: same type, dtype, shape and bits."""
    if value is None:
        return None
    t = type(value)
    if isinstance(value, np.ndarray) or isinstance(value, np.generic):
        tag = 'array' if isinstance(value, np.ndarray) else 'scalar'
        if isinstance(value, np.ndarray) and t is not np.ndarray:
            tag = t.__name__
        if value.dtype.kind not in 'biufc':
            return (tag, str(value.dtype), value.shape, repr(value))
        dt = value.dtype.newbyteorder('=')
        arr = np.array(value, dtype=dt, order='C', copy=True)
        flat = _canon_floats(arr.reshape(-1))
        return (tag, value.dtype.str, value.shape, flat.tobytes())
    if t in (bool, str, bytes, int, float):
        return (t.__name__, value)
    if t in (datetime.date, datetime.datetime, datetime.time):
        return (t.__name__, value.isoformat(), getattr(value, 'fold', 0))
    return ('other', t.__module__ + '.' + t.__qualname__, repr(value))


def show(c):
    """Short text for a canonical value."""
    if c is None:
        return '<empty>'
    if isinstance(c, dict):
        return '{%d fields}' % len(c)
    if isinstance(c, list):
        return '[%d items]' % len(c)
    if c[0] in ('array', 'scalar') and isinstance(c[-1], bytes):
        arr = np.frombuffer(c[3], dtype=c[1]) if c[3] else np.zeros(0, c[1])
        text = np.array2string(arr, threshold=12)
        return '%s %s%s %s' % (c[0], c[1], list(c[2]), text)
    text = repr(c[1:] if len(c) > 2 else c[1])
    if len(text) > 90:
        text = text[:80] + '...(%d)' % len(text)
    return '%s %s' % (c[0], text)


def canon_tree(tree):
    if isinstance(tree, dict):
        return {k: canon_tree(v) for k, v in tree.items()}
    if isinstance(tree, list):
        return [canon_tree(v) for v in tree]
    return canon(tree)


def freeze(ct):
    """Hashable form of a canonical tree."""
    if isinstance(ct, dict):
        return tuple((k, freeze(v)) for k, v in sorted(ct.items()))
    if isinstance(ct, list):
        return ('L',) + tuple(freeze(v) for v in ct)
    return ct


def path_str(path):
    out = ''
    for p in path:
        out += '[%d]' % p if isinstance(p, int) else ('.' if out else '') + p
    return out or '<top>'


def diff(expected, got, path=()):
    """First difference of two canonical trees as text, or None."""
    if isinstance(expected, dict) and isinstance(got, dict):
        if set(expected) != set(got):
            return '%s: fields %s instead of %s' % (
                path_str(path), sorted(got), sorted(expected))
        for k in expected:
            d = diff(expected[k], got[k], path + (k,))
            if d:
                return d
        return None
    if isinstance(expected, list) and isinstance(got, list):
        if len(expected) != len(got):
            return '%s: %d list items instead of %d' % (
                path_str(path), len(got), len(expected))
        for i, (a, b) in enumerate(zip(expected, got)):
            d = diff(a, b, path + (i,))
            if d:
                return d
        return None
    if type(expected) is not type(got) or expected != got:
        return '%s: got %s, expected %s' % (path_str(path), show(got),
                                            show(expected))
    return None


# ---------------------------------------------------------- observer

def read(node):
    """Canonical value of an item node via the public interface."""
    from dsch import exceptions
    try:
        value = node.value
    except exceptions.NodeEmptyError:
        return None
    if value is None:
        return ('other', 'NoneType', 'None')
    return canon(value)


def observe(node, spec):
    t = spec['t']
    if t == 'Compilation':
        return {name: observe(getattr(node, name), sub)
                for name, sub in spec['fields'].items()}
    if t == 'List':
        return [observe(node[i], spec['sub']) for i in range(len(node))]
    return read(node)


def find(node, path):
    for p in path:
        node = node[p] if isinstance(p, int) else getattr(node, p)
    return node


# ---------------------------------------------------------- model

def copy_value(value):
    """Copy of a value; arrays also keep their kind of memory layout."""
    if not isinstance(value, np.ndarray):
        return value
    if value.ndim and value.size > 1:
        if any(s < 0 for s in value.strides):
            idx = tuple(slice(None, None, -1 if s < 0 else 1)
                        for s in value.strides)
            return value[idx].copy(order='K')[idx]
        if not (value.flags.c_contiguous or value.flags.f_contiguous):
            wide = np.zeros(value.shape[:-1] + (value.shape[-1] * 2,),
                            dtype=value.dtype)
            wide[..., ::2] = value
            return wide[..., ::2]
    return value.copy(order='K')


class Item:
    def __init__(self, spec, clock=None):
        self.spec = spec
        self.value = None
        if spec.get('set_on_create') and clock is not None:
            self.value = clock(spec['t'])

    def replace(self, value):
        self.value = copy_value(value)

    def clear(self):
        self.value = None

    def tree(self):
        return copy_value(self.value)

    def canon(self):
        return canon(self.value)

    @property
    def empty(self):
        return self.value is None

    @property
    def complete(self):
        return self.value is not None

    def assign(self, key, value):
        self.value[key] = value

    def resize(self, size):
        new = np.zeros(size, dtype=self.value.dtype)
        for idx in np.ndindex(*[min(a, b) for a, b in
                                zip(size, self.value.shape)]):
            new[idx] = self.value[idx]
        self.value = new


class Comp:
    def __init__(self, spec, clock=None):
        self.spec = spec
        self.fields = {n: make(s, clock) for n, s in spec['fields'].items()}

    def replace(self, value):
        for name, v in value.items():
            self.fields[name].replace(v)

    def clear(self):
        for f in self.fields.values():
            f.clear()

    def tree(self):
        return {n: f.tree() for n, f in self.fields.items()}

    def canon(self):
        return {n: f.canon() for n, f in self.fields.items()}

    @property
    def empty(self):
        return all(f.empty for f in self.fields.values())

    @property
    def complete(self):
        return all(f.complete for n, f in self.fields.items()
                   if n not in self.spec['optionals'])


class List:
    def __init__(self, spec, clock=None):
        self.spec = spec
        self.clock = clock
        self.items = []

    def append(self, value=None):
        node = make(self.spec['sub'], self.clock)
        self.items.append(node)
        if value is not None:
            node.replace(value)

    def replace(self, value):
        self.items = []
        for v in value:
            self.append(v)

    def clear(self):
        self.items = []

    def tree(self):
        return [i.tree() for i in self.items]

    def canon(self):
        return [i.canon() for i in self.items]

    @property
    def empty(self):
        return all(i.empty for i in self.items)

    @property
    def complete(self):
        return all(i.complete for i in self.items)


def make(spec, clock=None):
    if spec['t'] == 'Compilation':
        return Comp(spec, clock)
    if spec['t'] == 'List':
        return List(spec, clock)
    return Item(spec, clock)


def fill(model, tree):
    """Set a model to exactly the given tree (None entries are cleared)."""
    if isinstance(model, Comp):
        for name, sub in model.fields.items():
            fill(sub, tree[name])
    elif isinstance(model, List):
        model.items = []
        for v in tree:
            model.append()
            fill(model.items[-1], v)
    elif tree is None:
        model.clear()
    else:
        model.replace(tree)


def from_tree(spec, tree):
    m = make(spec)
    fill(m, tree)
    return m


def mfind(model, path):
    for p in path:
        model = model.items[p] if isinstance(p, int) else model.fields[p]
    return model


def walk(model, path=()):
    """All (path, node) pairs below and including the given model node."""
    yield path, model
    if isinstance(model, Comp):
        for n, f in model.fields.items():
            yield from walk(f, path + (n,))
    elif isinstance(model, List):
        for i, item in enumerate(model.items):
            yield from walk(item, path + (i,))


def items(model):
    for path, node in walk(model):
        if isinstance(node, Item):
            yield path, node


# ---------------------------------------------------------- filling real nodes

def prune(tree):
    """Tree as accepted by replace(): empty compilation fields left out."""
    if isinstance(tree, dict):
        return {k: prune(v) for k, v in tree.items() if v is not None}
    if isinstance(tree, list):
        return [prune(v) for v in tree]
    return copy_value(tree)


_FORMS = [0]


def reset_forms():
    """Start the sequence of forms over, for reproducible cases."""
    _FORMS[0] = 0


def next_form():
    _FORMS[0] += 1
    return _FORMS[0]


def disguise(value):
    """An argument that means exactly the same number as a NumPy scalar.

    Callers rarely hand over NumPy scalars of exactly the right type, so
    Python numbers and other NumPy types are used as well, if the conversion
    to the original type restores every bit.
    """
    if not isinstance(value, np.number) or value.dtype.itemsize > 16 \
            or value.dtype.char == 'g':
        return value
    _FORMS[0] += 1
    form = _FORMS[0] * 7 // 2 % 5
    if form == 0:
        return value
    kind = value.dtype.kind
    if form in (1, 2):
        other = value.item()
    elif kind == 'i':
        other = np.int64(value) if form == 3 else float(value)
    elif kind == 'u':
        other = np.uint64(value) if form == 3 else int(value)
    elif kind == 'f':
        other = np.float64(value)
        if form == 4 and value == np.trunc(value) and abs(value) < 2.0 ** 53:
            other = int(value)
    else:
        other = np.complex128(value)
    with np.errstate(all='ignore'):
        try:
            back = type(value)(other)
        except (OverflowError, ValueError):
            return value
    return other if canon(back) == canon(value) else value


def disguise_all(value):
    if isinstance(value, dict):
        return {k: disguise_all(v) for k, v in value.items()}
    if isinstance(value, list):
        return [disguise_all(v) for v in value]
    return disguise(value)


def apply_tree(rng, node, spec, tree):
    """Fill a fresh real node with a tree, by varying public operations."""
    t = spec['t']
    if rng is not None and t != 'Compilation' and t != 'List':
        if tree is not None:
            if rng.random() < 0.5:
                node.value = disguise(copy_value(tree))
            else:
                node.replace(disguise(copy_value(tree)))
        return
    if t == 'Compilation':
        if rng is None or rng.random() < 0.3:
            node.replace(disguise_all(prune(tree)))
            return
        names = list(tree)
        rng.shuffle(names)
        for name in names:
            apply_tree(rng, getattr(node, name), spec['fields'][name],
                       tree[name])
    elif t == 'List':
        if rng is None or rng.random() < 0.3:
            node.replace(disguise_all(prune(tree)))
            return
        for v in tree:
            if v is not None and rng.random() < 0.4:
                node.append(disguise_all(prune(v)))
            else:
                node.append()
                apply_tree(rng, node[len(node) - 1], spec['sub'], v)
    elif tree is not None:
        node.replace(disguise(copy_value(tree)))


def set_tree(node, spec, tree):
    """Give a real node exactly the state of a tree, whatever it held."""
    if spec['t'] == 'Compilation':
        for name, sub in spec['fields'].items():
            set_tree(getattr(node, name), sub, tree[name])
    elif spec['t'] == 'List':
        node.clear()
        for i, v in enumerate(tree):
            node.append()
            set_tree(node[i], spec['sub'], v)
    elif tree is None:
        node.clear()
    else:
        node.value = disguise(copy_value(tree))


def count_items(ct):
    """(filled items, empty items, list entries) in a canonical tree."""
    if isinstance(ct, dict):
        parts = [count_items(v) for v in ct.values()]
    elif isinstance(ct, list):
        parts = [count_items(v) for v in ct] + [(0, 0, len(ct))]
    elif ct is None:
        return (0, 1, 0)
    else:
        return (1, 0, 0)
    return tuple(map(sum, zip(*parts))) if parts else (0, 0, 0)
