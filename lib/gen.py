"""Generators: schema specifications (independent of dsch) and valid values.

A *spec* is a plain dict that describes a schema, e.g.
``{'t': 'List', 'sub': {'t': 'Bool'}, 'max': 3, 'min': None}``.  It is turned
into a dsch schema by :func:`build` and is the only thing the reference model
and the oracles look at, so they never depend on dsch code.

A *tree* is a filling for a spec: for items ``None`` (empty) or the value, for
compilations a dict with one entry for every field, for lists a list.
"""
import copy
import datetime
import math

import numpy as np

FILE_BACKENDS = ('hdf5', 'npz', 'mat')
ALL_BACKENDS = FILE_BACKENDS + ('inmem',)
EXT = {'hdf5': 'h5', 'npz': 'npz', 'mat': 'mat'}

ITEM_TYPES = ('Array', 'Bool', 'Bytes', 'Date', 'DateTime', 'Scalar', 'String',
              'Time')

INT_DTYPES = ('int8', 'int16', 'int32', 'int64',
              'uint8', 'uint16', 'uint32', 'uint64')
FLOAT_DTYPES = ('float16', 'float32', 'float64')
COMPLEX_DTYPES = ('complex64', 'complex128')
ALIASES = ('int', 'float', 'complex', 'i4', 'f8', 'u1', 'double', 'single',
           'intc', '<f4', 'c16')
SCALAR_DTYPES = INT_DTYPES + FLOAT_DTYPES + COMPLEX_DTYPES
ARRAY_DTYPES = SCALAR_DTYPES + ('bool',)

# Field names that mean something to Python, numpy, scipy, HDF5 or dsch's file
# formats are included on purpose.
NAMES = ['a', 'b', 'c', 'A', 'B', 'ab', 'a1', 'x', 'y', 'z', 'time', 'voltage',
         'file', 'data', 'schema', 'length', 'item_0', 'item_1', 'item_10',
         'allow_pickle', 'arr_0', 'dsch_data', 'dsch_schema', 'dsch_length',
         'name', 'dtype', 'shape', 'value', 'values', 'keys', 'items', 'get',
         'self', 'key', 'args', 'kwargs', 'cls', 'class', 'lambda', 'None_',
         'node_type', 'config', 'subnodes', 'optionals', 'unit', 'hash',
         'append', 'resize', 'storage', 'storage_path', 'backend', 'save',
         'load', 'size', 'ndim', 'T', 'real', 'imag', 'names', 'fields', 'pop',
         'update', 'parents', 'parent_id', 'schema_nodes', 'schema_node_2',
         'replaced', 'clear_all', 'is_empty', 'copy', 'sort', 'index', 'count', 'temperature_sensor_3',
         'a_very_long_field_name_of_more_than_thirty_one_characters', 'l',
         'O', 'I', 'i0', 'spam', 'eggs', 'ham', 'length_', 'npy', 'attrs']
# These are not supported by mat files.
UNICODE_NAMES = ['größe', 'ω', 'Δt', '名前', '_private', '_x1', '_', '_item_0',
                 '_data', '_file', '__two', 'e\u0301', 'é', '1', '23', '2nd',
                 'x y', ' x', 'y ', '_subnodes_2', '_parent', 'a-b', '{}', '{0}', '%s', 'a,b', 'N|A']

RESERVED = {'schema_node', 'parent', 'clear', 'complete', 'data_tree', 'empty',
            'load_from', 'node_tree', 'replace', 'validate', 'save'}


def usable_names(unicode_names=False):
    """Field names which are not attributes of the data node classes."""
    from dsch import data
    from dsch.backends import hdf5, inmem, mat, npz
    taken = set(RESERVED)
    for module in (data, hdf5, inmem, mat, npz):
        taken.update(dir(module.Compilation))
    names = [n for n in NAMES if n not in taken]
    if unicode_names:
        names += UNICODE_NAMES
    return names


_NAME_CACHE = {}


def names_for(unicode_names):
    if unicode_names not in _NAME_CACHE:
        _NAME_CACHE[unicode_names] = usable_names(unicode_names)
    return _NAME_CACHE[unicode_names]


class Opts:
    """Knobs of the schema generator."""

    def __init__(self, **kw):
        self.unicode_names = False
        self.max_depth = 4
        self.max_fields = 6
        self.constraints = 0.5     # probability of constraints on an item
        self.depends = 0.35        # probability of dependent arrays in a comp
        self.set_on_create = False
        self.big = 0.02            # probability of unusually large things
        self.item_types = ITEM_TYPES
        self.dtype_objects = 0.0   # probability of np.dtype instead of str
        self.units = True
        self.aliases = True
        self.list_bounds = 0.3
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


# --------------------------------------------------------------- specs

def gen_spec(rng, o, depth=None, kind=None):
    """A random schema of any kind."""
    if depth is None:
        depth = rng.randint(0, o.max_depth)
    if kind is None:
        if depth <= 0:
            kind = 'item'
        else:
            kind = rng.choices(('item', 'Compilation', 'List'),
                               (1, 4, 3))[0]
    if kind == 'Compilation':
        return gen_comp(rng, o, depth)
    if kind == 'List':
        return gen_list(rng, o, depth)
    return gen_item(rng, o, None if kind == 'item' else kind)


def gen_comp(rng, o, depth):
    names = list(names_for(o.unicode_names))
    if rng.random() < o.big:
        n = rng.choice((30, 101, 130))
    else:
        n = rng.choices(range(0, o.max_fields + 1),
                        [0.15] + [1] * o.max_fields)[0]
    if n > len(names):
        names += ['field_%d' % i for i in range(n)]
    picked = rng.sample(names, n)
    fields = {}
    for name in picked:
        sub_depth = depth - 1 if rng.random() < 0.7 else 0
        if n > 20:
            sub_depth = 0
        if fields and rng.random() < 0.12:
            # Another field with the same schema.
            fields[name] = copy.deepcopy(rng.choice(list(fields.values())))
            continue
        fields[name] = gen_spec(rng, o, rng.randint(0, max(0, sub_depth)))
    spec = {'t': 'Compilation', 'fields': fields, 'optionals': []}
    if n and rng.random() < o.depends and 'Array' in o.item_types:
        add_dependents(rng, o, spec, names)
    if rng.random() < 0.4 and spec['fields']:
        keys = sorted(spec['fields'])
        rng.shuffle(keys)
        spec['optionals'] = keys[:rng.randint(1, len(keys))]
    if rng.random() < 0.05:
        # Optionals need not be fields.
        spec['optionals'].insert(rng.randint(0, len(spec['optionals'])),
                                 rng.choice(('no field', 'absent', '')))
    return spec


def add_dependents(rng, o, spec, names):
    free = [n for n in names if n not in spec['fields']]
    if len(free) < 6:
        free += ['dep_%d' % i for i in range(8)]
    rng.shuffle(free)
    indep = []
    new = {}
    for _ in range(rng.randint(1, 3)):
        name = free.pop()
        sub = gen_array(rng, o, ndim=1, plain_shape=True)
        if rng.random() < 0.2:
            sub['min_shape'] = (rng.randint(0, 3),)
        sub['indep'] = True
        indep.append(name)
        new[name] = sub
    for _ in range(rng.randint(1, 2)):
        name = free.pop()
        ndim = rng.choice((1, 1, 2, 2, 3))
        deps = [rng.choice(indep + [None]) if ndim > 1 else rng.choice(indep)
                for _ in range(ndim)]
        sub = gen_array(rng, o, ndim=ndim, plain_shape=True)
        if ndim == 1 and rng.random() < 0.5:
            sub['depends_on'] = deps[0]
        else:
            sub['depends_on'] = tuple(deps)
        new[name] = sub
    items = list(spec['fields'].items()) + list(new.items())
    rng.shuffle(items)
    spec['fields'] = dict(items)


def gen_list(rng, o, depth):
    sub_depth = depth - 1 if rng.random() < 0.75 else 0
    spec = {'t': 'List', 'sub': gen_spec(rng, o, max(0, sub_depth)),
            'max': None, 'min': None}
    if rng.random() < o.list_bounds:
        lo, hi = sorted((rng.choice((0, 0, 1, 2, 3)), rng.choice((0, 1, 2, 3, 5, 9))))
        if rng.random() < 0.6:
            spec['max'] = hi
        if rng.random() < 0.5:
            spec['min'] = lo
    return spec


def gen_item(rng, o, kind=None):
    kind = kind or rng.choice(o.item_types)
    if kind == 'Array':
        return gen_array(rng, o)
    if kind == 'Scalar':
        return gen_scalar(rng, o)
    if kind in ('String', 'Bytes'):
        spec = {'t': kind, 'max': None, 'min': None}
        if rng.random() < o.constraints:
            lo, hi = sorted((rng.choice((0, 0, 1, 2, 5)),
                             rng.choice((0, 1, 3, 8, 20))))
            if rng.random() < 0.7:
                spec['max'] = hi
            if rng.random() < 0.7:
                spec['min'] = lo
        return spec
    if kind == 'Bool':
        return {'t': 'Bool'}
    soc = bool(o.set_on_create and rng.random() < 0.6)
    return {'t': kind, 'set_on_create': soc}


UNITS = ('', 'V', 'm/s^2', '°C', 'Ω', '%', 'kg m', '{}', '{0}', "'",
         '\U0001F600', '\u2126\u00b7m', ' V ', 'm\u00b2')


def _dtype(rng, o, pool):
    name = rng.choice(pool)
    if o.aliases and rng.random() < 0.1:
        name = rng.choice(ALIASES)
    return name


def gen_bounds(rng, dtype):
    """Value bounds that are exactly representable in the dtype."""
    dt = np.dtype(dtype)
    if dt.kind in 'cb':
        return None, None
    if dt.kind in 'iu':
        info = np.iinfo(dt)
        pool = [0, 1, 2, 10, 100, int(info.max), int(info.min), 7]
        if dt.kind == 'i':
            pool += [-1, -5, -100]
    else:
        pool = [0, 1, -1, 0.5, -0.5, 2.0, 10, -10, 100.25, 0.0, 1000]
    lo, hi = sorted((rng.choice(pool), rng.choice(pool)))
    r = rng.random()
    if r < 0.35:
        return lo, hi
    if r < 0.65:
        return None, hi
    return lo, None


def gen_array(rng, o, ndim=None, plain_shape=False):
    dtype = _dtype(rng, o, ARRAY_DTYPES)
    if ndim is None:
        ndim = rng.choices((0, 1, 2, 3, 4), (4, 50, 28, 12, 6))[0]
    spec = {'t': 'Array', 'dtype': dtype, 'unit': '', 'max_shape': None,
            'min_shape': None, 'ndim': ndim, 'max_value': None,
            'min_value': None, 'depends_on': None,
            'dtype_object': rng.random() < o.dtype_objects}
    if o.units and rng.random() < 0.4:
        spec['unit'] = rng.choice(UNITS)
    if rng.random() < o.constraints:
        if not plain_shape and ndim and rng.random() < 0.6:
            lo, hi = [], []
            for _ in range(ndim):
                a, b = sorted((rng.choice((0, 0, 1, 2, 3)),
                               rng.choice((0, 1, 2, 3, 4, 6))))
                lo.append(a if rng.random() < 0.7 else None)
                hi.append(b if rng.random() < 0.7 else None)
            if rng.random() < 0.6:
                spec['max_shape'] = tuple(hi)
            if rng.random() < 0.6:
                spec['min_shape'] = tuple(lo)
            if rng.random() < 0.15:
                fixed = tuple(rng.choice((0, 1, 2, 3)) for _ in range(ndim))
                spec['max_shape'] = spec['min_shape'] = fixed
            if (spec['max_shape'] and spec['max_shape'] == spec['min_shape']
                    and None in spec['max_shape']):
                spec['min_shape'] = None
        if rng.random() < 0.5:
            spec['min_value'], spec['max_value'] = gen_bounds(rng, dtype)
    return spec


def gen_scalar(rng, o):
    dtype = _dtype(rng, o, SCALAR_DTYPES)
    spec = {'t': 'Scalar', 'dtype': dtype, 'unit': '', 'max_value': None,
            'min_value': None, 'dtype_object': rng.random() < o.dtype_objects}
    if o.units and rng.random() < 0.4:
        spec['unit'] = rng.choice(UNITS)
    if rng.random() < o.constraints:
        spec['min_value'], spec['max_value'] = gen_bounds(rng, dtype)
    return spec


def deps(spec):
    """depends_on as a tuple (or None)."""
    d = spec.get('depends_on')
    if d is None:
        return None
    return (d,) if isinstance(d, str) else tuple(d)


# --------------------------------------------------------------- values

STRINGS = ['', ' ', 'a', 'spam', ' lead', 'trail ', 'tab\t', 'line\nbreak',
           'crlf\r\n', 'é', 'ü€', '😀', '日本語', 'a"b\'c\\', '[]', '[1]', '{}',
           'None', 'nan', '0', '%s', '{}{}', '..', 'a.b', '/', '/a/b', '\u200b',
           '\ufeffbom', 'e\u0301', '\x01\x1f\x7f', '\x85\u2028', '\uffff',
           '\U0010ffff', '\u05e9\u05dc', 'x' * 255, 'y' * 256, 'ab ' * 3,
           '  a  ', '   ', '\n\n', ' \t\r\n', '\xa0a\xa0']

BYTES = [b'', b'\0', b'\0\0\0', b'a', b'a\0', b'\0a', b'a\0b', b' ', b'abc ',
         b'\xff', b'\xff\xfe\xfd', bytes(range(256)), b'\x80abc', b'\r\n',
         'ü€😀'.encode(), b'PK\x03\x04', b'x' * 300]

DATES = [(1, 1, 1), (9999, 12, 31), (1970, 1, 1), (2000, 2, 29), (1900, 3, 1),
         (2038, 1, 19), (1582, 10, 15), (1969, 12, 31)]
TIMES = [(0, 0, 0, 0), (23, 59, 59, 999999), (12, 0, 0, 1), (1, 2, 3, 4),
         (0, 0, 0, 999999), (13, 37, 42, 500000), (23, 0, 0, 0)]


def _rand_string(rng, n):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.6:
            out.append(chr(rng.randint(32, 126)))
        elif r < 0.75:
            out.append(chr(rng.randint(1, 0x2ff)))
        elif r < 0.9:
            out.append(chr(rng.randint(0x300, 0xd7ff)))
        else:
            out.append(chr(rng.randint(0xe000, 0x10ffff)))
    return ''.join(out)


def _len_ok(spec, n):
    return ((spec['max'] is None or n <= spec['max'])
            and (spec['min'] is None or n >= spec['min']))


def _pick_len(rng, spec, big):
    lo = spec['min'] or 0
    if spec['max'] is not None:
        hi = spec['max']
    elif rng.random() < big:
        hi = lo + rng.choice((256, 300, 5000, 65536, 70000))
        return hi
    else:
        hi = lo + 12
    return rng.choice((lo, hi, rng.randint(lo, hi)))


def gen_string(rng, spec, big=0.02):
    if rng.random() < 0.5:
        pool = [s for s in STRINGS if _len_ok(spec, len(s))]
        if pool:
            return rng.choice(pool)
    n = _pick_len(rng, spec, big)
    if n > 1000:
        return _rand_string(rng, 50) * (n // 50) + 'z' * (n % 50)
    return _rand_string(rng, n)


def gen_bytes(rng, spec, big=0.02):
    if rng.random() < 0.5:
        pool = [s for s in BYTES if _len_ok(spec, len(s))]
        if pool:
            return rng.choice(pool)
    n = _pick_len(rng, spec, big)
    if rng.random() < 0.2:
        return b'\0' * n
    return rng.getrandbits(8 * n).to_bytes(n, 'little') if n else b''


def gen_date(rng):
    if rng.random() < 0.4:
        return datetime.date(*rng.choice(DATES))
    return datetime.date.fromordinal(
        rng.randint(1, datetime.date.max.toordinal()))


def gen_time(rng):
    if rng.random() < 0.4:
        return datetime.time(*rng.choice(TIMES))
    return datetime.time(rng.randint(0, 23), rng.randint(0, 59),
                         rng.randint(0, 59), rng.randint(0, 999999))


def gen_datetime(rng):
    if rng.random() < 0.15:
        return rng.choice((datetime.datetime.min, datetime.datetime.max))
    return datetime.datetime.combine(gen_date(rng), gen_time(rng))


def _number_pool(dt):
    if dt.kind == 'b':
        return [False, True]
    if dt.kind in 'iu':
        info = np.iinfo(dt)
        pool = [0, 1, 2, int(info.max), int(info.min), int(info.max) - 1, 10,
                100]
        if dt.kind == 'i':
            pool += [-1, -2, -100]
        return pool
    info = np.finfo(dt)
    return [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, float('nan'), float('inf'),
            float('-inf'), float(info.max), float(info.min), float(info.tiny),
            float(info.smallest_subnormal), float(info.eps), 1 / 3, 10.0,
            -2.25, 100.0]


def in_bounds(v, spec):
    lo, hi = spec.get('min_value'), spec.get('max_value')
    if lo is None and hi is None:
        return True
    if isinstance(v, float) and math.isnan(v):
        return False
    return (hi is None or v <= hi) and (lo is None or v >= lo)


def gen_number(rng, dt, spec):
    """A Python number that is valid for the dtype and the spec's bounds."""
    if dt.kind == 'c':
        part = np.dtype('float32' if dt.itemsize == 8 else 'float64')
        return complex(gen_number(rng, part, {}), gen_number(rng, part, {}))
    pool = [v for v in _number_pool(dt) if in_bounds(v, spec)]
    for bound in (spec.get('min_value'), spec.get('max_value')):
        if bound is not None:
            pool.append(bound)
            pool.append(bound)
    if dt.kind in 'iu':
        info = np.iinfo(dt)
        lo = spec.get('min_value')
        hi = spec.get('max_value')
        lo = int(info.min) if lo is None else max(int(info.min), math.ceil(lo))
        hi = int(info.max) if hi is None else min(int(info.max), math.floor(hi))
        if rng.random() < 0.5 or not pool:
            return rng.randint(lo, hi)
        return rng.choice(pool)
    if dt.kind == 'f' and rng.random() < 0.4:
        v = float(dt.type(rng.uniform(-1000, 1000)))
        if in_bounds(v, spec):
            return v
    return rng.choice(pool)


def gen_scalar_value(rng, spec):
    dt = np.dtype(spec['dtype'])
    return dt.type(gen_number(rng, dt, spec))


def gen_shape(rng, spec, big=0.02):
    ndim = spec['ndim']
    lo = spec['min_shape'] or (None,) * ndim
    hi = spec['max_shape'] or (None,) * ndim
    shape = []
    for a, b in zip(lo, hi):
        a = a or 0
        if b is None:
            b = a + rng.choice((0, 1, 3, 5))
        shape.append(rng.choice((a, b, rng.randint(a, b))))
    if ndim == 1 and hi[0] is None and rng.random() < big:
        shape = [rng.choice((256, 257, 1000, 4097, 65536, 70000))]
    elif (ndim == 2 and not any(lo) and tuple(hi) == (None, None)
          and rng.random() < big):
        shape = rng.choice(((300, 300), (1, 70000), (70000, 1), (2, 257),
                            (65, 1025)))
    return tuple(shape)


def gen_array_value(rng, spec, shape=None, big=0.02):
    dt = np.dtype(spec['dtype'])
    if shape is None:
        shape = gen_shape(rng, spec, big)
    shape = tuple(shape)
    size = int(np.prod(shape, dtype=int))
    if size > 200:
        base = [gen_number(rng, dt, spec) for _ in range(50)]
        values = [base[i % 50] for i in range(size)]
    else:
        values = [gen_number(rng, dt, spec) for _ in range(size)]
    arr = np.array(values, dtype=dt).reshape(shape)
    # Contents which suggest a shorter representation.
    r = rng.random()
    if arr.size and r < 0.06:
        arr[...] = arr.flat[0]
    elif r < 0.1:
        arr = np.sort(arr.ravel()).reshape(shape)
    elif arr.size and r < 0.18 and dt.kind == 'c':
        part = arr.imag if r < 0.15 else arr.real
        part[...] = [rng.choice((0.0, 0.0, -0.0)) for _ in range(size)] \
            if arr.ndim == 1 else rng.choice((0.0, -0.0))
    # Memory layouts which are not simply C-contiguous.
    r = rng.random()
    if r < 0.12:
        arr = np.asfortranarray(arr) if arr.ndim else arr
    elif r < 0.24 and arr.ndim:
        wide = np.zeros(shape[:-1] + (shape[-1] * 2,), dtype=dt)
        wide[..., ::2] = arr
        arr = wide[..., ::2]
    elif r < 0.3 and arr.ndim:
        arr = arr[::-1].copy()[::-1]
    return arr


def gen_leaf(rng, spec, big=0.02, shape=None):
    """A valid value for an item spec."""
    t = spec['t']
    if t == 'Array':
        return gen_array_value(rng, spec, shape, big)
    if t == 'Scalar':
        return gen_scalar_value(rng, spec)
    if t == 'String':
        return gen_string(rng, spec, big)
    if t == 'Bytes':
        return gen_bytes(rng, spec, big)
    if t == 'Bool':
        return rng.random() < 0.5
    if t == 'Date':
        return gen_date(rng)
    if t == 'DateTime':
        return gen_datetime(rng)
    if t == 'Time':
        return gen_time(rng)
    raise AssertionError(t)


def gen_tree(rng, spec, fill=None, big=0.02, budget=None):
    """A valid filling; ``fill`` is the probability of a filled item."""
    if fill is None:
        fill = rng.choice((0.0, 0.3, 0.5, 0.8, 0.9, 1.0, 1.0))
    if budget is None:
        budget = [400]
    t = spec['t']
    if t == 'Compilation':
        tree = {}
        independents = {}
        for name, sub in spec['fields'].items():
            if sub['t'] == 'Array' and deps(sub):
                tree[name] = None
                continue
            tree[name] = gen_tree(rng, sub, fill, big, budget)
            if len(tree) > 1 and rng.random() < 0.3:
                # Fields which are equal to others.
                for other, value in tree.items():
                    if value is not None and name != other and (
                            spec['fields'][other] == sub):
                        tree[name] = copy.deepcopy(value)
                        break
        for name, sub in spec['fields'].items():
            if not (sub['t'] == 'Array' and deps(sub)):
                continue
            budget[0] -= 1
            if rng.random() >= fill:
                continue
            shape = []
            for dep in deps(sub):
                value = tree[dep] if dep else None
                shape.append(value.size if value is not None
                             else rng.randint(0, 4))
            if int(np.prod(shape, dtype=int)) > 100000:
                continue
            tree[name] = gen_array_value(rng, sub, tuple(shape))
        return tree
    if t == 'List':
        lo = spec['min'] or 0
        hi = spec['max']
        if hi is None:
            hi = lo + rng.choice((0, 1, 2, 4, 7))
            if is_item(spec['sub']) and rng.random() < big:
                hi = lo = max(lo, rng.choice((11, 12, 101, 150)))
        n = rng.choice((lo, hi, rng.randint(lo, hi)))
        if budget[0] <= 0:
            n = lo
        items = []
        for _ in range(n):
            items.append(gen_tree(rng, spec['sub'], fill, 0, budget))
        r = rng.random()
        if n > 1 and r < 0.1:
            # Items which are equal to others.
            for i in range(1, n):
                if r < 0.05 or rng.random() < 0.3:
                    items[i] = copy.deepcopy(items[rng.randrange(i)])
        return items
    budget[0] -= 1
    if rng.random() >= fill:
        return None
    return gen_leaf(rng, spec, big)


def is_item(spec):
    return spec['t'] not in ('Compilation', 'List')


# --------------------------------------------------------------- dsch

_builds = [0]


def build(spec, share=True):
    """Build the dsch schema for a spec.

    Every second time, equal parts of the schema are the same node object.
    """
    _builds[0] += 1
    return _build(spec, {} if share and _builds[0] % 2 else None)


def _build(spec, shared):
    if shared is None:
        return _build_node(spec, shared)
    key = repr(spec)
    if key not in shared:
        shared[key] = _build_node(spec, shared)
    return shared[key]


def _dtype_arg(spec):
    if spec.get('dtype_object'):
        return np.dtype(spec['dtype'])
    return spec['dtype']


def _build_node(spec, shared):
    from dsch import schema as S
    t = spec['t']
    if _builds[0] % 5 == 4:
        # All arguments by position.
        args = {
            'Compilation': lambda: (
                {name: _build(sub, shared) for name, sub
                 in spec['fields'].items()}, list(spec['optionals'])),
            'List': lambda: (_build(spec['sub'], shared), spec['max'],
                             spec['min']),
            'Bool': tuple,
            'Scalar': lambda: (_dtype_arg(spec), spec['unit'],
                               spec['max_value'], spec['min_value']),
            'Array': lambda: (_dtype_arg(spec), spec['unit'],
                              spec['max_shape'], spec['min_shape'],
                              spec['ndim'], spec['max_value'],
                              spec['min_value'], spec['depends_on']),
            'String': lambda: (spec['min'], spec['max']),
            'Bytes': lambda: (spec['min'], spec['max'])}.get(
                t, lambda: (spec['set_on_create'],))()
        return getattr(S, t)(*args)
    if t == 'Compilation':
        fields = {name: _build(sub, shared) for name, sub in spec['fields'].items()}
        if spec['optionals']:
            return S.Compilation(fields, optionals=list(spec['optionals']))
        return S.Compilation(fields)
    if t == 'List':
        return S.List(_build(spec['sub'], shared), max_length=spec['max'],
                      min_length=spec['min'])
    if t in ('String', 'Bytes'):
        return getattr(S, t)(max_length=spec['max'], min_length=spec['min'])
    if t == 'Bool':
        return S.Bool()
    if t in ('Date', 'DateTime', 'Time'):
        return getattr(S, t)(set_on_create=spec['set_on_create'])
    dtype = _dtype_arg(spec)
    if t == 'Scalar':
        return S.Scalar(dtype, unit=spec['unit'], max_value=spec['max_value'],
                        min_value=spec['min_value'])
    return S.Array(dtype, unit=spec['unit'], max_shape=spec['max_shape'],
                   min_shape=spec['min_shape'], ndim=spec['ndim'],
                   max_value=spec['max_value'], min_value=spec['min_value'],
                   depends_on=spec['depends_on'])


def spec_dict(spec):
    """The documented dict form of the schema, computed independently."""
    t = spec['t']
    if t == 'Compilation':
        cfg = {'subnodes': {n: spec_dict(s) for n, s in spec['fields'].items()},
               'optionals': list(spec['optionals'])}
    elif t == 'List':
        cfg = {'subnode': spec_dict(spec['sub']), 'max_length': spec['max'],
               'min_length': spec['min']}
    elif t in ('String', 'Bytes'):
        cfg = {'max_length': spec['max'], 'min_length': spec['min']}
    elif t == 'Bool':
        cfg = {}
    elif t in ('Date', 'DateTime', 'Time'):
        cfg = {'set_on_create': spec['set_on_create']}
    else:
        dtype = spec['dtype']
        if spec.get('dtype_object'):
            dtype = str(np.dtype(dtype))
        cfg = {'dtype': dtype, 'unit': spec['unit'],
               'max_value': spec['max_value'], 'min_value': spec['min_value']}
        if t == 'Array':
            cfg.update(
                max_shape=None if spec['max_shape'] is None
                else list(spec['max_shape']),
                min_shape=None if spec['min_shape'] is None
                else list(spec['min_shape']),
                ndim=spec['ndim'],
                depends_on=None if deps(spec) is None else list(deps(spec)))
    return {'node_type': t, 'config': cfg}


def walk_spec(spec):
    yield spec
    if spec['t'] == 'Compilation':
        for sub in spec['fields'].values():
            yield from walk_spec(sub)
    elif spec['t'] == 'List':
        yield from walk_spec(spec['sub'])


def describe(spec):
    """Short text form of a spec, for samples and replay files."""
    t = spec['t']
    if t == 'Compilation':
        inner = ', '.join('%s: %s' % (n, describe(s))
                          for n, s in spec['fields'].items())
        opt = ' opt=%s' % spec['optionals'] if spec['optionals'] else ''
        return '{%s}%s' % (inner, opt)
    if t == 'List':
        return '[%s]%s' % (describe(spec['sub']), '' if spec['max'] is None and
                           spec['min'] is None else
                           '(%s..%s)' % (spec['min'], spec['max']))
    extra = {k: v for k, v in spec.items()
             if k not in ('t', 'indep') and v not in (None, '', False)}
    return '%s(%s)' % (t, ', '.join('%s=%r' % kv for kv in extra.items()))


# --------------------------------------------------------------- variants

def canonical_json(spec):
    """The canonical JSON form of a schema, computed independently."""
    import json
    return json.dumps(spec_dict(spec), sort_keys=True)


def spec_hash(spec):
    """The documented hash of a schema, computed independently."""
    import hashlib
    return hashlib.sha256(canonical_json(spec).encode()).hexdigest()


def clone(spec):
    if isinstance(spec, dict):
        return {k: clone(v) for k, v in spec.items()}
    if isinstance(spec, list):
        return [clone(v) for v in spec]
    return spec


def reorder(rng, spec):
    """The same schema with the fields defined in another order."""
    t = spec['t']
    if t == 'Compilation':
        items = [(n, reorder(rng, s)) for n, s in spec['fields'].items()]
        rng.shuffle(items)
        return dict(spec, fields=dict(items))
    if t == 'List':
        return dict(spec, sub=reorder(rng, spec['sub']))
    return spec


def mutate(rng, spec):
    """A schema which differs from the given one in a single detail."""
    before = canonical_json(spec)
    for _ in range(50):
        new = clone(spec)
        nodes = list(walk_spec(new))
        _mutate_node(rng, rng.choice(nodes))
        try:
            build(new)
        except ValueError:
            continue
        if canonical_json(new) != before:
            return new
    raise AssertionError('no variant of %r' % spec)


def _become(node, other):
    node.clear()
    node.update(other)


def _mutate_node(rng, node):
    t = node['t']
    r = rng.random()
    if r < 0.12:
        _become(node, {'t': 'List', 'sub': clone(node), 'max': None,
                       'min': None})
        return
    if r < 0.2:
        kind = rng.choice([k for k in ITEM_TYPES if k != t])
        _become(node, gen_item(rng, Opts(), kind))
        return
    if t == 'Compilation':
        names = list(node['fields'])
        free = [n for n in names_for(False) if n not in names]
        r = rng.random()
        if r < 0.25 or not names:
            node['fields'][rng.choice(free)] = gen_item(rng, Opts(), rng.choice(
                ('Bool', 'String', 'Scalar')))
            return
        used = {d for s in node['fields'].values() for d in deps(s) or ()}
        removable = [n for n in names if n not in used]
        if r < 0.45 and removable:
            del node['fields'][rng.choice(removable)]
            node['optionals'] = [n for n in node['optionals']
                                 if n in node['fields']]
        elif r < 0.65 and removable:
            name = rng.choice(removable)
            node['fields'][rng.choice(free)] = node['fields'].pop(name)
            node['optionals'] = [n for n in node['optionals']
                                 if n in node['fields']]
        elif r < 0.75 and len(names) > 1:
            a, b = rng.sample(names, 2)
            node['fields'][a], node['fields'][b] = (node['fields'][b],
                                                    node['fields'][a])
        elif len(node['optionals']) > 1 and rng.random() < 0.4:
            rng.shuffle(node['optionals'])
        elif node['optionals'] and rng.random() < 0.5:
            node['optionals'] = node['optionals'][:-1]
        else:
            extra = [n for n in names if n not in node['optionals']]
            if extra:
                node['optionals'] = node['optionals'] + [rng.choice(extra)]
    elif t in ('List', 'String', 'Bytes'):
        if t != 'List' and rng.random() < 0.2:
            node['t'] = 'Bytes' if t == 'String' else 'String'
            return
        key = rng.choice(('max', 'min'))
        node[key] = rng.choice((None, 0, 1, 2, 5, 8))
    elif t in ('Date', 'DateTime', 'Time'):
        if rng.random() < 0.5:
            node['set_on_create'] = not node['set_on_create']
        else:
            node['t'] = rng.choice(('Date', 'DateTime', 'Time'))
    elif t in ('Array', 'Scalar'):
        r = rng.random()
        if r < 0.3:
            node['dtype'] = rng.choice(SCALAR_DTYPES)
            if np.dtype(node['dtype']).kind == 'c':
                node['max_value'] = node['min_value'] = None
        elif r < 0.5:
            node['unit'] = rng.choice(UNITS)
        elif r < 0.7 and np.dtype(node['dtype']).kind not in 'cb':
            node[rng.choice(('max_value', 'min_value'))] = rng.choice(
                (None, 0, 1, 100, 7))
        elif t == 'Array':
            r = rng.random()
            if r < 0.4:
                key = rng.choice(('max_shape', 'min_shape'))
                node[key] = None if node[key] else tuple(
                    rng.choice((None, 0, 1, 3)) for _ in range(node['ndim']))
                if node[key] == ():
                    node[key] = None
            elif r < 0.7 and not (node['max_shape'] or node['min_shape']
                                  or node['depends_on']):
                node['ndim'] = rng.choice((1, 2, 3))
            else:
                node['depends_on'] = None
    elif t == 'Bool':
        _become(node, gen_item(rng, Opts(), 'String'))


def fillable(spec):
    """Whether valid values can be generated for all nodes of a schema."""
    for node in walk_spec(spec):
        t = node['t']
        if t == 'List' and deps(node['sub']):
            return False
        if t in ('List', 'String', 'Bytes'):
            if None not in (node['min'], node['max']) \
                    and node['min'] > node['max']:
                return False
        elif t in ('Array', 'Scalar'):
            dt = np.dtype(node['dtype'])
            bounds = [b for b in (node['min_value'], node['max_value'])
                      if b is not None]
            if bounds != sorted(bounds) or (bounds and dt.kind in 'cb'):
                return False
            for b in bounds:
                if dt.kind in 'iu' and not (
                        np.iinfo(dt).min <= b <= np.iinfo(dt).max
                        and b == int(b)):
                    return False
                if dt.kind == 'f' and float(dt.type(b)) != b:
                    return False
            if t == 'Array':
                lo = node['min_shape'] or (None,) * node['ndim']
                hi = node['max_shape'] or (None,) * node['ndim']
                if len(lo) != node['ndim'] or len(hi) != node['ndim']:
                    return False
                if any(None not in (a, b) and a > b for a, b in zip(lo, hi)):
                    return False
                if node['max_shape'] and None in hi and lo == hi:
                    return False
        elif t == 'Compilation':
            used = set()
            for sub in node['fields'].values():
                used.update(d for d in deps(sub) or () if d)
                if deps(sub) and (sub['min_shape'] or sub['max_shape']):
                    return False
            for name in used:
                sub = node['fields'].get(name)
                if sub is None or sub['t'] != 'Array' or sub['ndim'] != 1 \
                        or deps(sub):
                    return False
    return all(not deps(n) for n in [spec])


def mutate_fillable(rng, spec):
    """Like mutate(), but valid data can be generated for the result."""
    for _ in range(60):
        new = mutate(rng, spec)
        if fillable(new):
            return new
    return {'t': 'List', 'sub': clone(spec), 'max': None, 'min': None}


# --------------------------------------------------------------- near misses

def plain(t, **kw):
    """An item spec without any constraints, apart from the given ones."""
    base = {'Array': {'dtype': 'float64', 'unit': '', 'ndim': 1,
                      'max_shape': None, 'min_shape': None, 'max_value': None,
                      'min_value': None, 'depends_on': None},
            'Scalar': {'dtype': 'float64', 'unit': '', 'max_value': None,
                       'min_value': None},
            'String': {'max': None, 'min': None},
            'Bytes': {'max': None, 'min': None}, 'Bool': {},
            'Date': {'set_on_create': False}, 'Time': {'set_on_create': False},
            'DateTime': {'set_on_create': False}}[t]
    return dict(base, t=t, **kw)


def listof(sub, lo=None, hi=None):
    return {'t': 'List', 'sub': sub, 'max': hi, 'min': lo}


def comp(fields, optionals=()):
    return {'t': 'Compilation', 'fields': fields, 'optionals': list(optionals)}


def near_schemas():
    """Groups of different schemas that are easily mistaken for each other."""
    def scalars(key, values, dtype='float64'):
        return [plain('Scalar', dtype=dtype, **{key: v}) for v in values]

    def arrays(*changes, **common):
        return [plain('Array', **dict(common, **c)) for c in changes]
    units = ['', ' ', '  ', 'V', 'v', 'V ', ' V', 'V\n', 'm s', 'ms', 'm  s',
             'm\ts', 'µ', 'μ', 'Ω', '\u2126', 'é', 'e\u0301', 'None', 'null',
             '"', '\\"', '\\', '\\\\', '\n', '\\n', '°C', '\\u00b0C', 'u' * 300,
             'u' * 299 + 'v', 'V\u200b', '\u00a0', '0', 'False', 'ß', 'ss']
    yield scalars('unit', units)
    yield [plain('Array', unit=u) for u in units]
    yield [comp({'m': plain(t, unit=u)}) for t in ('Array', 'Scalar')
           for u in units[:9]]
    for key in ('max_value', 'min_value'):
        yield scalars(key, [None, 0, 1, -1, 0.5, 0.1, float(np.nextafter(
            0.1, 1)), 100, 1000, 1e6, 1000001, 1e-9, 0.30000000000000004, 0.3])
        yield scalars(key, [None, 0, 1, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1,
                            2 ** 63 - 2, -2 ** 63, 10, 100], 'int64')
        yield scalars(key, [None, 0, 2 ** 64 - 1, 2 ** 64 - 2], 'uint64')
    yield (scalars('max_value', [0, 1, None]) + scalars('min_value', [0, 1]))
    yield [plain('Scalar', dtype=d) for d in SCALAR_DTYPES]
    yield [plain('Array', dtype=d) for d in ARRAY_DTYPES]
    yield arrays({}, {'max_shape': (1,)}, {'min_shape': (1,)},
                 {'max_shape': (None,)}, {'min_shape': (0,)},
                 {'max_shape': (0,)}, {'max_shape': (1,), 'min_shape': (1,)},
                 {'max_shape': (11,)}, {'ndim': 0}, {'ndim': 2}, {'ndim': 3})
    yield arrays({}, {'max_shape': (1, None)}, {'max_shape': (None, 1)},
                 {'max_shape': (1, 1)}, {'max_shape': (1, 11)},
                 {'max_shape': (11, 1)}, {'min_shape': (1, None)},
                 {'min_shape': (None, 1)}, {'max_shape': (1, 0)}, ndim=2)
    p, q = plain('Array'), plain('Array')
    yield [comp({'p': p, 'q': q, 'y': plain('Array', ndim=2, depends_on=d)})
           for d in (None, ('p', 'q'), ('q', 'p'), ('p', 'p'), ('p', None),
                     (None, 'p'), (None, 'q'))]
    for t in ('String', 'Bytes'):
        yield [plain(t, **c) for c in (
            {}, {'max': 0}, {'max': 1}, {'max': 10}, {'max': 11}, {'min': 0},
            {'min': 1}, {'max': 1, 'min': 1}, {'max': 10, 'min': 1},
            {'max': 1, 'min': 0})] + [plain('String'), plain('Bytes')][
                t == 'String':][:1]
    yield [listof(plain('Bool'), lo, hi) for lo in (None, 0, 1, 10)
           for hi in (None, 0, 1, 10)]
    b = plain('Bool')
    yield [plain(t) for t in ITEM_TYPES] + [
        plain(t, set_on_create=True) for t in ('Date', 'DateTime', 'Time')] + [
            comp({}), comp({'a': b}), comp({'a': b}, ['a']), listof(b),
            listof(listof(b)), listof(comp({})), comp({'a': comp({})})]
    names = ['a', 'A', 'aa', 'a_', '_a', 'a1', 'a11', 'é', 'e\u0301', 'ﬁ', 'fi',
             'K', '\u212a', 'x' * 70, 'x' * 71, 'ſ', 's']
    yield [comp({n: b}) for n in names]
    yield [listof(comp({n: b, 'other': b})) for n in names]
    s = plain('String')
    yield [comp({'p': b, 'q': s}, o) for o in
           ([], ['p'], ['q'], ['p', 'q'])] + [
               comp({'p': s, 'q': b}, o) for o in ([], ['p'], ['q'])]
    yield [comp({'p': comp({'q': b})}), comp({'q': comp({'p': b})}),
           comp({'p': b, 'q': comp({})}), comp({'q': b, 'p': comp({})}),
           comp({'p': comp({'q': b, 'r': s})}),
           comp({'p': comp({'q': b}), 'r': s}),
           comp({'p': comp({'q': s, 'r': b})}),
           comp({'p': listof(comp({'q': b}))}),
           listof(comp({'p': comp({'q': b})}))]
    many = {'f%d' % i: plain('Scalar', dtype='int16') for i in range(150)}
    yield [comp(many), comp(dict(many, f149=plain('Scalar', dtype='int32'))),
           comp(dict(many, f75=plain('Scalar', dtype='int16', unit='V'))),
           comp(dict(many, f150=b)), comp(many, ['f75']), comp(many, ['f7'])]
    deep = []
    for leaf in (b, s, plain('Scalar'), plain('Scalar', unit=' ')):
        for i in range(8):
            leaf = listof(leaf) if i % 2 else comp({'d': leaf})
        deep.append(leaf)
    yield deep


def near_schema_pairs(rng, n):
    """n random (spec, spec) of near_schemas(), partly as part of others."""
    groups = list(near_schemas())
    for _ in range(n):
        a, b = rng.sample(rng.choice(groups), 2)
        for _ in range(rng.choice((0, 0, 1, 2))):
            kind = rng.randrange(3)
            if kind == 0:
                a, b = listof(a), listof(b)
            elif kind == 1:
                a, b = comp({'in_': a}), comp({'in_': b})
            else:
                a = comp({'in_': a, 'by': plain('Bool')})
                b = comp({'in_': b, 'by': plain('Bool')})
        yield a, b


def storable(spec, backend):
    """Whether the backend supports the field names of a schema."""
    return backend != 'mat' or all(
        n.isascii() and n[:1] != '_' and len(n) < 64
        for s in walk_spec(spec) for n in s.get('fields', ()))


def near_pair_for(rng, backends):
    """A pair of near_schemas() that can be stored and filled."""
    while True:
        (a, b), = near_schema_pairs(rng, 1)
        if all(fillable(s) and storable(s, k) for s in (a, b)
               for k in backends):
            return a, b


def near_pairs():
    """(spec, value, value) where both values look or compare very alike."""
    D = datetime

    def arr(n, dtype='float64'):
        return np.arange(n).astype(dtype)

    def flip(a, i, value):
        b = a.copy()
        b[i] = value
        return b
    A = plain('Array')
    for n, i in ((1200, 600), (1200, 0), (70000, 69999), (5000, 3)):
        yield A, arr(n), flip(arr(n), i, -1.0)
    yield A, np.zeros(3), flip(np.zeros(3), 1, -0.0)
    yield A, np.ones(3), flip(np.ones(3), 1, np.nextafter(1, 2))
    yield A, np.ones(1500), flip(np.ones(1500), 900, np.nextafter(1, 2))
    yield A, np.zeros(0), np.zeros(1)
    yield A, np.zeros(1000), np.zeros(1001)
    yield A, flip(np.zeros(3), 1, np.nan), flip(np.zeros(3), 2, np.nan)
    for dtype in ('bool', 'int8', 'uint64', 'complex128', 'float32'):
        B = plain('Array', dtype=dtype, ndim=2)
        a = np.ones((40, 50), dtype)
        yield B, a, flip(a, (20, 25), 0)
        yield B, a, np.ones((50, 40), dtype)
        yield B, a[:0], a[:, :0]
    a = arr(6).reshape(2, 3)
    yield plain('Array', ndim=2), a, a[::-1]
    yield plain('Array', ndim=2), a, a.reshape(3, 2)
    U = plain('Array', dtype='uint64')
    yield U, np.full(2, 2 ** 64 - 1, 'u8'), np.full(2, 2 ** 64 - 2, 'u8')
    S = plain('Scalar')
    yield S, np.float64(0.0), np.float64(-0.0)
    yield S, np.float64(0.1), np.nextafter(np.float64(0.1), 1)
    yield S, np.float64(1e300), np.nextafter(np.float64(1e300), 0)
    S = plain('Scalar', dtype='int64')
    yield S, np.int64(2 ** 62), np.int64(2 ** 62 + 1)
    yield S, np.int64(0), np.int64(1)
    T = plain('String')
    for a, b in (('é', 'e\u0301'), ('a', 'a '), ('', ' '), ('x' * 5000,
                 'x' * 2500 + 'y' + 'x' * 2499), ('a\n', 'a\r\n'),
                 ('1', '１'), ('A', 'a'), ('ab' * 100, 'ba' * 100)):
        yield T, a, b
    Y = plain('Bytes')
    for a, b in ((b'', b'\0'), (b'a', b'a\0'), (b'\0' * 9, b'\0' * 8),
                 (b'x' * 70000, b'x' * 69999 + b'y'), (b'\0a', b'a\0')):
        yield Y, a, b
    yield plain('Bool'), True, False
    yield plain('Date'), D.date(2000, 1, 2), D.date(2000, 2, 1)
    yield plain('Time'), D.time(1, 2, 3), D.time(1, 2, 3, 1)
    yield (plain('DateTime'), D.datetime(2000, 1, 2, 3, 4, 5),
           D.datetime(2000, 1, 2, 3, 4, 5, 1))
    yield (plain('DateTime'), D.datetime(2000, 1, 2),
           D.datetime(2000, 1, 2, 0, 0, 1))
    L = listof(plain('String'))
    yield L, ['a', 'b'], ['b', 'a']
    yield L, ['a', 'b'], ['ab']
    yield L, ['a', None], [None, 'a']
    yield L, ['a'], ['a', None]
    yield L, [None], []
    yield L, ['s%d' % i for i in range(1200)], [
        's%d' % (i if i != 700 else 0) for i in range(1200)]
    LL = listof(L)
    yield LL, [['a'], []], [[], ['a']]
    yield LL, [['a', 'b']], [['a'], ['b']]
    C = {'t': 'Compilation', 'fields': {'p': T, 'q': T}, 'optionals': []}
    yield C, {'p': 'a', 'q': 'b'}, {'p': 'b', 'q': 'a'}
    yield C, {'p': 'a', 'q': None}, {'p': None, 'q': 'a'}
