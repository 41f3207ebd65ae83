"""C01: values survive save and reload unchanged."""
import copy
import datetime

import numpy as np

from lib import gen, model as M, stor

PROP = 'C01'
RULE = ('A case assigns valid values of one item type (top level or wrapped '
        'in up to three compilations/lists, possibly after other values), '
        'saves, loads a byte snapshot of the file and compares type, dtype, '
        'shape and bits of every value, then saves and loads once more. '
        'Directed cases enumerate all special values of every type, each '
        'dtype, a set of shapes, and large values. Distinct: (backend, schema, value).')
CASES = {'quick': 3600, 'thorough': 40000}
MIN_EVENTS = ('values_compared', 'reloads', 'large_values')
ASSUMPTIONS = ['text without NUL and lone surrogates; native byte order; '
               'NaNs compare as NaN whatever their payload; naive date/time']

WRAPS = ('top', 'comp', 'list', 'comp.comp', 'comp.list', 'list.comp',
         'list.list', 'comp.list.comp')


def wrap(rng, how, item_spec, values, unicode_names):
    """(spec, tree) that holds the values at the given kind of position."""
    names = list(gen.names_for(unicode_names))
    if how == 'top':
        return item_spec, values[0]
    outer, _, rest = how.partition('.')
    if outer == 'comp':
        if rest:
            picked = rng.sample(names, 2)
            half = max(1, len(values) // 2)
            spec, tree = {}, {}
            s1, t1 = wrap(rng, rest, item_spec, values[:half], unicode_names)
            spec[picked[0]], tree[picked[0]] = s1, t1
            if values[half:]:
                s2, t2 = wrap(rng, rest, item_spec, values[half:],
                              unicode_names)
                spec[picked[1]], tree[picked[1]] = s2, t2
        else:
            picked = rng.sample(names, len(values))
            spec = {n: item_spec for n in picked}
            tree = dict(zip(picked, values))
        return {'t': 'Compilation', 'fields': spec, 'optionals': []}, tree
    if not rest:
        return {'t': 'List', 'sub': item_spec, 'max': None,
                'min': None}, list(values)
    # All items of the list share one schema.
    if rest == 'comp':
        names = rng.sample(names, 2)
        sub = {'t': 'Compilation', 'optionals': [],
               'fields': {n: item_spec for n in names}}
        tree = []
        for i in range(0, len(values), 2):
            pair = values[i:i + 2]
            tree.append(dict(zip(names, pair + [None] * (2 - len(pair)))))
        return {'t': 'List', 'sub': sub, 'max': None, 'min': None}, tree
    sub = {'t': 'List', 'sub': item_spec, 'max': None, 'min': None}
    cut = rng.randint(0, len(values))
    return {'t': 'List', 'sub': sub, 'max': None, 'min': None}, [
        list(values[:cut]), list(values[cut:])]


def roundtrip(ctx, backend, spec, tree, other=None):
    model = M.from_tree(spec, tree)
    expected = model.canon()
    storage = stor.new(ctx, backend, spec)
    if other is not None:
        M.apply_tree(ctx.rng, storage.data, spec, other)
        if ctx.rng.random() < 0.5:
            storage.save(force=True)
        overwrite(storage.data, model)
    else:
        M.apply_tree(ctx.rng, storage.data, spec, tree)
    ctx.log('%s %s' % (backend, gen.describe(spec)))
    stor.expect_state(ctx, storage, spec, expected, backend + ' before save')
    for turn in (1, 2):
        storage.save()
        storage = stor.load(stor.snapshot(ctx, storage, backend))
        ctx.event('reloads')
        stor.expect_state(ctx, storage, spec, expected,
                          '%s after reload %d' % (backend, turn))
    for path, item in M.items(model):
        if item.value is not None:
            c = item.canon()
            ctx.event('values_compared')
            ctx.event('type_' + item.spec['t'])
            ctx.state((backend, gen.describe(item.spec), c))
    ctx.sample = '%s %s = %s' % (backend, gen.describe(spec),
                                 M.show(expected))


def overwrite(node, model):
    if isinstance(model, M.Comp):
        for name, sub in model.fields.items():
            overwrite(getattr(node, name), sub)
    elif isinstance(model, M.List):
        node.replace(M.prune(model.tree()))
    elif model.value is None:
        node.clear()
    else:
        node.value = M.copy_value(model.value)


def run_case(ctx):
    rng = ctx.rng
    backend = gen.FILE_BACKENDS[ctx.case % 3]
    o = stor.opts_for(backend, big=0.03)
    kind = rng.choice(gen.ITEM_TYPES + ('Array', 'Array', 'Scalar'))
    item = gen.gen_item(rng, o, kind)
    values = [gen.gen_leaf(rng, item, o.big)
              for _ in range(rng.randint(1, 4))]
    how = rng.choice(WRAPS)
    unicode_names = o.unicode_names
    spec, tree = wrap(rng, how, item, values, unicode_names)
    other = None
    if rng.random() < 0.4:
        other = swap(rng, spec, tree)
    roundtrip(ctx, backend, spec, tree, other)


def swap(rng, spec, tree):
    """Other valid values in the same structure."""
    if isinstance(tree, dict):
        return {k: swap(rng, spec['fields'][k], v) for k, v in tree.items()}
    if isinstance(tree, list):
        return [swap(rng, spec['sub'], v) for v in tree]
    return gen.gen_leaf(rng, spec)


# ---------------------------------------------------------- directed

def all_values(kind):
    """(spec, values) for every special value of a type."""
    plain = {'max': None, 'min': None}
    if kind == 'String':
        return [(dict(plain, t='String'), list(gen.STRINGS))]
    if kind == 'Bytes':
        return [(dict(plain, t='Bytes'),
                 gen.BYTES + [bytes([b]) for b in range(256)])]
    if kind == 'Bool':
        return [({'t': 'Bool'}, [True, False])]
    soc = {'set_on_create': False}
    dates = [datetime.date(*d) for d in gen.DATES]
    times = [datetime.time(*t) for t in gen.TIMES]
    if kind == 'Date':
        return [(dict(soc, t='Date'), dates)]
    if kind == 'Time':
        return [(dict(soc, t='Time'), times)]
    if kind == 'DateTime':
        return [(dict(soc, t='DateTime'),
                 [datetime.datetime.combine(d, t) for d in dates
                  for t in times[:4]])]
    out = []
    if kind == 'Scalar':
        for name in gen.SCALAR_DTYPES:
            dt = np.dtype(name)
            spec = {'t': 'Scalar', 'dtype': name, 'unit': '',
                    'max_value': None, 'min_value': None}
            out.append((spec, [dt.type(v) for v in numbers(dt)]))
        return out
    shapes = [(), (0,), (1,), (2,), (7,), (0, 0), (0, 3), (3, 0), (1, 1),
              (1, 4), (4, 1), (2, 3), (0, 0, 0), (1, 1, 1), (1, 2, 1),
              (2, 1, 3), (3, 2, 1), (1, 0, 2), (1, 1, 1, 1), (2, 2, 1, 1),
              (1, 1, 2, 2)]
    for name in gen.ARRAY_DTYPES:
        dt = np.dtype(name)
        nums = numbers(dt)
        by_ndim = {}
        for i, shape in enumerate(shapes):
            size = int(np.prod(shape, dtype=int))
            vals = [nums[(i + j) % len(nums)] for j in range(size)]
            arr = np.array(vals, dtype=dt).reshape(shape)
            by_ndim.setdefault(len(shape), []).append(arr)
        by_ndim[1].append(np.array(nums, dtype=dt))
        for ndim, arrays in by_ndim.items():
            spec = {'t': 'Array', 'dtype': name, 'unit': '', 'ndim': ndim,
                    'max_shape': None, 'min_shape': None, 'max_value': None,
                    'min_value': None, 'depends_on': None}
            out.append((spec, arrays))
    return out


def numbers(dt):
    if dt.kind == 'c':
        part = np.dtype('f%d' % (dt.itemsize // 2))
        pool = gen._number_pool(part)
        out = []
        for i, re in enumerate(pool):
            out.append(complex(re, pool[(i * 7 + 3) % len(pool)]))
            out.append(complex(re, 0.0))
            out.append(complex(-0.0, re))
        return out
    return gen._number_pool(dt)


def _directed(backend, kind, how):
    def run(ctx):
        for spec, values in all_values(kind):
            if how == 'top':
                for v in values:
                    roundtrip(ctx, backend, spec, v)
            elif how == 'list':
                roundtrip(ctx, backend, {'t': 'List', 'sub': spec,
                                         'max': None, 'min': None}, values)
            else:
                names = ['v%d' % i for i in range(len(values))]
                inner = {'t': 'Compilation', 'optionals': [],
                         'fields': {n: spec for n in names}}
                outer = {'t': 'Compilation', 'optionals': [],
                         'fields': {'inner': inner}}
                roundtrip(ctx, backend, outer,
                          {'inner': dict(zip(names, values))})
    return run


def _large(backend, name):
    """Arrays with many elements, none of which is like another."""
    def run(ctx):
        import random
        dt = np.dtype(name)
        rng = random.Random('%s %s' % (ctx.seed, name))
        item = gen.plain('Array', dtype=name)
        for shape in ((300,), (1025,), (4099,), (20011,), (100003,),
                      (1, 5000), (130, 70), (70, 1, 90), (3000, 2)):
            size = int(np.prod(shape))
            if dt.kind == 'b':
                arr = np.frombuffer(rng.randbytes(size), 'uint8') % 2 == 1
            elif dt.kind in 'iu':
                arr = np.frombuffer(rng.randbytes(size * dt.itemsize), dt)
            else:
                part = np.dtype('f%d' % (dt.itemsize //
                                         (2 if dt.kind == 'c' else 1)))
                n = size * (2 if dt.kind == 'c' else 1)
                arr = np.frombuffer(rng.randbytes(n * part.itemsize), part)
                arr = np.where(np.isnan(arr), part.type(0), arr)
                arr = arr.astype(part).view(dt)
            arr = arr.copy().reshape(shape)
            spec = dict(item, ndim=len(shape))
            how = rng.randrange(3)
            tree = arr
            if how == 1:
                spec, tree = gen.comp({'x': spec, 'y': spec}), {
                    'x': arr, 'y': arr[::-1].copy()}
            elif how == 2:
                spec, tree = gen.listof(spec), [arr, arr[::-1].copy()]
            roundtrip(ctx, backend, spec, tree)
            ctx.event('large_values')
    return run


def _long(backend):
    """Long strings, byte strings and lists."""
    def run(ctx):
        rng = ctx.rng
        for n in (127, 128, 255, 256, 257, 1000, 4096, 65535, 65536, 70001,
                  300000):
            text = ''.join(rng.choices('ab ä\n日\U0001f600', k=n - 1)) + 'z'
            roundtrip(ctx, backend, gen.plain('String'), text)
            data = rng.randbytes(n)
            roundtrip(ctx, backend, gen.comp({'b': gen.plain('Bytes')}),
                      {'b': data})
            ctx.event('large_values')
        for n in (9, 10, 11, 99, 101, 256, 300):
            roundtrip(ctx, backend, gen.listof(gen.plain('Scalar')),
                      [np.float64(rng.random()) for _ in range(n)])
            ctx.event('large_values')
    return run


def _alike(backend):
    """Values with the same bytes, but different shapes and types."""
    def run(ctx):
        for size in (1, 4, 36):
            fields, tree = {}, {}

            def add(value, **kw):
                name = 'f%d' % len(fields)
                fields[name] = gen.plain(kw.pop('t', 'Array'), **kw)
                tree[name] = value
            raw = np.arange(1, size + 1, dtype='int64') * 0x0101
            for dtype in ('int64', 'uint64', 'float64', 'int32', 'uint8',
                          'int64'):
                arr = raw.copy().view(dtype)
                shapes = [(arr.size,), (1, arr.size), (arr.size, 1)]
                if arr.size % 4 == 0:
                    shapes += [(2, arr.size // 2), (arr.size // 2, 2),
                               (2, 2, arr.size // 4), (arr.size,)]
                for shape in shapes:
                    add(arr.copy().reshape(shape), dtype=dtype,
                        ndim=len(shape))
                add(arr.copy()[::-1].copy(), dtype=dtype)
                if arr.size % 4 == 0:
                    add(np.asfortranarray(arr.copy().reshape(2, -1)),
                        dtype=dtype, ndim=2)
                    add(arr.copy().reshape(-1, 2).T.copy(), dtype=dtype,
                        ndim=2)
                add(arr[0], t='Scalar', dtype=dtype)
            text = 'ab' * size
            add(text, t='String')
            add(text.encode(), t='Bytes')
            add(text.encode('utf-16-le'), t='Bytes')
            add(np.frombuffer(text.encode(), 'uint8').copy(), dtype='uint8')
            add(datetime.date(2020, 1, 2), t='Date')
            add(np.array([2020, 1, 2]), dtype='int64')
            add(datetime.datetime(2020, 1, 2), t='DateTime')
            add(datetime.time(20, 1, 2, 3), t='Time')
            add(np.array([20, 1, 2, 3]), dtype='int64')
            add(True, t='Bool')
            add(np.bool_([True]), dtype='bool')
            add(np.uint8([1]), dtype='uint8')
            spec = gen.comp(fields)
            roundtrip(ctx, backend, spec, tree)
            roundtrip(ctx, backend, gen.listof(spec),
                      [copy.deepcopy(tree), copy.deepcopy(tree)])
            ctx.event('alike_values')
    return run


def directed():
    return [_directed(b, k, h) for h in ('comp', 'list', 'top')
            for k in gen.ITEM_TYPES for b in gen.FILE_BACKENDS] + [
        _large(b, n) for n in gen.ARRAY_DTYPES for b in gen.FILE_BACKENDS] + [
        _long(b) for b in gen.FILE_BACKENDS] + [
        _alike(b) for b in gen.FILE_BACKENDS]


# ---------------------------------------------------------- known findings

def _probe_tz(ctx):
    tz = datetime.timezone(datetime.timedelta(hours=2))
    for backend in gen.FILE_BACKENDS:
        for spec, v in (({'t': 'DateTime', 'set_on_create': False},
                         datetime.datetime(2020, 1, 2, 3, 4, 5, 6, tz)),
                        ({'t': 'Time', 'set_on_create': False},
                         datetime.time(3, 4, 5, 6, tz))):
            storage = stor.filled(ctx, backend, spec, v)
            storage.save()
            got = stor.load(stor.snapshot(ctx, storage, backend)).data.value
            if got != v or got.tzinfo != v.tzinfo:
                ctx.fail('time zone lost: %r became %r' % (v, got))


def _probe_longdouble(ctx):
    spec = {'t': 'Array', 'dtype': 'longdouble', 'unit': '', 'ndim': 1,
            'max_shape': None, 'min_shape': None, 'max_value': None,
            'min_value': None, 'depends_on': None}
    v = np.array([1, 2], dtype='longdouble') / 3
    storage = stor.filled(ctx, 'mat', spec, v)
    storage.save()
    got = stor.load(stor.snapshot(ctx, storage, 'mat'), force=True).data.value
    if got.dtype != v.dtype or (got != v).any():
        ctx.fail('longdouble became %s' % got.dtype)


def known():
    return [('tzinfo-dropped', _probe_tz),
            ('mat-longdouble', _probe_longdouble)]
