"""C05: item validation accepts exactly the values that meet the constraints."""
import datetime
import itertools
import math

import numpy as np

from lib import gen, model as M, oracle, stor

PROP = 'C05'
RULE = ('A case generates an item schema with random constraints and 12 '
        'values (valid ones, values at, just inside and just outside each '
        'bound, wrong dtype/ndim, foreign types) and calls validate() on the '
        'schema node and on data nodes of all backends, comparing acceptance '
        'and the reported constraint with an independent oracle. Directed '
        'cases enumerate small bounds and sizes. Distinct: (schema, value).')
CASES = {'quick': 6000, 'thorough': 80000}
MIN_EVENTS = ('accepted', 'rejected', 'node_accepted', 'node_rejected',
              'rejected_type', 'rejected_dtype', 'rejected_ndim',
              'rejected_max_shape', 'rejected_min_shape',
              'rejected_max_value', 'rejected_min_value', 'rejected_max',
              'rejected_min', 'nan_beside', 'derived_types')
ASSUMPTIONS = ['no NaN against value bounds, unless another element violates '
               'one; float bounds representable in '
               'the dtype; no bounds on bool or complex dtypes; instances of '
               'subclasses of the required types are instances of those '
               'types; DateTime for Date is not judged']

FOREIGN = [
    None, 0, 1, -1, 2.5, 1j, '', 'spam', b'', b'spam', True, False, [], [1],
    (), (1, 2), {}, {'a': 1}, set(), object(), Ellipsis, range(3),
    bytearray(b'ab'), memoryview(b'ab'), type, len,
    np.bool_(True), np.int8(1), np.int64(1), np.uint8(3), np.float32(1),
    np.float64(2.5), np.complex128(1j), np.datetime64('2020-01-01'),
    np.array(1), np.array([1, 2]), np.array([1.5]), np.array([True, False]),
    np.array([[1, 2]]), np.array(['a']), np.array([b'a']),
    np.array([None, 1], dtype=object), np.array([1j]), np.zeros((0,)),
    datetime.date(2020, 1, 2), datetime.time(1, 2, 3),
    datetime.timedelta(1),
]


class Text(str):
    pass


class Data(bytes):
    pass


class Matrix(np.ndarray):
    pass


class Day(datetime.date):
    pass


class Clock(datetime.time):
    pass


class Stamp(datetime.datetime):
    pass


def derived(value):
    """The same value as an instance of a derived class."""
    if isinstance(value, np.ndarray):
        return value.view(Matrix)
    if type(value) is str:
        return Text(value)
    if type(value) is bytes:
        return Data(value)
    if type(value) is datetime.date:
        return Day(value.year, value.month, value.day)
    if type(value) is datetime.time:
        return Clock(value.hour, value.minute, value.second,
                     value.microsecond)
    if type(value) is datetime.datetime:
        return Stamp(value.year, value.month, value.day, value.hour,
                     value.minute, value.second, value.microsecond)
    return value


STAMP = datetime.datetime(2020, 1, 2, 3, 4, 5)


def excluded(spec, value):
    """Values whose validity is not specified."""
    t = spec['t']
    if t == 'Date' and isinstance(value, datetime.datetime):
        return True
    if t in ('Array', 'Scalar') and isinstance(value, (np.ndarray,
                                                       np.generic)):
        bounded = (spec['max_value'] is not None
                   or spec['min_value'] is not None)
        if bounded and value.dtype.kind not in 'iuf':
            return True
        if bounded and value.dtype.kind == 'f' and np.isnan(value).any() \
                and not oracle.item_violations(spec, value):
            return True
        if bounded and value.dtype != np.dtype(spec['dtype']):
            # Comparison of other dtypes may be subject to rounding.
            return any(b is not None and not float(b).is_integer()
                       for b in (spec['max_value'], spec['min_value']))
    return False


def candidates(rng, spec):
    t = spec['t']
    yield gen.gen_leaf(rng, spec)
    yield gen.gen_leaf(rng, spec)
    for _ in range(2):
        yield rng.choice(FOREIGN)
    if t == 'DateTime' or rng.random() < 0.3:
        yield STAMP
    if t in ('String', 'Bytes'):
        for n in around(rng, (spec['max'], spec['min'])):
            yield ('ü' * n) if t == 'String' else b'\xff' * n
        if spec['max'] is not None and t == 'String':
            # Length counts characters, not bytes.
            yield '😀' * spec['max']
    elif t == 'Scalar':
        dt = np.dtype(spec['dtype'])
        for v in numbers(rng, dt, spec):
            yield dt.type(v)
        other = np.dtype(rng.choice(gen.SCALAR_DTYPES))
        yield other.type(1)
        if dt.kind in 'iu':
            yield int(1)
    elif t == 'Array':
        dt = np.dtype(spec['dtype'])
        good = gen.gen_array_value(rng, spec)
        # element values
        for v in numbers(rng, dt, spec):
            arr = good.copy()
            if arr.size:
                if dt.kind == 'f' and rng.random() < 0.25:
                    # NaN does not hide what the other elements violate.
                    arr[tuple(rng.randrange(n) for n in arr.shape)] = np.nan
                arr[tuple(rng.randrange(n) for n in arr.shape)] = v
                yield arr
        # shapes
        for _ in range(3):
            shape = list(good.shape)
            for i in range(len(shape)):
                if rng.random() < 0.6:
                    lo = (spec['min_shape'] or (None,) * len(shape))[i]
                    hi = (spec['max_shape'] or (None,) * len(shape))[i]
                    pool = [n for n in around(rng, (lo, hi))] + [0, 1]
                    shape[i] = rng.choice(pool)
            yield gen.gen_array_value(rng, dict(spec), tuple(shape))
        # dimensions
        other_ndim = rng.choice([n for n in range(4) if n != spec['ndim']])
        yield np.ones((2,) * other_ndim, dtype=dt)
        yield np.ones((1,) * other_ndim, dtype=dt)
        # dtype
        other = np.dtype(rng.choice(gen.ARRAY_DTYPES))
        yield np.ones(good.shape, dtype=other)
        yield np.ones(good.shape, dtype=dt.newbyteorder())
        yield good.tolist()
        if good.size:
            yield good.reshape(-1)[0]


def around(rng, bounds):
    out = set()
    for b in bounds:
        if b is not None:
            out |= {max(0, b - 1), b, b + 1}
    out.add(rng.randint(0, 4))
    return sorted(out)


def numbers(rng, dt, spec):
    """Element values at, just below and just above the bounds."""
    if dt.kind in 'cb':
        return [dt.type(1)]
    out = []
    for b in (spec['max_value'], spec['min_value']):
        if b is None:
            continue
        if dt.kind in 'iu':
            info = np.iinfo(dt)
            for v in (math.floor(b) - 1, math.floor(b), math.ceil(b),
                      math.ceil(b) + 1, info.max, info.min):
                if info.min <= v <= info.max:
                    out.append(v)
        else:
            v = dt.type(b)
            out += [v, np.nextafter(v, dt.type(np.inf)),
                    np.nextafter(v, dt.type(-np.inf)), dt.type(np.inf),
                    dt.type(-np.inf), dt.type(0.0), dt.type(-0.0)]
    rng.shuffle(out)
    return out[:5]


def odd_bounds(rng, spec):
    """Bounds of other types and ranges than the dtype's."""
    dt = np.dtype(spec['dtype'])
    if dt.kind in 'iu' and rng.random() < 0.3:
        spec['max_value'] = rng.choice((None, 2.5, 1e6, 2 ** 70, float('inf'),
                                        300, 0, 0.0, -0.5, True))
        spec['min_value'] = rng.choice((None, -2.5, -1e6, -2 ** 70, -1,
                                        float('-inf'), 0, 0.0, 0.5, False))
    elif dt.kind == 'f' and rng.random() < 0.3:
        spec['max_value'] = rng.choice((None, 0, 0.0, float('inf'), 1, -1))
        spec['min_value'] = rng.choice((None, 0, 0.0, -0.0, float('-inf'), 1))


def run_case(ctx):
    rng = ctx.rng
    o = gen.Opts(constraints=0.85, dtype_objects=0.2)
    kind = rng.choice(('Array', 'Array', 'Array', 'Scalar', 'Scalar',
                       'String', 'Bytes', 'Bool', 'Date', 'DateTime', 'Time'))
    spec = gen.gen_item(rng, o, kind)
    if kind in ('Array', 'Scalar'):
        odd_bounds(rng, spec)
        try:
            values = list(candidates(rng, spec))
        except (ValueError, IndexError, OverflowError):
            # The odd bounds leave no valid values.
            plain = dict(spec, max_value=None, min_value=None)
            values = list(candidates(rng, plain))
    else:
        values = list(candidates(rng, spec))
    rng.shuffle(values)
    if rng.random() < 0.3:
        values[:4] = [derived(v) for v in values[:4]]
        ctx.event('derived_types')
    judge_all(ctx, spec, values[:12])


def judge_all(ctx, spec, values):
    schema = gen.build(spec)
    ctx.log(gen.describe(spec))
    for value in values:
        if excluded(spec, value):
            ctx.event('unspecified')
            continue
        violated = oracle.item_violations(spec, value)
        ctx.log('%s -> %s' % (M.show(M.canon(value)), sorted(violated)))
        judge(ctx, 'schema node', spec, value, violated,
              (lambda v=value: schema.validate(v, None))
              if spec['t'] == 'Array' else (lambda v=value:
                                            schema.validate(v)))
        ctx.event('rejected' if violated else 'accepted')
        for kind in violated:
            ctx.event('rejected_' + kind)
        ctx.state((gen.describe(spec), M.canon(value)))
    for value in values[:5]:
        if value is None or excluded(spec, value):
            continue
        on_node(ctx, schema, spec, value)
    ctx.sample = '%s: %s' % (gen.describe(spec), ctx.log_lines[1:5])


def judge(ctx, where, spec, value, violated, fn):
    from dsch import exceptions
    before = M.canon(value)
    try:
        result = fn()
    except exceptions.ValidationError as err:
        if not violated:
            ctx.fail('%s %s rejects the valid value %s: %s' % (
                where, gen.describe(spec), M.show(before), err))
        problem = oracle.error_matches(err, spec, value, violated)
        if problem:
            ctx.fail('%s %s, value %s: %s' % (
                where, gen.describe(spec), M.show(before), problem))
    else:
        if violated:
            ctx.fail('%s %s accepts %s, which violates %s' % (
                where, gen.describe(spec), M.show(before), sorted(violated)))
        if result is not None:
            ctx.fail('%s: validate() returned %r' % (where, result))
    if M.canon(value) != before:
        ctx.fail('%s: validate() changed the value' % where)


def on_node(ctx, schema, spec, value):
    backend = ctx.rng.choice(gen.ALL_BACKENDS)
    if backend == 'inmem' and not isinstance(value, (np.ndarray, np.generic,
                                                     str, bytes, bool, int,
                                                     float)):
        pass
    storage = stor.new(ctx, backend, spec, schema)
    try:
        storage.data.value = value
    except Exception:  # pylint: disable=broad-except
        ctx.event('not_assignable')
        return
    got = storage.data.value
    if excluded(spec, got):
        return
    violated = oracle.item_violations(spec, got)
    judge(ctx, backend + ' data node', spec, got, violated,
          storage.data.validate)
    judge(ctx, backend + ' storage', spec, got, violated, storage.validate)
    ctx.event('node_rejected' if violated else 'node_accepted')


# ---------------------------------------------------------- directed

def _lengths(ctx):
    """All small length bounds and lengths, for strings, bytes and lists."""
    from dsch import exceptions
    for hi, lo in itertools.product((None, 0, 1, 2, 3), repeat=2):
        for n in range(5):
            for t in ('String', 'Bytes'):
                judge_all(ctx, {'t': t, 'max': hi, 'min': lo},
                          ['x' * n if t == 'String' else b'\0' * n])
            spec = {'t': 'List', 'sub': {'t': 'Bool'}, 'max': hi, 'min': lo}
            storage = stor.new(ctx, 'inmem', spec)
            for i in range(n):
                storage.data.append(True if i % 2 else None)
            violated = oracle.length_violations(spec, n)
            for fn in (storage.validate, storage.data.validate,
                       lambda: storage.schema_node.validate([None] * n)):
                try:
                    fn()
                    bad = violated
                except exceptions.ValidationError as err:
                    bad = None if violated else 'valid'
                    if not bad:
                        bad = oracle.error_matches(err, spec, None, violated,
                                                   n)
                if bad:
                    ctx.fail('list bounds %s..%s, %d items: %s' % (
                        lo, hi, n, bad))


def _shapes(ndim):
    def run(ctx):
        sizes = (0, 1, 2, 3) if ndim == 1 else (0, 1, 2)
        bounds = [None] + list(itertools.product((None,) + sizes,
                                                 repeat=ndim))
        if ndim == 2:
            bounds = [None] + list(itertools.product((None, 0, 1, 2),
                                                     repeat=2))
        values = [np.zeros(s, 'int16') for s in
                  itertools.product(range(4), repeat=ndim)]
        for hi in bounds:
            for lo in bounds:
                spec = {'t': 'Array', 'dtype': 'int16', 'unit': '',
                        'ndim': ndim, 'max_shape': hi, 'min_shape': lo,
                        'max_value': None, 'min_value': None,
                        'depends_on': None}
                schema = gen.build(spec)
                for v in values:
                    judge(ctx, 'schema node', spec, v,
                          oracle.item_violations(spec, v),
                          lambda: schema.validate(v, None))
                    ctx.event('shape_combinations')
                    ctx.state((hi, lo, v.shape))
    return run


def _values(ctx):
    for name in gen.INT_DTYPES + gen.FLOAT_DTYPES:
        dt = np.dtype(name)
        for hi, lo in itertools.product((None, 0, 1, 3), repeat=2):
            nums = [0, 1, 2, 3, 4]
            if dt.kind != 'u':
                nums += [-1, -2]
            spec = {'t': 'Scalar', 'dtype': name, 'unit': '',
                    'max_value': hi, 'min_value': lo}
            judge_all(ctx, spec, [dt.type(n) for n in nums])
            spec = dict(spec, t='Array', ndim=1, max_shape=None,
                        min_shape=None, depends_on=None)
            judge_all(ctx, spec, [np.array(v, dtype=dt) for v in
                                  [[], [0], [3, 3], [0, 1, 2, 3],
                                   [4, 0], [0, 4], nums]])


def _nan_beside(ctx):
    """NaN elements do not hide violations of their neighbours."""
    for name in gen.FLOAT_DTYPES:
        spec = {'t': 'Array', 'dtype': name, 'unit': '', 'ndim': 1,
                'max_shape': None, 'min_shape': None, 'max_value': 1,
                'min_value': -1, 'depends_on': None}
        for bad in (2.0, -2.0, np.inf, -np.inf):
            for base in ([np.nan, bad], [bad, np.nan], [np.nan, bad, np.nan],
                         [0, np.nan, 0, bad, 0], [np.nan] * 50 + [bad],
                         [bad] + [np.nan] * 500):
                judge_all(ctx, spec, [np.array(base, name)])
                ctx.event('nan_beside')


def _large(ctx):
    """Sizes far from and close to the bounds."""
    sizes = (0, 1, 2, 5, 99, 100, 101, 255, 256, 257, 1000, 4097, 65536,
             100001)
    for n in sizes:
        for hi, lo in ((n, n), (n, None), (None, n), (n, max(0, n - 1)),
                       (n + 1, n)):
            for t, unit in (('String', 'x'), ('Bytes', b'x')):
                judge_all(ctx, {'t': t, 'max': hi, 'min': lo},
                          [unit * m for m in sizes]
                          + [unit * m for m in (n - 1, n + 1) if m >= 0])
            for ndim in (1, 2):
                spec = gen.plain('Array', dtype='int8', ndim=ndim)
                for key, bound in (('max_shape', hi), ('min_shape', lo)):
                    if bound is not None:
                        spec[key] = (bound,) + (None,) * (ndim - 1)
                judge_all(ctx, spec, [
                    np.zeros((m, 1)[:ndim], 'int8')
                    for m in set(sizes) | {n - 1, n + 1} if m >= 0])
            ctx.event('large_sizes')
    for n in sizes[4:]:
        for name in ('int16', 'float32', 'float64'):
            spec = gen.plain('Array', dtype=name, min_value=-2, max_value=3)
            for at in (0, 1, n // 3, n // 2, n - 2, n - 1):
                values = []
                for bad in (-2, 3, -3, 4):
                    arr = np.zeros(n, name)
                    arr[at] = bad
                    values.append(arr)
                judge_all(ctx, spec, values)
                ctx.event('large_arrays')


def _foreign(ctx):
    rng = ctx.rng
    for kind in gen.ITEM_TYPES:
        for _ in range(4):
            spec = gen.gen_item(rng, gen.Opts(constraints=0.3), kind)
            judge_all(ctx, spec, FOREIGN + [STAMP])


def directed():
    return [_lengths, _shapes(1), _shapes(2), _values, _nan_beside, _large, _foreign]
