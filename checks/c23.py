"""C23: a rejected assignment leaves the data as it was."""
import contextlib
import datetime
import warnings

import numpy as np

from lib import gen, model as M, ops, oracle, stor
from checks import c05

PROP = 'C23'
RULE = ('A case fills a storage (fresh or loaded) and then attempts about 25 '
        'assignments, replacements, element assignments, resizes and copies '
        'from incompatible nodes with hostile values (foreign types, values '
        'not convertible or out of range, ragged or mixed lists, too many '
        'dimensions, arrays beyond the HDF5 maximum shape, objects failing '
        'while being read, failures of the HDF5 engine), on filled and empty '
        'nodes. Whenever the attempt raises, the whole storage must show the '
        'data it had before, and again after saving and reloading; if it is '
        'accepted, the node is reset. Distinct: (backend, type, filled, '
        'operation, class of the value, exception).')
CASES = {'quick': 1800, 'thorough': 40000}
MIN_EVENTS = tuple('rejected_%s_%s' % (t, b)
                   for t in ('Array', 'Date', 'DateTime', 'Time', 'Scalar')
                   for b in gen.FILE_BACKENDS) + (
    'rejected_Array_inmem', 'rejected_Scalar_inmem', 'rejected_String_hdf5',
    'rejected_Bytes_hdf5', 'rejected_Bool_hdf5', 'rejected_Bool_npz',
    'rejected_Bool_mat', 'rejected_set', 'rejected_replace',
    'rejected_assign', 'rejected_resize', 'rejected_load_from',
    'rejected_filled', 'rejected_empty', 'saved',
    'reloaded', 'accepted')
ASSUMPTIONS = ('Whether a value is rejected on assignment (or only by the '
               'validation) is up to the backend.',
               'Failures of the HDF5 engine are simulated by an exception '
               'from h5py.Group.create_dataset.')


class Hostile:
    """Fails while being converted."""

    def __init__(self, exc):
        self.exc = exc

    def _fail(self, *args, **kw):
        raise self.exc('hostile value')

    __array__ = __len__ = __getitem__ = __iter__ = __float__ = _fail
    __int__ = __index__ = __bool__ = __bytes__ = __str__ = _fail
    __complex__ = _fail

    def __repr__(self):
        return 'Hostile(%s)' % self.exc.__name__


class Partial:
    """Has some attributes of dates and times, but not all of them."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Partial(%s)' % sorted(self.__dict__)


def hostile_values(rng, spec, value):
    """Values that are more or less likely to be rejected."""
    t = spec['t']
    out = [rng.choice(c05.FOREIGN), rng.choice(c05.FOREIGN),
           rng.choice((Hostile(ValueError), Hostile(TypeError),
                       Hostile(RuntimeError)))]
    if t in ('Array', 'Scalar'):
        dt = np.dtype(spec['dtype'])
        out += ['spam', [1, 'x'], [[1], [2, 3]], {'a': 1}, object(),
                np.array(['x', 'y']), np.array([1, 'x'], dtype=object),
                1 << 70, -(1 << 70), [1 << 70], [1, 1 << 70],
                datetime.date(2020, 1, 1), 1j, [1j], np.array([1, 2]),
                np.array([[object()]]), [None, 1], (1, 2, '')]
        if dt.kind in 'iu':
            out += [np.iinfo(dt).max + 1, np.iinfo(dt).min - 1,
                    float('nan'), float('inf')]
        if t == 'Array':
            ndim = spec['ndim']
            out += [np.ones((2,) * (ndim + 1), dtype=dt),
                    np.ones((1,) * (ndim + 2), dtype=dt),
                    dt.type(1), np.ones((), dtype=dt), [], [[[[1]]]]]
            limit = spec['max_shape']
            if limit and None not in limit:
                out += [np.ones([n + 1 for n in limit], dtype=dt)] * 4
                out += [np.ones(limit[:-1] + (limit[-1] + 2,), dtype=dt)] * 2
    elif t in ('Date', 'DateTime', 'Time'):
        out += [Partial(year=2020), Partial(year=2020, month=1, day='x'),
                Partial(hour=1, minute=2), Partial(year=None, month=1, day=2),
                Partial(hour=[], minute=1, second=2, microsecond=3),
                datetime.date(2020, 2, 3), datetime.time(1, 2),
                '2020-01-01', 0, None, datetime.timedelta(1),
                Partial(year=1 << 80, month=1, day=1, hour=1, minute=1,
                        second=1, microsecond=1)]
    elif t in ('String', 'Bytes'):
        out += ['a\0b', '\ud800', b'\xff\0', 5, ['a'], ['a', 'b'], {'a': 1},
                np.array(['a']), np.array([b'a', b'b']), object(), 1j,
                'spam', b'spam', bytearray(b'x'), np.str_('s'), -1]
    else:
        out += [[True, False], [], np.array([True, False]), 'x', 'True',
                object(), np.array([]), [[1], []], {'a': 1}, 2, None, b'']
    return out


def bad_keys(rng, shape):
    yield len(shape) * (0,) + (0,)
    yield 'spam'
    yield 1.5
    yield object()
    if shape:
        yield shape[0]
        yield -shape[0] - 1
        yield (0,) * (len(shape) - 1) + (shape[-1] + rng.randint(0, 2),)
        yield [0, shape[0] + 3]
        yield np.ones(shape[0] + 1, dtype=bool)
        yield slice(None, None, 0)


def bad_elements(rng, shape, dt):
    n = shape[0] if shape else 1
    yield 'spam'
    yield object()
    yield [1] * max(n - 1, 0) + ['x']
    yield [0] + [1 << 70] * max(n - 1, 1)
    yield np.array([1] * max(n - 1, 0) + ['x'], dtype=object)
    yield np.array(['1'] * max(n - 1, 0) + ['x'])
    yield np.ones((min(n, 4) + 1,) * (len(shape) + 1), dtype=dt)
    yield np.ones(n + 1, dtype=dt)
    # As many elements, but of another shape.
    size = int(np.prod(shape, dtype=int))
    if 1 < size < 1000:
        yield np.ones(shape[::-1], dtype=dt)
        yield np.ones((size,), dtype=dt)
        yield np.ones((size, 1), dtype=dt)
        yield np.ones(shape + (1,), dtype=dt)
        yield np.ones(shape[1:] + shape[:1], dtype=dt)
    yield [1, [2, 3]]
    yield Hostile(ValueError)
    yield 1 << 70
    yield [[1, 2, 'x']] * n
    if dt.kind in 'iu':
        yield [0] * max(n - 1, 0) + [np.iinfo(dt).max + 1]
        yield np.iinfo(dt).min - 1


def bad_sizes(rng, shape, limit=None):
    """Sizes to be rejected, most of them acceptable in a part."""
    if shape:
        # Only the last dimension is bad, the others change.
        other = tuple(max(n + rng.choice((-1, 1)), 0) for n in shape[:-1])
        if limit:
            other = tuple(n if m is None else min(n, m)
                          for n, m in zip(other, limit))
            if limit[-1] is not None:
                for _ in range(8):
                    yield other + (limit[-1] + rng.randint(1, 3),)
                yield tuple(limit[-1] + 1 for _ in shape)
        for last in (-1, None, 'x', 1.5, (1,), [2], object()):
            yield other + (last,)
        grown = tuple(max(n - 1, 0) for n in shape)
        yield grown + (1,)
        yield grown + (0, 0)
        if len(shape) > 1:
            yield grown[:-1]
            yield grown[0]
    yield shape + (1,)
    yield shape[:-1]
    yield (-1,) * len(shape)
    yield 'x'
    yield None
    yield (None,) * len(shape)
    yield tuple(n + 0.5 for n in shape)
    yield shape[:-1] + ('3',)
    yield tuple(n + 7 for n in shape)


@contextlib.contextmanager
def engine_failure(active):
    if not active:
        yield
        return
    import h5py
    orig = h5py.Group.create_dataset

    def failing(*args, **kw):
        raise OSError('No space left on device')

    h5py.Group.create_dataset = failing
    try:
        yield
    finally:
        h5py.Group.create_dataset = orig


def attempt(ctx, backend, spec, model, storage):
    """One hostile operation. Returns (kind, path, detail, function)."""
    rng = ctx.rng
    nodes = list(M.walk(model))
    path, target = rng.choice(nodes)
    if not isinstance(target, M.Item) and rng.random() < 0.8:
        candidates = [(p, n) for p, n in nodes if isinstance(n, M.Item)]
        if candidates:
            path, target = rng.choice(candidates)
    if not isinstance(target, M.Item) or rng.random() < 0.05:
        other = gen.gen_item(rng, gen.Opts(), rng.choice(gen.ITEM_TYPES))
        if gen.spec_hash(other) == gen.spec_hash(target.spec):
            return None
        source = stor.new(ctx, 'inmem', other)
        if rng.random() < 0.8:
            source.data.replace(gen.gen_leaf(rng, other))
        return ('load_from', path, target, gen.describe(other),
                lambda node: node.load_from(source.data))
    t = target.spec['t']
    if t == 'Array' and not target.empty and rng.random() < 0.5:
        shape, dt = target.value.shape, target.value.dtype
        if rng.random() < 0.3:
            size = rng.choice(list(bad_sizes(rng, shape,
                                             target.spec['max_shape'])))
            return ('resize', path, target, repr(size),
                    lambda node: node.resize(size))
        if rng.random() < 0.6:
            key = rng.choice((Ellipsis, slice(None), ops.gen_key(rng, shape)))
            value = rng.choice(list(bad_elements(rng, shape, dt)))
        else:
            key = rng.choice(list(bad_keys(rng, shape)))
            value = rng.choice((1, 'x', [1, 2]))

        def assign(node):
            node[key] = value
        return ('assign', path, target, ops.short('[%r] = %r' % (key, value)),
                assign)
    value = rng.choice(hostile_values(rng, target.spec, target.value))
    if rng.random() < 0.5:
        def setter(node):
            node.value = value
        return 'set', path, target, describe_value(value), setter
    return ('replace', path, target, describe_value(value),
            lambda node: node.replace(value))


def describe_value(value):
    return ops.short('%s %r' % (type(value).__name__, value))


def run_case(ctx):
    warnings.simplefilter('ignore')
    rng = ctx.rng
    backend = gen.ALL_BACKENDS[ctx.case % 4]
    want = gen.ITEM_TYPES[ctx.case // 4 % 8]
    o = stor.opts_for(backend, big=0, set_on_create=False)
    spec = gen.gen_spec(rng, o, rng.choice((0, 1, 1, 2)))
    if rng.random() < 0.5:
        spec = {'t': 'Compilation', 'desc': '', 'optionals': [], 'fields': {
            'a': gen.gen_item(rng, o, want), 'b': gen.gen_item(rng, o, want),
            'c': spec}}
    model = M.from_tree(spec, gen.gen_tree(rng, spec, big=0))
    ctx.log('%s %s' % (backend, gen.describe(spec)))
    storage = stor.new(ctx, backend, spec)
    M.set_tree(storage.data, spec, model.tree())
    kinds = []
    for round_ in range(rng.randint(1, 2)):
        if backend != 'inmem' and rng.random() < 0.4:
            storage = reload(ctx, storage, spec, model, 'prepared')
        for _ in range(rng.randint(8, 16)):
            step(ctx, backend, spec, model, storage, kinds)
        bad = oracle.invalid_nodes(model)
        oracle.judge_validation(ctx, 'after rejected assignments',
                                storage.validate, bad)
        if backend != 'inmem':
            storage = reload(ctx, storage, spec, model,
                             'after rejected assignments')
            ctx.event('reloaded')
    ctx.sample = '%s: %s' % (backend, kinds[:6])


def reload(ctx, storage, spec, model, what):
    storage.save(force=True)
    ctx.event('saved')
    stor.expect_state(ctx, storage, spec, model.canon(), what + ' and saved')
    path = storage.storage_path
    storage = None
    stor.drop()
    storage = stor.load(path, force=True)
    stor.expect_state(ctx, storage, spec, model.canon(), what + ' and loaded')
    return storage


def ignored(ctx, backend, storage, spec, model, planned, what):
    """Whatever cannot be done must be reported, not ignored."""
    kind, path, target, _, fn = planned
    same = not M.diff(model.canon(), M.observe(storage.data, spec))
    if kind == 'assign' and backend != 'hdf5':
        # Element assignments are those of NumPy.
        expected = target.value.copy()
        try:
            fn(expected)
        except Exception as err:  # pylint: disable=broad-except
            ctx.fail('%s was accepted instead of %s' % (what,
                                                        type(err).__name__))
        got = M.find(storage.data, path).value
        if M.canon(got) != M.canon(expected):
            ctx.fail('%s: got %r, NumPy gives %r' % (what, got, expected))
        ctx.event('like_numpy')
    elif same and 'Hostile(' in what:
        ctx.fail('%s was ignored' % what)
    elif same and 'Partial(' in what and backend != 'inmem':
        ctx.fail('%s was ignored' % what)


def step(ctx, backend, spec, model, storage, kinds):
    rng = ctx.rng
    planned = attempt(ctx, backend, spec, model, storage)
    if planned is None:
        return
    kind, path, target, detail, fn = planned
    failing = (backend == 'hdf5' and kind in ('set', 'replace')
               and rng.random() < 0.15)
    if failing:
        # A perfectly acceptable value, which just cannot be stored.
        value = gen.gen_leaf(rng, target.spec)
        detail = 'good value, failing engine'

        def fn(node):
            node.replace(value)
    node = M.find(storage.data, path)
    what = '%s of %s with %s' % (kind, M.path_str(path), detail)
    ctx.log(what)
    t = target.spec['t']
    planned = kind, path, target, detail, fn
    try:
        with engine_failure(failing):
            fn(node)
    except Exception as err:  # pylint: disable=broad-except
        error = type(err).__name__
        ctx.log('  %s' % error)
        stor.expect_state(ctx, storage, spec, model.canon(),
                          '%s raised %s' % (what, error))
        ctx.event('rejected_' + kind)
        if isinstance(target, M.Item):
            ctx.event('rejected_%s_%s' % (t, backend))
            ctx.event('rejected_' + ('empty' if target.empty else 'filled'))
        if failing:
            ctx.event('rejected_engine')
        if node.empty != target.empty or node.complete != target.complete:
            ctx.fail('%s raised %s, now empty=%s, complete=%s' % (
                what, error, node.empty, node.complete))
        key = (backend, t, target.empty, kind, detail, error)
        kinds.append(key)
        ctx.state(key)
        if rng.random() < 0.3 and isinstance(target, M.Item):
            # The node must still be usable.
            value = gen.gen_leaf(rng, target.spec)
            node.replace(M.copy_value(value))
            target.replace(value)
            stor.expect_state(ctx, storage, spec, model.canon(),
                              'assigned after ' + what)
        return
    ctx.event('accepted')
    if kind == 'load_from':
        ctx.fail('%s was not rejected' % what)
    ignored(ctx, backend, storage, spec, model, planned, what)
    # Not rejected here, so put the node into a known state again.
    if rng.random() < 0.2:
        node.clear()
        target.clear()
    else:
        value = gen.gen_leaf(rng, target.spec)
        node.replace(M.copy_value(value))
        target.replace(value)
    stor.expect_state(ctx, storage, spec, model.canon(), 'reset after ' + what)
