"""C29: failed operations leave a consistent and usable storage."""
import contextlib
import warnings

from lib import gen, model as M, ops, oracle, stor
from checks import c05, c23

PROP = 'C29'
RULE = ('A case runs failing operations on containers (append, replace and '
        'load_from with values that are bad somewhere inside: rejected '
        'leaves, unknown fields, wrong containers, iterators that raise '
        'half-way, interrupts, an engine that stops storing after k datasets; '
        'bad indices and names) between valid ones. After a failure, all '
        'nodes outside the target, earlier items of an extended list and '
        'fields which were not named must be as before, and whatever the '
        'target then shows is the state from which all following operations, '
        'validation, completeness, saving and reloading are judged by the '
        'model. Distinct: (backend, schema, failing operation, error).')
CASES = {'quick': 2000, 'thorough': 30000}
OPS = ('append', 'replace_list', 'replace_comp', 'load_from', 'index', 'name')
MIN_EVENTS = tuple('failed_%s_%s' % (k, b) for k in OPS
                   for b in gen.ALL_BACKENDS) + (
    'bad_leaf', 'bad_container', 'bad_iterator', 'bad_name', 'interrupted',
    'engine', 'engine_failed', 'partly', 'untouched', 'valid_op', 'reloaded',
    'accepted', 'unnamed')


class Raising:
    """An iterable that fails after some items."""

    def __init__(self, items, exc):
        self.items_ = items
        self.exc = exc

    def __iter__(self):
        yield from self.items_
        raise self.exc('no more items')

    def items(self):
        yield from self.items_
        raise self.exc('no more fields')

    def __repr__(self):
        return 'Raising(%d, %s)' % (len(self.items_), self.exc.__name__)


@contextlib.contextmanager
def engine_stops(after):
    """h5py cannot create more than some datasets."""
    import h5py
    orig = h5py.Group.create_dataset
    left = [after]

    def create(*args, **kw):
        if left[0] <= 0:
            raise OSError('No space left on device')
        left[0] -= 1
        return orig(*args, **kw)

    h5py.Group.create_dataset = create
    try:
        yield left
    finally:
        h5py.Group.create_dataset = orig


def raw(node, spec):
    """The tree of actual values below a node."""
    t = spec['t']
    if t == 'Compilation':
        return {n: raw(getattr(node, n), s) for n, s in spec['fields'].items()}
    if t == 'List':
        return [raw(node[i], spec['sub']) for i in range(len(node))]
    return None if node.empty else M.copy_value(node.value)


def normalise(ctx, node, spec, value):
    """Give values up which may have been accepted wrongly."""
    t = spec['t']
    if t == 'Compilation':
        for n, v in named(spec, value).items():
            normalise(ctx, getattr(node, n), spec['fields'][n], v)
    elif t == 'List':
        for i in range(len(node)):
            normalise(ctx, node[i], spec['sub'], ALL)
    elif not node.empty:
        ctx.event('normalised')
        if ctx.rng.random() < 0.5:
            node.clear()
        else:
            node.replace(gen.gen_leaf(ctx.rng, spec, big=0))


def size_of(tree, path):
    for p in path:
        tree = tree[p]
    return len(tree)


ALL = object()


def named(spec, value):
    """The fields of a compilation which replacing by a value may touch."""
    if value is ALL:
        return {n: ALL for n in spec['fields']}
    if isinstance(value, Raising):
        value = dict(value.items_)
    if not isinstance(value, dict):
        return {}
    return {n: v for n, v in value.items() if n in spec['fields']}


def unnamed(ctx, what, spec, value, before, now, path):
    """Fields without a new value must keep theirs."""
    if spec['t'] == 'Compilation':
        names = named(spec, value)
        for n, s in spec['fields'].items():
            if n in names:
                unnamed(ctx, what, s, names[n], before[n], now[n],
                        path + (n,))
                continue
            ctx.event('unnamed')
            d = M.diff(before[n], now[n], path + (n,))
            if d:
                ctx.fail('%s, but changed an unnamed field: %s' % (what, d))


def spoil(ctx, spec, tree):
    """A value like the tree (as for replace()), but bad somewhere."""
    rng = ctx.rng
    t = spec['t']
    r = rng.random()
    if t == 'Compilation':
        value = {k: M.prune(v) for k, v in tree.items()
                 if v is not None and rng.random() < 0.8}
        if r < 0.1 or not spec['fields']:
            ctx.event('bad_container')
            return rng.choice((5, [value], object(), 'spam', [1, 2], ()))
        if r < 0.3:
            ctx.event('bad_name')
            names = ['unknown', '_subnodes', 'parent', 'clear', '', 'x  y',
                     '\0', 'Unknown', 'fields', '..']
            for name in rng.sample(names, rng.choice((1, 1, 2, 4, 10))):
                if name not in spec['fields']:
                    value[name] = 1
            value['unknown '] = 1
            return shuffled(rng, value)
        if r < 0.45:
            ctx.event('bad_iterator')
            part = list(value.items())
            return Raising(part[:rng.randint(0, len(part))], interrupt(ctx))
        name = rng.choice(list(spec['fields']))
        value[name] = spoil(ctx, spec['fields'][name], tree[name])
        return shuffled(rng, value)
    if t == 'List':
        value = [M.prune(v) for v in tree]
        if r < 0.12:
            ctx.event('bad_container')
            return rng.choice((5, object(), 1.5, True))
        if r < 0.35:
            ctx.event('bad_iterator')
            return Raising(value[:rng.randint(0, len(value))], interrupt(ctx))
        at = rng.randint(0, len(value))
        value.insert(at, spoil(ctx, spec['sub'], gen.gen_tree(
            rng, spec['sub'], big=0.0)))
        return value
    ctx.event('bad_leaf')
    return rng.choice(c23.hostile_values(rng, spec, None) + [
        c23.Hostile(interrupt(ctx)), rng.choice(c05.FOREIGN)])


def interrupt(ctx):
    exc = ctx.rng.choice((ValueError, OSError, KeyboardInterrupt, MemoryError,
                          StopIteration, RuntimeError))
    if exc is KeyboardInterrupt:
        ctx.event('interrupted')
    return RuntimeError if exc is StopIteration else exc


def shuffled(rng, value):
    keys = list(value)
    rng.shuffle(keys)
    return {k: value[k] for k in keys}


def run_case(ctx):
    warnings.simplefilter('ignore')
    rng = ctx.rng
    backend = gen.ALL_BACKENDS[ctx.case % 4]
    o = stor.opts_for(backend, big=0, constraints=0.2, set_on_create=False)
    spec = gen.gen_spec(rng, o, rng.randint(1, 3),
                        rng.choice(('List', 'Compilation')))
    if rng.random() < 0.3:
        spec = {'t': 'Compilation', 'desc': '', 'optionals': [], 'fields': {
            'a': gen.listof(gen.gen_comp(rng, o, 1)), 'b': spec}}
    model = M.from_tree(spec, gen.gen_tree(rng, spec, big=0))
    ctx.log('%s %s' % (backend, gen.describe(spec)))
    storage = stor.new(ctx, backend, spec)
    M.set_tree(storage.data, spec, model.tree())
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        if r < 0.2:
            op = ops.gen_op(rng, model)
            ctx.log(ops.show_op(op))
            ops.apply_model(model, op)
            ops.apply_real(storage.data, op, ops.inmem_source(spec))
            stor.expect_state(ctx, storage, spec, model.canon(),
                              'after ' + ops.show_op(op))
            ctx.event('valid_op')
        elif r < 0.32 and backend != 'inmem':
            storage = c23.reload(ctx, storage, spec, model, 'in between')
            ctx.event('reloaded')
        else:
            model = fail(ctx, backend, spec, storage, model)
    bad = oracle.invalid_nodes(model)
    oracle.judge_validation(ctx, 'after failures', storage.validate, bad)
    if backend != 'inmem':
        storage = c23.reload(ctx, storage, spec, model, 'at the end')
        # Nothing has been left behind for the next items, either.
        for path, node in list(M.walk(model)):
            if isinstance(node, M.List):
                M.find(storage.data, path).append()
                node.append(None)
        stor.expect_state(ctx, storage, spec, model.canon(),
                          'items appended after failures')
        c23.reload(ctx, storage, spec, model, 'extended')
    ctx.sample = '; '.join(ctx.log_lines)[:400]


def plan(ctx, backend, spec, model):
    """(kind, path, description, function(node), engine)"""
    rng = ctx.rng
    nodes = [(p, n) for p, n in M.walk(model) if not isinstance(n, M.Item)]
    path, node = rng.choice(nodes)
    s = node.spec
    r = rng.random()
    if r < 0.08:
        return name_or_index(rng, path, node)
    tree = gen.gen_tree(rng, s, big=0)
    if backend == 'hdf5' and rng.random() < 0.35:
        # Good values, but the engine gives up.
        ctx.event('engine')
        after = rng.choice((0, 0, 1, 1, 2, 3, 5))
        if rng.random() < 0.3:
            source = ops.inmem_source(s)({'path': (), 'tree': tree})
            return ('load_from', path, ALL,
                    lambda n: n.load_from(source), after)
        if isinstance(node, M.List) and rng.random() < 0.6:
            value = M.prune(gen.gen_tree(rng, s['sub'], 1.0, big=0))
            return ('append', path, value,
                    lambda n: n.append(value), after)
        value = M.prune(tree)
        return ('replace_' + ('list' if isinstance(node, M.List) else 'comp'),
                path, value,
                lambda n: n.replace(value), after)
    if r < 0.16:
        other = gen.mutate_fillable(rng, s)
        source = stor.new(ctx, 'inmem', other)
        M.set_tree(source.data, other, gen.gen_tree(rng, other, big=0))
        return ('load_from', path, {},
                lambda n: n.load_from(source.data), None)
    if isinstance(node, M.List) and rng.random() < 0.6:
        value = spoil(ctx, s['sub'], gen.gen_tree(rng, s['sub'], big=0))
        return ('append', path, value, lambda n: n.append(value),
                None)
    value = spoil(ctx, s, tree)
    return ('replace_' + ('list' if isinstance(node, M.List) else 'comp'),
            path, value, lambda n: n.replace(value), None)


def name_or_index(rng, path, node):
    if isinstance(node, M.List):
        n = len(node.items)
        key = rng.choice((n, -n - 1, n + 5, 'x', None, 1.5, (0,), 1 << 80))
        return 'index', path, key, lambda real: real[key], None
    key = rng.choice(('unknown', 'x y', '0', 'Value', 'item_0'))
    if key in node.fields:
        return None
    if rng.random() < 0.5:
        return ('name', path, key, lambda real: getattr(real, key), None)

    def assign(real):
        setattr(real, key, 5)
    return 'name', path, '%s = 5' % key, assign, None


def fail(ctx, backend, spec, storage, model):
    """One failing operation; returns the model of the state after it."""
    bad_leaves = ctx.events.get('bad_leaf', 0)
    planned = plan(ctx, backend, spec, model)
    if planned is None:
        return model
    kind, path, value, fn, engine = planned
    detail = ops.short(value)
    if engine is not None:
        detail += ' (engine stops after %d)' % engine
    what = '%s of %s with %s' % (kind, M.path_str(path), detail)
    ctx.log(what)
    node = M.find(storage.data, path)
    before = model.canon()
    error = None
    try:
        if engine is None:
            fn(node)
        else:
            with engine_stops(engine):
                fn(node)
    except BaseException as err:  # pylint: disable=broad-except
        if type(err).__name__ == 'Inconclusive':
            raise
        error = type(err).__name__
        if engine is not None:
            ctx.event('engine_failed')
    ctx.log('  %s' % error)
    ctx.event('accepted' if error is None else 'failed_%s_%s' % (kind,
                                                                 backend))
    if kind == 'load_from' and engine is None and error is None:
        ctx.fail('%s was not rejected' % what)
    if ctx.events.get('bad_leaf', 0) > bad_leaves:
        # Wrong values may have been accepted before the failing one.
        s = ops.spec_at(spec, path)
        if kind == 'append':
            for i in range(size_of(before, path), len(node)):
                normalise(ctx, node[i], s['sub'], ALL)
        else:
            normalise(ctx, node, s, value)
    after = M.from_tree(spec, raw(storage.data, spec))
    now = after.canon()
    stor.expect_state(ctx, storage, spec, now, 'reading twice after ' + what)
    if error is None:
        return after
    ctx.event('partly' if M.diff(before, now) else 'untouched')
    what += ' raised ' + error
    before, now = judge(ctx, what, kind, path, before, now, engine is None)
    if kind == 'replace_comp':
        unnamed(ctx, what, ops.spec_at(spec, path), value, before, now, path)
    ctx.state((backend, gen.describe(spec), kind, detail, error))
    return after


def judge(ctx, what, kind, path, before, now, rejected):
    """Only the target may differ from the state before."""
    for i, p in enumerate(path):
        if isinstance(before, dict):
            d = M.diff({k: v for k, v in before.items() if k != p},
                       {k: v for k, v in now.items() if k != p}, path[:i])
        else:
            d = M.diff([v for k, v in enumerate(before) if k != p],
                       [v for k, v in enumerate(now) if k != p], path[:i])
        if d:
            ctx.fail('%s, but changed other nodes: %s' % (what, d))
        before, now = before[p], now[p]
    if kind in ('index', 'name') or (kind == 'load_from' and rejected):
        d = M.diff(before, now, path)
        if d:
            ctx.fail('%s, but %s' % (what, d))
    elif kind == 'append':
        d = M.diff(before, now[:len(before)], path)
        if d or len(now) > len(before) + 1:
            ctx.fail('%s, now %d items instead of %d: %s' % (
                what, len(now), len(before), d))
    return before, now
