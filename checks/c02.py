"""C02: structure, item order and emptiness survive save and reload."""
from lib import gen, model as M, stor

PROP = 'C02'
RULE = ('A case generates a nested schema and a partial filling, saves it, '
        'loads a byte snapshot of the file and walks both trees (fields, '
        'list lengths, position and value of every item, empty nodes), then '
        'saves and loads again, with an additional change in between in half '
        'of the cases. Non-trivial: at least one filled item or list entry. '
        'Distinct: (backend, schema, canonical state).')
CASES = {'quick': 4200, 'thorough': 60000}
MIN_EVENTS = ('reloads', 'filled_items', 'empty_items', 'list_entries')
ASSUMPTIONS = ['field names: identifiers that are not attributes of the data '
               'nodes; mat: ASCII, starting with a letter, at most 63 '
               'characters']


def run_case(ctx):
    rng = ctx.rng
    backend = gen.FILE_BACKENDS[ctx.case % 3]
    o = stor.opts_for(backend, big=0.02, constraints=0.25,
                      item_types=rng.choice((gen.ITEM_TYPES,
                                             ('Bool', 'Scalar'),
                                             ('String', 'Array'))))
    spec = gen.gen_spec(rng, o, rng.choice((1, 2, 2, 3, 3, 4, 5)))
    tree = gen.gen_tree(rng, spec, big=o.big)
    cycle(ctx, backend, spec, tree)


def cycle(ctx, backend, spec, tree, turns=2):
    rng = ctx.rng
    model = M.from_tree(spec, tree)
    ctx.log('%s %s' % (backend, gen.describe(spec)))
    storage = stor.filled(ctx, backend, spec, tree)
    for turn in range(1, turns + 1):
        expected = model.canon()
        stor.expect_state(ctx, storage, spec, expected,
                          '%s before save %d' % (backend, turn))
        storage.save()
        storage = stor.load(stor.snapshot(ctx, storage, backend))
        ctx.event('reloads')
        stor.expect_state(ctx, storage, spec, expected,
                          '%s after reload %d' % (backend, turn))
        names(ctx, storage.data, spec)
        filled, empty, entries = M.count_items(expected)
        ctx.event('filled_items', filled)
        ctx.event('empty_items', empty)
        ctx.event('list_entries', entries)
        if filled or entries:
            ctx.state((backend, gen.describe(spec), M.freeze(expected)))
        ctx.sample = '%s %s, %d filled, %d empty, %d list entries' % (
            backend, gen.describe(spec), filled, empty, entries)
        if turn < turns and rng.random() < 0.5:
            change(rng, model, storage.data)


def change(rng, model, node):
    """Some changes which keep the data valid: clear or refill items."""
    targets = [(p, i) for p, i in M.items(model)
               if not (i.spec['t'] == 'Array')]
    rng.shuffle(targets)
    for path, item in targets[:3]:
        real = M.find(node, path)
        if item.value is None or rng.random() < 0.4:
            value = gen.gen_leaf(rng, item.spec)
            item.replace(value)
            real.value = value
        else:
            item.clear()
            real.clear()


def names(ctx, node, spec):
    """The loaded compilation has exactly the expected fields."""
    if spec['t'] == 'Compilation':
        got = set(node.data_tree(include_empty=True))
        if got != set(spec['fields']):
            ctx.fail('fields %s instead of %s' % (sorted(got),
                                                  sorted(spec['fields'])))
        for n, sub in spec['fields'].items():
            names(ctx, getattr(node, n), sub)
    elif spec['t'] == 'List':
        for i in range(len(node)):
            names(ctx, node[i], spec['sub'])


# ---------------------------------------------------------- directed

BOOL = {'t': 'Bool'}
I32 = {'t': 'Scalar', 'dtype': 'int32', 'unit': '', 'max_value': None,
       'min_value': None}
ARR = {'t': 'Array', 'dtype': 'float64', 'unit': '', 'ndim': 1,
       'max_shape': None, 'min_shape': None, 'max_value': None,
       'min_value': None, 'depends_on': None}


def L(sub):
    return {'t': 'List', 'sub': sub, 'max': None, 'min': None}


def C(**fields):
    return {'t': 'Compilation', 'fields': fields, 'optionals': []}


def _masks(backend):
    """Every pattern of filled and empty items in small structures."""
    def run(ctx):
        import numpy as np
        for n in range(0, 5):
            for mask in range(2 ** n):
                one = [np.int32(i) if mask >> i & 1 else None
                       for i in range(n)]
                cycle(ctx, backend, L(I32), one, 1)
                comp = [{'x': v, 'y': None if i % 2 else v}
                        for i, v in enumerate(one)]
                cycle(ctx, backend, L(C(x=I32, y=I32)), comp, 1)
                cycle(ctx, backend, C(a=L(I32), b=BOOL),
                      {'a': one, 'b': True if n % 2 else None}, 1)
                lists = [[v] if v is not None else [] for v in one]
                cycle(ctx, backend, L(L(I32)), lists, 1)
                lists = [[v, None] if v is not None else [None] for v in one]
                cycle(ctx, backend, L(L(I32)), lists, 1)
        for tree in ({'a': None}, {'a': {}}, ):
            pass
        cycle(ctx, backend, C(), {}, 2)
        cycle(ctx, backend, C(a=C(), b=L(C())), {'a': {}, 'b': [{}, {}]}, 2)
        cycle(ctx, backend, L(C()), [{}, {}, {}], 2)
        cycle(ctx, backend, L(L(L(BOOL))), [[[]], [], [[], [None, True]]], 2)
        cycle(ctx, backend, BOOL, None, 2)
        cycle(ctx, backend, L(BOOL), [], 2)
    return run


def _long(backend):
    def run(ctx):
        import numpy as np
        for n in (9, 10, 11, 12, 99, 101, 120, 1001):
            step = max(1, n // 7)
            cycle(ctx, backend, L(I32),
                  [None if i % step == 3 else np.int32(i)
                   for i in range(n)], 1)
        # One item is empty or all but one, in lists with bounds.
        for n in (2, 3, 10, 11, 12, 21):
            for i in range(n):
                for lo, hi in ((None, None), (None, n), (n, None), (1, n + 9)):
                    spec = dict(L(I32), min=lo, max=hi)
                    values = [np.int32(j) for j in range(n)]
                    values[i] = None
                    cycle(ctx, backend, spec, values, 1)
                    if hi and i % 3 == 0:
                        cycle(ctx, backend, dict(L(L(I32)), min=lo, max=hi),
                              [[] if v is None else [v] for v in values], 1)
                        cycle(ctx, backend, dict(L(C(x=I32)), max=hi),
                              [{'x': None if i != j else v}
                               for j, v in enumerate(
                                   map(np.int32, range(n)))], 1)
        for n in (11, 25, 111):
            cycle(ctx, backend, L(C(x=I32, y=L(BOOL))),
                  [{'x': np.int32(i) if i % 4 else None,
                    'y': [bool(i % 2)] * (i % 3)} for i in range(n)], 1)
            cycle(ctx, backend, C(a=L(L(I32))),
                  {'a': [[np.int32(j) for j in range(i % 13)]
                         for i in range(n)]}, 1)
    return run


def _names(backend):
    """Every field name, alone and among others, filled and empty."""
    def run(ctx):
        import numpy as np
        names = gen.names_for(backend != 'mat')
        for i, name in enumerate(names):
            other = names[(i + 1) % len(names)]
            cycle(ctx, backend, C(**{name: I32, other: I32}),
                  {name: np.int32(i), other: None}, 1)
            cycle(ctx, backend, C(**{name: C(**{name: L(I32)})}),
                  {name: {name: [np.int32(i), None, np.int32(2)]}}, 1)
        cycle(ctx, backend, C(**{n: I32 for n in names}),
              {n: np.int32(i) for i, n in enumerate(names)}, 1)
        cycle(ctx, backend, L(C(**{n: I32 for n in names})),
              [{n: np.int32(i) if i % 3 else None
                for i, n in enumerate(names)}], 1)
    return run


def _deep(backend):
    """Chains of nested nodes, much deeper than usual schemas."""
    def run(ctx):
        import numpy as np
        for depth in (5, 6, 7, 8, 10, 13, 20):
            for kinds in ('C', 'L', 'CL', 'LC', 'CCL', 'LLC'):
                spec, full, bare = I32, np.int32(depth), None
                for i in range(depth):
                    if kinds[i % len(kinds)] == 'C':
                        name = 'f%d' % (i % 3)
                        spec = C(**{name: spec, 'x': BOOL})
                        full = {name: full, 'x': bool(i % 2)}
                        bare = {name: bare, 'x': None}
                    else:
                        spec = L(spec)
                        full, bare = [full, bare], [bare]
                cycle(ctx, backend, spec, full, 1)
                cycle(ctx, backend, spec, bare, 1)
    return run


def directed():
    return [f(b) for f in (_masks, _long, _names, _deep) for b in gen.FILE_BACKENDS]


def _probe_mat_names(ctx):
    import numpy as np
    for name in ('_x', '1x'):
        spec = C(**{name: I32, 'b': I32})
        storage = stor.filled(ctx, 'mat', spec,
                              {name: np.int32(1), 'b': np.int32(2)})
        storage.save()
        got = stor.load(stor.snapshot(ctx, storage, 'mat'))
        if getattr(got.data, name).empty:
            ctx.fail('mat drops the field %s' % name)


def _probe_npz_schema_field(ctx):
    """A top-level field named like the schema entry of npz files."""
    spec = gen.comp({'_schema': gen.plain('String'), 'a': gen.plain('Bool')})
    storage = stor.filled(ctx, 'npz', spec, {'_schema': 'text', 'a': True})
    storage.save()
    loaded = stor.load(storage.storage_path)
    if M.read(getattr(loaded.data, '_schema')) != M.canon('text'):
        ctx.fail('npz loses a field named _schema')


def known():
    return [('mat-field-name-start', _probe_mat_names),
            ('npz-field-named-schema', _probe_npz_schema_field)]
