"""C03: a load shows exactly the state of the last save."""
import numpy as np

from lib import gen, model as M, ops, stor

PROP = 'C03'
RULE = ('A case is a history of sessions over one file: create or load, '
        'random operations, saves (plain when valid, forced otherwise), more '
        'operations, drop, reload. After every save a byte snapshot is '
        'loaded and compared to the model; for npz and mat the file must not '
        'change a byte between saves and a reload must show the last saved '
        'state. Non-trivial: a save that changed the stored state. Distinct: '
        '(backend, schema, saved state).')
CASES = {'quick': 2600, 'thorough': 30000}
MIN_EVENTS = ('saves', 'sessions', 'operations', 'unsaved_checks',
              'near_pairs')
ASSUMPTIONS = ['HDF5 edits made after a save may reach the file (write-'
               'through), so HDF5 sessions end with a save']


def save(ctx, storage, backend, spec, model, force=None):
    if force is None:
        force = ctx.rng.random() < 0.5
    if not force:
        try:
            storage.validate()
        except Exception:  # pylint: disable=broad-except
            force = True
    ctx.log('save force=%s' % force)
    storage.save(force=force)
    ctx.event('saves')
    expected = model.canon()
    copy = stor.load(stor.snapshot(ctx, storage, backend), force=True)
    stor.expect_state(ctx, copy, spec, expected,
                      '%s: snapshot loaded after save' % backend)
    stor.expect_state(ctx, storage, spec, expected,
                      '%s: storage after save' % backend)
    if any(M.count_items(expected)):
        ctx.state((backend, gen.describe(spec), M.freeze(expected)))
    return expected


def do_ops(ctx, storage, spec, model, n, source):
    for _ in range(n):
        op = ops.gen_op(ctx.rng, model)
        ctx.log(ops.show_op(op))
        ops.apply_model(model, op)
        ops.apply_real(storage.data, op, source)
        ctx.event('operations')
        ctx.event('op_' + op['op'])


def run_case(ctx):
    rng = ctx.rng
    backend = gen.FILE_BACKENDS[ctx.case % 3]
    o = stor.opts_for(backend, big=0.01, max_fields=4, constraints=0.3,
                      depends=0.1)
    spec = gen.gen_spec(rng, o, rng.choice((0, 1, 2, 2, 3)))
    history(ctx, backend, spec, rng.randint(1, 4))


def history(ctx, backend, spec, sessions):
    rng = ctx.rng
    source = ops.inmem_source(spec)
    ctx.log('%s %s' % (backend, gen.describe(spec)))
    storage = stor.new(ctx, backend, spec)
    path = storage.storage_path
    model = M.make(spec)
    saved = None
    for session in range(sessions):
        ctx.event('sessions')
        for _ in range(rng.randint(1, 3)):
            do_ops(ctx, storage, spec, model, rng.randint(0, 6), source)
            saved = save(ctx, storage, backend, spec, model)
            saved_tree = model.tree()
        if backend != 'hdf5' and rng.random() < 0.7:
            before = stor.digest(path)
            do_ops(ctx, storage, spec, model, rng.randint(1, 6), source)
            if rng.random() < 0.3:
                repr(storage.data)
                storage.data.data_tree(True)
            if stor.digest(path) != before:
                ctx.fail('%s: file changed by unsaved edits' % backend)
            ctx.event('unsaved_checks')
        if backend == 'hdf5' or rng.random() < 0.7:
            stor.drop(storage)
        storage = None
        ctx.log('reload')
        storage = stor.load(path, force=True)
        model = M.from_tree(spec, saved_tree)
        stor.expect_state(ctx, storage, spec, saved,
                          '%s: reload after session %d' % (backend, session))
    ctx.sample = '%s %s: %s' % (backend, gen.describe(spec),
                                '; '.join(ctx.log_lines[1:12]))


# ---------------------------------------------------------- directed

def _shrink(backend):
    """Save much, then less, for every kind of reduction."""
    def run(ctx):
        import numpy as np
        I = {'t': 'Scalar', 'dtype': 'int32', 'unit': '', 'max_value': None,
             'min_value': None}
        S = {'t': 'String', 'max': None, 'min': None}
        B = {'t': 'Bytes', 'max': None, 'min': None}
        A = {'t': 'Array', 'dtype': 'int16', 'unit': '', 'ndim': 2,
             'max_shape': None, 'min_shape': None, 'max_value': None,
             'min_value': None, 'depends_on': None}

        def L(sub):
            return {'t': 'List', 'sub': sub, 'max': None, 'min': None}
        inner = {'t': 'Compilation', 'optionals': [],
                 'fields': {'i': I, 's': S, 'l': L(L(I))}}
        spec = {'t': 'Compilation', 'optionals': [],
                'fields': {'c': inner, 'lc': L(inner), 'b': B, 'a': A,
                           's': S}}
        one = {'i': np.int32(7), 's': 'some text',
               'l': [[np.int32(1), np.int32(2)], [], [np.int32(3)]]}
        full = {'c': one, 'lc': [one] * 12, 'b': b'\0abc\0' * 20,
                'a': np.arange(12, dtype='int16').reshape(3, 4),
                's': 'long ' * 30}
        less = {'c': {'i': None, 's': '', 'l': [[np.int32(9)]]},
                'lc': [{'i': None, 's': None, 'l': []}, one], 'b': b'',
                'a': np.zeros((0, 2), 'int16'), 's': 'x'}
        none = {'c': {'i': None, 's': None, 'l': []}, 'lc': [], 'b': None,
                'a': None, 's': None}
        states = [full, less, full, none, less, none, full]
        for how in ('ops', 'reload'):
            storage = stor.new(ctx, backend, spec)
            for tree in states:
                model = M.from_tree(spec, tree)
                for name, sub in spec['fields'].items():
                    node = getattr(storage.data, name)
                    node.clear()
                    value = M.prune({name: tree[name]})
                    storage.data.replace(value)
                save(ctx, storage, backend, spec, model, True)
                if how == 'reload':
                    path = storage.storage_path
                    stor.drop(storage)
                    storage = None
                    storage = stor.load(path, force=True)
                ctx.event('operations')
            ctx.event('sessions')
    return run


def _near(backend):
    """Tiny changes between two saves of the same storage."""
    def run(ctx):
        for i, (sub, a, b) in enumerate(gen.near_pairs()):
            spec = sub
            where = ()
            if i % 3 == 1:
                spec, where = gen.listof(sub), (0,)
            elif i % 3 == 2:
                spec = {'t': 'Compilation', 'optionals': [],
                        'fields': {'u': sub, 'v': gen.plain('String')}}
                where = ('u',)
            ctx.log('%s %s' % (backend, gen.describe(spec)))
            model = M.make(spec)
            storage = stor.new(ctx, backend, spec)
            path = storage.storage_path
            if where == (0,):
                model.append()
                storage.data.append()
            for n, value in enumerate((a, b, b, a, a, b)):
                node = M.find(storage.data, where)
                mnode = M.mfind(model, where)
                how = n % 3 if gen.is_item(sub) else 0
                if how and sub['t'] == 'Array' and a.shape == b.shape:
                    key = np.nonzero(np.asarray(a != b)
                                     | (np.signbit(a.real)
                                        != np.signbit(b.real)))
                    for k in zip(*key):
                        node[k] = value[k]
                elif how == 1:
                    node.clear()
                    node.value = M.copy_value(value)
                else:
                    M.set_tree(node, sub, value)
                M.fill(mnode, value)
                ctx.event('operations')
                save(ctx, storage, backend, spec, model,
                     n >= 2 or n == 0)
                if n == 3 or n == 4 and i % 2:
                    stor.drop(storage)
                    storage = None
                    storage = stor.load(path, force=True)
            ctx.event('near_pairs')
    return run


def directed():
    return ([_shrink(b) for b in gen.FILE_BACKENDS]
            + [_near(b) for b in gen.FILE_BACKENDS])
