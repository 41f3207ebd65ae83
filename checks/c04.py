"""C04: data nodes behave alike on every backend, like a plain model."""
from lib import gen, model as M, ops, stor

PROP = 'C04'
RULE = ('A case applies one random sequence of operations to four storages '
        '(HDF5, npz, mat, in-memory) of one schema, fresh or loaded, and to '
        'the reference model. After every operation all four trees are '
        'observed completely and compared with the model. Non-trivial: an '
        'operation that changed the model state. Distinct: (schema, state).')
CASES = {'quick': 2000, 'thorough': 14000}
MIN_EVENTS = ('operations', 'observations', 'op_set', 'op_clear', 'op_append',
              'op_replace', 'op_assign', 'op_resize', 'op_load_from',
              'op_read', 'near_values', 'attributes')
ASSUMPTIONS = ['array indices in the dialect common to numpy and h5py; sizes '
               'within max_shape; arguments are not modified by the caller '
               'afterwards']


def run_case(ctx):
    rng = ctx.rng
    o = gen.Opts(unicode_names=False, big=0.01, max_fields=4, max_depth=3,
                 constraints=0.35, depends=0.1,
                 item_types=rng.choice((gen.ITEM_TYPES, gen.ITEM_TYPES,
                                        ('Array',), ('Array', 'String'))))
    spec = gen.gen_spec(rng, o, rng.choice((0, 1, 1, 2, 2, 3)))
    lockstep(ctx, spec, rng.randint(3, 22))


def lockstep(ctx, spec, n):
    rng = ctx.rng
    ctx.log(gen.describe(spec))
    model = M.make(spec)
    storages = {}
    if rng.random() < 0.4:
        tree = gen.gen_tree(rng, spec)
        M.fill(model, tree)
        for b in gen.ALL_BACKENDS:
            storages[b] = stor.filled(ctx, b, spec, tree)
            if b != 'inmem':
                storages[b].save(force=True)
                storages[b] = stor.load(stor.snapshot(ctx, storages[b], b),
                                        force=True)
        ctx.log('start: loaded %s' % ops.short(tree, 600))
    else:
        for b in gen.ALL_BACKENDS:
            storages[b] = stor.new(ctx, b, spec)
    kept = {b: keep(s.data, spec) for b, s in storages.items()}
    source = ops.inmem_source(spec)
    last = model.canon()
    observe_all(ctx, storages, spec, last, 'start', kept)
    for i in range(n):
        op = ops.gen_op(rng, model)
        ctx.log(ops.show_op(op))
        want = ops.apply_model(model, op)
        ctx.event('operations')
        ctx.event('op_' + op['op'])
        for b, s in storages.items():
            root = s.data
            use = op
            # Nodes of compilation fields stay valid: use kept ones, too.
            if rng.random() < 0.3:
                prefix = longest(kept[b], op['path'])
                root = kept[b][prefix]
                use = dict(op, path=op['path'][len(prefix):])
            src = (lambda o_, p=op: source(p)) if use is not op else source
            got = ops.apply_real(root, use, src,
                                 lambda t, b=b: ctx.fail(b + ': ' + t))
            if want is not None and got != want:
                ctx.fail('%s: %s returned %s, expected %s' % (
                    b, ops.show_op(op), M.show(got), M.show(want)))
        now = model.canon()
        observe_all(ctx, storages, spec, now, 'after ' + ops.show_op(op),
                    kept)
        if M.diff(last, now):
            ctx.state((gen.describe(spec), M.freeze(now)))
        last = now
    for b, s in storages.items():
        attributes(ctx, b, s.data, spec, None, ())
    ctx.sample = '%s: %s' % (gen.describe(spec),
                             '; '.join(ctx.log_lines[1:10]))


def keep(node, spec, path=()):
    out = {path: node}
    if spec['t'] == 'Compilation':
        for n, sub in spec['fields'].items():
            out.update(keep(getattr(node, n), sub, path + (n,)))
    return out


def longest(kept, path):
    for i in range(len(path), -1, -1):
        if path[:i] in kept:
            return path[:i]
    return ()


def observe_all(ctx, storages, spec, expected, what, kept):
    for b, s in storages.items():
        stor.expect_state(ctx, s, spec, expected, '%s %s' % (b, what))
        lists(ctx, b, s.data, spec, what)
    b = ctx.rng.choice(list(kept))
    for path, node in kept[b].items():
        sub = ops.spec_at(spec, path)
        if sub['t'] in ('Compilation',):
            continue
        d = M.diff(M.observe(M.find(storages[b].data, path), sub),
                   M.observe(node, sub), path)
        if d:
            ctx.fail('%s %s: node obtained earlier differs: %s' % (b, what, d))


def attributes(ctx, b, node, spec, parent, path):
    """The documented attributes parent and schema_node."""
    if node.parent is not parent:
        ctx.fail('%s: the parent of %s is %r' % (b, M.path_str(path),
                                                 node.parent))
    if node.schema_node.hash() != gen.spec_hash(spec):
        ctx.fail('%s: the schema node of %s is %s' % (
            b, M.path_str(path), node.schema_node.to_json()))
    ctx.event('attributes')
    if spec['t'] == 'Compilation':
        for name, sub in spec['fields'].items():
            attributes(ctx, b, getattr(node, name), sub, node, path + (name,))
    elif spec['t'] == 'List':
        for i in range(len(node)):
            attributes(ctx, b, node[i], spec['sub'], node, path + (i,))


def lists(ctx, b, node, spec, what):
    """Indexing, slicing and iteration of lists agree with len()."""
    if spec['t'] == 'Compilation':
        for n, sub in spec['fields'].items():
            lists(ctx, b, getattr(node, n), sub, what)
    elif spec['t'] == 'List':
        n = len(node)
        nodes = [node[i] for i in range(n)]
        ok = (len(list(node)) == n
              and all(a is c for a, c in zip(list(node), nodes))
              and all(node[i - n] is nodes[i] for i in range(n))
              and len(node[1:3]) == len(nodes[1:3]))
        try:
            node[n]
            ok = False
        except IndexError:
            pass
        if not ok:
            ctx.fail('%s %s: list indexing is inconsistent' % (b, what))
        for c in nodes:
            lists(ctx, b, c, spec['sub'], what)


# ---------------------------------------------------------- directed

def _resizes(ctx):
    """All small resizes on every backend, also repeatedly."""
    import itertools
    import numpy as np
    for shape in ((0,), (1,), (3,), (5,), (0, 2), (2, 3), (3, 2), (2, 2, 2)):
        spec = {'t': 'Array', 'dtype': 'int32', 'unit': '', 'ndim': len(shape),
                'max_shape': None, 'min_shape': None, 'max_value': None,
                'min_value': None, 'depends_on': None}
        arr = np.arange(1, int(np.prod(shape)) + 1,
                        dtype='int32').reshape(shape)
        for new in itertools.product((0, 1, 2, 4), repeat=len(shape)):
            model = M.from_tree(spec, arr)
            sts = {b: stor.filled(ctx, b, spec, arr)
                   for b in gen.ALL_BACKENDS}
            for size in (new, tuple(s + 1 for s in shape)):
                model.resize(size)
                ctx.event('operations')
                ctx.event('op_resize')
                for b, s in sts.items():
                    s.data.resize(size)
                    stor.expect_state(ctx, s, spec, model.canon(),
                                      '%s %s resized to %s' % (b, shape, size))
                ctx.state((shape, size))


def _resizes_in_lists(ctx):
    """Arrays with shape limits in lists of several items are resized."""
    import numpy as np
    for ndim, low, high in ((1, None, 5), (1, 2, 5), (1, 1, None), (1, 0, 3),
                            (2, 1, 5), (2, None, 5)):
        def shape(n, ndim=ndim):
            return None if n is None else (n,) * ndim
        array = gen.plain('Array', ndim=ndim, max_shape=shape(high),
                          min_shape=shape(low))
        spec = {'t': 'List', 'sub': array, 'max': None, 'min': None}
        n = high or 4
        arr = np.arange(n ** ndim).reshape(shape(n)).astype(array['dtype'])
        sizes = [shape(low or 1), shape(high or 7), shape(low or 0),
                 shape(n)]
        model = M.from_tree(spec, [arr + i for i in range(6)])
        sts = {b: stor.filled(ctx, b, spec, [arr + i for i in range(6)])
               for b in gen.ALL_BACKENDS}
        for i in (5, 0, 3, 4):
            for size in sizes:
                model.items[i].resize(size)
                ctx.event('operations')
                ctx.event('op_resize')
                for b, s in sts.items():
                    s.data[i].resize(size)
                    stor.expect_state(ctx, s, spec, model.canon(),
                                      '%s item %d resized to %s'
                                      % (b, i, size))


def _other_dimensions(ctx):
    """Resizing never changes the number of dimensions."""
    import numpy as np
    for shape in ((1,), (2,), (3,), (2, 3), (3, 1), (1, 1), (2, 2, 2)):
        spec = gen.plain('Array', ndim=len(shape))
        arr = np.arange(1, int(np.prod(shape)) + 1,
                        dtype=spec['dtype']).reshape(shape)
        model = M.from_tree(spec, arr)
        for size in ((), (1,), (2,), (6,), (1, 2), (2, 2), (3, 2), (2, 1),
                     (1, 1, 2), (2, 2, 2), (1, 1, 1, 1), shape + (1,),
                     (1,) + shape, shape + shape[-1:]):
            if len(size) == len(shape):
                continue
            for b in gen.ALL_BACKENDS:
                storage = stor.filled(ctx, b, spec, arr)
                what = '%s %s resized to %s' % (b, shape, size)
                try:
                    storage.data.resize(size)
                except Exception:  # pylint: disable=broad-except
                    ctx.event('refused_size')
                else:
                    ctx.fail(what + ': accepted')
                stor.expect_state(ctx, storage, spec, model.canon(), what)
            ctx.state((shape, size, 'refused'))


def _near(backend):
    """Values that look or compare very alike, one after another."""
    def run(ctx):
        from dsch import frontend
        for i, (sub, a, b) in enumerate(gen.near_pairs()):
            spec = gen.comp({'u': sub, 'v': gen.plain('String'),
                             'w': gen.listof(sub)})
            start = {'u': M.make(sub).tree(), 'v': 'beside', 'w': [a, b]}
            s = stor.filled(ctx, backend, spec, start)
            model = M.from_tree(spec, start)
            u, w = s.data.u, s.data.w
            hows = ['replace', 'parent', 'load_from', 'list', 'items']
            if gen.is_item(sub):
                hows += ['value', 'item_values']
            if type(a) is list and len(a) > 100:
                hows = hows[:2]
            for how in hows:
                for n, value in enumerate((a, b, a)):
                    if how == 'value':
                        u.value = M.copy_value(value)
                    elif how == 'replace':
                        u.replace(M.disguise_all(M.prune(value)))
                    elif how == 'parent':
                        s.data.replace({'u': M.prune(value)})
                    elif how == 'list':
                        w.replace([M.prune(value), M.prune(a)])
                    elif how == 'items':
                        w[i % 2].replace(M.prune(value))
                    elif how == 'item_values':
                        w[i % 2].value = M.disguise(M.copy_value(value))
                    else:
                        other = frontend.create('::inmem::', gen.build(sub))
                        other.data.replace(M.prune(value))
                        u.load_from(other.data)
                    if how == 'list':
                        model.fields['w'].replace([M.prune(value),
                                                   M.prune(a)])
                    elif how in ('items', 'item_values'):
                        model.fields['w'].items[i % 2].replace(
                            M.prune(value))
                    elif how == 'load_from':
                        M.fill(model.fields['u'], value)
                    else:
                        model.fields['u'].replace(M.prune(value))
                    ctx.event('operations')
                    ctx.event('near_values')
                    stor.expect_state(
                        ctx, s, spec, model.canon(),
                        '%s after %s of a similar value' % (backend, how))
            ctx.state((backend, gen.describe(spec), i))
    return run


def _keys(ctx):
    """Reading and assigning by many kinds of index, on every backend."""
    import numpy as np
    keys = {1: [0, -1, 3, slice(None), slice(1, 3), slice(-2, None),
                slice(None, -1), slice(None, -2), slice(-4, -1),
                slice(None, None, 2), slice(1, None, 3), slice(2, 2),
                slice(0, 100), slice(-3, 4), Ellipsis, (slice(1, -1),),
                np.int64(2), slice(np.int64(1), np.int64(3))],
            2: [0, -1, (1, 2), (-1, -1), (slice(None), 1), (0, slice(1, -1)),
                (slice(-2, None), slice(None, -2)), slice(-1, None),
                (Ellipsis, 0), (0, Ellipsis), (slice(None, None, 2), -1),
                (slice(0, 0), slice(None))],
            3: [(1, 0, -1), (Ellipsis, 1), (0, Ellipsis, slice(-2, -1)),
                (slice(None), -1, slice(None)), -2]}
    for shape in ((5,), (7,), (3, 4), (4, 5), (2, 3, 4)):
        spec = gen.plain('Array', dtype='int32', ndim=len(shape))
        arr = np.arange(1, int(np.prod(shape)) + 1,
                        dtype='int32').reshape(shape)
        model = M.from_tree(spec, arr)
        sts = {b: stor.filled(ctx, b, spec, arr) for b in gen.ALL_BACKENDS}
        for i, key in enumerate(keys[len(shape)]):
            part = model.value[key]
            want = M.canon(np.asarray(part))
            values = [np.int32(-i), np.asarray(part) * 3 + 1000 * i]
            for b, s in sts.items():
                got = M.canon(np.asarray(s.data[key]))
                if got != want:
                    ctx.fail('%s: %s array [%r] is %s, expected %s' % (
                        b, shape, key, M.show(got), M.show(want)))
            for value in values:
                model.assign(key, value)
                ctx.event('operations')
                ctx.event('op_assign')
                for b, s in sts.items():
                    s.data[key] = value
                    stor.expect_state(ctx, s, spec, model.canon(),
                                      '%s %s [%r] assigned' % (b, shape, key))
            ctx.state((shape, repr(key)))


def directed():
    return [_resizes, _resizes_in_lists, _other_dimensions, _keys] + [_near(b) for b in gen.ALL_BACKENDS]
