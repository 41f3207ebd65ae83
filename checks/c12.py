"""C12: copying a storage reproduces schema and data on any backend."""
import os

from lib import gen, model as M, ops, oracle, stor

PROP = 'C12'
RULE = ('A case fills a source storage (freshly created or reloaded, valid or '
        'invalid data, any filling) and copies it with create_from() or '
        'save_as() to another backend (all 16 ordered pairs, explicit or by '
        'extension), or copies nodes with load_from() onto empty or prefilled '
        'nodes with the same schema at any depth, possibly inside the same '
        'storage or of a schema with reordered fields. Source, its file and '
        'the copy (also after saving and reloading it) are compared with the '
        'model. Distinct: (pair, method, schema, data).')
CASES = {'quick': 3600, 'thorough': 45000}
MIN_EVENTS = tuple('%s_to_%s' % (a, b) for a in gen.ALL_BACKENDS
                   for b in gen.ALL_BACKENDS) + (
    'prefilled', 'create_from', 'save_as', 'load_from', 'same_storage',
    'copies_reloaded', 'self_copy', 'unsaved_source')


def options(*backends):
    return gen.Opts(unicode_names='mat' not in backends, big=0.01,
                    set_on_create=True, constraints=0.2)


def make_source(ctx, backend, spec, schema=None):
    """A storage with random data, and its model."""
    rng = ctx.rng
    model = M.from_tree(spec, gen.gen_tree(rng, spec, big=0.01))
    if rng.random() < 0.2:
        oracle.corrupt(rng, model, 'hdf5', rng.randint(1, 2))
    storage = stor.new(ctx, backend, spec, schema=schema)
    M.set_tree(storage.data, spec, model.tree())
    if rng.random() < 0.4 and not any(s.get('set_on_create')
                                      for s in gen.walk_spec(spec)):
        edit(ctx, storage, model, spec)
        ctx.event('edited_source')
    if backend != 'inmem' and rng.random() < 0.5:
        storage.save(force=True)
        if rng.random() < 0.6:
            path = storage.storage_path
            storage = None
            stor.drop()
            storage = stor.load(path, force=True)
            ctx.event('reloaded_source')
        if rng.random() < 0.6 and not any(s.get('set_on_create')
                                          for s in gen.walk_spec(spec)):
            # The file does not hold what the storage does any more.
            edit(ctx, storage, model, spec)
            ctx.event('unsaved_source')
    return storage, model


def edit(ctx, storage, model, spec):
    nested = ops.inmem_source(spec)
    for _ in range(ctx.rng.randint(1, 5)):
        op = ops.gen_op(ctx.rng, model)
        ctx.log(ops.show_op(op))
        ops.apply_model(model, op)
        ops.apply_real(storage.data, op, nested)


def target_path(ctx, backend):
    """(path, backend argument) for a new storage."""
    rng = ctx.rng
    if backend == 'inmem':
        return '::inmem::', rng.choice((None, 'inmem'))
    if backend == 'hdf5' and rng.random() < 0.5:
        return ctx.path('hdf5'), None
    if rng.random() < 0.7:
        return ctx.path(gen.EXT[backend]), rng.choice((None, backend))
    return ctx.path(rng.choice(('data', 'h5', 'npz', 'mat', 'x.y'))), backend


def module_of(storage):
    return type(storage).__module__.rsplit('.', 1)[-1]


def run_case(ctx):
    if ctx.case % 3 < 2:
        storages(ctx)
    else:
        nodes(ctx)


def storages(ctx):
    from dsch import frontend
    rng = ctx.rng
    src = gen.ALL_BACKENDS[ctx.rng.randrange(4)]
    dst = gen.ALL_BACKENDS[ctx.rng.randrange(4)]
    spec = gen.gen_spec(rng, options(src, dst), rng.choice((0, 1, 2, 2, 3)))
    storage, model = make_source(ctx, src, spec)
    expected = model.canon()
    file_before = None if src == 'inmem' else stor.digest(storage.storage_path)
    path, backend = target_path(ctx, dst)
    if rng.random() < 0.5:
        how = 'create_from'
        copy = (frontend.create_from(path, storage, backend) if backend
                else frontend.create_from(path, storage))
    else:
        how = 'save_as'
        copy = (storage.save_as(path, backend) if backend
                else storage.save_as(path))
    what = '%s %s to %s (%s)' % (how, src, dst, os.path.basename(path))
    ctx.log('%s of %s' % (what, gen.describe(spec)))
    ctx.event(how)
    ctx.event('%s_to_%s' % (src, dst))
    if module_of(copy) != dst or copy.storage_path != path:
        ctx.fail('%s: got %r at %r' % (what, copy, copy.storage_path))
    if copy is storage or copy.data is storage.data:
        ctx.fail('%s: no new storage' % what)
    if copy.schema_hash() != gen.spec_hash(spec) \
            or copy.schema_node != storage.schema_node:
        ctx.fail('%s: schema is %s' % (what, copy.schema_node.to_json()))
    stor.expect_state(ctx, copy, spec, expected, what + ': copy')
    stor.expect_state(ctx, storage, spec, expected, what + ': source')
    if storage.schema_hash() != gen.spec_hash(spec):
        ctx.fail('%s: schema of the source changed' % what)
    if src in ('npz', 'mat') \
            and stor.digest(storage.storage_path) != file_before:
        ctx.fail('%s: file of the source changed' % what)
    judge_same_validity(ctx, what, copy, model)
    if dst != 'inmem' and rng.random() < 0.6:
        copy.save(force=True)
        copy = None
        stor.drop()
        copy = frontend.load(path, backend, force=True)
        stor.expect_state(ctx, copy, spec, expected, what + ': reloaded copy')
        if copy.schema_hash() != gen.spec_hash(spec):
            ctx.fail('%s: schema of the reloaded copy' % what)
        ctx.event('copies_reloaded')
    if src != 'inmem' and rng.random() < 0.4:
        storage.save(force=True)
        again = stor.load(stor.snapshot(ctx, storage, src), force=True)
        stor.expect_state(ctx, again, spec, expected,
                          what + ': reloaded source')
    ctx.state((how, src, dst, gen.describe(spec), M.freeze(expected)))
    ctx.sample = '; '.join(ctx.log_lines[:3])


def judge_same_validity(ctx, what, copy, model):
    oracle.judge_validation(ctx, what + ': validate() of the copy',
                            copy.validate, oracle.invalid_nodes(model))


def nodes(ctx):
    """load_from() between nodes of equal schemas."""
    from dsch import schema as S
    rng = ctx.rng
    src = gen.ALL_BACKENDS[rng.randrange(4)]
    dst = gen.ALL_BACKENDS[rng.randrange(4)]
    sub = gen.gen_spec(rng, options(src, dst), rng.choice((0, 1, 1, 2, 3)))
    # The same schema at different places in source and destination.
    s_spec, s_path = surround(rng, sub)
    d_spec, d_path = surround(rng, gen.reorder(rng, sub))
    source, s_model = make_source(ctx, src, s_spec)
    dest = stor.new(ctx, dst, d_spec, schema=rng.choice((
        None, S.node_from_json(gen.build(d_spec).to_json()))))
    d_model = M.make(d_spec)
    M.set_tree(dest.data, d_spec, d_model.tree())
    if rng.random() < 0.75:
        d_model = M.from_tree(d_spec, gen.gen_tree(rng, d_spec, big=0.0))
        M.set_tree(dest.data, d_spec, d_model.tree())
        ctx.event('prefilled')
    if not reach(ctx, source, s_model, s_path) \
            or not reach(ctx, dest, d_model, d_path):
        raise AssertionError('path')
    s_path, d_path = concrete(rng, s_model, s_path), concrete(rng, d_model,
                                                              d_path)
    what = 'load_from: %s %s to %s %s' % (src, M.path_str(s_path), dst,
                                          M.path_str(d_path))
    ctx.log('%s of %s' % (what, gen.describe(sub)))
    M.find(dest.data, d_path).load_from(M.find(source.data, s_path))
    M.fill(M.mfind(d_model, d_path), M.mfind(s_model, s_path).tree())
    stor.expect_state(ctx, dest, d_spec, d_model.canon(),
                      what + ': destination')
    stor.expect_state(ctx, source, s_spec, s_model.canon(), what + ': source')
    ctx.event('load_from')
    ctx.event('%s_to_%s' % (src, dst))
    ctx.state((what, gen.describe(sub), M.freeze(d_model.canon())))
    # Within one storage, also onto itself.
    if s_path and rng.random() < 0.7:
        twins = [p for p, n in M.walk(s_model) if n.spec is sub]
        a, b = rng.choice(twins), rng.choice(twins)
        M.find(source.data, b).load_from(M.find(source.data, a))
        M.fill(M.mfind(s_model, b), M.mfind(s_model, a).tree())
        stor.expect_state(ctx, source, s_spec, s_model.canon(),
                          '%s: then %s to %s in the source' % (
                              what, M.path_str(a), M.path_str(b)))
        ctx.event('same_storage')
        if a == b:
            ctx.event('self_copy')
    for storage, spec, model, backend in ((source, s_spec, s_model, src),
                                          (dest, d_spec, d_model, dst)):
        if backend != 'inmem' and rng.random() < 0.4:
            storage.save(force=True)
            again = stor.load(stor.snapshot(ctx, storage, backend),
                              force=True)
            stor.expect_state(ctx, again, spec, model.canon(),
                              what + ': reloaded')
            ctx.event('copies_reloaded')
    ctx.sample = '; '.join(ctx.log_lines[:3])


def surround(rng, sub):
    """(spec, path) of a schema that contains the given one."""
    r = rng.random()
    if r < 0.25:
        return sub, ()
    if r < 0.5:
        return ({'t': 'List', 'sub': sub, 'max': None, 'min': None}, (0,))
    names = rng.sample(gen.names_for(False), 3)
    fields = {names[0]: sub, names[1]: {'t': 'Bool'}}
    path = (names[0],)
    if r < 0.75:
        fields[names[2]] = {'t': 'List', 'sub': sub, 'max': None,
                            'min': None}
        if rng.random() < 0.5:
            path = (names[2], 0)
    return {'t': 'Compilation', 'fields': fields, 'optionals': []}, path


def reach(ctx, storage, model, path):
    """Append list items until the path exists."""
    node, real = model, storage.data
    for p in path:
        if isinstance(p, int):
            while len(node.items) <= p + 1:
                node.append()
                real.append()
                M.set_tree(real[len(real) - 1], node.spec['sub'],
                           node.items[-1].tree())
            node, real = node.items[p], real[p]
        else:
            node, real = node.fields[p], getattr(real, p)
    return True


def concrete(rng, model, path):
    out = ()
    for p in path:
        if isinstance(p, int):
            p = rng.randrange(len(model.items))
            model = model.items[p]
        else:
            model = model.fields[p]
        out += (p,)
    return out
