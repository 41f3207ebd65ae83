"""C13: copies are independent and incompatible nodes are refused."""
from lib import gen, model as M, ops, oracle, stor
from checks import c12

PROP = 'C13'
RULE = ('A case copies a storage or node between two backends (all pairs) '
        'and then runs random operations (mostly in-place element changes, '
        'resizing, appending, clearing, saving) alternately on both sides, '
        'comparing both with their own models after every step. Other cases '
        'call load_from() with nodes whose schema differs in a single detail '
        'or completely; IncompatibleNodesError is required and both sides '
        'must stay as they were. Distinct: (pair, schema, operation kinds) '
        'and (pair, both schemas).')
CASES = {'quick': 3200, 'thorough': 40000}
MIN_EVENTS = tuple('%s_to_%s' % (a, b) for a in gen.ALL_BACKENDS
                   for b in gen.ALL_BACKENDS) + (
    'refused', 'refused_prefilled', 'op_assign', 'op_resize', 'edits_source',
    'edits_copy', 'saves', 'near')


def run_case(ctx):
    if ctx.case % 2:
        refused(ctx)
    else:
        independent(ctx)


def gen_pair_spec(rng, src, dst, arrays=True):
    o = gen.Opts(unicode_names='mat' not in (src, dst), big=0.01,
                 constraints=0.25)
    if arrays and rng.random() < 0.6:
        o.item_types = ('Array', 'Array', 'Array', 'Scalar', 'String',
                        'Bytes', 'Date', 'Bool')
    return gen.gen_spec(rng, o, rng.choice((0, 1, 1, 2, 3)))


def independent(ctx):
    from dsch import frontend
    rng = ctx.rng
    src = gen.ALL_BACKENDS[rng.randrange(4)]
    dst = gen.ALL_BACKENDS[rng.randrange(4)]
    spec = gen_pair_spec(rng, src, dst)
    storage, model = c12.make_source(ctx, src, spec)
    path, backend = c12.target_path(ctx, dst)
    how = rng.choice(('create_from', 'save_as', 'load_from', 'sibling'))
    first, second = storage.data, None
    sides = None
    if how == 'create_from':
        copy = frontend.create_from(path, storage, backend)
    elif how == 'save_as':
        copy = storage.save_as(path, backend)
    elif how == 'load_from':
        copy = stor.new(ctx, dst, spec)
        if rng.random() < 0.5:
            M.set_tree(copy.data, spec, gen.gen_tree(rng, spec, big=0.0))
        copy.data.load_from(storage.data)
    else:
        # Two items of one list.
        dst = src
        outer = {'t': 'List', 'sub': spec, 'max': None, 'min': None}
        copy = storage = stor.new(ctx, src, outer)
        storage.data.append()
        storage.data.append()
        M.set_tree(storage.data[0], spec, model.tree())
        storage.data[1].load_from(storage.data[0])
        first, second = storage.data[0], storage.data[1]
    second = second if second is not None else copy.data
    ctx.event('%s_to_%s' % (src, dst))
    ctx.log('%s %s to %s: %s' % (how, src, dst, gen.describe(spec)))
    twin = M.from_tree(spec, model.tree())
    sides = (('source', storage, first, model, src),
             ('copy', copy, second, twin, dst))
    kinds = []
    for _ in range(rng.randint(2, 8)):
        name, stor_, node, m, b = rng.choice(sides)
        op = gen_inplace(rng, m) or ops.gen_op(rng, m)
        ctx.log('%s: %s' % (name, ops.show_op(op)))
        ops.apply_model(m, op)
        ops.apply_real(node, op, ops.inmem_source(spec))
        ctx.event('op_' + op['op'])
        ctx.event('edits_' + name)
        kinds.append((name, op['op']))
        if b != 'inmem' and rng.random() < 0.15:
            ctx.log('%s: save' % name)
            stor_.save(force=True)
            ctx.event('saves')
        for n, _, real, mod, bb in sides:
            d = M.diff(mod.canon(), M.observe(real, spec))
            if d:
                ctx.fail('%s %s to %s: after editing the %s, the %s has %s' % (
                    how, src, dst, name, n, d))
            ctx.event('observations')
    ctx.state((how, src, dst, gen.describe(spec), kinds))
    ctx.sample = '; '.join(ctx.log_lines[-4:])


def gen_inplace(rng, model):
    """An in-place change of some array, if there is any."""
    if rng.random() < 0.3:
        return None
    arrays = [(p, n) for p, n in M.items(model)
              if n.spec['t'] == 'Array' and n.value is not None]
    if not arrays:
        return None
    path, node = rng.choice(arrays)
    spec = node.spec
    if rng.random() < 0.2 and node.value.ndim:
        size = ops.gen_size(rng, spec, node.value.shape)
        if size is not None:
            return {'op': 'resize', 'path': path, 'size': size}
    key = ops.gen_key(rng, node.value.shape)
    return {'op': 'assign', 'path': path, 'key': key,
            'value': ops.gen_part(rng, spec, node.value[key])}


def refused(ctx):
    from dsch import exceptions
    rng = ctx.rng
    src = gen.ALL_BACKENDS[rng.randrange(4)]
    dst = gen.ALL_BACKENDS[rng.randrange(4)]
    spec = gen_pair_spec(rng, src, dst, False)
    if rng.random() < 0.75:
        other = gen.mutate_fillable(rng, spec)
    else:
        other = gen.gen_spec(rng, gen.Opts(), rng.choice((0, 1, 2)))
        if gen.canonical_json(other) == gen.canonical_json(spec):
            other = gen.mutate_fillable(rng, spec)
    if rng.random() < 0.2:
        spec, other = gen.near_pair_for(rng, [src, dst])
        ctx.event('near')
    s_spec, s_path = c12.surround(rng, other)
    d_spec, d_path = c12.surround(rng, spec)
    source, s_model = c12.make_source(ctx, src, s_spec)
    dest, d_model = c12.make_source(ctx, dst, d_spec)
    c12.reach(ctx, source, s_model, s_path)
    c12.reach(ctx, dest, d_model, d_path)
    s_path = c12.concrete(rng, s_model, s_path)
    d_path = c12.concrete(rng, d_model, d_path)
    what = 'load_from %s %s of %s into %s %s of %s' % (
        src, M.path_str(s_path), gen.describe(other), dst,
        M.path_str(d_path), gen.describe(spec))
    ctx.log(what)
    try:
        M.find(dest.data, d_path).load_from(M.find(source.data, s_path))
    except exceptions.IncompatibleNodesError as err:
        for digest in (gen.spec_hash(spec), gen.spec_hash(other)):
            if digest not in str(err):
                ctx.fail('%s: message %r lacks a hash' % (what, str(err)))
    else:
        ctx.fail('%s: accepted' % what)
    ctx.event('refused')
    ctx.event('%s_to_%s' % (src, dst))
    if not M.mfind(d_model, d_path).empty:
        ctx.event('refused_prefilled')
    stor.expect_state(ctx, dest, d_spec, d_model.canon(),
                      what + ': destination')
    stor.expect_state(ctx, source, s_spec, s_model.canon(), what + ': source')
    if dst != 'inmem' and rng.random() < 0.3:
        dest.save(force=True)
        again = stor.load(stor.snapshot(ctx, dest, dst), force=True)
        stor.expect_state(ctx, again, d_spec, d_model.canon(),
                          what + ': reloaded destination')
    ctx.state((src, dst, gen.canonical_json(spec), gen.canonical_json(other)))
    ctx.sample = what[:400]
