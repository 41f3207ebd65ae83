"""C16: data nodes cannot be overwritten by accident."""
import operator

from lib import gen, model as M, ops, stor

PROP = 'C16'
RULE = ('A case fills (and possibly reloads) a storage and then assigns '
        'random things directly to fields of its compilations and items of '
        'its lists: existing and unknown names, names of data node methods '
        'used as fields, valid, negative, too large, slice and non-integer '
        'indices; values, nodes (also the node itself), None, containers. '
        'Each has to raise ResetSubnodeError with the name in its message; '
        'the observation, the identity of all nodes and (sometimes) a saved '
        'and reloaded copy must be as before. Unknown names are looked up in '
        'various ways. Distinct: (backend, schema, data, targets).')
CASES = {'quick': 4000, 'thorough': 60000}
MIN_EVENTS = tuple('blocked_%s_%s' % (k, b) for k in ('field', 'item')
                   for b in gen.ALL_BACKENDS) + (
    'blocked_unknown', 'blocked_attribute', 'blocked_slice', 'blocked_out_of_range', 'own_node',
    'unknown_lookup', 'dir_listed', 'reloaded', 'saved_after',
    'awkward_fields', 'unknown_replace')

# Names of methods and properties: fields with such names are not reachable
# as attributes, but must not be assignable either.
AWKWARD = ('clear', 'complete', 'data_tree', 'empty', 'load_from', 'node_tree',
           'replace', 'validate', 'save', '__repr__', '__dict__', '__class__',
           '__dir__', '_init_new', '__doc__')

# Documented attributes of compilations, which must not be replaced either.
PUBLIC = ('clear', 'complete', 'data_tree', 'empty', 'load_from', 'node_tree',
          'replace', 'validate')


def run_case(ctx):
    if ctx.case % 12 == 11:
        awkward(ctx)
        return
    rng = ctx.rng
    backend = gen.ALL_BACKENDS[rng.randrange(4)]
    o = stor.opts_for(backend, big=0.01, constraints=0.2)
    kind = rng.choice(('Compilation', 'List'))
    spec = gen.gen_spec(rng, o, rng.randint(1, 4), kind)
    model = M.from_tree(spec, gen.gen_tree(rng, spec, big=0.0))
    storage = stor.new(ctx, backend, spec)
    M.set_tree(storage.data, spec, model.tree())
    if backend != 'inmem' and rng.random() < 0.4:
        storage.save(force=True)
        path = storage.storage_path
        storage = None
        stor.drop()
        storage = stor.load(path, force=True)
        ctx.event('reloaded')
    targets = []
    containers = [(p, n) for p, n in M.walk(model)
                  if not isinstance(n, M.Item)]
    before = identities(storage.data, spec, model)
    for _ in range(rng.randint(1, 6)):
        path, node = rng.choice(containers)
        real = M.find(storage.data, path)
        if isinstance(node, M.Comp):
            targets.append(field(ctx, backend, storage, path, real, node))
        else:
            targets.append(item(ctx, backend, storage, path, real, node))
        stor.expect_state(ctx, storage, spec, model.canon(), targets[-1])
    check_same(ctx, before, identities(storage.data, spec, model), targets)
    lookups(ctx, backend, spec, storage, model, containers)
    stor.expect_state(ctx, storage, spec, model.canon(), 'after lookups')
    if backend != 'inmem' and rng.random() < 0.3:
        storage.save(force=True)
        again = stor.load(stor.snapshot(ctx, storage, backend), force=True)
        stor.expect_state(ctx, again, spec, model.canon(),
                          'reloaded after %s' % targets)
        ctx.event('saved_after')
    ctx.state((backend, gen.canonical_json(spec), M.freeze(model.canon()),
               targets))
    ctx.sample = '%s: %s' % (backend, '; '.join(targets))[:400]


def identities(data, spec, model):
    return {path: M.find(data, path) for path, _ in M.walk(model)}


def check_same(ctx, before, after, what):
    for path, node in before.items():
        if after[path] is not node:
            ctx.fail('%s: node %s is another object' % (
                what, M.path_str(path)))


def any_value(ctx, storage, spec, current):
    """Something to be assigned by accident: (value, text)."""
    from dsch import frontend
    rng = ctx.rng
    r = rng.random()
    if r < 0.35 and gen.is_item(spec):
        value = gen.gen_leaf(rng, spec, 0.0)
        return value, ops.short(value, 60)
    if r < 0.5:
        value = M.prune(gen.gen_tree(rng, spec, big=0.0))
        return value, ops.short(value, 60)
    if r < 0.65 and current is not None:
        ctx.event('own_node')
        return current, 'the node itself'
    if r < 0.75:
        return storage.data, 'the top-level node'
    if r < 0.85:
        other = frontend.create('::inmem::', gen.build(spec))
        return other.data, 'a node of another storage'
    value = rng.choice((None, 0, True, '', 'x', b'', [], {}, object(), int))
    return value, ops.short(value, 40)


def assign(ctx, what, name, fn):
    from dsch import exceptions
    try:
        fn()
    except exceptions.ResetSubnodeError as err:
        if name is not None and name not in str(err):
            ctx.fail('%s: message %r does not name it' % (what, str(err)))
    except Exception as err:  # pylint: disable=broad-except
        ctx.fail('%s: raised %s: %s' % (what, type(err).__name__, err))
    else:
        ctx.fail('%s: no exception' % what)


def field(ctx, backend, storage, path, real, node):
    rng = ctx.rng
    fields = node.spec['fields']
    if fields and rng.random() < 0.75:
        name = rng.choice(list(fields))
        spec = fields[name]
        current = getattr(real, name)
        ctx.event('blocked_field_' + backend)
    else:
        name = unknown_name(rng, fields)
        if rng.random() < 0.3:
            name = rng.choice(PUBLIC)
            ctx.event('blocked_attribute')
        spec = gen.gen_item(rng, gen.Opts())
        current = None
        ctx.event('blocked_unknown')
    value, text = any_value(ctx, storage, spec, current)
    what = '%s: %s.%s = %s' % (backend, M.path_str(path), name, text)
    if rng.random() < 0.8:
        assign(ctx, what, name, lambda: setattr(real, name, value))
    else:
        assign(ctx, what, name, lambda: real.__setattr__(name, value))
    return what


def item(ctx, backend, storage, path, real, node):
    rng = ctx.rng
    n = len(node.items)
    r = rng.random()
    current = None
    if r < 0.5 and n:
        key = rng.randrange(n)
        current = real[key]
        if rng.random() < 0.3:
            key -= n
        name = str(key)
        ctx.event('blocked_item_' + backend)
    elif r < 0.75:
        key = rng.choice((n, n + 1, -n - 1, 0, 100, -100))
        name = str(key)
        if not -n <= key < n:
            ctx.event('blocked_out_of_range')
    elif r < 0.9:
        key = slice(*[rng.choice((None, 0, 1, n, -1)) for _ in range(2)],
                    rng.choice((None, 1)))
        name = None
        ctx.event('blocked_slice')
    else:
        key = rng.choice(('0', 'item_0', None, (0,), (0, 0), 0.0, ...))
        name = None
    value, text = any_value(ctx, storage, node.spec['sub'], current)
    if isinstance(key, slice) and rng.random() < 0.6:
        value = [value] * rng.randint(0, 2)
    what = '%s: %s[%r] = %s' % (backend, M.path_str(path), key, text)
    assign(ctx, what, name, lambda: operator.setitem(real, key, value))
    return what


def unknown_name(rng, fields):
    """A name which is neither a field nor an attribute."""
    usable = gen.names_for(True)
    while True:
        r = rng.random()
        if r < 0.4 and fields:
            name = rng.choice(list(fields))
            name = rng.choice((name + '_', '_' + name, name[:-1], name * 2,
                               name.upper(), name.swapcase(), name + ' ',
                               name + '.value', name.title()))
        elif r < 0.9:
            name = rng.choice(usable)
        else:
            name = rng.choice(('', ' ', 'a.b', '0', 'item_99', 'None', '[0]',
                               'valeu', 'datas'))
        if name not in fields and (name in usable
                                   or name not in _attributes()):
            return name


_ATTRS = []


def _attributes():
    if not _ATTRS:
        from dsch import data
        from dsch.backends import hdf5, inmem, mat, npz
        _ATTRS.append({'schema_node', 'parent', '_subnodes', '_storage'}.union(
            *(dir(m.Compilation) for m in (data, hdf5, inmem, mat, npz))))
    return _ATTRS[0]


def lookups(ctx, backend, spec, storage, model, containers):
    rng = ctx.rng
    for path, node in rng.sample(containers, min(3, len(containers))):
        if not isinstance(node, M.Comp):
            continue
        real = M.find(storage.data, path)
        fields = node.spec['fields']
        listed = dir(real)
        for name in fields:
            if name not in listed:
                ctx.fail('%s: dir(%s) lacks %r' % (backend, M.path_str(path),
                                                   name))
            if not hasattr(real, name):
                ctx.fail('%s: %s has no attribute %r' % (
                    backend, M.path_str(path), name))
            sub = getattr(real, name)
            if type(sub).__name__ != fields[name]['t'] \
                    or sub.parent is not real:
                ctx.fail('%s: %s.%s is %r' % (backend, M.path_str(path), name,
                                              type(sub)))
        ctx.event('dir_listed')
        for _ in range(3):
            name = unknown_name(rng, fields)
            what = '%s: unknown %s.%s' % (backend, M.path_str(path), name)
            if name in listed:
                ctx.fail(what + ' is listed by dir()')
            marker = object()
            if hasattr(real, name) \
                    or getattr(real, name, marker) is not marker:
                ctx.fail(what + ' exists')
            try:
                getattr(real, name)
            except AttributeError as err:
                if name not in str(err):
                    ctx.fail('%s: message %r' % (what, str(err)))
            else:
                ctx.fail(what + ' exists')
            if name in dir(real):
                ctx.fail(what + ' got created')
            ctx.event('unknown_lookup')
        if rng.random() < 0.5:
            name = unknown_name(rng, fields)
            try:
                real.replace({name: rng.choice((1, None, 'x', {}))})
            except Exception:  # pylint: disable=broad-except
                pass
            else:
                ctx.fail('%s: replace() of unknown %r' % (backend, name))
            if hasattr(real, name) or name in dir(real):
                ctx.fail('%s: replace() created %r' % (backend, name))
            ctx.event('unknown_replace')


def awkward(ctx):
    """Fields with the names of methods cannot be assigned either."""
    rng = ctx.rng
    backend = gen.ALL_BACKENDS[rng.randrange(4)]
    names = rng.sample(AWKWARD, rng.randint(1, 4))
    o = stor.opts_for(backend, big=0.0)
    spec = {'t': 'Compilation', 'optionals': [],
            'fields': {n: gen.gen_item(rng, o) for n in names}}
    spec['fields']['plain'] = {'t': 'Bool'}
    storage = stor.new(ctx, backend, spec)
    tree = gen.gen_tree(rng, spec, 0.8, 0.0)
    storage.data.replace(M.prune(tree))
    listed = dir(storage.data)
    before = storage.data.data_tree() if 'data_tree' not in names else None
    for name in names:
        if name not in listed:
            ctx.fail('%s: dir() lacks %r' % (backend, name))
        value, text = any_value(ctx, storage, spec['fields'][name], None)
        assign(ctx, '%s: field %s = %s' % (backend, name, text), name,
               lambda n=name, v=value: setattr(storage.data, n, v))
    for name in names:
        if vars(storage.data).get(name) is not None:
            ctx.fail('%s: attribute %r was set' % (backend, name))
    if before is not None:
        after = storage.data.data_tree()
        d = M.diff(M.canon_tree(before), M.canon_tree(after))
        if d:
            ctx.fail('%s: %s' % (backend, d))
    ctx.event('awkward_fields')
    ctx.state((backend, names))
