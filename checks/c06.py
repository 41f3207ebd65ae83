"""C06: container validation finds every invalid node and names it."""
from lib import gen, model as M, ops, oracle, stor

PROP = 'C06'
RULE = ('A case fills a storage of a nested schema, with 0..4 nodes of any '
        'depth and kind made invalid (lengths, shapes, element values, '
        'dtypes, types, list lengths, dependent sizes), and calls validate() '
        'on the storage and on every container below it; then it repairs or '
        'breaks nodes, by assigning values or in place (array elements, '
        'resizing, list items), and validates again. Further cases have long '
        'lists and many fields. An independent oracle gives the '
        'set of invalid nodes. Distinct: (schema, invalid paths and kinds).')
CASES = {'quick': 5200, 'thorough': 70000}
MIN_EVENTS = ('valid', 'reported_below', 'reported_self', 'several_invalid',
              'deep_invalid', 'edited_in_place', 'wide_trees')


def run_case(ctx):
    rng = ctx.rng
    backend = gen.ALL_BACKENDS[ctx.case % 4]
    o = stor.opts_for(backend, constraints=0.85, list_bounds=0.5, big=0.01,
                      depends=0.25)
    spec = gen.gen_spec(rng, o, rng.choice((0, 1, 2, 2, 3, 3, 4)))
    model = M.from_tree(spec, gen.gen_tree(rng, spec, big=0.01))
    if rng.random() < 0.7:
        oracle.corrupt(rng, model, backend, rng.randint(1, 4))
    unbalance(rng, model, backend)
    storage = stor.filled(ctx, backend, spec, model.tree())
    ctx.log('%s %s' % (backend, gen.describe(spec)))
    judge(ctx, backend, spec, model, storage)
    for _ in range(rng.randint(0, 3)):
        edit(ctx, backend, model, storage)
        judge(ctx, backend, spec, model, storage)


def unbalance(rng, model, backend):
    """Change sizes of some independent variables."""
    for path, node in M.walk(model):
        if not isinstance(node, M.Comp):
            continue
        for f in node.fields.values():
            for name in gen.deps(f.spec) or ():
                if name and rng.random() < 0.15:
                    node.fields[name].value = gen.gen_array_value(
                        rng, dict(node.fields[name].spec, min_shape=None),
                        (rng.randint(0, 5),))


def edit(ctx, backend, model, storage):
    """Replace one item by a valid or invalid value, or clear it."""
    rng = ctx.rng
    if rng.random() < 0.5:
        done = oracle.bend(rng, model, storage.data, backend)
        if done:
            ctx.log(done)
            ctx.event('edited_in_place')
            return
    items = list(M.items(model))
    if not items:
        return
    # Prefer nodes that are invalid now.
    bad = [(p, M.mfind(model, p)) for p in oracle.invalid_nodes(model)
           if isinstance(M.mfind(model, p), M.Item)]
    path, item = rng.choice(bad if bad and rng.random() < 0.6 else items)
    real = M.find(storage.data, path)
    value = None
    r = rng.random()
    if r < 0.4:
        value = oracle.corrupt_value(rng, item.spec, backend)
    elif r < 0.8:
        value = gen.gen_leaf(rng, item.spec)
    ctx.log('edit %s: %s' % (M.path_str(path), ops.short(value)))
    if value is None:
        item.clear()
        real.clear()
    else:
        item.replace(value)
        real.value = M.copy_value(value)


def judge(ctx, backend, spec, model, storage):
    stor.expect_state(ctx, storage, spec, model.canon(), backend)
    bad = oracle.invalid_nodes(model)
    ctx.log('invalid: %s' % oracle.describe(bad))
    oracle.judge_validation(ctx, backend + ' storage.validate()',
                            storage.validate, bad)
    for path, node in M.walk(model):
        if isinstance(node, M.Item) and path not in bad \
                and ctx.rng.random() < 0.6:
            continue
        below = {p: b for p, b in bad.items() if p[:len(path)] == path}
        oracle.judge_validation(
            ctx, '%s validate() of %s' % (backend, M.path_str(path)),
            M.find(storage.data, path).validate, below, path)
    if len(bad) > 1:
        ctx.event('several_invalid')
    if any(len(p) > 2 for p in bad):
        ctx.event('deep_invalid')
    for b in bad.values():
        for k in b.kinds():
            ctx.event('kind_' + k)
    ctx.state((gen.describe(spec), sorted(
        (M.path_str(p), b.kinds()) for p, b in bad.items())))
    ctx.sample = '%s %s: invalid %s' % (backend, gen.describe(spec),
                                        oracle.describe(bad))


# ---------------------------------------------------------- directed

def _each_node(backend):
    """Each node of a fixed deep tree invalid, alone and in pairs."""
    def run(ctx):
        S = {'t': 'String', 'max': 3, 'min': None}
        B = {'t': 'Bytes', 'max': 2, 'min': None}

        def C(optionals=(), **fields):
            return {'t': 'Compilation', 'fields': fields,
                    'optionals': list(optionals)}

        def L(sub, max_=None):
            return {'t': 'List', 'sub': sub, 'max': max_, 'min': None}
        spec = C(a=S, b=C(c=S, d=L(C(e=B, f=L(L(S), 3), g=C(h=S))), i=B),
                 j=L(S, 5), optionals=['a'])
        good = 'ok'
        entry = {'e': b'x', 'f': [[good], [good, None, good]],
                 'g': {'h': good}}
        tree = {'a': good, 'b': {'c': good, 'd': [entry, entry, {
            'e': None, 'f': [], 'g': {'h': None}}], 'i': b''},
            'j': [good, None, good]}
        storage = stor.filled(ctx, backend, spec, tree)
        paths = [p for p, i in M.items(M.from_tree(spec, tree))
                 if i.value is not None]
        pairs = [(p, ) for p in paths]
        pairs += [(p, q) for p in paths[::2] for q in paths[::3] if p != q]
        for group in pairs:
            model = M.from_tree(spec, tree)
            for p in group:
                item = M.mfind(model, p)
                item.value = b'toolong' if item.spec is B else 'toolong'
                M.find(storage.data, p).value = item.value
            judge(ctx, backend, spec, model, storage)
            for p in group:
                M.find(storage.data, p).value = M.mfind(
                    M.from_tree(spec, tree), p).value
    return run


def _wide(backend, n):
    """Long lists and compilations with many fields, few nodes invalid."""
    def run(ctx):
        rng = ctx.rng
        S = {'t': 'String', 'max': 3, 'min': 1}
        names = ['f%d' % i for i in range(n // 3)]
        spec = {'t': 'Compilation', 'optionals': names[::2], 'fields': {
            'items': {'t': 'List', 'sub': S, 'max': n + 2, 'min': n - 2},
            'sub': {'t': 'Compilation', 'optionals': [],
                    'fields': {name: S for name in names}}}}
        tree = {'items': [rng.choice(('ok', 'ok', 'ok', None))
                          for _ in range(n)],
                'sub': {name: rng.choice(('ok', 'ok', 'ok', None))
                        for name in names}}
        storage = stor.filled(ctx, backend, spec, tree)
        model = M.from_tree(spec, tree)
        paths = [p for p, _ in M.items(model)]
        for count in (0, 1, 1, 1, 1, 2, 3):
            group = rng.sample(paths, count)
            for p in group:
                M.mfind(model, p).value = 'toolong'
                M.find(storage.data, p).value = 'toolong'
            bad = oracle.invalid_nodes(model)
            for base in ((), ('items',), ('sub',)):
                below = {p: b for p, b in bad.items() if p[:len(base)] == base}
                oracle.judge_validation(
                    ctx, '%s validate() of %s with many nodes' % (
                        backend, M.path_str(base)),
                    M.find(storage.data, base).validate, below, base)
            for p in group:
                M.mfind(model, p).value = 'ok'
                M.find(storage.data, p).value = 'ok'
            ctx.event('wide_trees')
            ctx.state((backend, n, [M.path_str(p) for p in group]))
    return run


def directed():
    return [_each_node(b) for b in gen.ALL_BACKENDS] + [
        _wide(b, n) for b in gen.ALL_BACKENDS
        for n in (12, 70, 150, 270, 400)]
