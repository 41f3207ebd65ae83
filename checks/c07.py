"""C07: dependent arrays must match their independent variables."""
import itertools

import numpy as np

from lib import gen, model as M, ops, oracle, stor

PROP = 'C07'
RULE = ('A case is a history of edits (values of matching and mismatching '
        'sizes, in-place resizing, clearing, copying, list growth and '
        'removal, save and reload) of a compilation with independent and '
        'dependent arrays, placed at top level, in compilations or in lists; '
        'after each edit every node is validated and compared with an oracle '
        'that only counts elements. Directed cases enumerate every pattern '
        'of None over up to 4 dimensions with each single dimension wrong. '
        'Non-trivial: a validation in which a dependent array is filled. '
        'Distinct: (dependencies, sizes of all filled arrays).')
CASES = {'quick': 3600, 'thorough': 60000}
MIN_EVENTS = ('mismatches', 'matches', 'none_dims', 'empty_independents',
              'validations', 'reloads', 'in_list')
ASSUMPTIONS = ['independent variables are arrays with at most one dimension',
               'an empty independent variable constrains nothing']


def array(ndim, deps=None, dtype='int32'):
    return {'t': 'Array', 'dtype': dtype, 'unit': '', 'ndim': ndim,
            'max_shape': None, 'min_shape': None, 'max_value': None,
            'min_value': None, 'depends_on': deps, 'dtype_object': False}


def gen_group(rng):
    """A compilation with dependent arrays, maybe depending on each other."""
    names = rng.sample(gen.names_for(False), 9)
    indep = names[:rng.randint(1, 3)]
    fields = {n: array(1, dtype=rng.choice(('int8', 'float64', 'bool')))
              for n in indep}
    chain = list(indep)
    for name in names[3:3 + rng.randint(1, 3)]:
        ndim = rng.choice((1, 1, 2, 2, 3, 3, 4))
        pattern = [rng.choice(chain) if rng.random() < 0.6 else None
                   for _ in range(ndim)]
        if not any(pattern):
            pattern[rng.randrange(ndim)] = rng.choice(chain)
        deps = tuple(pattern)
        if ndim == 1:
            if rng.random() < 0.5:
                deps = deps[0]
            if rng.random() < 0.3:
                chain.append(name)
        fields[name] = array(ndim, deps, rng.choice(('int16', 'float32')))
    if rng.random() < 0.3:
        fields[names[7]] = {'t': 'String', 'max': None, 'min': None}
    items = list(fields.items())
    rng.shuffle(items)
    return {'t': 'Compilation', 'fields': dict(items),
            'optionals': rng.sample(indep, 1) if rng.random() < 0.3 else []}


def wrap(rng, spec, depth):
    """Place a spec somewhere inside compilations and lists."""
    for _ in range(depth):
        if rng.random() < 0.5:
            spec = {'t': 'List', 'sub': spec, 'max': None, 'min': None}
        else:
            names = rng.sample(gen.names_for(False), 3)
            fields = {names[0]: spec}
            if rng.random() < 0.4:
                fields[names[1]] = gen_group(rng)
            if rng.random() < 0.3:
                # Same names one level up must not matter.
                fields[names[2]] = array(1)
                group = spec if spec['t'] == 'Compilation' else None
                if group:
                    for n in list(group['fields'])[:2]:
                        fields.setdefault(n, array(1))
            spec = {'t': 'Compilation', 'fields': fields, 'optionals': []}
    return spec


def groups(model):
    """All compilations with dependent arrays."""
    for path, node in M.walk(model):
        if isinstance(node, M.Comp) and any(
                gen.deps(f.spec) for f in node.fields.values()):
            yield path, node


def random_value(rng, spec, size):
    return (np.arange(int(np.prod(size, dtype=int))) % 100).reshape(
        size).astype(spec['dtype'])


def fitting_size(rng, spec, siblings, p_wrong):
    size = []
    for name in gen.deps(spec) or (None,) * spec['ndim']:
        n = rng.choice((0, 1, 2, 2, 3, 4))
        if name and siblings[name].value is not None \
                and rng.random() >= p_wrong:
            n = siblings[name].value.size
        size.append(n)
    return tuple(size)


def edit(ctx, backend, model, root):
    rng = ctx.rng
    found = list(groups(model))
    lists = [(p, n) for p, n in M.walk(model) if isinstance(n, M.List)]
    if lists and (not found or rng.random() < 0.2):
        path, node = rng.choice(lists)
        real = M.find(root, path)
        if len(node.items) > 3 or (node.items and rng.random() < 0.15):
            ctx.log('clear %s' % M.path_str(path))
            node.clear()
            real.clear()
        else:
            ctx.log('append to %s' % M.path_str(path))
            node.append()
            real.append()
        return
    if not found:
        return
    path, group = rng.choice(found)
    arrays = [n for n, f in group.fields.items() if f.spec['t'] == 'Array']
    name = rng.choice(arrays)
    item = group.fields[name]
    real = getattr(M.find(root, path), name)
    r = rng.random()
    where = M.path_str(path + (name,))
    if r < 0.1:
        ctx.log('clear %s' % where)
        item.clear()
        real.clear()
    elif r < 0.3 and item.value is not None and item.spec['ndim']:
        size = fitting_size(rng, item.spec, group.fields, 0.3)
        ctx.log('resize %s to %s' % (where, size))
        item.resize(size)
        real.resize(size)
    elif r < 0.4:
        # Fill all fields of the group at once with what fits.
        for n in sorted(arrays, key=lambda n: depth(group.spec, n)):
            f = group.fields[n]
            f.value = random_value(rng, f.spec, fitting_size(
                rng, f.spec, group.fields, 0.0))
        ctx.log('replace %s: %s' % (M.path_str(path), {
            n: group.fields[n].value.shape for n in arrays}))
        M.find(root, path).replace({n: group.fields[n].value.copy()
                                    for n in arrays})
    else:
        value = random_value(rng, item.spec, fitting_size(
            rng, item.spec, group.fields, 0.35))
        ctx.log('set %s: shape %s' % (where, value.shape))
        item.replace(value)
        real.value = value.copy()


def depth(spec, name):
    return 1 + max([depth(spec, d) for d in gen.deps(spec['fields'][name])
                    or () if d] or [0])


def judge(ctx, backend, model, storage):
    bad = oracle.invalid_nodes(model)
    oracle.judge_validation(ctx, backend + ' storage.validate()',
                            storage.validate, bad)
    ctx.event('validations')
    for path, node in M.walk(model):
        below = {p: b for p, b in bad.items() if p[:len(path)] == path}
        oracle.judge_validation(
            ctx, '%s validate() of %s' % (backend, M.path_str(path)),
            M.find(storage.data, path).validate, below, path)
    for path, group in groups(model):
        filled = False
        for name, f in group.fields.items():
            if not gen.deps(f.spec) or f.value is None:
                continue
            filled = True
            ctx.event('mismatches' if path + (name,) in bad else 'matches')
            if None in gen.deps(f.spec):
                ctx.event('none_dims')
            if any(d and group.fields[d].value is None
                   for d in gen.deps(f.spec)):
                ctx.event('empty_independents')
            if any(isinstance(p, int) for p in path):
                ctx.event('in_list')
        if filled:
            ctx.state((sorted((n, f.spec.get('depends_on'),
                               None if f.value is None else f.value.shape)
                              for n, f in group.fields.items()
                              if f.spec['t'] == 'Array')))


def run_case(ctx):
    rng = ctx.rng
    backend = gen.ALL_BACKENDS[ctx.case % 4]
    spec = wrap(rng, gen_group(rng), rng.choice((0, 0, 1, 1, 2, 3)))
    model = M.make(spec)
    storage = stor.new(ctx, backend, spec)
    ctx.log('%s %s' % (backend, gen.describe(spec)))
    for _ in range(rng.randint(3, 14)):
        edit(ctx, backend, model, storage.data)
        if rng.random() < 0.75:
            judge(ctx, backend, model, storage)
        if rng.random() < 0.12 and backend != 'inmem':
            ctx.log('save and reload')
            storage.save(force=True)
            path = storage.storage_path
            storage = None
            stor.drop()
            storage = stor.load(path, force=True)
            ctx.event('reloads')
            judge(ctx, backend, model, storage)
        elif rng.random() < 0.06:
            ctx.log('copy')
            from dsch import frontend
            storage = frontend.create_from('::inmem::', storage)
            backend = 'inmem'
            judge(ctx, backend, model, storage)
    judge(ctx, backend, model, storage)
    stor.expect_state(ctx, storage, spec, model.canon(), backend)
    ctx.sample = '; '.join(ctx.log_lines[:10])


# ---------------------------------------------------------- directed

def _patterns(backend, container):
    """Every pattern of None, every dimension wrong in turn, both ways."""
    def run(ctx):
        for ndim in range(1, 5):
            names = ['abcd'[i] for i in range(ndim)]
            for mask in itertools.product((True, False), repeat=ndim):
                deps = tuple(n if m else None for n, m in zip(names, mask))
                if not any(deps):
                    continue
                fields = {n: array(1) for n in names}
                fields['dep'] = array(ndim, deps)
                spec = {'t': 'Compilation', 'fields': fields,
                        'optionals': []}
                where = ()
                if container == 'list':
                    spec = {'t': 'List', 'sub': spec, 'max': None,
                            'min': None}
                    where = (1,)
                elif container == 'comp':
                    # Fields of the outer Compilation never count, although
                    # they have the same names.
                    outer = {n: array(1) for n in names}
                    outer['x'] = spec
                    spec = {'t': 'Compilation', 'optionals': list(names),
                            'fields': outer}
                    where = ('x',)
                storage = stor.new(ctx, backend, spec)
                model = M.make(spec)
                if container == 'list':
                    for _ in range(2):
                        model.append()
                        storage.data.append()
                group = M.mfind(model, where)
                real = M.find(storage.data, where)
                sizes = tuple(i + 2 for i in range(ndim))
                if container == 'comp':
                    for name in names[mask[0]:]:
                        value = random_value(ctx.rng,
                                             model.fields[name].spec, (9,))
                        model.fields[name].replace(value)
                        getattr(storage.data, name).value = value.copy()

                def put(name, size, group=group, real=real):
                    value = random_value(ctx.rng, group.fields[name].spec,
                                         size)
                    group.fields[name].replace(value)
                    getattr(real, name).value = value.copy()
                for name, n in zip(names, sizes):
                    put(name, (n,))
                put('dep', sizes)
                judge(ctx, backend, model, storage)
                for i in range(ndim):
                    for delta in (-1, 1):
                        wrong = list(sizes)
                        wrong[i] += delta
                        put('dep', tuple(wrong))
                        judge(ctx, backend, model, storage)
                        put('dep', sizes)
                        put(names[i], (sizes[i] + delta,))
                        judge(ctx, backend, model, storage)
                        put(names[i], (0,))
                        judge(ctx, backend, model, storage)
                        group.fields[names[i]].clear()
                        getattr(real, names[i]).clear()
                        judge(ctx, backend, model, storage)
                        put(names[i], (sizes[i],))
                # Permuted sizes.
                put('dep', sizes[::-1])
                judge(ctx, backend, model, storage)
    return run


def _sizes(ctx):
    """Sizes which are equal or different only in their upper digits."""
    import numpy as np
    sizes = (0, 1, 2, 9, 10, 11, 99, 100, 101, 127, 128, 255, 256, 257, 511,
             512, 1000, 1001, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20,
             (1 << 20) + 1)
    for backend in ('inmem', 'npz', 'hdf5'):
        spec = {'t': 'Compilation', 'optionals': [], 'fields': {
            't': array(1, dtype='int8'), 'u': array(1, ('t',), dtype='int8'),
            'w': array(2, (None, 't'), dtype='int8')}}
        storage = stor.new(ctx, backend, spec)
        model = M.make(spec)
        some = [1 << 20, 65536, 0] if backend != 'inmem' else sizes

        def put(name, shape, storage=storage, model=model):
            value = np.zeros(shape, 'int8')
            model.fields[name].replace(value)
            getattr(storage.data, name).value = value
        for n in some:
            put('t', (n,))
            for m in sizes:
                for name, shape in (('u', (m,)), ('w', (1, m))):
                    put(name, shape)
                    oracle.judge_validation(
                        ctx, '%s: %r for %d' % (backend, shape, n),
                        storage.validate, oracle.invalid_nodes(model))
                    ctx.event('validations')
                    model.fields[name].clear()
                    getattr(storage.data, name).clear()
        ctx.state((backend, 'sizes'))
    # Without any memory for the elements.
    from dsch import exceptions, schema
    node = schema.Array('int8', depends_on=('t',))
    for n in (1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 40):
        for m in (0, 1, n % (1 << 16), n % (1 << 32), n - 1, n, n + 1):
            wide = np.broadcast_to(np.int8(1), (m,))
            try:
                node.validate(wide, [np.broadcast_to(np.int8(1), (n,))])
                ok = True
            except exceptions.ValidationError:
                ok = False
            if ok != (n == m):
                ctx.fail('%d elements depending on %d: %s' % (
                    m, n, 'accepted' if ok else 'rejected'))


def directed():
    return [_sizes] + ([_patterns(b, 'top') for b in gen.ALL_BACKENDS]
            + [_patterns('inmem', c) for c in ('list', 'comp')])
