"""C14: empty and complete reflect exactly which data is present."""
import numpy as np

from lib import gen, model as M, ops, stor

PROP = 'C14'
RULE = ('A case runs random operations on a storage (values include those '
        'that are false, zero or without elements) and compares empty and '
        'complete of every node, complete of the storage and the error when '
        'reading empty items with the model after every step, also after '
        'saving and reloading and in copies. Distinct: (schema, set of '
        'filled nodes).')
CASES = {'quick': 3200, 'thorough': 45000}
MIN_EVENTS = ('flags', 'empty', 'not_empty', 'complete', 'not_complete',
              'partial', 'complete_only_by_optionals', 'falsy_values',
              'reloads', 'empty_reads')


def judge(ctx, what, storage, model):
    from dsch import exceptions
    pattern = []
    for path, node in M.walk(model):
        real = M.find(storage.data, path)
        for name in ('empty', 'complete'):
            want = getattr(node, name)
            got = getattr(real, name)
            if got is not want:
                ctx.fail('%s: %s of %s is %r instead of %r' % (
                    what, name, M.path_str(path), got, want))
            ctx.event('flags')
        if isinstance(node, M.Item):
            pattern.append((path, node.empty))
            if node.empty:
                try:
                    value = real.value
                except exceptions.NodeEmptyError:
                    ctx.event('empty_reads')
                else:
                    ctx.fail('%s: value of empty %s is %r' % (
                        what, M.path_str(path), value))
            elif not np.any(np.asarray(node.value).astype(bool)
                            if not isinstance(node.value, (str, bytes))
                            else bool(node.value)):
                ctx.event('falsy_values')
        else:
            pattern.append((path, len(getattr(node, 'items', ()))))
            if not node.empty and not node.complete:
                ctx.event('partial')
            if isinstance(node, M.Comp) and node.complete and any(
                    not f.complete for f in node.fields.values()):
                ctx.event('complete_only_by_optionals')
        ctx.event('empty' if node.empty else 'not_empty')
        ctx.event('complete' if node.complete else 'not_complete')
    if storage.complete is not model.complete:
        ctx.fail('%s: complete of the storage is %r' % (what,
                                                        storage.complete))
    if len(pattern) > 1 or not model.empty:
        ctx.state((gen.canonical_json(model.spec), pattern))


FALSY = {'Bool': False, 'String': '', 'Bytes': b''}


def falsy(rng, spec):
    """A value that is false, zero or has no elements, if it is valid."""
    t = spec['t']
    if t in ('String', 'Bytes') and spec['min']:
        return None
    if t in FALSY:
        return FALSY[t]
    if t == 'Scalar':
        return np.dtype(spec['dtype']).type(0)
    if t == 'Array' and spec['max_shape'] is None:
        return np.zeros(tuple(rng.choice((0, 1)) for _ in range(
            spec['ndim'])), spec['dtype'])
    return None


def run_case(ctx):
    from dsch import frontend
    rng = ctx.rng
    backend = gen.ALL_BACKENDS[ctx.case % 4]
    o = stor.opts_for(backend, big=0.005, max_fields=4, constraints=0.2)
    spec = gen.gen_spec(rng, o, rng.choice((0, 1, 2, 2, 3)))
    ctx.log('%s %s' % (backend, gen.describe(spec)))
    storage = stor.new(ctx, backend, spec)
    model = M.make(spec)
    source = ops.inmem_source(spec)
    judge(ctx, backend + ' new', storage, model)
    if rng.random() < 0.4:
        # Fill everything (but optional fields).
        tree = full_tree(rng, spec)
        M.fill(model, tree)
        M.set_tree(storage.data, spec, tree)
        judge(ctx, backend + ' filled', storage, model)
    for _ in range(rng.randint(1, 7)):
        items = list(M.items(model))
        op = ops.gen_op(rng, model)
        if items and rng.random() < 0.35:
            path, item = rng.choice(items)
            value = falsy(rng, item.spec)
            op = {'op': 'set', 'path': path, 'value': value}
            if value is None or rng.random() < 0.3:
                op = {'op': 'clear', 'path': path}
        ctx.log(ops.show_op(op))
        ops.apply_model(model, op)
        ops.apply_real(storage.data, op, source)
        judge(ctx, '%s after %s' % (backend, ops.show_op(op)), storage, model)
    r = rng.random()
    if backend != 'inmem' and r < 0.6:
        storage.save(force=True)
        path = storage.storage_path
        storage = None
        stor.drop()
        storage = stor.load(path, force=True)
        ctx.event('reloads')
        judge(ctx, backend + ' reloaded', storage, model)
    elif r < 0.8:
        storage = frontend.create_from('::inmem::', storage)
        judge(ctx, backend + ' copied', storage, model)
    ctx.sample = '; '.join(ctx.log_lines[:5])


def full_tree(rng, spec):
    if spec['t'] == 'Compilation':
        tree = gen.gen_tree(rng, dict(spec, fields={
            n: s for n, s in spec['fields'].items() if gen.is_item(s)}),
            fill=1.0, big=0.0)
        for n, s in spec['fields'].items():
            if not gen.is_item(s):
                tree[n] = full_tree(rng, s)
            elif n in spec['optionals'] and rng.random() < 0.5 and not any(
                    n in (gen.deps(x) or ()) for x in
                    spec['fields'].values()):
                tree[n] = None
        return tree
    if spec['t'] == 'List':
        return [full_tree(rng, spec['sub'])
                for _ in range(rng.choice((0, 1, 1, 2)))]
    return gen.gen_leaf(rng, spec, big=0.0)
