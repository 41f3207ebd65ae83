"""C28: looking at data never changes it."""
import os

import numpy as np

from lib import gen, model as M, ops, oracle, stor

PROP = 'C28'
RULE = ('A case fills a storage (new, reloaded or with unsaved changes; also '
        'with invalid data) and looks at random nodes in every way the '
        'interface offers (value, repr, str, dir, vars, len, iteration, '
        'indices, slices, data_tree, node_tree, validate, complete, empty, '
        'lookups of unknown names, elements of arrays, schema JSON, hash and '
        'comparison, storage attributes), scribbling over the dicts, lists '
        'and node lists returned. After each look the observation, the '
        'schema JSON and the file (npz, mat: all bytes) must be as before, '
        'and a look repeated later has to show the same. Edits and saves in '
        'between are judged against the model; at the end a save and reload '
        'must give exactly its data. Distinct: (backend, schema, looks).')
CASES = {'quick': 2400, 'thorough': 40000}
LOOKS = ('repr', 'dir', 'node_tree', 'data_tree', 'data_tree_empty',
         'validate', 'complete', 'empty', 'schema', 'unknown', 'parent',
         'vars')
LOOKS_STORAGE = ('storage_validate', 'storage_complete', 'schema_hash',
                 'storage_repr', 'schema_eq')
MIN_EVENTS = tuple('look_' + k for k in LOOKS + LOOKS_STORAGE + (
    'value', 'elements', 'items', 'fields')) + tuple(
        '%s_%s' % (k, b) for b in gen.ALL_BACKENDS
        for k in ('looks', 'repeated')) + (
    'scribbled', 'invalid', 'unsaved', 'reloaded', 'edits', 'saves',
    'errors', 'file_compared')


def normal(thing, depth=0):
    """Comparable form of whatever a look returned."""
    if isinstance(thing, dict):
        return {str(k): normal(v, depth + 1) for k, v in thing.items()}
    if isinstance(thing, (list, tuple)):
        return [normal(v, depth + 1) for v in thing]
    if type(thing).__module__.startswith('dsch'):
        return ('dsch', type(thing).__qualname__)
    return M.canon(thing)


def public(name):
    return not name.startswith('_')


def values_of(real, model):
    """Identities of all values, which may be part of a returned tree."""
    from dsch import exceptions
    out = {}
    for path, _ in M.items(model):
        try:
            value = M.find(real, path).value
        except exceptions.NodeEmptyError:
            continue
        out[id(value)] = value
    return out


def scribble(ctx, thing, values):
    """Spoil a returned container; it is the caller's own."""
    if id(thing) in values:
        return
    if isinstance(thing, dict):
        for v in thing.values():
            scribble(ctx, v, values)
        if ctx.rng.random() < 0.5:
            thing.clear()
        thing['scribbled'] = 12345
        ctx.event('scribbled')
    elif isinstance(thing, list):
        for v in thing:
            scribble(ctx, v, values)
        if ctx.rng.random() < 0.5:
            del thing[:]
        thing.append('scribbled')
        ctx.event('scribbled')


def run_case(ctx):
    rng = ctx.rng
    backend = gen.ALL_BACKENDS[ctx.case % 4]
    o = stor.opts_for(backend, constraints=0.4, big=0.02)
    spec = gen.gen_spec(rng, o, rng.choice((0, 1, 1, 2, 3)))
    schema = gen.build(spec)
    model = M.from_tree(spec, gen.gen_tree(rng, spec, big=0.05))
    if rng.random() < 0.3 and oracle.corrupt(rng, model, backend,
                                             rng.randint(1, 2)):
        ctx.event('invalid')
    storage = stor.filled(ctx, backend, spec, model.tree(), schema)
    path = storage.storage_path
    if backend != 'inmem' and rng.random() < 0.6:
        storage.save(force=True)
        if rng.random() < 0.6:
            storage = None
            stor.drop()
            storage = stor.load(path, rng.choice((None, backend)), force=True)
            schema = storage.schema_node
            ctx.event('reloaded')
        elif rng.random() < 0.6:
            edit(ctx, storage, model, spec)
            ctx.event('unsaved')
    ctx.log('%s %s' % (backend, gen.describe(spec)))
    run = Run(ctx, backend, spec, schema, storage, model)
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        if r < 0.1:
            edit(ctx, storage, model, spec)
            run.edited()
        elif r < 0.17 and backend != 'inmem':
            ctx.log('save')
            storage.save(force=True)
            run.before = run.file()
            ctx.event('saves')
        else:
            run.look()
    run.check('at the end')
    if backend != 'inmem':
        storage.save(force=True)
        run.storage = storage = None
        run.seen = {}
        stor.drop()
        again = stor.load(path, force=True)
        stor.expect_state(ctx, again, spec, model.canon(), 'after reloading')
    ctx.state((backend, gen.canonical_json(spec), tuple(run.kinds)))
    ctx.sample = '; '.join(ctx.log_lines)[:400]


def edit(ctx, storage, model, spec):
    op = ops.gen_op(ctx.rng, model)
    ctx.log(ops.show_op(op))
    ops.apply_model(model, op)
    ops.apply_real(storage.data, op, ops.inmem_source(spec))
    ctx.event('edits')


class Run:
    def __init__(self, ctx, backend, spec, schema, storage, model):
        self.ctx = ctx
        self.backend = backend
        self.spec = spec
        self.schema = schema
        self.storage = storage
        self.model = model
        self.json = gen.canonical_json(spec)
        self.digest = gen.spec_hash(spec)
        self.seen = {}
        self.kinds = []
        self.before = self.file()
        self.path = storage.storage_path

    def file(self):
        if self.backend not in ('npz', 'mat'):
            return None
        return stor.digest(self.storage.storage_path)

    def edited(self):
        self.seen = {}

    def check(self, what):
        ctx, storage = self.ctx, self.storage
        stor.expect_state(ctx, storage, self.spec, self.model.canon(), what)
        # Hash and JSON are compared as text with an independent encoding.
        if self.schema.hash() != self.digest:
            ctx.fail('%s: the schema has become %s' % (what,
                                                       self.schema.to_json()))
        if storage.schema_node.hash() != self.digest:
            ctx.fail('%s: the schema of the storage has become %s' % (
                what, storage.schema_node.to_json()))
        if storage.storage_path != self.path:
            ctx.fail('%s: storage_path has become %r' % (
                what, storage.storage_path))
        if self.backend in ('npz', 'mat'):
            if self.file() != self.before:
                ctx.fail('%s: the file has changed' % what)
            ctx.event('file_compared')
        elif self.backend == 'inmem' and os.listdir(ctx.scratch):
            ctx.fail('%s: files %s' % (what, os.listdir(ctx.scratch)))

    def look(self):
        ctx, rng = self.ctx, self.ctx.rng
        if rng.random() < 0.15:
            where, kind = 'storage', rng.choice(LOOKS_STORAGE)
            fn = self.storage_look(kind)
        else:
            path, node = rng.choice(list(M.walk(self.model)))
            where = M.path_str(path)
            real = M.find(self.storage.data, path)
            kinds = list(LOOKS)
            if isinstance(node, M.Item):
                kinds += ['value'] * 3
                if node.spec['t'] == 'Array' and node.value is not None:
                    kinds += ['elements'] * 4
            elif isinstance(node, M.List):
                kinds += ['items'] * 4
            else:
                kinds += ['fields'] * 3
            kind = rng.choice(kinds)
            fn = self.node_look(kind, real, node, path)
        ctx.event('look_' + kind)
        ctx.event('looks_' + self.backend)
        ctx.log('%s of %s' % (kind, where))
        self.kinds.append(kind)
        for _ in range(rng.randint(1, 3)):
            self.once(kind, where, fn)
            if rng.random() < 0.5:
                self.check('after %s of %s' % (kind, where))
        self.check('after %s of %s' % (kind, where))

    def once(self, kind, where, fn):
        from dsch import exceptions
        ctx = self.ctx
        result = None
        try:
            result = fn()
            got = normal(result)
        except (exceptions.DschError, AttributeError, KeyError,
                IndexError, TypeError) as err:
            ctx.event('errors')
            got = ('raised', type(err).__qualname__, str(err))
            if isinstance(err, exceptions.SubnodeValidationError):
                got += (err.node_path(), err.node_path(),
                        str(err.original_cause()), str(err))
        # With a key of its own for each way to look.
        key = (kind, where, fn.__name__ if kind != 'elements' else id(fn))
        if key in self.seen and kind not in ('elements', 'items', 'fields'):
            if self.seen[key] != got:
                ctx.fail('%s of %s: %s at first, now %s' % (
                    kind, where, short(self.seen[key]), short(got)))
            ctx.event('repeated_' + self.backend)
        self.seen[key] = got
        if isinstance(result, (dict, list)):
            scribble(ctx, result, values_of(self.storage.data, self.model))

    def storage_look(self, kind):
        storage = self.storage
        if kind == 'storage_validate':
            return storage.validate
        if kind == 'storage_complete':
            return lambda: storage.complete
        if kind == 'schema_hash':
            return storage.schema_hash
        if kind == 'storage_repr':
            return lambda: [repr(storage), str(storage), sorted(filter(
                public, dir(storage))), storage.storage_path]
        other = gen.build(self.spec)

        def schema_eq():
            return [storage.schema_node == other, other == storage.schema_node,
                    storage.schema_node != other, storage.schema_node == 1,
                    self.schema == storage.schema_node]
        return schema_eq

    def node_look(self, kind, real, node, path):
        rng = self.ctx.rng
        if kind == 'repr':
            return lambda: [repr(real), str(real), format(real), '%s' % real]
        if kind == 'dir':
            return lambda: [n for n in dir(real) if public(n)]
        if kind == 'vars':
            return lambda: sorted(vars(real)) and None
        if kind == 'node_tree':
            return real.node_tree
        if kind == 'data_tree':
            return real.data_tree
        if kind == 'data_tree_empty':
            return lambda: real.data_tree(include_empty=True)
        if kind == 'validate':
            return real.validate
        if kind == 'complete':
            return lambda: real.complete
        if kind == 'empty':
            return lambda: real.empty
        if kind == 'value':
            return lambda: real.value
        if kind == 'parent':
            return lambda: real.parent
        if kind == 'schema':
            return lambda: [real.schema_node.to_json(),
                            real.schema_node.hash(),
                            real.schema_node.to_json()]
        if kind == 'unknown':
            name = rng.choice(('nothing_here', 'x, y', 'Value', 'item_-1', '',
                               '_none', 'Values'))
            return lambda: [getattr(real, name, None) is None
                            or 'found', hasattr(real, name)]
        if kind == 'elements':
            return lambda: elements(rng, real, node.value)
        if kind == 'items':
            return lambda: list_items(rng, real, len(node.items))
        return lambda: fields(rng, real, node)


def elements(rng, real, value):
    key = ops.gen_key(rng, value.shape)
    real[key]  # pylint: disable=pointless-statement
    value = real.value
    if value.dtype.kind in 'biuf' and value.size:
        value.max(), value.sum(), value.astype('float64')
    np.asarray(value).tolist()
    return None


def list_items(rng, real, n):
    out = list(real)
    if len(out) != n or len(real) != n:
        raise ValueError('%d of %d items' % (len(out), n))
    part = real[:] if rng.random() < 0.5 else real[
        slice(rng.choice((None, 0, 1, -1)), rng.choice((None, 2, -1)))]
    if isinstance(part, list):
        part.reverse()
        part.append(None)
    for idx in (-1, n - 1, n, -n - 1, 'x', None):
        try:
            real[idx]  # pylint: disable=pointless-statement
        except (IndexError, TypeError):
            pass
    if n:
        out[0] in out  # pylint: disable=pointless-statement
    bool(real)
    return None


def fields(rng, real, node):
    names = list(node.fields)
    rng.shuffle(names)
    for name in names:
        getattr(real, name)
        hasattr(real, name)
    bool(real)
    return None


def short(thing):
    text = repr(thing)
    return text if len(text) < 150 else text[:140] + '...'
