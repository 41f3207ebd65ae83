"""C15: data trees and printed trees show exactly the stored data."""
import numpy as np

from lib import gen, model as M, ops, oracle, stor

PROP = 'C15'
RULE = ('A case fills a storage by random operations (any filling), also '
        'saved and reloaded, and takes data_tree() with and without empty '
        'items, node_tree() and repr() of every node, comparing them with '
        'trees computed from the model; trees without left-out items are fed '
        'to replace() of fresh nodes of other backends. Distinct: (backend, '
        'schema, data).')
CASES = {'quick': 3000, 'thorough': 40000}
MIN_EVENTS = ('data_trees', 'with_empty', 'left_out', 'round_trips',
              'printed', 'printed_empty', 'printed_units', 'printed_arrays',
              'counted_lines', 'reloads', 'many')
ASSUMPTIONS = ['fields appear in the order of schema_node.subnodes, which is '
               'the order of definition in new storages']


def expected_tree(model, include_empty):
    """Canonical data tree that a node must return."""
    if isinstance(model, M.Comp):
        out = {}
        for n, f in model.fields.items():
            sub = expected_tree(f, include_empty)
            if sub is not None or include_empty:
                out[n] = sub
        return out
    if isinstance(model, M.List):
        subs = [expected_tree(i, include_empty) for i in model.items]
        return [s for s in subs if s is not None or include_empty]
    return model.canon()


def strict_canon(ctx, tree):
    """Canonical form that insists on plain dicts and lists."""
    if type(tree) is dict:
        return {k: strict_canon(ctx, v) for k, v in tree.items()}
    if type(tree) is list:
        return [strict_canon(ctx, v) for v in tree]
    return M.canon(tree)


def field_order(model, real):
    """Names in the order of the schema that is in use."""
    return list(real.schema_node.subnodes)


def data_trees(ctx, what, storage, model):
    for path, node in M.walk(model):
        real = M.find(storage.data, path)
        for include in (False, True):
            style = ctx.rng.randrange(3)
            if style == 0:
                tree = real.data_tree(include)
            elif style == 1 or include:
                tree = real.data_tree(include_empty=include)
            else:
                tree = real.data_tree()
            want = expected_tree(node, include)
            d = M.diff(want, strict_canon(ctx, tree))
            if d:
                ctx.fail('%s: data_tree(%s) of %s: %s' % (
                    what, include, M.path_str(path), d))
            if isinstance(node, M.Comp):
                order = [n for n in field_order(node, real) if n in want]
                if list(tree) != order:
                    ctx.fail('%s: data_tree of %s has order %s instead of %s'
                             % (what, M.path_str(path), list(tree), order))
            ctx.event('with_empty' if include else 'data_trees')
            if want != expected_tree(node, True):
                ctx.event('left_out')
            # The returned containers belong to the caller.
            if isinstance(tree, (dict, list)) and ctx.rng.random() < 0.2:
                tree.clear()
    stor.expect_state(ctx, storage, model.spec, model.canon(),
                      what + ': after data_tree()')


def has_empty_items(model):
    """Whether a list below has directly contained empty items."""
    return any(isinstance(n, M.List) and any(
        isinstance(i, M.Item) and i.empty for i in n.items)
        for _, n in M.walk(model))


def round_trip(ctx, what, storage, model, backend):
    rng = ctx.rng
    nodes = [(p, n) for p, n in M.walk(model) if not has_empty_items(n)
             and not (isinstance(n, M.Item) and n.empty)]
    if not nodes:
        return
    path, node = rng.choice(nodes)
    if path and rng.random() < 0.5:
        path, node = nodes[0]
    target = rng.choice((backend, 'inmem', 'npz', 'hdf5'))
    fresh = stor.new(ctx, target, node.spec)
    tree = M.find(storage.data, path).data_tree()
    fresh.data.replace(tree)
    stor.expect_state(ctx, fresh, node.spec, node.canon(),
                      '%s: data_tree of %s fed to replace() on %s' % (
                          what, M.path_str(path), target))
    ctx.event('round_trips')


# ---------------------------------------------------------- printed trees

def parts_of(node):
    """Texts that must appear in the label of an item, in order."""
    t = node.spec['t']
    if node.empty:
        return [t, '<empty>']
    if t == 'Array':
        return [t, 'x'.join(str(n) for n in node.value.shape)]
    if t == 'Scalar':
        # Several spellings of the same number are fine.
        v = node.value
        return [t, (str(v), format(v), str(v.item()), repr(v)),
                node.spec['unit']]
    return [t, str(node.value)]


def in_order(text, parts, pos=0, rest=None):
    for p in parts:
        options = (p,) if isinstance(p, str) else p
        found = [(text.find(o, pos), -len(o)) for o in options]
        found = [f for f in found if f[0] >= 0]
        if not found:
            return None
        first, length = min(found)
        if rest is not None:
            rest.append(text[pos:first])
        pos = first - length
    if rest is not None:
        rest.append(text[pos:])
    return pos


def judge_label(ctx, what, label, prefix, node):
    if not isinstance(label, str):
        ctx.fail('%s: label %r' % (what, label))
    if prefix and not label.startswith(prefix):
        ctx.fail('%s: label %r should start with %r' % (what, label, prefix))
    parts = ([prefix] if prefix else []) + (
        parts_of(node) if isinstance(node, M.Item) else [node.spec['t']])
    rest = []
    if in_order(label, parts, rest=rest) is None:
        ctx.fail('%s: label %r lacks one of %r' % (what, label, parts))
    rest = ' '.join(rest)
    if node.spec['t'] == 'Array':
        rest = rest.replace('array', '')
    if any(c.isalnum() for c in rest):
        ctx.fail('%s: label %r has more than %r' % (what, label, parts))
    if isinstance(node, M.Item) and not node.empty and '<empty>' in label \
            and not any('<empty>' in p for p in parts):
        ctx.fail('%s: label %r of a filled node' % (what, label))


def judge_node_tree(ctx, what, tree, prefix, node, real):
    """node_tree() must have exactly one entry per node, in order."""
    if type(tree) is not dict or len(tree) != 1:
        ctx.fail('%s: node_tree is %r' % (what, tree))
    (label, sub), = tree.items()
    judge_label(ctx, what, label, prefix, node)
    children = children_of(node, real)
    if len(sub) != len(children):
        ctx.fail('%s: node_tree has %d sub-nodes instead of %d' % (
            what, len(sub), len(children)))
    for (k, v), (name, child, r) in zip(sub.items(), children):
        judge_node_tree(ctx, what, {k: v}, name, child, r)


def children_of(node, real):
    if isinstance(node, M.Comp):
        return [(n, node.fields[n], getattr(real, n))
                for n in field_order(node, real)]
    if isinstance(node, M.List):
        return [('[%d]' % i, n, real[i]) for i, n in enumerate(node.items)]
    return []


def flat(node, real, prefix=''):
    yield prefix, node
    for name, child, r in children_of(node, real):
        yield from flat(child, r, name)


def printed(ctx, what, storage, model):
    for path, node in M.walk(model):
        real = M.find(storage.data, path)
        where = '%s: %s' % (what, M.path_str(path))
        if path and isinstance(node, M.Item) and ctx.rng.random() < 0.5:
            continue
        judge_node_tree(ctx, where, real.node_tree(), '', node, real)
        text = repr(real)
        if not isinstance(text, str) or str(real) != text:
            ctx.fail('%s: repr() is %r' % (where, text))
        pos = 0
        lines = 0
        plain = True
        for prefix, sub in flat(node, real):
            parts = ([prefix] if prefix else []) + (
                parts_of(sub) if isinstance(sub, M.Item) else
                [sub.spec['t']])
            pos = in_order(text, parts, pos)
            if pos is None:
                ctx.fail('%s: repr() lacks %r (in order):\n%s' % (
                    where, parts, text[:2000]))
            lines += 1
            if isinstance(sub, M.Item):
                if sub.empty:
                    ctx.event('printed_empty')
                elif sub.spec['t'] in ('String', 'Scalar'):
                    plain = plain and '\n' not in str(sub.value)
                    if sub.spec.get('unit'):
                        ctx.event('printed_units')
                elif sub.spec['t'] == 'Array':
                    ctx.event('printed_arrays')
        ctx.event('printed')
        if plain:
            ctx.event('counted_lines')
            if len(text.strip('\n').split('\n')) != lines:
                ctx.fail('%s: repr() has %d lines for %d nodes:\n%s' % (
                    where, len(text.split('\n')), lines, text[:2000]))


def run_case(ctx):
    rng = ctx.rng
    backend = gen.ALL_BACKENDS[ctx.case % 4]
    o = stor.opts_for(backend, big=0.005, max_fields=5, constraints=0.2)
    spec = gen.gen_spec(rng, o, rng.choice((0, 1, 2, 2, 3)))
    ctx.log('%s %s' % (backend, gen.describe(spec)))
    model = M.from_tree(spec, gen.gen_tree(rng, spec, big=0.005))
    if rng.random() < 0.15:
        oracle.corrupt(rng, model, 'hdf5', 1)
    storage = stor.filled(ctx, backend, spec, model.tree())
    source = ops.inmem_source(spec)
    for path, node in M.walk(model):
        if isinstance(node, M.Comp) and field_order(
                node, M.find(storage.data, path)) != list(node.spec['fields']):
            ctx.fail('order of fields in the schema changed')
    for _ in range(rng.randint(0, 4)):
        op = ops.gen_op(rng, model)
        ctx.log(ops.show_op(op))
        ops.apply_model(model, op)
        ops.apply_real(storage.data, op, source)
    what = backend
    if backend != 'inmem' and rng.random() < 0.35:
        storage.save(force=True)
        path = storage.storage_path
        storage = None
        stor.drop()
        storage = stor.load(path, force=True)
        ctx.event('reloads')
        what += ' reloaded'
    data_trees(ctx, what, storage, model)
    printed(ctx, what, storage, model)
    round_trip(ctx, what, storage, model, backend)
    stor.expect_state(ctx, storage, spec, model.canon(), what + ': at the end')
    ctx.state((backend, gen.describe(spec), M.freeze(model.canon())))
    ctx.sample = '; '.join(ctx.log_lines[:4])


# ---------------------------------------------------------- directed

def _many(backend):
    """Trees with very many nodes of each kind, and very deep ones."""
    def run(ctx):
        rng = ctx.rng
        b = gen.plain('Scalar', dtype='int32', unit='V')
        two = gen.comp({'p': gen.plain('Bool'), 'q': gen.plain('String')})
        deep, leaf = b, np.int32(5)
        for i in range(24):
            deep, leaf = ((gen.listof(deep), [leaf, leaf] if i < 2 else [leaf])
                          if i % 2 else
                          (gen.comp({'d': deep}), {'d': leaf}))
        n = rng.choice((1001, 1024, 1100, 1300))
        cases = [
            (gen.listof(b), [np.int32(i % 3) if i % 4 else None
                             for i in range(n)]),
            (gen.listof(gen.plain('Bool')), [True] * n),
            (gen.listof(gen.plain('String')), [None] * n),
            (gen.listof(two), [{'p': bool(i % 2), 'q': None}
                               for i in range(n)]),
            (gen.listof(gen.listof(b)), [[np.int32(1)] * 3] * 260),
            (gen.listof(gen.listof(b)), [[np.int32(1)] * 260] * 2 + [[]]),
            (gen.comp({'field_%d' % i: b for i in range(n)}),
             {'field_%d' % i: np.int32(i) if i % 3 else None
              for i in range(n)}),
            (gen.comp({'list_%d' % i: gen.listof(b) for i in range(300)}),
             {'list_%d' % i: [np.int32(1)] * (i % 3) for i in range(300)}),
            (deep, leaf),
        ]
        for spec, tree in cases:
            storage = stor.filled(ctx, backend, spec, tree)
            model = M.from_tree(spec, tree)
            what = '%s, many nodes' % backend
            judge_node_tree(ctx, what, storage.data.node_tree(), '', model,
                            storage.data)
            text = repr(storage.data)
            pos = 0
            for prefix, sub in flat(model, storage.data):
                parts = ([prefix] if prefix else []) + (
                    parts_of(sub) if isinstance(sub, M.Item) else
                    [sub.spec['t']])
                pos = in_order(text, parts, pos)
                if pos is None:
                    ctx.fail('%s: repr() of %s lacks %r (in order)' % (
                        what, gen.describe(spec)[:100], parts))
            lines = len(list(flat(model, storage.data)))
            if len(text.strip('\n').split('\n')) != lines:
                ctx.fail('%s: repr() has %d lines for %d nodes' % (
                    what, len(text.split('\n')), lines))
            for empty in (False, True):
                d = M.diff(expected_tree(model, empty),
                           strict_canon(ctx, storage.data.data_tree(empty)))
                if d:
                    ctx.fail('%s: data_tree(%s): %s' % (what, empty, d))
            ctx.event('many')
            ctx.state((backend, gen.describe(spec)[:50], lines))
    return run


def directed():
    return [_many(b) for b in gen.ALL_BACKENDS]
