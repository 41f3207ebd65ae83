"""C10: schemas survive serialisation."""
import copy
import json

import numpy as np

from lib import gen, model as M, oracle, stor

PROP = 'C10'
RULE = ('A case sends a random schema through a random chain of conversions '
        '(dict, JSON text, files of each backend, with reordered fields or '
        'other equivalent spellings), then compares class, options and '
        'nesting of every node, hash and equality with the original and with '
        'an independently computed dict, and validates valid and invalid '
        'data with the result, judged by an independent oracle. Dicts with '
        'unknown or mismatched node types must be refused. Distinct: '
        '(canonical JSON, chain of conversions).')
CASES = {'quick': 4200, 'thorough': 60000}
MIN_EVENTS = ('via_dict', 'via_json', 'via_hdf5', 'via_npz', 'via_mat',
              'via_inmem', 'refused_dicts', 'accepted', 'rejected', 'near')

WRONG_TYPES = ('Foo', '', 'compilation', 'ValidationError', 'np', 'json',
               'str', 'object', 'Storage', 'Float', 'ListX', 'Bool ', 'bool')


def compare(ctx, what, node, spec):
    """Compare all public attributes of a schema tree to the spec."""
    t = spec['t']
    if type(node).__name__ != t or type(node).__module__ != 'dsch.schema':
        ctx.fail('%s: %r instead of a %s' % (what, type(node), t))

    def same(name, expected):
        got = getattr(node, name)
        if isinstance(got, (tuple, list)):
            got = list(got)
        if got != expected or (type(got) is not type(expected)
                               and not isinstance(got, np.dtype)):
            ctx.fail('%s: %s.%s is %r instead of %r' % (what, t, name, got,
                                                        expected))
    cfg = gen.spec_dict(spec)['config']
    for name, expected in cfg.items():
        if name == 'subnodes':
            if set(node.subnodes) != set(spec['fields']):
                ctx.fail('%s: fields %s instead of %s' % (
                    what, sorted(node.subnodes), sorted(spec['fields'])))
            for n, sub in spec['fields'].items():
                compare(ctx, what, node.subnodes[n], sub)
        elif name == 'subnode':
            compare(ctx, what, node.subnode, spec['sub'])
        elif name == 'dtype':
            if np.dtype(node.dtype) != np.dtype(expected):
                ctx.fail('%s: dtype %r instead of %r' % (what, node.dtype,
                                                         expected))
        else:
            same(name, expected)


def convert(ctx, node, spec):
    """Serialise and deserialise in some way."""
    from dsch import frontend, schema as S
    rng = ctx.rng
    how = rng.choice(('dict', 'json', 'hdf5', 'npz', 'mat', 'inmem'))
    if not gen.storable(spec, how):
        how = 'npz'
    ctx.event('via_' + how)
    if how == 'dict':
        d = node.to_dict()
        if json.loads(json.dumps(d)) != json.loads(json.dumps(
                gen.spec_dict(spec))):
            ctx.fail('to_dict() is %r' % (d,))
        before = copy.deepcopy(d)
        new = S.node_from_dict(d)
        again = S.node_from_dict(d)
        if again.to_json() != new.to_json() or d != before:
            ctx.fail('converting a dict changes it')
        if rng.random() < 0.5:
            new = getattr(S, spec['t']).from_dict(before)
    elif how == 'json':
        text = node.to_json()
        if text != gen.canonical_json(spec):
            ctx.fail('to_json() is %s' % text)
        if rng.random() < 0.5:
            # Any equivalent JSON text.
            text = json.dumps(json.loads(text), indent=rng.choice((None, 2)),
                              ensure_ascii=rng.random() < 0.5)
        new = S.node_from_json(text)
    elif how == 'inmem':
        storage = frontend.create('::inmem::', node)
        new = frontend.create_from('::inmem::', storage).schema_node
    else:
        storage = stor.new(ctx, how, spec, schema=node)
        if rng.random() < 0.6:
            M.apply_tree(rng, storage.data, spec,
                         gen.gen_tree(rng, spec, big=0.0))
        storage.save(force=True)
        path = storage.storage_path
        storage = None
        stor.drop()
        storage = stor.load(path, force=True)
        new = storage.schema_node
        if storage.schema_hash() != gen.spec_hash(spec):
            ctx.fail('schema_hash() after loading %s file: %s' % (
                how, storage.schema_hash()))
    return how, new


def run_case(ctx):
    from dsch import schema as S
    rng = ctx.rng
    o = gen.Opts(unicode_names=rng.random() < 0.5, constraints=0.75,
                 set_on_create=True, dtype_objects=0.2, big=0.015,
                 depends=0.3)
    spec = gen.gen_spec(rng, o, rng.choice((0, 1, 2, 3, 4)))
    extra_bounds(rng, spec)
    original = gen.build(spec)
    ctx.log(gen.describe(spec))
    node = original
    chain = []
    for _ in range(rng.randint(1, 3)):
        how, node = convert(ctx, node, spec)
        chain.append(how)
        what = 'after %s' % '+'.join(chain)
        compare(ctx, what, node, spec)
        if node.to_json() != gen.canonical_json(spec):
            ctx.fail('%s: JSON is %s' % (what, node.to_json()))
        if node.hash() != gen.spec_hash(spec) \
                or node.hash() != original.hash():
            ctx.fail('%s: hash is %s' % (what, node.hash()))
        if not (node == original and original == node) or node != original:
            ctx.fail('%s: not equal to the original' % what)
    ctx.state((gen.canonical_json(spec), tuple(chain)))
    ctx.log(' -> '.join(chain))
    judge_data(ctx, node, original, spec)
    refuse(ctx, S, node)
    ctx.sample = '; '.join(ctx.log_lines[:2])


def extra_bounds(rng, spec):
    for sub in gen.walk_spec(spec):
        if sub['t'] in ('Array', 'Scalar') and rng.random() < 0.1:
            dt = np.dtype(sub['dtype'])
            if dt.kind == 'f' and not sub.get('indep'):
                sub['max_value'] = rng.choice((float('inf'), 1e300, 0.1,
                                               5e-324, 123456789.123456789))
                sub['min_value'] = rng.choice((None, -0.0, -1e-7))
                if sub['max_value'] > 1e30 and dt.itemsize < 8:
                    sub['max_value'] = float('inf')
                if dt.itemsize < 8 and sub['max_value'] != float('inf'):
                    sub['max_value'] = sub['min_value'] = None
                elif dt.itemsize < 8:
                    sub['min_value'] = -0.0


def judge_data(ctx, node, original, spec):
    """The new schema has to accept and reject the right data."""
    from dsch import frontend
    rng = ctx.rng
    for schema in (node, original):
        storage = frontend.create('::inmem::', schema)
        for _ in range(2):
            tree = gen.gen_tree(rng, spec, big=0.0)
            model = M.from_tree(spec, tree)
            if rng.random() < 0.7:
                oracle.corrupt(rng, model, 'inmem', 1)
            M.set_tree(storage.data, spec, model.tree())
            bad = oracle.invalid_nodes(model)
            oracle.judge_validation(ctx, 'validate() with %s schema' % (
                'converted' if schema is node else 'original'),
                storage.validate, bad)
            ctx.event('rejected' if bad else 'accepted')


def nodes_of(d):
    yield d
    cfg = d['config']
    for sub in cfg.get('subnodes', {}).values():
        yield from nodes_of(sub)
    if 'subnode' in cfg:
        yield from nodes_of(cfg['subnode'])


def refuse(ctx, S, node):
    rng = ctx.rng
    d = json.loads(node.to_json())
    part = rng.choice(list(nodes_of(d)))
    part['node_type'] = rng.choice(WRONG_TYPES)
    for fn, arg in ((S.node_from_dict, d), (S.node_from_json, json.dumps(d))):
        try:
            fn(arg)
        except ValueError:
            ctx.event('refused_dicts')
            continue
        ctx.fail('%s accepts node type %r' % (fn.__name__, part['node_type']))
    d = node.to_dict()
    other = rng.choice([t for t in gen.ITEM_TYPES + ('List', 'Compilation')
                        if t != d['node_type']])
    try:
        getattr(S, other).from_dict(d)
    except ValueError:
        ctx.event('refused_dicts')
        return
    ctx.fail('%s.from_dict() accepts a %s' % (other, d['node_type']))


# ---------------------------------------------------------- directed

def _large(backend):
    """Schemas of more than 64 KiB of JSON."""
    def run(ctx):
        fields = {'field_number_%d' % i: {
            't': 'List', 'max': i, 'min': None,
            'sub': {'t': 'Scalar', 'dtype': 'float64', 'unit': 'Ω' * 20,
                    'max_value': i + 0.5, 'min_value': None}}
            for i in range(900)}
        spec = {'t': 'Compilation', 'fields': fields,
                'optionals': sorted(fields)[::3]}
        storage = stor.new(ctx, backend, spec)
        storage.save()
        path = storage.storage_path
        storage = None
        stor.drop()
        node = stor.load(path).schema_node
        compare(ctx, backend + ', large', node, spec)
        if node.hash() != gen.spec_hash(spec):
            ctx.fail('hash of large schema changed')
        ctx.state((backend, 'large'))
    return run


def _forms(ctx):
    """Options given as lists, tuples or other mappings."""
    import collections
    from dsch import schema as S
    pairs = [
        (S.Array('int8', max_shape=[1, 2], min_shape=[0, None]),
         S.Array('int8', max_shape=(1, 2), min_shape=(0, None))),
        (S.Array('int8', ndim=2, depends_on=['a', None]),
         S.Array('int8', ndim=2, depends_on=('a', None))),
        (S.Array('int8', depends_on='a'), S.Array('int8', depends_on=('a',))),
        (S.Array(np.dtype('int8')), S.Array('int8')),
        (S.Scalar(np.dtype('float32')), S.Scalar('float32')),
        (S.Compilation(collections.OrderedDict(b=S.Bool(), a=S.Bool()),
                       optionals=('a',)),
         S.Compilation({'a': S.Bool(), 'b': S.Bool()}, optionals=['a'])),
        (S.Compilation({}, optionals=None), S.Compilation({}, optionals=[])),
        (S.List(S.Bool(), min_length=0), S.List(S.Bool(), None, 0)),
    ]
    for a, b in pairs:
        for x, y in ((a, b), (b, a), (S.node_from_json(a.to_json()), b),
                     (a, S.node_from_dict(b.to_dict()))):
            if x.hash() != y.hash() or not x == y or x != y:
                ctx.fail('%s and %s differ' % (x.to_json(), y.to_json()))
        ctx.state(a.to_json())


def _near(backend):
    """Each of many schemas with small differences comes back as itself."""
    def run(ctx):
        from dsch import schema as S
        groups = list(gen.near_schemas())
        for spec in [s for group in groups for s in group]:
            original = gen.build(spec)
            if backend is None:
                nodes = [S.node_from_json(original.to_json()),
                         S.node_from_dict(original.to_dict())]
            else:
                if not gen.storable(spec, backend) or len(
                        spec.get('fields', ())) > 20 and ctx.rng.random() < .5:
                    continue
                if spec.get('depends_on'):
                    continue
                storage = stor.new(ctx, backend, spec, schema=original)
                path = storage.storage_path
                storage.save(force=True)
                storage = None
                stor.drop()
                storage = stor.load(path, force=True)
                nodes = [storage.schema_node]
                storage = None
                stor.drop(path)
            for node in nodes:
                compare(ctx, 'near, %s' % backend, node, spec)
                if node.to_json() != gen.canonical_json(spec) \
                        or node.hash() != gen.spec_hash(spec) \
                        or node != original:
                    ctx.fail('%s: %s became %s' % (
                        backend, gen.canonical_json(spec), node.to_json()))
                ctx.event('near')
                ctx.state((backend, gen.canonical_json(spec)))
    return run


def directed():
    return ([_large(b) for b in gen.FILE_BACKENDS] + [_forms]
            + [_near(b) for b in (None,) + gen.FILE_BACKENDS])
