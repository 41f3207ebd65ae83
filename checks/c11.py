"""C11: schema hash and equality identify the schema."""
import copy
import os
import pickle
import subprocess
import sys

import numpy as np

from lib import core, gen, model as M, oracle, stor

PROP = 'C11'
RULE = ('A case builds a schema and variants of it (same fields in another '
        'order, variants with a single changed detail, unrelated ones) and '
        'compares every pair: hash, ==, != against SHA-256 of independently '
        'computed canonical JSON. The schema is then used (storages on all '
        'backends, edits, validation, saving, loading, copying, comparing), '
        'after which hash and dict must be the same; nodes of loaded '
        'storages and data nodes must have the same hashes. Directed: child '
        'processes with other hash seeds. Distinct: pairs of canonical JSON.')
CASES = {'quick': 4200, 'thorough': 60000}
MIN_EVENTS = ('equal_pairs', 'unequal_pairs', 'single_detail', 'reordered',
              'non_schemas', 'used', 'child_hashes', 'near')


def related(rng, spec):
    out = [('same', spec), ('reordered', gen.reorder(rng, spec))]
    for _ in range(3):
        out.append(('single_detail', gen.mutate(rng, spec)))
    out.append(('other', gen.gen_spec(rng, gen.Opts(), rng.choice((0, 1, 2)))))
    # Another order of the optional fields changes the hash, as well.
    turned = gen.clone(spec)
    for s in gen.walk_spec(turned):
        if s['t'] == 'Compilation':
            s['optionals'] = s['optionals'][::-1]
    out.append(('optionals', turned))
    return out


def run_case(ctx):
    rng = ctx.rng
    o = gen.Opts(unicode_names=rng.random() < 0.5, constraints=0.7,
                 set_on_create=True, dtype_objects=0.2, big=0.01)
    spec = gen.gen_spec(rng, o, rng.choice((0, 1, 2, 3)))
    group = [(kind, s, gen.build(s)) for kind, s in related(rng, spec)]
    ctx.log(gen.describe(spec))
    for kind, s, node in group:
        expected = gen.spec_hash(s)
        if node.hash() != expected:
            ctx.fail('hash of %s is %s instead of %s' % (
                gen.canonical_json(s), node.hash(), expected))
        ctx.event(kind)
    for _, s1, a in group:
        for _, s2, b in group:
            pair(ctx, s1, a, s2, b)
    non_schemas(ctx, spec, group[0][2])
    if rng.random() < 0.6:
        use(ctx, spec, group[0][2])
        for _, s2, b in group:
            pair(ctx, spec, group[0][2], s2, b)
    below(ctx, spec, group[0][2])
    change(ctx, rng, spec)
    ctx.sample = '; '.join('%s %s' % (k, gen.describe(s))
                           for k, s, _ in group[:4])


def pair(ctx, s1, a, s2, b):
    j1, j2 = gen.canonical_json(s1), gen.canonical_json(s2)
    equal = j1 == j2
    if (a.hash() == b.hash()) != equal:
        ctx.fail('hashes %s and %s for %s and %s' % (a.hash(), b.hash(), j1,
                                                     j2))
    if (a == b) is not equal or (a != b) is equal:
        ctx.fail('== is %r and != is %r for %s and %s' % (a == b, a != b, j1,
                                                          j2))
    ctx.event('equal_pairs' if equal else 'unequal_pairs')
    if not equal:
        ctx.state((j1, j2))


def non_schemas(ctx, spec, node):
    from dsch import frontend
    others = [None, 0, 1.5, True, '', node.to_json(), node.hash(),
              node.to_dict(), [], (), object(), type(node), b'x',
              type(node).__name__, Ellipsis, NotImplementedError(), np.int8(3),
              frontend.create('::inmem::', node)]
    others.append(others[-1].data)
    for other in others:
        for result in (node == other, other == node):
            if result is not False:
                ctx.fail('%s == %r is %r' % (node.to_json(), other, result))
        for result in (node != other, other != node):
            if result is not True:
                ctx.fail('%s != %r is %r' % (node.to_json(), other, result))
        ctx.event('non_schemas')


def below(ctx, spec, node):
    """Hashes of all nodes below."""
    if node.hash() != gen.spec_hash(spec):
        ctx.fail('hash of inner node %s is %s' % (gen.canonical_json(spec),
                                                  node.hash()))
    if spec['t'] == 'Compilation':
        for n, s in spec['fields'].items():
            below(ctx, s, node.subnodes[n])
    elif spec['t'] == 'List':
        below(ctx, spec['sub'], node.subnode)


def use(ctx, spec, node):
    """Use the schema in every possible way; it must not change."""
    from dsch import exceptions, frontend
    rng = ctx.rng
    json_before, hash_before = node.to_json(), node.hash()
    for backend in rng.sample(gen.ALL_BACKENDS, 2):
        if not gen.storable(spec, backend):
            continue
        model = M.from_tree(spec, gen.gen_tree(rng, spec, big=0.0))
        if rng.random() < 0.3:
            oracle.corrupt(rng, model, backend, 1)
        storage = stor.new(ctx, backend, spec, schema=node)
        M.set_tree(storage.data, spec, model.tree())
        try:
            storage.validate()
        except (exceptions.ValidationError,
                exceptions.SubnodeValidationError):
            pass
        repr(storage.data)
        storage.data.data_tree(True)
        storage.complete  # pylint: disable=pointless-statement
        if storage.schema_hash() != hash_before:
            ctx.fail('%s: schema_hash() is %s' % (backend,
                                                  storage.schema_hash()))
        for path, _ in M.walk(model):
            sub = M.find(storage.data, path).schema_node
            want = gen.spec_hash(M.mfind(model, path).spec)
            if sub.hash() != want:
                ctx.fail('%s: schema_node of %s has hash %s' % (
                    backend, M.path_str(path), sub.hash()))
        if backend != 'inmem':
            storage.save(force=True)
            loaded = stor.load(stor.snapshot(ctx, storage, backend),
                               force=True)
            if loaded.schema_hash() != hash_before \
                    or not loaded.schema_node == node \
                    or not node == loaded.schema_node:
                ctx.fail('%s: loaded schema is %s instead of %s' % (
                    backend, loaded.schema_node.to_json(), json_before))
        copied = frontend.create_from('::inmem::', storage)
        if copied.schema_hash() != hash_before:
            ctx.fail('%s: schema_hash() of a copy is %s' % (
                backend, copied.schema_hash()))
        ctx.event('used')
    for twin in (copy.copy(node), copy.deepcopy(node),
                 pickle.loads(pickle.dumps(node))):
        if twin.hash() != hash_before or not twin == node:
            ctx.fail('copy of the schema has hash %s' % twin.hash())
    if node.to_json() != json_before or node.hash() != hash_before \
            or json_before != gen.canonical_json(spec):
        ctx.fail('using the schema changed it from %s to %s' % (
            json_before, node.to_json()))


def change(ctx, rng, spec):
    """A schema that is changed before it is used has another hash."""
    spec = gen.clone(spec)
    node = gen.build(spec, share=False)
    node.hash()
    parts = list(both(node, spec))
    sub, sub_spec = rng.choice(parts)
    t = sub_spec['t']
    if t in ('Array', 'Scalar'):
        sub.unit = sub_spec['unit'] = sub_spec['unit'] + 'x'
    elif t in ('String', 'Bytes', 'List'):
        n = 17 if sub_spec['max'] is None else sub_spec['max'] + 1
        sub.max_length = sub_spec['max'] = n
    elif t in ('Date', 'DateTime', 'Time'):
        sub.set_on_create = sub_spec['set_on_create'] = \
            not sub_spec['set_on_create']
    else:
        return
    if node.hash() != gen.spec_hash(spec):
        ctx.fail('hash %s of a changed schema, %s' % (
            node.hash(), gen.canonical_json(spec)))
    ctx.event('changed')


def both(node, spec):
    yield node, spec
    if spec['t'] == 'Compilation':
        for n, s in spec['fields'].items():
            yield from both(node.subnodes[n], s)
    elif spec['t'] == 'List':
        yield from both(node.subnode, spec['sub'])


# ---------------------------------------------------------- directed

def _child(hash_seed):
    def run(ctx):
        rng = ctx.rng
        o = gen.Opts(unicode_names=True, constraints=0.7, set_on_create=True,
                     dtype_objects=0.2, big=0.01)
        specs = [gen.gen_spec(rng, o) for _ in range(250)]
        specs += [gen.reorder(rng, s) for s in specs[:60]]
        path = ctx.path('pickle')
        with open(path, 'wb') as f:
            pickle.dump(specs, f)
        env = dict(os.environ, PYTHONHASHSEED=hash_seed)
        out = subprocess.run(
            [sys.executable, '-B', os.path.join(core.VERIF, 'lib',
                                                'hashchild.py'),
             core.VERIF, core.REPO, path], env=env, capture_output=True,
            text=True, timeout=120)
        if out.returncode:
            if 'dsch' in out.stderr:
                ctx.fail('child process failed: %s' % out.stderr)
            raise core.Inconclusive(out.stderr)
        got = out.stdout.split()
        for spec, digest in zip(specs, got):
            if digest != gen.spec_hash(spec):
                ctx.fail('hash with PYTHONHASHSEED=%s is %s for %s' % (
                    hash_seed, digest, gen.canonical_json(spec)))
            ctx.event('child_hashes')
            ctx.state((hash_seed, digest))
        ctx.check(len(got) == len(specs), 'child printed %d hashes' % len(got))
    return run


def _near(ctx):
    """Schemas that are easily mistaken for each other."""
    for group in gen.near_schemas():
        built = [(s, gen.build(s)) for s in group]
        for s, node in built:
            if node.hash() != gen.spec_hash(s):
                ctx.fail('hash of %s is %s' % (gen.canonical_json(s),
                                               node.hash()))
        for i, (s1, a) in enumerate(built):
            for s2, b in built[i:]:
                pair(ctx, s1, a, s2, b)
                pair(ctx, s2, b, s1, a)
                ctx.event('near')
    for a, b in gen.near_schema_pairs(ctx.rng, 300):
        pair(ctx, a, gen.build(a), b, gen.build(b))
        ctx.event('near')


def _types_of_numbers(ctx):
    """Numbers that compare equal, but are serialised differently."""
    for values in ((0, 0.0, -0.0, False), (1, 1.0, True), (10 ** 6, 1e6),
                   (2 ** 53, 2.0 ** 53)):
        specs = [gen.plain('Scalar', max_value=v) for v in values]
        for s1 in specs:
            for s2 in specs:
                pair(ctx, s1, gen.build(s1), s2, gen.build(s2))
                ctx.event('near')


def directed():
    return [_near, _types_of_numbers] + [_child(s) for s in ('1', '12345', 'random')]
