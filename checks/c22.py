"""C22: files written by the pinned release stay loadable."""
import io
import os
import pickle
import tarfile

from lib import core, gen, model as M, ops, oracle, stor

PROP = 'C22'
RULE = ('corpus/release.tar.xz holds 660 files written by the pinned release '
        'from random schemas and data (see tools/mkcorpus.py), of which the '
        'release itself reads back everything. Every file is loaded by the '
        'code under test in several cases; schema JSON and hash, structure, '
        'all values and the result of the validation are compared with the '
        'record; then the storage is edited by random operations, saved, '
        'loaded again and copied to another backend, comparing with a model '
        'each time. Distinct: (file, operations).')
CASES = {'quick': 3300, 'thorough': 50000}
MIN_EVENTS = tuple('%s_%s' % (t, b) for t in gen.ITEM_TYPES
                   for b in gen.FILE_BACKENDS
                   # The release does not read back Bytes from mat files.
                   if (t, b) != ('Bytes', 'mat')) + tuple(
    '%s_%s' % (k, b) for b in gen.FILE_BACKENDS
    for k in ('List', 'Compilation', 'loaded', 'edited', 'empty')) + (
    'copied', 'required_schema', 'force')
ASSUMPTIONS = ('For mat files with lists, the release was run with the alias '
               'numpy.object, which it needs and NumPy has removed.',)

_CORPUS = {}


def corpus():
    if not _CORPUS:
        path = os.path.join(core.VERIF, 'corpus', 'release.tar.xz')
        with tarfile.open(path) as tar:
            for info in tar:
                _CORPUS[info.name] = tar.extractfile(info).read()
        index = pickle.load(io.BytesIO(_CORPUS.pop('index.pickle')))
        _CORPUS[''] = [(name, index[name]) for name in sorted(index)]
    return _CORPUS


def run_case(ctx):
    from dsch import frontend
    rng = ctx.rng
    files = corpus()
    name, entry = files[''][ctx.case % len(files[''])]
    backend, spec = entry['backend'], entry['spec']
    path = ctx.path(gen.EXT[backend])
    with open(path, 'wb') as f:
        f.write(files[name])
    model = M.from_tree(spec, entry['tree'])
    kw = {}
    if not entry['valid'] or rng.random() < 0.3:
        kw['force'] = True
        ctx.event('force')
    if rng.random() < 0.4:
        kw['required_schema'] = gen.build(spec)
        ctx.event('required_schema')
    if rng.random() < 0.4:
        kw['required_schema_hash'] = entry['hash']
    ctx.log('load %s (%s)' % (name, gen.describe(spec)))
    storage = frontend.load(path, **kw)
    if storage.schema_hash() != entry['hash']:
        ctx.fail('%s: schema hash %s instead of %s' % (
            name, storage.schema_hash(), entry['hash']))
    if storage.schema_node.to_json() != entry['json']:
        ctx.fail('%s: schema %s instead of %s' % (
            name, storage.schema_node.to_json(), entry['json']))
    if gen.build(spec).hash() != entry['hash']:
        ctx.fail('%s: the schema now has the hash %s instead of %s' % (
            name, gen.build(spec).hash(), entry['hash']))
    stor.expect_state(ctx, storage, spec, model.canon(), name)
    oracle.judge_validation(ctx, name, storage.validate,
                            oracle.invalid_nodes(model))
    ctx.event('loaded_' + backend)
    for path_, node in M.walk(model):
        if not isinstance(node, M.Item):
            ctx.event('%s_%s' % (node.spec['t'], backend))
        elif node.empty:
            ctx.event('empty_' + backend)
        else:
            ctx.event('%s_%s' % (node.spec['t'], backend))
    kinds = []
    if rng.random() < 0.85:
        soc = any(n.get('set_on_create') for n in gen.walk_spec(spec))
        source = ops.inmem_source(spec)
        for _ in range(rng.randint(0, 4)):
            op = ops.gen_op(rng, model)
            if soc and op['op'] in ('append', 'replace', 'load_from'):
                # Values of fields created now are not known in here.
                continue
            ctx.log(ops.show_op(op))
            ops.apply_model(model, op)
            ops.apply_real(storage.data, op, source)
            kinds.append((op['op'], op['path']))
        stor.expect_state(ctx, storage, spec, model.canon(),
                          name + ', edited')
        storage.save(force=True)
        storage = None
        stor.drop()
        storage = frontend.load(path, force=True)
        stor.expect_state(ctx, storage, spec, model.canon(),
                          name + ', edited and saved')
        if storage.schema_hash() != entry['hash']:
            ctx.fail('%s: another schema hash after saving' % name)
        ctx.event('edited_' + backend)
    if rng.random() < 0.3:
        dst = gen.ALL_BACKENDS[rng.randrange(4)]
        if dst == 'mat' and not all(n.isascii() for s in gen.walk_spec(spec)
                                    if s['t'] == 'Compilation'
                                    for n in s['fields']):
            dst = 'npz'
        copy = frontend.create_from(
            '::inmem::' if dst == 'inmem' else ctx.path(gen.EXT[dst]),
            storage)
        stor.expect_state(ctx, copy, spec, model.canon(), '%s, copied to %s' %
                          (name, dst))
        ctx.event('copied')
    ctx.state((name, kinds))
    ctx.sample = '%s: %s' % (name, gen.describe(spec)[:300])
