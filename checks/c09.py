"""C09: a required schema is enforced on load."""
from lib import gen, model as M, oracle, stor

PROP = 'C09'
RULE = ('A case saves a storage (valid or, forced, invalid) and loads it with '
        'many combinations of required schema and required hash: the stored '
        'schema, equal schemas built in other ways, schemas that differ in a '
        'single detail or completely, foreign and mangled hashes, with and '
        'without force and explicit backend. Expected outcome from hashes '
        'computed independently of dsch. Non-trivial: a load with at least '
        'one requirement. Distinct: (stored schema, kinds of requirements, '
        'force).')
CASES = {'quick': 1800, 'thorough': 24000}
MIN_EVENTS = ('accepted', 'refused', 'refused_by_second', 'refused_forced',
              'invalid_data', 'refused_single_detail', 'near')


def equal_schema(rng, spec):
    """An equal schema object that was made in some other way."""
    from dsch import schema as S
    r = rng.randrange(4)
    if r == 0:
        return gen.build(spec)
    if r == 1:
        return gen.build(gen.reorder(rng, spec))
    if r == 2:
        return S.node_from_json(gen.build(spec).to_json())
    return S.node_from_dict(gen.build(gen.reorder(rng, spec)).to_dict())


def other_spec(rng, spec):
    if rng.random() < 0.75:
        return gen.mutate(rng, spec)
    for _ in range(20):
        new = gen.gen_spec(rng, gen.Opts(), rng.choice((0, 1, 2)))
        if gen.canonical_json(new) != gen.canonical_json(spec):
            return new
    return gen.mutate(rng, spec)


def mangled(rng, digest):
    r = rng.randrange(8)
    if r == 0:
        return digest[:-1]
    if r == 1:
        return digest + '0'
    if r == 2:
        i = rng.randrange(len(digest))
        return digest[:i] + ('0' if digest[i] != '0' else '1') + digest[i + 1:]
    if r == 3:
        return digest[:rng.choice((1, 7, 32))]
    if r == 4:
        return '0' * 64
    if r == 5:
        return digest.upper() if digest.upper() != digest else 'x'
    if r == 6:
        return rng.choice((' %s', '%s ', '%s\n', '0x%s', 'sha256:%s')) % digest
    return digest[::-1] if digest[::-1] != digest else 'x'


def run_case(ctx):
    from dsch import exceptions, frontend
    rng = ctx.rng
    backend = gen.FILE_BACKENDS[ctx.case % 3]
    o = stor.opts_for(backend, constraints=0.6, big=0.01,
                      set_on_create=True)
    spec = gen.gen_spec(rng, o, rng.choice((0, 1, 2, 2, 3)))
    near = None
    if rng.random() < 0.2:
        spec, near = gen.near_pair_for(rng, [backend])
    model = M.from_tree(spec, gen.gen_tree(rng, spec, big=0.0))
    if rng.random() < 0.3:
        oracle.corrupt(rng, model, backend, 1)
    bad = oracle.invalid_nodes(model)
    ctx.log('%s %s' % (backend, gen.describe(spec)))
    storage = stor.new(ctx, backend, spec)
    M.set_tree(storage.data, spec, model.tree())
    storage.save(force=True)
    path = storage.storage_path
    storage = None
    stor.drop()
    before = stor.digest(path)
    actual = gen.spec_hash(spec)
    if bad:
        ctx.event('invalid_data')

    for _ in range(rng.randint(3, 7)):
        kind = rng.choice(('none', 'same', 'same', 'other', 'other'))
        kw, fits = {}, True
        detail = ''
        if kind == 'same':
            kw['required_schema'] = equal_schema(rng, spec)
        elif kind == 'other':
            wanted = other_spec(rng, spec)
            if near and rng.random() < 0.8:
                wanted = near
                ctx.event('near')
            kw['required_schema'] = gen.build(wanted)
            detail = gen.describe(wanted)
            fits = False
        hkind = rng.choice(('none', 'same', 'same', 'other', 'mangled'))
        if kind == 'none' and hkind == 'none':
            hkind = 'other'
        if hkind == 'same':
            kw['required_schema_hash'] = rng.choice(
                (actual, gen.build(spec).hash()))
        elif hkind == 'other':
            kw['required_schema_hash'] = gen.spec_hash(
                near or other_spec(rng, spec))
        elif hkind == 'mangled':
            kw['required_schema_hash'] = mangled(rng, actual)
        hfits = hkind in ('none', 'same')
        kw['force'] = rng.random() < 0.5
        if rng.random() < 0.3:
            kw['backend'] = backend
        what = '%s: load with required schema %s %s, hash %s, force=%s' % (
            backend, kind, detail, hkind, kw['force'])
        ctx.log(what)
        ctx.state((gen.canonical_json(spec), kind, hkind, kw['force'],
                   bool(bad)))
        args = [path]
        if rng.random() < 0.3:
            # The same arguments by position.
            args += [kw.pop('backend', None), kw.pop('required_schema', None),
                     kw.pop('required_schema_hash', None)]
            forced = kw['force']
            if rng.random() < 0.5:
                args.append(kw.pop('force'))
            ctx.event('positional')
        else:
            forced = kw['force']
        if not (fits and hfits):
            try:
                loaded = frontend.load(*args, **kw)
            except exceptions.InvalidSchemaError as err:
                if actual not in str(err):
                    ctx.fail('%s: message %r lacks the actual hash' % (
                        what, str(err)))
            except exceptions.DschError as err:
                ctx.fail('%s: raised %r' % (what, err))
            else:
                ctx.fail('%s: accepted, schema is %s' % (
                    what, loaded.schema_node.to_json()))
            ctx.event('refused')
            if fits != hfits and kind != 'none' and hkind != 'none':
                ctx.event('refused_by_second')
            if forced:
                ctx.event('refused_forced')
            if kind == 'other':
                ctx.event('refused_single_detail')
        elif bad and not forced:
            oracle.judge_validation(ctx, what, lambda: frontend.load(
                *args, **kw) and None, bad)
        else:
            loaded = frontend.load(*args, **kw)
            stor.expect_state(ctx, loaded, spec, model.canon(), what)
            if loaded.schema_hash() != actual:
                ctx.fail('%s: schema_hash() is %s' % (what,
                                                      loaded.schema_hash()))
            loaded = None
            ctx.event('accepted')
        stor.drop()
        if backend != 'hdf5' and stor.digest(path) != before:
            ctx.fail('%s: changed the file' % what)
    storage = stor.load(path, force=True)
    stor.expect_state(ctx, storage, spec, model.canon(),
                      backend + ': after all loads')
    ctx.sample = '; '.join(ctx.log_lines[:5])
