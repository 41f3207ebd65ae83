"""C08: invalid data is never saved or loaded unless forced."""
import json

import numpy as np

from lib import gen, model as M, oracle, stor

PROP = 'C08'
RULE = ('A case is a history of edits of a storage, with 0..3 invalid nodes '
        'in between, also in place, of plain and forced saves and of plain and forced loads '
        'of the file; an independent validity oracle says which of them must '
        'be refused with which error. Refused saves must leave npz and mat '
        'files byte-identical (or absent). Some files are made invalid by '
        'replacing their stored schema by a stricter one. Non-trivial: a '
        'gate decision for non-empty data. Distinct: (backend, schema, '
        'invalid paths, operation).')
CASES = {'quick': 3000, 'thorough': 45000}
MIN_EVENTS = ('save_refused', 'save_accepted', 'load_refused',
              'load_accepted', 'forced_saves', 'forced_loads',
              'file_kept', 'file_absent', 'tightened', 'edited_in_place') + tuple(
    'required_%d' % i for i in range(4))


def judge_save(ctx, storage, backend, model):
    bad = oracle.invalid_nodes(model)
    path = storage.storage_path
    before = stor.digest(path)
    err = oracle.judge_validation(ctx, backend + ' save()', storage.save, bad)
    ctx.state((backend, 'save', gen.describe(model.spec),
               oracle.describe(bad)))
    if err is None:
        ctx.event('save_accepted')
        return True
    ctx.event('save_refused')
    if backend != 'hdf5':
        if stor.digest(path) != before:
            ctx.fail('%s: refused save() changed the file' % backend)
        ctx.event('file_absent' if before is None else 'file_kept')
    stor.expect_state(ctx, storage, model.spec, model.canon(),
                      '%s: storage after refused save' % backend)
    return False


def true_value(rng):
    return rng.choice((True, True, True, 1, np.True_))


def judge_load(ctx, path, backend, spec, model, what):
    """Plain and forced loads of a file with the model's state."""
    from dsch import frontend
    bad = oracle.invalid_nodes(model)
    before = stor.digest(path)
    explicit = ctx.rng.choice((None, backend))
    # A matching required schema never replaces the validation.
    kw = {}
    required = ctx.rng.randrange(5)
    if required in (1, 3):
        kw['required_schema'] = gen.build(spec)
    if required in (2, 3):
        kw['required_schema_hash'] = gen.spec_hash(spec)
    if ctx.rng.random() < 0.3:
        kw['force'] = ctx.rng.choice((False, False, 0, None))
    ctx.event('required_%d' % required)
    oracle.judge_validation(
        ctx, '%s: load(%s) %s' % (backend, ', '.join(kw), what),
        lambda: frontend.load(path, explicit, **kw) and None, bad)
    ctx.event('load_refused' if bad else 'load_accepted')
    ctx.state((backend, 'load', gen.describe(spec), oracle.describe(bad)))
    stor.drop()
    if backend != 'hdf5' and stor.digest(path) != before:
        ctx.fail('%s: load() changed the file' % backend)
    kw['force'] = true_value(ctx.rng)
    storage = frontend.load(path, explicit, **kw)
    ctx.event('forced_loads')
    stor.expect_state(ctx, storage, spec, model.canon(),
                      '%s: forced load %s' % (backend, what))
    if ctx.rng.random() < 0.6:
        # The force of the load does not extend to a later save.
        now = stor.digest(path)
        oracle.judge_validation(
            ctx, '%s: save() after forced load %s' % (backend, what),
            storage.save, bad)
        ctx.event('save_after_forced_load')
        if bad and backend != 'hdf5' and stor.digest(path) != now:
            ctx.fail('%s: refused save() changed the file' % backend)
    if not bad:
        storage = None
        storage = frontend.load(path, explicit)
        stor.expect_state(ctx, storage, spec, model.canon(),
                          '%s: load %s' % (backend, what))


def run_case(ctx):
    if ctx.case % 4 == 3:
        tightened(ctx)
    else:
        histories(ctx)


def histories(ctx):
    rng = ctx.rng
    backend = gen.FILE_BACKENDS[ctx.case % 3]
    o = stor.opts_for(backend, constraints=0.8, list_bounds=0.5, big=0.01,
                      depends=0.2)
    spec = gen.gen_spec(rng, o, rng.choice((0, 1, 2, 2, 3)))
    ctx.log('%s %s' % (backend, gen.describe(spec)))
    storage = stor.new(ctx, backend, spec)
    path = storage.storage_path
    on_file = None
    model = None
    for _ in range(rng.randint(1, 4)):
        if model is not None and rng.random() < 0.5:
            # The model on file must not follow the edits.
            if on_file is model:
                on_file = M.from_tree(spec, model.tree())
            for _ in range(rng.choice((1, 1, 2, 4))):
                done = oracle.bend(rng, model, storage.data, backend)
                if done:
                    ctx.log(done)
                    ctx.event('edited_in_place')
        else:
            model = M.from_tree(spec, gen.gen_tree(rng, spec, big=0.01))
            if rng.random() < 0.55:
                oracle.corrupt(rng, model, backend, rng.randint(1, 3))
            storage.data.clear()
            M.apply_tree(None, storage.data, spec, model.tree())
        stor.expect_state(ctx, storage, spec, model.canon(),
                          '%s: filled' % backend)
        ctx.log('invalid: %s' % oracle.describe(oracle.invalid_nodes(model)))
        if judge_save(ctx, storage, backend, model):
            on_file = model
        elif rng.random() < 0.6:
            ctx.log('forced save')
            storage.save(force=true_value(rng))
            ctx.event('forced_saves')
            on_file = model
        if backend == 'hdf5' and on_file is not model:
            # Edits may reach the file anyway.
            continue
        if on_file is not None:
            copy = stor.snapshot(ctx, storage, backend)
            judge_load(ctx, copy, backend, spec, on_file, 'after history')
    ctx.sample = '; '.join(ctx.log_lines[:6])
    del path


def loosen(spec):
    """The same schema without any constraint."""
    t = spec['t']
    if t == 'Compilation':
        return dict(spec, fields={n: loosen(s)
                                  for n, s in spec['fields'].items()})
    if t == 'List':
        return dict(spec, sub=loosen(spec['sub']), max=None, min=None)
    if t in ('String', 'Bytes'):
        return dict(spec, max=None, min=None)
    if t == 'Scalar':
        return dict(spec, max_value=None, min_value=None)
    if t == 'Array':
        return dict(spec, max_shape=None, min_shape=None, max_value=None,
                    min_value=None, depends_on=None)
    return spec


def tightened(ctx):
    """Replace the schema stored in a file by one with constraints."""
    rng = ctx.rng
    backend = rng.choice(gen.FILE_BACKENDS)
    o = stor.opts_for(backend, constraints=0.8, list_bounds=0.5, big=0.01,
                      depends=0.2)
    tight = gen.gen_spec(rng, o, rng.choice((0, 1, 2, 3)))
    loose = loosen(tight)
    if rng.random() < 0.4:
        tree = gen.gen_tree(rng, tight, big=0.0)
    else:
        tree = gen.gen_tree(rng, loose, big=0.0)
    model = M.from_tree(loose, tree)
    storage = stor.filled(ctx, backend, loose, tree)
    path = storage.storage_path
    if not judge_save(ctx, storage, backend, model):
        ctx.fail('unconstrained data refused')
    storage = None
    stor.drop()
    replace_schema(path, backend, json.dumps(gen.spec_dict(tight),
                                             sort_keys=True))
    ctx.event('tightened')
    ctx.log('%s %s' % (backend, gen.describe(tight)))
    judge_load(ctx, path, backend, tight, M.from_tree(tight, tree),
               'with stricter schema')
    ctx.sample = '; '.join(ctx.log_lines[:6])


def replace_schema(path, backend, text):
    if backend == 'hdf5':
        import h5py
        with h5py.File(path, 'r+') as f:
            f.attrs['dsch_schema'] = text
    elif backend == 'npz':
        import zipfile
        with zipfile.ZipFile(path) as f:
            parts = {n: f.read(n) for n in f.namelist()}
        with zipfile.ZipFile(path, 'w') as f:
            for n, b in parts.items():
                if n != '_schema.npy':
                    f.writestr(n, b)
            with f.open('_schema.npy', 'w') as entry:
                np.lib.format.write_array(entry, np.asanyarray(text))
    else:
        import io
        import scipy.io as sio
        out = io.BytesIO()
        sio.savemat(out, {'schema': text}, long_field_names=True)
        with open(path, 'rb') as f:
            old = mat_elements(f.read())
        new = mat_elements(out.getvalue())
        names = mat_names(path)
        with open(path, 'wb') as f:
            f.write(old[0])
            for name, part in zip(names, old[1:]):
                f.write(new[1] if name == 'schema' else part)


def mat_names(path):
    import scipy.io as sio
    return [w[0] for w in sio.whosmat(path, appendmat=False)]


def mat_elements(raw):
    """Header and top-level elements of a MAT 5 file."""
    out = [raw[:128]]
    pos = 128
    while pos < len(raw):
        n = 8 + int.from_bytes(raw[pos + 4:pos + 8], 'little')
        out.append(raw[pos:pos + n])
        pos += n
    return out
