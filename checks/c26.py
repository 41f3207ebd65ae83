"""C26: a save that cannot be written is reported and loses nothing in memory."""
import contextlib
import os
import resource
import signal

from lib import child, core, gen, model as M, oracle, stor

PROP = 'C26'
RULE = ('A case saves a storage while an obstacle is injected: a file size '
        'limit anywhere between nothing and more than the complete file, a '
        'missing or replaced directory, a directory or a full device at the '
        'path of the file; directly, forced, or by closing a PseudoStorage; '
        'for the first time or over a previous version. The monitor demands '
        'an exception, unless the file then holds exactly the data; that the '
        'data in memory are unchanged; and (npz, mat) that saving succeeds '
        'as soon as the obstacle is gone. Each case runs in a process of its '
        'own. Distinct: (backend, schema, obstacle, size).')
CASES = {'quick': 2400, 'thorough': 40000}
FILES = ('npz', 'mat')
MIN_EVENTS = tuple('limit_%s' % b for b in gen.FILE_BACKENDS) + tuple(
    '%s_%s' % (k, b) for b in FILES for k in (
        'reported', 'fitted', 'no_directory', 'directory', 'full_device',
        'pseudo', 'saved_later')) + ('reported_hdf5', 'fitted_hdf5')
ASSUMPTIONS = ['HDF5: only the report is demanded; the engine itself does not '
               'recover from failed writes']


@contextlib.contextmanager
def limited(size):
    """No file of this process can grow beyond the size."""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    previous = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        signal.signal(signal.SIGXFSZ, previous)


def run_case(ctx):
    died = child.run(ctx, hdf5 if ctx.case % 4 == 3 else files)
    if died:
        if ctx.case % 4 == 3 and died != signal.SIGALRM:
            # The HDF5 library may give up completely, which is a report too.
            ctx.event('engine_died')
            return
        raise core.Inconclusive('process ended by signal %d' % died)


def setup(ctx, backend):
    rng = ctx.rng
    o = stor.opts_for(backend, constraints=0.2, big=0.05)
    spec = gen.gen_spec(rng, o, rng.choice((0, 1, 1, 2, 3)))
    model = M.from_tree(spec, gen.gen_tree(rng, spec, big=0.1))
    return spec, model


def full_size(ctx, backend, spec, model):
    """Size of a file with these data."""
    storage = stor.filled(ctx, backend, spec, model.tree())
    storage.save(force=True)
    size = os.path.getsize(storage.storage_path)
    storage = None
    stor.drop()
    return size


def pick_limit(rng, size):
    return rng.choice((0, 1, rng.randint(0, size), rng.randint(0, size),
                       max(0, size - rng.randint(1, 70)), size - 1, size,
                       size + rng.randint(1, 5000)))


def files(ctx):
    """npz and mat files, which are written by save()."""
    from dsch import frontend
    rng = ctx.rng
    backend = FILES[(ctx.case + ctx.case // 4) % 2]
    spec, model = setup(ctx, backend)
    folder = ctx.dir()
    bad = oracle.invalid_nodes(model)
    is_pseudo = rng.random() < 0.3 and not bad
    # Any name will do if the backend is given.
    ending = rng.choice(('', '.dat', '.%s.bak' % gen.EXT[backend], '.',
                         '.' + gen.EXT['mat' if backend == 'npz' else 'npz'])
                        ) if rng.random() < 0.3 and not is_pseudo \
        else '.' + gen.EXT[backend]
    path = os.path.join(folder, 'a' + ending)
    pseudo = None
    if is_pseudo:
        pseudo = frontend.PseudoStorage(path, gen.build(spec))
        storage = pseudo.storage
        ctx.event('pseudo_' + backend)
    else:
        storage = frontend.create(path, gen.build(spec), backend)
    before = rng.random() < 0.5
    if before:
        M.set_tree(storage.data, spec, gen.gen_tree(rng, spec, big=0.0))
        storage.save(force=True)
        if rng.random() < 0.3 and pseudo is None:
            storage = frontend.load(path, backend, force=True)
    M.set_tree(storage.data, spec, model.tree())
    force = bool(bad) or rng.random() < 0.3
    size = full_size(ctx, backend, spec, model)

    def save():
        if pseudo is not None:
            pseudo.close()
        else:
            storage.save(force=force)
    kind = rng.choice(('limit', 'limit', 'limit', 'no_directory', 'directory',
                       'full_device'))
    limit = pick_limit(rng, size)
    what = '%s %s, %s%s' % (backend, gen.describe(spec)[:200], kind,
                            ' %d of %d' % (limit, size)
                            if kind == 'limit' else '')
    ctx.log(what)
    error = None
    with contextlib.ExitStack() as stack:
        if kind == 'limit':
            stack.enter_context(limited(limit))
        else:
            stack.enter_context(obstacle(kind, folder, path))
        try:
            save()
        except Exception as err:  # pylint: disable=broad-except
            error = err
        if error is None and kind != 'limit':
            # Only fine if the obstacle has been overcome.
            if os.path.islink(path) or not os.path.isfile(path):
                ctx.fail('%s: save reported nothing' % what)
            judge_file(ctx, path, backend, spec, model, what)
    ctx.event('%s_%s' % (kind, backend))
    ctx.state((backend, gen.describe(spec), kind, limit, before))
    data = storage.data
    stor.expect_state(ctx, storage, spec, model.canon(),
                      what + ': data after save')
    if error is None:
        ctx.event('fitted_' + backend)
        if kind == 'limit':
            judge_file(ctx, path, backend, spec, model, what + ', no error')
        return
    ctx.event('reported_' + backend)
    if pseudo is not None:
        if pseudo.data is not data or pseudo.storage is not storage:
            ctx.fail('%s: the PseudoStorage is closed, but not saved' % what)
    save()
    if pseudo is not None and (pseudo.data is not None
                               or pseudo.storage is not None):
        ctx.fail('%s: not closed after saving later' % what)
    ctx.event('saved_later_' + backend)
    judge_file(ctx, path, backend, spec, model, what + ', saved later')
    ctx.sample = '%s: %s' % (what[:300], type(error).__name__)


@contextlib.contextmanager
def obstacle(kind, folder, path):
    """Something that makes writing the file impossible."""
    if kind == 'no_directory':
        away = folder + '_'
        os.rename(folder, away)
        yield
        if os.path.exists(folder):
            # A save that succeeds may have created it again.
            for name in os.listdir(folder):
                os.remove(os.path.join(folder, name))
            os.rmdir(folder)
        os.rename(away, folder)
        return
    if os.path.exists(path):
        os.remove(path)
    if kind == 'directory':
        os.mkdir(path)
        with open(os.path.join(path, 'x'), 'w'):
            pass
        yield
        if os.path.isdir(path):
            os.remove(os.path.join(path, 'x'))
            os.rmdir(path)
    else:
        os.symlink('/dev/full', path)
        yield
        if os.path.islink(path):
            os.remove(path)


def judge_file(ctx, path, backend, spec, model, what):
    if not os.path.exists(path):
        ctx.fail('%s: no file' % what)
    copy = stor.snapshot(ctx, type('F', (), {'storage_path': path}), backend)
    try:
        storage = stor.load(copy, backend, force=True)
    except Exception as err:  # pylint: disable=broad-except
        ctx.fail('%s: the file cannot be loaded: %s: %s' % (
            what, type(err).__name__, err))
    stor.expect_state(ctx, storage, spec, model.canon(), what)


def hdf5(ctx):
    """HDF5 files, which may be written by any operation."""
    from dsch import frontend
    rng = ctx.rng
    spec, model = setup(ctx, 'hdf5')
    size = full_size(ctx, 'hdf5', spec, model)
    path = ctx.path('h5')
    before = rng.random() < 0.5
    limit = pick_limit(rng, size)
    storage = None
    if before:
        storage = stor.filled(ctx, 'hdf5', spec, gen.gen_tree(
            rng, spec, big=0.0), path=path)
        storage.save(force=True)
        limit = pick_limit(rng, max(size, os.path.getsize(path)) + 2000)
    what = 'hdf5 %s, %d of %d' % (gen.describe(spec)[:200], limit, size)
    ctx.log(what)
    error = None
    with limited(limit):
        try:
            if storage is None:
                storage = frontend.create(path, gen.build(spec))
            M.set_tree(storage.data, spec, model.tree())
            storage.save(force=True)
        except Exception as err:  # pylint: disable=broad-except
            error = err
    ctx.event('limit_hdf5')
    ctx.state(('hdf5', gen.describe(spec), limit, before))
    if error is not None:
        ctx.event('reported_hdf5')
    else:
        ctx.event('fitted_hdf5')
        judge_file(ctx, path, 'hdf5', spec, model, what + ', no error')
    ctx.sample = '%s: %s' % (what[:300], type(error).__name__)


# ---------------------------------------------------------- directed

def _every_byte(backend, step):
    """A limit at every byte of a small file."""
    def inside(ctx):
        spec = gen.comp({'s': gen.plain('String'), 'a': gen.plain('Array'),
                         'l': gen.listof(gen.plain('Bytes'))})
        tree = {'s': 'text', 'a': None, 'l': [b'xyz', None, b'']}
        model = M.from_tree(spec, tree)
        size = full_size(ctx, backend, spec, model)
        storage = stor.filled(ctx, backend, spec, tree)
        for limit in list(range(0, size + 2, step)) + [size - 1]:
            error = None
            with limited(limit):
                try:
                    storage.save(force=True)
                except Exception as err:  # pylint: disable=broad-except
                    error = err
            what = '%s, limit %d of %d' % (backend, limit, size)
            stor.expect_state(ctx, storage, spec, model.canon(), what)
            ctx.event('limit_' + backend)
            if error is None:
                ctx.event('fitted_' + backend)
                judge_file(ctx, storage.storage_path, backend, spec, model,
                           what)
            else:
                ctx.event('reported_' + backend)
            ctx.state((backend, limit))
        storage.save(force=True)
        judge_file(ctx, storage.storage_path, backend, spec, model, backend)

    def run(ctx):
        died = child.run(ctx, inside, 200)
        if died:
            raise core.Inconclusive('process ended by signal %d' % died)
    return run


def directed():
    return [_every_byte(b, 3) for b in FILES]
