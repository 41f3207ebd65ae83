"""Helpers around storages: creation, snapshots of files, reloading."""
import gc
import hashlib
import os
import shutil

from lib import gen, model as M


def new(ctx, backend, spec, schema=None, path=None):
    """Create a fresh storage of a backend for a spec."""
    from dsch import frontend
    schema = schema if schema is not None else gen.build(spec)
    if backend == 'inmem':
        return frontend.create('::inmem::', schema)
    path = path or ctx.path(gen.EXT[backend])
    return frontend.create(path, schema)


def snapshot(ctx, storage, backend):
    """Copy of the storage's file as it is on disk right now."""
    path = ctx.path(gen.EXT[backend])
    shutil.copyfile(storage.storage_path, path)
    return path


def load(path, backend=None, **kw):
    from dsch import frontend
    return frontend.load(path, backend, **kw)


def file_bytes(path):
    with open(path, 'rb') as f:
        return f.read()


def digest(path):
    if not os.path.exists(path):
        return None
    return hashlib.sha256(file_bytes(path)).hexdigest()


def drop(storage=None):
    """Let go of closed storages, so that HDF5 files get closed."""
    del storage
    gc.collect()


def filled(ctx, backend, spec, tree, schema=None, path=None, vary=True):
    """A new storage holding the given tree."""
    storage = new(ctx, backend, spec, schema, path)
    M.apply_tree(ctx.rng if vary else None, storage.data, spec, tree)
    return storage


def expect_state(ctx, storage, spec, expected, what):
    """The storage must show exactly the expected canonical tree."""
    got = M.observe(storage.data, spec)
    ctx.event('observations')
    d = M.diff(expected, got)
    if d:
        ctx.fail('%s: %s' % (what, d))
    return got


def opts_for(backend, **kw):
    """Generator options within the domain of a backend."""
    kw.setdefault('unicode_names', backend not in ('mat',))
    return gen.Opts(**kw)
