"""C17: creating never overwrites, loading never creates or alters files."""
import os
import shutil

import h5py
import numpy as np
import scipy.io

from lib import gen, model as M, stor

PROP = 'C17'
RULE = ('A case populates a scratch directory with storages and other files '
        '(any name, extension and content) and then creates, copies, loads '
        'and saves storages at existing and new, absolute and relative paths '
        'with and without explicit backend. The monitor compares a listing of '
        'the whole directory with all file contents (HDF5: also the loaded '
        'data) before and after every step, the exception types, and the '
        'backend module in use with its own table of extensions. Distinct: '
        '(steps, names, backends).')
CASES = {'quick': 2400, 'thorough': 40000}
MIN_EVENTS = ('create_existing', 'copy_existing', 'load_missing',
              'load_unchanged_hdf5', 'load_unchanged_npz',
              'load_unchanged_mat', 'refused_path', 'load_garbage',
              'load_other_backend', 'create_hdf5', 'create_npz', 'create_mat',
              'create_inmem', 'odd_name', 'relative', 'detected', 'explicit',
              'resaved', 'load_rejected', 'existing_dir', 'existing_link',
              'bad_backend', 'load_foreign', 'create_raced',
              'near_hdf5', 'near_npz', 'near_mat', 'load_dir')

STEMS = ('data', 'my data', 'a.b', 'größe', '.hidden', 'x.h5', 'x.npz',
         'x.mat', 'UPPER', '日本', "quote'", 'a%20b', '[x]', '*', '~', '-f',
         'data.tar', ' lead', 'trail ', '{0}', 'x' * 120, '#', '::inmem::',
         'name.with.many.dots', 'con', '0', '$HOME', '${HOME}', '~root',
         '%(x)s', '%d', 'a?b', 'a+b&c=d', 'a\\b', 'line\nbreak', 'a;b|c',
         'file:x', 'x:y', 'x,y', 'e\u0301', '..x', 'x..', '-', '_', '%HOME%',
         'http:x', '?', '!', '@x', '\tx', '(1)')
EXTS = ('', '.h5', '.hdf5', '.npz', '.mat', '.H5', '.HDF5', '.NPZ', '.Mat',
        '.dat', '.h5x', '.hdf', '.npy', '.mat7', '.npz ', '.h5.bak', '.txt',
        '.mat.npz', '.npz.h5', '.hdf5.mat', '.', '..npz', 'npz', 'h5', 'mat',
        'hdf5', '_mat', '.nc', '.hdf5 ', '.h5\n', '.npz\n', '.mat ', '.mat\t',
        '.hdf5\r\n', '.npz~', '.h5,', '.mat;', '.npz.', '.h 5', '. npz',
        '.hdf5v2', '.hdf5.gz', '.npz.gz', '.h4', '.he5', '.hdf5_', '.m',
        '.np', '.h', '.hdf55', '.nnpz', '\uff0emat', '.ｍat')


def detect(path):
    """The documented choice of backend, or None."""
    if path == '::inmem::':
        return 'inmem'
    for ext, backend in (('.h5', 'hdf5'), ('.hdf5', 'hdf5'), ('.npz', 'npz'),
                         ('.mat', 'mat')):
        if path[-len(ext):] == ext:
            return backend
    return None


def listing(root):
    """{relative path: content} of everything below a directory."""
    out = {}
    for base, dirs, files in os.walk(root):
        for name in dirs:
            full = os.path.join(base, name)
            out[os.path.relpath(full, root)] = (
                ('link', os.readlink(full)) if os.path.islink(full)
                else 'dir')
        for name in files:
            full = os.path.join(base, name)
            rel = os.path.relpath(full, root)
            if os.path.islink(full):
                out[rel] = ('link', os.readlink(full), stor.digest(full))
            else:
                out[rel] = stor.digest(full)
    return out


def hdf5_dump(path):
    """Everything an HDF5 file contains, read without dsch."""
    def attributes(obj):
        return {k: (str(v.dtype), v.shape, v.tobytes())
                if isinstance(v, (np.ndarray, np.generic)) else v
                for k, v in obj.attrs.items()}

    def visit(group, prefix):
        out[prefix] = ('group', attributes(group))
        for name in group:
            item = group[name]
            where = prefix + '/' + name
            if isinstance(item, h5py.Group):
                visit(item, where)
            else:
                value = item[()]
                out[where] = (str(item.dtype), item.shape, item.maxshape,
                              attributes(item),
                              value.tobytes() if hasattr(value, 'tobytes')
                              else value)
    out = {}
    with h5py.File(path, 'r') as file_:
        visit(file_, '')
    return out


def compare(ctx, what, before, after, allowed=()):
    for name in sorted(set(before) | set(after)):
        if name in allowed:
            continue
        if name not in after:
            ctx.fail('%s: %r disappeared' % (what, name))
        if name not in before:
            ctx.fail('%s: %r was created' % (what, name))
        if before[name] != after[name]:
            ctx.fail('%s: %r was changed' % (what, name))


def run_case(ctx):
    old = os.getcwd()
    root = ctx.dir()
    os.chdir(root)
    try:
        Case(ctx, root).run()
    finally:
        os.chdir(old)


class Case:
    def __init__(self, ctx, root):
        self.ctx = ctx
        self.rng = ctx.rng
        self.root = root
        self.stored = []    # (name, backend, spec, canonical state)
        self.steps = []

    def run(self):
        rng = self.rng
        self.outside = os.path.join(self.root, 'sub.d')
        os.mkdir(self.outside)
        for _ in range(rng.randint(0, 3)):
            self.add_other()
        for _ in range(rng.randint(1, 2)):
            self.create_new()
        actions = (self.create_new, self.create_existing,
                   self.create_existing, self.load_missing,
                   self.load_existing, self.load_existing, self.refused,
                   self.load_garbage, self.bad_backend, self.load_foreign,
                   self.create_raced)
        for _ in range(rng.randint(2, 5)):
            rng.choice(actions)()
        self.ctx.state(tuple(self.steps))
        self.ctx.sample = '; '.join(self.steps)[:400]

    # ------------------------------------------------------- helpers

    def note(self, text):
        self.ctx.log(text)
        self.steps.append(text)

    def name(self):
        """A relative path that does not exist yet."""
        rng = self.rng
        while True:
            name = rng.choice(STEMS) + rng.choice(EXTS)
            if rng.random() < 0.2:
                name = os.path.join('sub.d', name)
            if rng.random() < 0.4:
                name = name.rstrip('. ') or 'n'
                name += rng.choice(('.h5', '.hdf5', '.npz', '.mat'))
            if name not in ('.', '..') and not os.path.lexists(
                    os.path.join(self.root, name)):
                return name

    def path(self, name):
        """The path as handed to dsch."""
        rng = self.rng
        r = rng.random()
        if r < 0.4:
            return os.path.join(self.root, name)
        self.ctx.event('relative')
        if r < 0.75:
            return name if name != '::inmem::' else './' + name
        if r < 0.9:
            return './' + name
        return os.path.join('sub.d', '..', name)

    def spec(self, backend):
        return gen.gen_spec(self.rng, stor.opts_for(
            backend or 'hdf5', big=0.0, constraints=0.1),
            self.rng.choice((0, 1, 1, 2)))

    def add_other(self):
        """A file, directory or link which is no storage."""
        rng = self.rng
        name = self.name()
        full = os.path.join(self.root, name)
        r = rng.random()
        if r < 0.15:
            os.mkdir(full)
            return name, 'dir'
        if r < 0.3:
            target = self.name()
            with open(os.path.join(self.root, target), 'wb') as f:
                f.write(b'target')
            name = self.name()
            full = os.path.join(self.root, name)
            os.symlink(os.path.join(self.root, target), full)
            return name, 'link'
        with open(full, 'wb') as f:
            f.write(rng.choice((b'', b'\0', b'hello\n', b'PK\x03\x04', bytes(
                range(256)) * rng.randint(1, 9), b'\x89HDF\r\n\x1a\n',
                b'MATLAB 5.0 MAT-file' + b' ' * 110)))
        return name, 'file'

    def choose(self, name):
        """(backend argument or None, backend in effect or None)."""
        rng = self.rng
        found = detect('./' + name)
        if found and rng.random() < 0.6:
            self.ctx.event('detected')
            return None, found
        backend = rng.choice(gen.FILE_BACKENDS)
        self.ctx.event('explicit')
        return backend, backend

    def content(self, path, backend, spec):
        """State of a file, without giving dsch the file itself."""
        copy = os.path.join(self.ctx.scratch, 'copy')
        shutil.copyfile(path, copy)
        storage = stor.load(copy, backend, force=True)
        state = M.observe(storage.data, spec)
        if storage.schema_hash() != gen.spec_hash(spec):
            self.ctx.fail('%r holds another schema' % path)
        storage = None
        stor.drop()
        os.unlink(copy)
        return state

    def check_content(self, what, name, backend, spec, expected):
        d = M.diff(expected, self.content(os.path.join(self.root, name),
                                          backend, spec))
        if d:
            self.ctx.fail('%s: content of %r: %s' % (what, name, d))

    # ------------------------------------------------------- steps

    def create_new(self):
        from dsch import frontend
        rng, ctx = self.rng, self.ctx
        if rng.random() < 0.1:
            self.create_inmem()
            return
        name = self.name()
        arg, backend = self.choose(name)
        path = self.path(name)
        if name[0] in ' .-~#*[' or ' ' in name or detect('./' + name) != backend:
            ctx.event('odd_name')
        spec = self.spec(backend)
        tree = gen.gen_tree(rng, spec, big=0.0)
        model = M.from_tree(spec, tree)
        what = 'create %r (%s, %s)' % (path, arg, backend)
        self.note(what)
        before = listing(self.root)
        how = rng.choice(('create', 'create', 'create_from', 'save_as'))
        if how == 'create':
            storage = (frontend.create(path, gen.build(spec), arg) if arg
                       else frontend.create(path, gen.build(spec)))
            M.set_tree(storage.data, spec, tree)
        else:
            source = frontend.create('::inmem::', gen.build(spec))
            M.set_tree(source.data, spec, tree)
            storage = (frontend.create_from(path, source, arg)
                       if how == 'create_from'
                       else source.save_as(path, arg))
        module = type(storage).__module__.rsplit('.', 1)[-1]
        if module != backend:
            ctx.fail('%s: uses backend %s' % (what, module))
        if storage.storage_path != path:
            ctx.fail('%s: storage_path %r' % (what, storage.storage_path))
        compare(ctx, what, before, listing(self.root), (name,))
        storage.save(force=True)
        after = listing(self.root)
        compare(ctx, what + ', save', before, after, (name,))
        if name not in after:
            ctx.fail('%s, save: no file %r' % (what, name))
        self.check_content(what, name, backend, spec, model.canon())
        if rng.random() < 0.4:
            # Saving again, also less data than before.
            tree = gen.gen_tree(rng, spec, rng.choice((0.0, 0.3, None)),
                                big=0.0)
            M.fill(model, tree)
            M.set_tree(storage.data, spec, tree)
            storage.save(force=True)
            compare(ctx, what + ', save again', before, listing(self.root),
                    (name,))
            self.check_content(what + ' again', name, backend, spec,
                               model.canon())
            ctx.event('resaved')
        storage = None
        stor.drop()
        compare(ctx, what + ', close', before, listing(self.root), (name,))
        self.stored.append((name, backend, spec, model.canon()))
        ctx.event('create_' + backend)

    def create_inmem(self):
        from dsch import frontend
        spec = self.spec('npz')
        before = listing(self.root)
        arg = self.rng.choice((None, 'inmem'))
        path = '::inmem::'
        if arg and self.rng.random() < 0.5:
            path = self.path(self.name())
            self.expect('create %r (inmem)' % path, ValueError,
                        lambda: frontend.create(path, gen.build(spec), arg))
        elif self.rng.random() < 0.3:
            self.expect('load ::inmem::', Exception,
                        lambda: frontend.load(path, arg))
        else:
            storage = frontend.create(path, gen.build(spec), arg)
            M.set_tree(storage.data, spec,
                       gen.gen_tree(self.rng, spec, big=0.0))
            if type(storage).__module__ != 'dsch.backends.inmem':
                self.ctx.fail('create %r: %s' % (path, type(storage)))
        compare(self.ctx, 'create %r (%s)' % (path, arg), before,
                listing(self.root))
        self.note('create %r (%s)' % (path, arg))
        self.ctx.event('create_inmem')

    def create_existing(self):
        from dsch import frontend
        rng, ctx = self.rng, self.ctx
        kind = 'file'
        if rng.random() < 0.6:
            name = rng.choice(self.stored)[0] if self.stored else None
        else:
            name = None
        if name is None:
            name, kind = self.add_other()
        path = self.path(name)
        arg, backend = self.choose(name)
        spec = self.spec(backend)
        before = listing(self.root)
        r = rng.random()
        if r < 0.5:
            how = 'create'

            def fn():
                frontend.create(path, gen.build(spec), arg)
        else:
            how = 'copy'
            source = frontend.create('::inmem::', gen.build(spec))
            M.set_tree(source.data, spec, gen.gen_tree(rng, spec, big=0.0))

            def fn():
                if r < 0.75:
                    frontend.create_from(path, source, arg)
                else:
                    source.save_as(path, arg)
        what = '%s existing %s %r (%s)' % (how, kind, path, arg)
        self.note(what)
        self.expect(what, FileExistsError, fn)
        compare(ctx, what, before, listing(self.root))
        ctx.event(how + '_existing')
        ctx.event('existing_' + kind)

    def expect(self, what, exc_type, fn):
        try:
            fn()
        except exc_type:
            return
        except Exception as err:  # pylint: disable=broad-except
            self.ctx.fail('%s: raised %s: %s' % (what, type(err).__name__,
                                                 err))
        self.ctx.fail('%s: no exception' % what)

    def load_missing(self):
        from dsch import frontend
        rng = self.rng
        name = self.name()
        path = self.path(name)
        arg, backend = self.choose(name)
        kw = {}
        if rng.random() < 0.3:
            kw['force'] = True
        if rng.random() < 0.3:
            kw['required_schema'] = gen.build(self.spec(backend))
        what = 'load missing %r (%s)' % (path, arg)
        error = FileNotFoundError
        near = [n for n, b, _, _ in self.stored if b == backend]
        full = os.path.join(self.root, name)
        other = '%s.%s' % (full, gen.EXT[backend])
        if near and rng.random() < 0.6 and not os.path.lexists(other):
            # A storage with a similar name is none of our business.
            stor_name = rng.choice(near)
            with open(other, 'wb') as f:
                f.write(stor.file_bytes(os.path.join(self.root, stor_name)))
            what += ' next to %s' % os.path.basename(other)
            self.ctx.event('near_' + backend)
            if rng.random() < 0.5:
                os.mkdir(full)
                error = Exception
                what += ' (a directory)'
                self.ctx.event('load_dir')
        self.note(what)
        before = listing(self.root)
        self.expect(what, error,
                    lambda: frontend.load(path, arg, **kw))
        stor.drop()
        compare(self.ctx, what, before, listing(self.root))
        self.ctx.event('load_missing')

    def load_existing(self):
        from dsch import exceptions, frontend
        rng, ctx = self.rng, self.ctx
        if not self.stored:
            return
        name, backend, spec, expected = rng.choice(self.stored)
        path = self.path(name)
        found = detect(path)
        before = listing(self.root)
        arg = backend
        if found == backend and rng.random() < 0.6:
            arg = None
        if rng.random() < 0.2:
            # With a backend that does not fit, the result is undefined, but
            # the file has to stay as it is.
            arg = rng.choice([b for b in gen.FILE_BACKENDS if b != backend])
            what = 'load %s file %r with %s' % (backend, path, arg)
            self.note(what)
            try:
                frontend.load(path, arg)
            except Exception:  # pylint: disable=broad-except
                pass
            else:
                ctx.fail(what + ': accepted')
            stor.drop()
            compare(ctx, what, before, listing(self.root))
            ctx.event('load_other_backend')
            return
        what = 'load %r (%s)' % (path, arg)
        self.note(what)
        allowed = (name,) if backend == 'hdf5' else ()
        full = os.path.join(self.root, name)
        dump = hdf5_dump(full) if allowed else None
        if rng.random() < 0.25:
            self.expect(what + ' with wrong hash',
                        exceptions.InvalidSchemaError,
                        lambda: frontend.load(path, arg,
                                              required_schema_hash='0' * 64))
            ctx.event('load_rejected')
        else:
            storage = frontend.load(path, arg, force=True)
            stor.expect_state(ctx, storage, spec, expected, what)
            module = type(storage).__module__.rsplit('.', 1)[-1]
            if module != backend or storage.storage_path != path:
                ctx.fail('%s: %s at %r' % (what, module,
                                           storage.storage_path))
            repr(storage.data)
            storage.data.data_tree()
            try:
                storage.validate()
            except exceptions.DschError:
                pass
            compare(ctx, what, before, listing(self.root), allowed)
            storage = None
        stor.drop()
        compare(ctx, what, before, listing(self.root), allowed)
        if allowed:
            now = hdf5_dump(full)
            if now != dump:
                ctx.fail('%s: changed the HDF5 file at %r' % (what, sorted(
                    k for k in set(dump) | set(now)
                    if dump.get(k) != now.get(k))))
            ctx.event('hdf5_compared')
        self.check_content(what, name, backend, spec, expected)
        ctx.event('load_unchanged_' + backend)

    def refused(self):
        from dsch import exceptions, frontend
        rng, ctx = self.rng, self.ctx
        while True:
            name = self.name() if rng.random() < 0.8 else rng.choice(
                ('', '.', 'h5', '::inmem', 'inmem', '::INMEM::', ' ::inmem::',
                 'sub.d'))
            if self.stored and rng.random() < 0.3:
                name = rng.choice(self.stored)[0]
            path = name if rng.random() < 0.5 else os.path.join(
                self.root, name)
            if detect(path) is None:
                break
        spec = self.spec(None)
        before = listing(self.root)
        how = rng.choice(('create', 'load', 'create_from', 'save_as'))
        what = '%s %r without backend' % (how, path)
        self.note(what)
        source = frontend.create('::inmem::', gen.build(spec))
        self.expect(what, exceptions.AutodetectBackendError, {
            'create': lambda: frontend.create(path, gen.build(spec)),
            'load': lambda: frontend.load(path),
            'create_from': lambda: frontend.create_from(path, source),
            'save_as': lambda: source.save_as(path)}[how])
        compare(ctx, what, before, listing(self.root))
        ctx.event('refused_path')

    def load_garbage(self):
        """Files which are no storages cannot be loaded."""
        from dsch import frontend
        rng, ctx = self.rng, self.ctx
        name = self.name()
        data = rng.choice((b'', b'\0', b'hello\n', b'PK\x03\x04' * 9,
                           rng.getrandbits(8 * 500).to_bytes(500, 'big'),
                           b'\x89HDF\r\n\x1a\n' * 3))
        full = os.path.join(self.root, name)
        if self.stored and rng.random() < 0.5:
            data = stor.file_bytes(os.path.join(
                self.root, rng.choice(self.stored)[0]))
            data = data[:rng.randint(0, max(0, len(data) // 3))]
        with open(full, 'wb') as f:
            f.write(data)
        arg, backend = self.choose(name)
        path = self.path(name)
        what = 'load garbage %r (%s)' % (path, backend)
        self.note(what)
        before = listing(self.root)
        try:
            frontend.load(path, arg)
        except Exception:  # pylint: disable=broad-except
            pass
        else:
            ctx.fail(what + ': accepted')
        stor.drop()
        compare(ctx, what, before, listing(self.root))
        ctx.event('load_garbage')

    def load_foreign(self):
        """Files of the right format, but without a schema."""
        from dsch import frontend
        rng, ctx = self.rng, self.ctx
        name = self.name()
        arg, backend = self.choose(name)
        full = os.path.join(self.root, name)
        values = {'a': np.arange(3), 'data': np.ones(2), 'dsch_data': 3.5}
        values = {k: v for k, v in values.items() if rng.random() < 0.7}
        if backend == 'hdf5':
            with h5py.File(full, 'w') as f:
                for k, v in values.items():
                    f[k] = v
                if rng.random() < 0.5:
                    f.create_group('b').attrs['note'] = 'x'
                f.attrs['title'] = 'foreign'
        elif backend == 'npz':
            with open(full, 'wb') as f:
                np.savez(f, **values)
        else:
            scipy.io.savemat(full, values, appendmat=False)
        path = self.path(name)
        what = 'load foreign %r (%s)' % (path, backend)
        self.note(what)
        before = listing(self.root)
        kw = {'force': True} if rng.random() < 0.5 else {}
        try:
            frontend.load(path, arg, **kw)
        except Exception:  # pylint: disable=broad-except
            pass
        else:
            ctx.fail(what + ': accepted')
        stor.drop()
        compare(ctx, what, before, listing(self.root))
        ctx.event('load_foreign')

    def create_raced(self):
        """Another process creates the file right after it was looked for."""
        from dsch import frontend
        rng, ctx = self.rng, self.ctx
        name = self.name()
        arg, backend = self.choose(name)
        path = self.path(name)
        full = os.path.join(self.root, name)
        spec = self.spec(backend)
        what = 'create %r (%s) while it is created elsewhere' % (path, backend)
        self.note(what)
        before = listing(self.root)
        content = rng.choice((b'', b'precious', b'\x89HDF\r\n\x1a\n'))
        real = os.stat, os.lstat
        raced = []

        def wrap(fn):
            def wrapped(p, *args, **kwargs):
                try:
                    return fn(p, *args, **kwargs)
                except FileNotFoundError:
                    if not raced and str(p) == path:
                        raced.append(p)
                        with open(full, 'wb') as f:
                            f.write(content)
                    raise
            return wrapped
        os.stat, os.lstat = map(wrap, real)
        try:
            frontend.create(path, gen.build(spec), arg)
        except Exception:  # pylint: disable=broad-except
            ctx.event('raced_refused')
        finally:
            os.stat, os.lstat = real
        stor.drop()
        after = listing(self.root)
        compare(ctx, what, before, after, (name,))
        if raced and stor.file_bytes(full) != content:
            ctx.fail('%s: the file of the other process was overwritten'
                     % what)
        if raced:
            ctx.event('raced_' + backend)
        ctx.event('create_raced')
        if os.path.lexists(full):
            os.remove(full)

    def bad_backend(self):
        from dsch import frontend
        rng, ctx = self.rng, self.ctx
        backend = rng.choice(('foo', 'HDF5', 'h5', '.npz', 'matlab'))
        path = self.path(self.name())
        spec = self.spec(None)
        what = 'backend %r for %r' % (backend, path)
        self.note(what)
        before = listing(self.root)
        for fn in (lambda: frontend.create(path, gen.build(spec), backend),
                   lambda: frontend.load(path, backend)):
            self.expect(what, Exception, fn)
        compare(ctx, what, before, listing(self.root))
        ctx.event('bad_backend')
