"""C25: files are open only while they are needed."""
import gc
import os
import shutil

import numpy as np

from lib import gen, model as M, oracle, stor

PROP = 'C25'
RULE = ('A case creates, fills, saves, copies, loads, refuses and drops '
        'storages and PseudoStorages of all backends in random order, with '
        'failing steps in between (garbage files, wrong schema, invalid data, '
        'existing and missing files). After every step the monitor reads '
        '/proc/self/fd: npz and mat files (and files that could not be '
        'created or loaded) are not open, HDF5 files only while their storage '
        'or one of its nodes is still in use. Distinct: sequences of steps.')
CASES = {'quick': 1500, 'thorough': 24000}
MIN_EVENTS = tuple('%s_%s' % (k, b) for b in gen.FILE_BACKENDS for k in (
    'saved', 'loaded', 'dropped', 'garbage', 'wrong_schema', 'invalid_data',
    'existing', 'pseudo', 'pseudo_refused', 'save_refused', 'copied')) + (
    'looks', 'node_kept_hdf5', 'removed_npz', 'removed_mat') + tuple(
        'foreign_' + b for b in gen.FILE_BACKENDS)


def open_files(root):
    """Names of the open files below a directory."""
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if target.endswith(' (deleted)'):
            target = target[:-len(' (deleted)')]
        if target.startswith(root + os.sep):
            out.append(os.path.basename(target))
    return sorted(out)


def foreign(rng, backend, path):
    """A file of the right format, but without a (proper) schema."""
    import h5py
    import scipy.io as sio
    text = rng.choice((None, '', '{}', '[]', 'null', '{"node_type": "Bool"}',
                       '{"node_type": "Spam", "config": {}}',
                       '{"node_type": "Bool", "config": {"a": 1}}',
                       gen.canonical_json(gen.comp({'a': gen.plain('Date')}))))
    values = {'a': np.zeros((3, 2))}
    if backend == 'hdf5':
        with h5py.File(path, 'w') as f:
            f.update(values)
            if text is not None:
                f.attrs['dsch_schema'] = text
        return
    if text is not None:
        values['_schema' if backend == 'npz' else 'schema'] = text
    if backend == 'npz':
        with open(path, 'wb') as f:
            np.savez(f, **values)
    else:
        sio.savemat(path, values, appendmat=False)


def run_case(ctx):
    Case(ctx).run()


class Case:
    def __init__(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.root = os.path.realpath(ctx.dir())
        self.files = []     # (path, backend, spec, valid)
        self.held = {}      # HDF5 file name: objects in use
        self.count = 0
        self.steps = []

    def path(self, backend):
        self.count += 1
        return os.path.join(self.root, 'f%d.%s' % (self.count,
                                                   gen.EXT[backend]))

    def run(self):
        steps = [self.create, self.create, self.load, self.load, self.load,
                 self.copy, self.refused, self.refused, self.drop,
                 self.pseudo, self.keep_node, self.save_held]
        self.create()
        for _ in range(self.rng.randint(5, 14)):
            self.rng.choice(steps)()
            self.look()
        self.held.clear()
        self.steps.append('drop all')
        self.look()
        self.ctx.state(tuple(self.steps))
        self.ctx.sample = '; '.join(self.steps)[:400]

    def note(self, text, backend):
        self.steps.append('%s %s' % (text, backend))
        self.ctx.log(self.steps[-1])
        self.ctx.event('%s_%s' % (text, backend))

    def look(self):
        # Trees refer to their parents, so they need the garbage collector.
        gc.collect()
        expected = set(self.held)
        for name in open_files(self.root):
            if name not in expected:
                self.ctx.fail('%s is open after: %s' % (
                    name, '; '.join(self.steps[-6:])))
            self.ctx.event('in_use_hdf5')
        self.ctx.event('looks')

    def hold(self, path, backend, obj):
        """Sometimes keep using the storage; other formats need no file."""
        name = os.path.basename(path)
        if backend == 'hdf5':
            if self.rng.random() < 0.4:
                self.held.setdefault(name, []).append(obj)
        elif self.rng.random() < 0.5:
            self.others = getattr(self, 'others', []) + [obj]

    def free(self):
        """A stored file which is not in use."""
        usable = [f for f in self.files
                  if os.path.basename(f[0]) not in self.held]
        return self.rng.choice(usable) if usable else None

    def create(self):
        from dsch import frontend
        rng = self.rng
        backend = rng.choice(gen.FILE_BACKENDS)
        o = stor.opts_for(backend, constraints=0.6, list_bounds=0.3, big=0.0)
        spec = gen.gen_spec(rng, o, rng.choice((0, 1, 1, 2)))
        model = M.from_tree(spec, gen.gen_tree(rng, spec, big=0.0))
        if rng.random() < 0.4:
            oracle.corrupt(rng, model, backend, 2)
        valid = not oracle.invalid_nodes(model)
        path = self.path(backend)
        storage = frontend.create(path, gen.build(spec))
        M.set_tree(storage.data, spec, model.tree())
        if not valid:
            try:
                storage.save()
            except Exception:  # pylint: disable=broad-except
                self.note('save_refused', backend)
        storage.save(force=True)
        self.note('saved', backend)
        self.files.append((path, backend, spec, valid))
        self.hold(path, backend, storage)

    def load(self):
        from dsch import frontend
        entry = self.free()
        if not entry:
            return
        path, backend, spec, valid = entry
        kw = {'required_schema': gen.build(spec)} \
            if self.rng.random() < 0.3 else {}
        storage = frontend.load(path, force=True, **kw)
        M.observe(storage.data, spec)
        self.note('loaded', backend)
        self.hold(path, backend, storage)
        if backend != 'hdf5' and self.rng.random() < 0.3:
            # The file can be removed or replaced while the data is in use.
            before = M.observe(storage.data, spec)
            os.remove(path)
            if M.diff(before, M.observe(storage.data, spec)):
                self.ctx.fail('%s: data changed with the file' % backend)
            storage.save(force=True)
            self.note('removed', backend)

    def copy(self):
        from dsch import frontend
        entry = self.free()
        if not entry:
            return
        path, backend, spec, _ = entry
        target = backend
        other = self.path(target)
        storage = frontend.load(path, force=True)
        copied = (storage.save_as(other) if self.rng.random() < 0.5
                  else frontend.create_from(other, storage))
        copied.save(force=True)
        self.note('copied', target)
        self.files.append((other, target, spec, False))
        self.hold(other, target, copied)

    def refused(self):
        """Creating and loading in ways that have to fail."""
        from dsch import frontend
        rng = self.rng
        backend = rng.choice(gen.FILE_BACKENDS)
        kind = rng.choice(('garbage', 'wrong_schema', 'invalid_data',
                           'existing', 'pseudo_refused'))
        mine = [f for f in self.files if f[1] == backend
                and os.path.basename(f[0]) not in self.held
                and (kind != 'invalid_data' or not f[3])]
        if kind == 'garbage':
            path = self.path(backend)
            if mine and rng.random() < 0.7:
                with open(rng.choice(mine)[0], 'rb') as f:
                    data = f.read()
                data = data[:rng.randint(0, len(data) // 4)]
            else:
                data = rng.choice((b'', b'x' * 300, b'PK\3\4' * 40,
                                   b'\x89HDF\r\n\x1a\n' + b'\0' * 90))
            with open(path, 'wb') as f:
                f.write(data)
            if rng.random() < 0.4:
                foreign(rng, backend, path)
                self.ctx.event('foreign_' + backend)
            call = lambda: frontend.load(path, backend)
        elif not mine:
            return
        else:
            path = rng.choice(mine)[0]
            other = gen.build(gen.plain('Scalar', unit='another'))
            call = {
                'wrong_schema': lambda: frontend.load(
                    path, required_schema_hash='0' * 64, force=True),
                'invalid_data': lambda: frontend.load(path),
                'existing': lambda: frontend.create(path, other),
                'pseudo_refused': lambda: frontend.PseudoStorage(path, other),
            }[kind]
        try:
            call()
        except Exception:  # pylint: disable=broad-except
            pass
        self.note(kind, backend)

    def drop(self):
        if self.held:
            name = self.rng.choice(sorted(self.held))
            del self.held[name]
            self.note('dropped', 'hdf5')
        if getattr(self, 'others', None):
            self.others.pop()
            self.note('dropped', 'npz')
            self.note('dropped', 'mat')

    def keep_node(self):
        """Only a node of a storage is still in use."""
        from dsch import frontend
        entry = self.free()
        if not entry or entry[1] != 'hdf5':
            return
        path, _, spec, _ = entry
        storage = frontend.load(path, force=True)
        self.held[os.path.basename(path)] = [storage.data]
        storage = None
        gc.collect()
        M.observe(self.held[os.path.basename(path)][0], spec)
        self.note('node_kept', 'hdf5')

    def save_held(self):
        for name in sorted(self.held):
            obj = self.held[name][0]
            if hasattr(obj, 'save') and hasattr(obj, 'storage_path'):
                obj.save(force=True)
                return

    def pseudo(self):
        from dsch import frontend
        entry = self.free()
        if not entry or not entry[3]:
            return
        path, backend, spec, _ = entry
        pseudo = frontend.PseudoStorage(path, gen.build(spec))
        if self.rng.random() < 0.5:
            with pseudo as p:
                M.observe(p.data, spec)
        else:
            M.observe(pseudo.data, spec)
            pseudo.close()
        # The closed object itself is still in use.
        self.others = getattr(self, 'others', []) + [pseudo]
        self.note('pseudo', backend)


def _many(backend):
    """Loading again and again needs no more and more open files."""
    def run(ctx):
        from dsch import frontend
        root = os.path.realpath(ctx.dir())
        spec = gen.comp({'a': gen.plain('Array'), 'l': gen.listof(
            gen.comp({'s': gen.plain('String')}))})
        tree = gen.gen_tree(ctx.rng, spec, 0.0, big=0.0)
        path = os.path.join(root, 'a.' + gen.EXT[backend])
        storage = frontend.create(path, gen.build(spec))
        M.set_tree(storage.data, spec, tree)
        storage.save(force=True)
        storage = None
        kept = []
        gc.collect()
        for i in range(40):
            copy = os.path.join(root, '%d.%s' % (i, gen.EXT[backend]))
            shutil.copyfile(path, copy)
            storage = frontend.load(copy, force=True)
            storage.save(force=True)
            if backend != 'hdf5':
                kept.append(storage)
            storage = None
            if i % 8 == 7:
                gc.collect()
                if open_files(root):
                    ctx.fail('%s: open after %d loads: %s' % (
                        backend, i + 1, open_files(root)))
            ctx.event('many_loads')
        ctx.state((backend, 'many'))
        del kept
    return run


def directed():
    return [_many(b) for b in gen.FILE_BACKENDS]
