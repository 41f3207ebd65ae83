"""C18: PseudoStorage opens, checks, saves and closes consistently."""
import gc
import os

from lib import gen, model as M, ops, oracle, stor
from checks import c12

PROP = 'C18'
RULE = ('A case makes a PseudoStorage from a path (missing, existing with the '
        'desired, an alternative or a foreign schema, holding valid or '
        'invalid data) or from a data node (top-level or nested) with a '
        'random set of alternatives, and runs a random sequence of open, '
        'close, with-blocks (left normally or by an exception), edits and '
        'replacements of the file by a storage with another schema. A model '
        'of the open/closed state predicts the outcome, the three '
        'attributes and the content of the file, which is observed after '
        'every step, as are open file descriptors. Distinct: (backend, '
        'schemas, step kinds).')
CASES = {'quick': 3000, 'thorough': 40000}
MIN_EVENTS = tuple('%s_%s' % (k, b) for b in gen.ALL_BACKENDS
                   for k in ('opened', 'closed', 'edited')) + tuple(
    'saved_' + b for b in gen.FILE_BACKENDS) + (
    'node', 'created', 'loaded', 'alternative', 'foreign_refused',
    'open_twice', 'exit_by_exception', 'reopened', 'close_closed',
    'invalid_refused', 'close_invalid', 'deferred', 'constructor_opens',
    'constructor_refused', 'node_refused', 'enter_open', 'replaced_file')


class Boom(Exception):
    """Raised inside with-blocks."""


class BaseBoom(BaseException):
    """Raised inside with-blocks."""


def boom(rng):
    """Some exception to leave a with-block by."""
    from dsch import exceptions
    kind = rng.choice((
        Boom, Boom, BaseBoom, KeyError, OSError, ValueError, TypeError,
        KeyboardInterrupt, SystemExit, GeneratorExit, RuntimeError,
        StopIteration, AttributeError, MemoryError, FileNotFoundError,
        exceptions.ValidationError, exceptions.InvalidSchemaError,
        exceptions.SubnodeValidationError, exceptions.NodeEmptyError))
    if kind is exceptions.ValidationError:
        return kind('text', 1, 2)
    if kind is exceptions.InvalidSchemaError:
        return kind('a' * 64, 'b' * 64)
    if kind is exceptions.SubnodeValidationError:
        return kind('field')
    return kind()


def run_case(ctx):
    if ctx.case % 4 == 3:
        NodeCase(ctx).run()
    else:
        PathCase(ctx).run()


def open_fds(path):
    real = os.path.realpath(path)
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            n += os.path.realpath(os.readlink('/proc/self/fd/' + fd)) == real
        except OSError:
            pass
    return n


class Base:
    def __init__(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.kinds = []
        self.open = False
        self.model = None       # data while open

    def schemas(self, backend):
        """Desired schema, alternatives, foreign schemas."""
        rng = self.rng
        o = stor.opts_for(backend, big=0.0, constraints=0.3)
        self.desired = gen.gen_spec(rng, o, rng.choice((0, 1, 1, 2)))
        seen = {gen.spec_hash(self.desired)}
        pools = [], []
        for pool, n in zip(pools, (rng.choice((0, 1, 1, 2, 4)), 2)):
            for _ in range(n):
                spec = (gen.mutate_fillable(rng, self.desired)
                        if rng.random() < 0.7
                        else gen.gen_spec(rng, o, rng.choice((0, 1))))
                if gen.spec_hash(spec) not in seen and c_ok(spec, backend):
                    seen.add(gen.spec_hash(spec))
                    pool.append(spec)
        self.alternatives, self.foreign = pools
        self.accepted = {gen.spec_hash(s): s for s in
                         [self.desired] + self.alternatives}

    def alt_arg(self):
        rng = self.rng
        if not self.alternatives:
            return rng.choice((None, (), []))
        args = [gen.build(s) if rng.random() < 0.5 else gen.spec_hash(s)
                for s in self.alternatives]
        r = rng.random()
        if r < 0.4:
            return args
        if r < 0.6:
            return tuple(args)
        if r < 0.8:
            return iter(args)
        return {gen.spec_hash(s) for s in self.alternatives}

    def make(self, target, defer):
        from dsch import frontend
        kw = {}
        alt = self.alt_arg()
        if alt is not None or self.rng.random() < 0.5:
            kw['schema_alternatives'] = alt
        if defer or self.rng.random() < 0.5:
            kw['defer_open'] = defer
        schema = gen.build(gen.reorder(self.rng, self.desired))
        if self.rng.random() < 0.2:
            return frontend.PseudoStorage(target, schema, defer, alt)
        return frontend.PseudoStorage(target, schema, **kw)

    def note(self, kind):
        self.kinds.append(kind)
        self.ctx.log(kind)

    def closed(self, ps, what):
        for name in ('data', 'storage', 'schema_node'):
            if getattr(ps, name) is not None:
                self.ctx.fail('%s: %s is %s' % (what, name, type(
                    getattr(ps, name))))
        self.ctx.event('seen_closed')

    def expect(self, what, exc_type, fn):
        try:
            fn()
        except exc_type as err:
            return str(err)
        except Exception as err:  # pylint: disable=broad-except
            self.ctx.fail('%s: raised %s: %s' % (what, type(err).__name__,
                                                 err))
        self.ctx.fail('%s: no exception' % what)
        return None

    def edit(self, ps, spec, backend):
        source = ops.inmem_source(spec)
        for _ in range(self.rng.randint(1, 3)):
            op = ops.gen_op(self.rng, self.model)
            self.ctx.log(ops.show_op(op))
            ops.apply_model(self.model, op)
            ops.apply_real(ps.data, op, source)
        self.note('edit')
        self.ctx.event('edited_' + backend)


def c_ok(spec, backend):
    """Whether the model can predict the data for this schema."""
    if any(node.get('set_on_create') for node in gen.walk_spec(spec)):
        return False
    if backend != 'mat':
        return True
    return all(name.isascii() for node in gen.walk_spec(spec)
               if node['t'] == 'Compilation' for name in node['fields'])


class PathCase(Base):
    def run(self):
        rng, ctx = self.rng, self.ctx
        self.backend = gen.ALL_BACKENDS[rng.randrange(4)]
        self.schemas(self.backend)
        self.inmem = self.backend == 'inmem'
        self.path = '::inmem::' if self.inmem else os.path.join(
            ctx.dir(), 'f.' + ('hdf5' if self.backend == 'hdf5'
                               and rng.random() < 0.3
                               else gen.EXT[self.backend]))
        self.file = None        # (spec, model) stored in the file
        if not self.inmem and rng.random() < 0.6:
            self.write_file()
        defer = rng.random() < 0.6
        if defer:
            ps = self.make(self.path, True)
            self.closed(ps, 'deferred')
            self.check_file('deferred')
            ctx.event('deferred')
            self.note('deferred')
        else:
            made = []
            ok = self.try_open(lambda: made.append(self.make(self.path,
                                                             False)),
                               lambda: made[0], 'constructor')
            if not ok:
                ctx.event('constructor_refused')
                self.finish()
                return
            ps = made[0]
            ctx.event('constructor_opens')
        made = None
        for _ in range(rng.randint(2, 8)):
            if not self.step(ps):
                break
        self.finish()

    def finish(self):
        self.ctx.state((self.backend, gen.canonical_json(self.desired),
                        [gen.canonical_json(s) for s in self.alternatives],
                        self.kinds))
        self.ctx.sample = '%s %s: %s' % (self.backend,
                                         gen.describe(self.desired)[:150],
                                         ', '.join(self.kinds))

    def write_file(self):
        """Put a storage of some kind at the path, while it is closed."""
        rng, ctx = self.rng, self.ctx
        if os.path.exists(self.path):
            stor.drop()
            os.unlink(self.path)
            ctx.event('replaced_file')
        pool = [self.desired] * 3 + self.alternatives * 2 + self.foreign
        spec = rng.choice(pool)
        model = M.from_tree(spec, gen.gen_tree(rng, spec, big=0.0))
        if rng.random() < 0.15:
            oracle.corrupt(rng, model, 'hdf5', 1)
        storage = stor.new(ctx, self.backend, spec, path=self.path)
        M.set_tree(storage.data, spec, model.tree())
        storage.save(force=True)
        storage = None
        stor.drop()
        self.file = (spec, model)
        self.note('write file with %s schema' % (
            'foreign' if gen.spec_hash(spec) not in self.accepted else
            'desired' if spec is self.desired else 'alternative'))

    def check_file(self, what):
        """The file holds the expected data."""
        ctx = self.ctx
        if self.inmem:
            return
        if self.file is None:
            if os.listdir(os.path.dirname(self.path)):
                ctx.fail('%s: a file was created' % what)
            return
        copy = ctx.path(gen.EXT[self.backend])
        with open(copy, 'wb') as f:
            f.write(stor.file_bytes(self.path))
        storage = stor.load(copy, self.backend, force=True)
        if storage.schema_hash() != gen.spec_hash(self.file[0]):
            ctx.fail('%s: the file has another schema' % what)
        d = M.diff(self.file[1].canon(), M.observe(storage.data,
                                                   self.file[0]))
        if d:
            ctx.fail('%s: content of the file: %s' % (what, d))
        ctx.event('files_checked')

    def not_open(self, what):
        if self.inmem:
            return
        gc.collect()
        if open_fds(self.path):
            self.ctx.fail('%s: the file is still open' % what)

    def try_open(self, fn, get, how):
        """Open by some way; returns whether it has to succeed."""
        from dsch import exceptions
        ctx = self.ctx
        what = how
        if self.file is not None and not self.inmem:
            spec, model = self.file
            digest = gen.spec_hash(spec)
            bad = oracle.invalid_nodes(model)
            if bad or digest not in self.accepted:
                types = ()
                if bad:
                    types += (exceptions.ValidationError,
                              exceptions.SubnodeValidationError)
                if digest not in self.accepted:
                    types += (exceptions.InvalidSchemaError,)
                text = self.expect(what, types, fn)
                if not bad:
                    for h in (digest, gen.spec_hash(self.desired)):
                        if h not in text:
                            ctx.fail('%s: message %r lacks a hash' % (what,
                                                                      text))
                    ctx.event('foreign_refused')
                else:
                    ctx.event('invalid_refused')
                self.note(how + ' refused')
                self.check_file(what + ' refused')
                self.not_open(what + ' refused')
                return False
            self.spec, self.model = spec, M.from_tree(spec, model.tree())
            ctx.event('loaded')
            if digest != gen.spec_hash(self.desired):
                ctx.event('alternative')
        else:
            self.spec = self.desired
            self.model = M.make(self.desired)
            ctx.event('created')
        fn()
        self.open = True
        self.note(how)
        ctx.event('opened_' + self.backend)
        self.is_open(get(), what)
        return True

    def is_open(self, ps, what):
        ctx = self.ctx
        if ps.storage is None or ps.data is None:
            ctx.fail('%s: not open' % what)
        if ps.data is not ps.storage.data:
            ctx.fail('%s: data is not the data of the storage' % what)
        if type(ps.storage).__module__ != 'dsch.backends.' + self.backend \
                or ps.storage.storage_path != self.path:
            ctx.fail('%s: storage is %r' % (what, ps.storage))
        if ps.schema_node is None or \
                ps.schema_node.hash() != gen.spec_hash(self.spec):
            ctx.fail('%s: wrong schema_node' % what)
        d = M.diff(self.model.canon(), M.observe(ps.data, self.spec))
        if d:
            ctx.fail('%s: data: %s' % (what, d))
        ctx.event('seen_open')

    def close_outcome(self, ps, fn, what):
        """Close by some way; False if it was refused (invalid data)."""
        from dsch import exceptions
        ctx = self.ctx
        bad = [] if self.inmem else oracle.invalid_nodes(self.model)
        if bad:
            self.expect(what + ' with invalid data',
                        (exceptions.ValidationError,
                         exceptions.SubnodeValidationError), fn)
            ctx.event('close_invalid')
            self.note(what + ' with invalid data')
            if ps.data is None:
                # Nothing more is known about the data.
                self.closed(ps, what)
                return False
            tree = gen.gen_tree(self.rng, self.spec, big=0.0)
            M.fill(self.model, tree)
            M.set_tree(ps.data, self.spec, tree)
            fn = ps.close
        self.raised = None
        try:
            fn()
        except BaseException as err:  # pylint: disable=broad-except
            if err is not self.raised:
                raise
        else:
            if self.raised is not None and not self.manual:
                ctx.fail('%s: %r was swallowed' % (what, self.raised))
        self.note(what)
        self.open = False
        self.closed(ps, what)
        ctx.event('closed_' + self.backend)
        if not self.inmem:
            self.file = (self.spec, self.model)
            self.check_file(what)
            self.not_open(what)
            ctx.event('saved_' + self.backend)
        return True

    def step(self, ps):
        rng, ctx = self.rng, self.ctx
        if self.open:
            r = rng.random()
            if r < 0.35:
                self.edit(ps, self.spec, self.backend)
                self.is_open(ps, 'edit')
            elif r < 0.5:
                self.expect('open() while open', RuntimeError, ps.open)
                self.is_open(ps, 'open() while open')
                ctx.event('open_twice')
                self.note('open twice')
            elif r < 0.75:
                return self.close_outcome(ps, ps.close, 'close')
            else:
                ctx.event('enter_open')
                return self.close_outcome(
                    ps, lambda: self.with_block(ps, True), 'with-block')
            return True
        r = rng.random()
        if r < 0.15:
            ps.close()
            self.closed(ps, 'close() while closed')
            self.check_file('close() while closed')
            ctx.event('close_closed')
            self.note('close again')
        elif r < 0.3 and not self.inmem:
            self.write_file()
        elif r < 0.65:
            if 'close' in self.kinds or 'with-block' in self.kinds:
                ctx.event('reopened')
            self.try_open(ps.open, lambda: ps, 'open')
            if not self.open:
                self.closed(ps, 'refused open()')
        else:
            # A whole with-block.
            if self.try_open(ps.__enter__, lambda: ps, 'enter'):
                return self.close_outcome(
                    ps, lambda: self.with_block(ps, False), 'with-block')
            self.closed(ps, 'refused with')
        return True

    def with_block(self, ps, enter):
        rng, ctx = self.rng, self.ctx
        err = boom(rng) if rng.random() < 0.5 else None
        self.manual = not enter
        if enter:
            with ps as inner:
                if inner is not ps:
                    ctx.fail('with: got %r' % inner)
                self.is_open(ps, 'with-block')
                if rng.random() < 0.5 and not oracle.invalid_nodes(
                        self.model):
                    tree = gen.gen_tree(rng, self.spec, big=0.0)
                    M.fill(self.model, tree)
                    M.set_tree(ps.data, self.spec, tree)
                if err is not None:
                    ctx.event('exit_by_exception')
                    ctx.event('exit_' + type(err).__name__)
                    self.raised = err
                    raise err
            return
        if err is not None:
            ctx.event('exit_by_exception')
            if ps.__exit__(type(err), err, None):
                ctx.fail('with: the exception was swallowed')
        elif ps.__exit__(None, None, None):
            ctx.fail('with: __exit__ returned true')


class NodeCase(Base):
    """PseudoStorage on a data node."""

    def run(self):
        rng, ctx = self.rng, self.ctx
        backend = gen.ALL_BACKENDS[rng.randrange(4)]
        self.schemas(backend)
        pool = [self.desired] * 3 + self.alternatives * 2 + self.foreign
        spec = rng.choice(pool)
        outer, path = c12.surround(rng, spec)
        storage, model = c12.make_source(ctx, backend, outer)
        c12.reach(ctx, storage, model, path)
        path = c12.concrete(rng, model, path)
        node = M.find(storage.data, path)
        self.model = M.mfind(model, path)
        file_before = (None if backend == 'inmem'
                       else stor.digest(storage.storage_path))
        ok = gen.spec_hash(spec) in self.accepted
        defer = rng.random() < 0.5
        what = 'node %s of %s' % (M.path_str(path), backend)
        ctx.log(what)
        ctx.event('node')
        if not defer and not ok:
            self.refused(what, lambda: self.make(node, False), spec)
            ctx.event('constructor_refused')
            stor.expect_state(ctx, storage, outer, model.canon(), what)
            return
        ps = self.make(node, defer)
        if defer:
            self.closed(ps, what + ' deferred')
        else:
            self.opened(ps, node, spec, what)
        is_open = not defer
        for _ in range(rng.randint(2, 7)):
            r = rng.random()
            if is_open:
                if r < 0.35:
                    self.edit(ps, spec, backend)
                    self.opened(ps, node, spec, what)
                elif r < 0.5:
                    self.expect(what + ' open() while open', RuntimeError,
                                ps.open)
                    self.opened(ps, node, spec, what)
                    ctx.event('open_twice')
                else:
                    if r < 0.75:
                        ps.close()
                    else:
                        err = boom(rng) if rng.random() < 0.5 else None
                        try:
                            with ps:
                                self.opened(ps, node, spec, what)
                                if err is not None:
                                    raise err
                        except BaseException as got:
                            if got is not err:
                                raise
                            ctx.event('exit_by_exception')
                            ctx.event('exit_' + type(err).__name__)
                    is_open = False
                    self.note('close')
                    self.closed(ps, what + ' closed')
                    ctx.event('closed_' + backend)
            elif not ok:
                self.refused(what, ps.open if r < 0.5 else ps.__enter__, spec)
                self.closed(ps, what + ' refused')
            elif r < 0.2:
                ps.close()
                self.closed(ps, what + ' closed again')
                ctx.event('close_closed')
            else:
                if r < 0.6:
                    ps.open()
                elif ps.__enter__() is not ps:
                    ctx.fail(what + ': __enter__()')
                is_open = True
                self.note('open')
                self.opened(ps, node, spec, what)
                ctx.event('opened_' + backend)
            stor.expect_state(ctx, storage, outer, model.canon(), what)
        if backend in ('npz', 'mat') \
                and stor.digest(storage.storage_path) != file_before:
            ctx.fail('%s: the file was changed' % what)
        ctx.state((backend, what, gen.canonical_json(spec), ok, self.kinds))

    def opened(self, ps, node, spec, what):
        ctx = self.ctx
        if ps.data is not node or ps.storage is not None:
            ctx.fail('%s: data %s, storage %s' % (what, type(ps.data),
                                                  ps.storage))
        if ps.schema_node is None \
                or ps.schema_node.hash() != gen.spec_hash(spec):
            ctx.fail('%s: wrong schema_node' % what)
        ctx.event('seen_open')

    def refused(self, what, fn, spec):
        from dsch import exceptions
        text = self.expect(what, exceptions.InvalidSchemaError, fn)
        for h in (gen.spec_hash(spec), gen.spec_hash(self.desired)):
            if h not in text:
                self.ctx.fail('%s: message %r lacks a hash' % (what, text))
        self.ctx.event('node_refused')
        self.note('refused')
