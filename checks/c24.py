"""C24: storages do not interfere with each other or with their schemas."""
import json
import os
import random
import sys
import threading
import time

from lib import core, gen, model as M, ops, oracle, stor

PROP = 'C24'
RULE = ('A case builds one schema object and 2 to 5 storages from it (with '
        'any backends; directly, as part of other schemas or from parts of '
        'it) and runs random edits, saves, reloads, validations, copies '
        'between them, displays and new storages alternately; after every '
        'step all storages are compared with their own models, the files of '
        'all others byte by byte, and the schema objects with their initial '
        'JSON and hash. Every fourth case runs one thread per storage, with '
        'random pauses at lines of the code under test, each comparing its '
        'storage with its model all the time. Distinct: interleavings of '
        '(storage, operation).')
CASES = {'quick': 1600, 'thorough': 26000}
MIN_EVENTS = tuple('with_' + b for b in gen.ALL_BACKENDS) + (
    'threads', 'thread_steps', 'thread_switches', 'pauses', 'steps', 'op',
    'save', 'reload', 'validate', 'copy', 'new', 'show', 'as_part', 'part_of',
    'schema_of_storage', 'invalid', 'schema_checks', 'same_backend',
    'same_file', 'twin_schemas', 'paused_libraries', 'together',
    'assigned_elements')
ASSUMPTIONS = ('Each storage is used by one thread only.',)


class Member:
    """A storage taking part, with its model."""

    def __init__(self, backend, spec, schema, path):
        self.backend = backend
        self.spec = spec
        self.schema = schema
        self.path = path
        self.model = None
        self.storage = None
        self.digest = None

    def start(self, ctx, rng):
        self.storage = stor.new(ctx, self.backend, self.spec, self.schema,
                                self.path)
        self.model = M.from_tree(self.spec, gen.gen_tree(rng, self.spec,
                                                         big=0))
        if rng.random() < 0.25:
            oracle.corrupt(rng, self.model, 'hdf5', 1)
        M.set_tree(self.storage.data, self.spec, self.model.tree())


def sub_schema(schema, spec, path):
    """(schema node, spec) below a node."""
    for key in path:
        if spec['t'] == 'Compilation':
            schema, spec = schema.subnodes[key], spec['fields'][key]
        else:
            schema, spec = schema.subnode, spec['sub']
    return schema, spec


def spec_paths(spec, path=()):
    yield path
    if spec['t'] == 'Compilation':
        for name, sub in spec['fields'].items():
            yield from spec_paths(sub, path + (name,))
    elif spec['t'] == 'List':
        yield from spec_paths(spec['sub'], path + (0,))


def has_deps(spec):
    return any(gen.deps(s) for s in gen.walk_spec(spec))


def wrap(rng, spec, schema):
    """Another schema containing the schema object."""
    from dsch import schema as S
    if rng.random() < 0.5 and not spec.get('depends_on'):
        return ({'t': 'List', 'sub': spec, 'max': None, 'min': None},
                S.List(schema))
    fields = {n: spec for n in rng.sample(('left', 'right', 'more'), 2)}
    return ({'t': 'Compilation', 'desc': '', 'optionals': [],
             'fields': fields},
            S.Compilation({n: schema for n in fields}))


def make_members(ctx, rng, n):
    common = rng.choice(gen.ALL_BACKENDS) if rng.random() < 0.4 else None
    backends = [common or rng.choice(gen.ALL_BACKENDS) for _ in range(n)]
    if len(set(backends)) < n:
        ctx.event('same_backend')
    o = gen.Opts(unicode_names='mat' not in backends, big=0,
                 set_on_create=False, constraints=0.3, depends=0.25)
    while True:
        spec = gen.gen_spec(rng, o, rng.choice((0, 1, 1, 2, 2)))
        if len(list(gen.walk_spec(spec))) < 30:
            break
    schema = gen.build(spec)
    members = []
    for backend in backends:
        member_spec, member_schema = spec, schema
        r = rng.random()
        if r < 0.15:
            member_spec, member_schema = wrap(rng, spec, schema)
            ctx.event('as_part')
        elif r < 0.3:
            path = rng.choice(list(spec_paths(spec)))
            member_schema, member_spec = sub_schema(schema, spec, path)
            if member_spec.get('depends_on'):
                # Its siblings would be missing.
                member_spec, member_schema = spec, schema
            else:
                ctx.event('part_of')
        elif r < 0.45 and members:
            other = rng.choice(members)
            member_spec, member_schema = other.spec, other.schema
            ctx.event('schema_of_storage')
        path = (None if backend == 'inmem' else ctx.path(gen.EXT[backend]))
        members.append(Member(backend, member_spec, member_schema, path))
        ctx.event('with_' + backend)
    return members


class Schemas:
    """Watches schema objects."""

    def __init__(self, members):
        self.known = {}
        for m in members:
            self.add(m)

    def add(self, m):
        if id(m.schema) not in self.known:
            self.known[id(m.schema)] = (
                m.schema, m.spec, gen.canonical_json(m.spec),
                gen.spec_hash(m.spec))

    def check(self, ctx, what):
        for schema, spec, text, digest in self.known.values():
            if schema.to_json() != text:
                ctx.fail('%s: the schema object is now %s instead of %s' % (
                    what, schema.to_json(), text))
            if schema.hash() != digest:
                ctx.fail('%s: schema hash changed' % what)
            ctx.event('schema_checks')


def run_case(ctx):
    rng = ctx.rng
    if ctx.case % 4 == 3:
        threaded(ctx)
        return
    members = make_members(ctx, rng, rng.randint(2, 4))
    schemas = Schemas(members)
    for m in members:
        ctx.log('%s %s' % (m.backend, gen.describe(m.spec)))
    for m in members:
        m.start(ctx, rng)
    compare(ctx, members, 'creating the storages')
    schemas.check(ctx, 'creating the storages')
    trace = []
    for _ in range(rng.randint(8, 20)):
        i = rng.randrange(len(members))
        kind = step(ctx, rng, members[i], members, schemas)
        trace.append((i, members[i].backend, kind))
        what = '%s in storage %d (%s)' % (kind, i, members[i].backend)
        compare(ctx, members, what, members[i])
        schemas.check(ctx, what)
        ctx.event('steps')
    for i, m in enumerate(members):
        if m.backend != 'inmem':
            reload(ctx, m)
            compare(ctx, members, 'reloading storage %d' % i, m)
    ctx.state(trace)
    ctx.sample = '%s' % trace[:8]


def compare(ctx, members, what, active=None):
    for i, m in enumerate(members):
        stor.expect_state(ctx, m.storage, m.spec, m.model.canon(),
                          'after %s, storage %d (%s)' % (what, i, m.backend))
        if m.backend in ('npz', 'mat'):
            now = stor.digest(m.path)
            if m is not active and now != m.digest:
                ctx.fail('after %s, the file of storage %d (%s) changed' % (
                    what, i, m.backend))
            m.digest = now


def reload(ctx, m, collect=True):
    m.storage.save(force=True)
    m.storage = None
    if collect:
        stor.drop()
    m.storage = stor.load(m.path, force=True)


def source_for(m):
    """Uses the very same schema objects for the sources."""
    def source(op):
        from dsch import frontend
        spec_path = tuple(0 if isinstance(k, int) else k for k in op['path'])
        schema, spec = sub_schema(m.schema, m.spec, spec_path)
        storage = frontend.create('::inmem::', schema)
        M.apply_tree(None, storage.data, spec, op['tree'])
        return storage.data
    return source


def edit(rng, m, ctx=None):
    op = ops.gen_op(rng, m.model)
    if ctx is not None:
        ctx.log(ops.show_op(op))
    ops.apply_model(m.model, op)
    ops.apply_real(m.storage.data, op, source_for(m))


def step(ctx, rng, m, members, schemas):
    kind = rng.choice(('op',) * 6 + ('save', 'reload', 'validate', 'copy',
                                     'copy', 'new', 'show'))
    ctx.log('storage %d: %s' % (members.index(m), kind))
    if kind in ('save', 'reload') and m.backend == 'inmem':
        kind = 'op'
    if kind == 'op':
        edit(rng, m, ctx)
    elif kind == 'save':
        m.storage.save(force=True)
    elif kind == 'reload':
        reload(ctx, m)
    elif kind == 'validate':
        bad = oracle.invalid_nodes(m.model)
        if bad:
            ctx.event('invalid')
        oracle.judge_validation(ctx, 'validate', m.storage.validate, bad)
    elif kind == 'copy':
        copy_node(ctx, rng, m, members)
    elif kind == 'new':
        # Replace this storage by a new one of the same schema object.
        m.storage = None
        if m.backend == 'hdf5':
            stor.drop()
        if m.backend != 'inmem':
            m.path = ctx.path(gen.EXT[m.backend])
        m.start(ctx, rng)
    else:
        repr(m.storage.data)
        m.storage.data.data_tree(True)
        m.storage.schema_hash()
        m.storage.schema_node.to_json()
        if m.storage.data.empty != m.model.empty:
            ctx.fail('empty is %s' % m.storage.data.empty)
        if m.storage.data.complete != m.model.complete:
            ctx.fail('complete is %s' % m.storage.data.complete)
    ctx.event(kind)
    return kind


def copy_node(ctx, rng, m, members):
    """load_from() a node of any storage."""
    path, target = rng.choice(list(M.walk(m.model)))
    digest = gen.spec_hash(target.spec)
    other = rng.choice(members)
    found = [p for p, n in M.walk(other.model)
             if gen.spec_hash(n.spec) == digest]
    if not found:
        return
    src = rng.choice(found)
    if other is m and (src[:len(path)] == path or path[:len(src)] == src):
        return
    tree = M.mfind(other.model, src).tree()
    op = {'op': 'load_from', 'path': path, 'tree': tree}
    ctx.log('load %s from storage %d, %s' % (
        M.path_str(path), members.index(other), M.path_str(src)))
    ops.apply_model(m.model, op)
    ops.apply_real(m.storage.data, op,
                   lambda op: M.find(other.storage.data, src))


# -------------------------------------------------------------- threads

BELOW = ('_mio5.py', '_mio.py', '_miobase.py', '_npyio_impl.py', '_format_impl.py',
         'npyio.py', 'format.py', 'zipfile.py', 'zipfile/__init__.py')


def pausing_tracer(rng, counter, below=False, often=0.02):
    """Yields to other threads at random lines of the code under test.

    With ``below``, also in the modules of scipy, NumPy and zipfile which read
    and write files.
    """
    def local(frame, event, arg):
        if event == 'line' and rng.random() < often:
            counter[0] += 1
            time.sleep(0 if rng.random() < 0.8 else 1e-5)
        return local

    def tracer(frame, event, arg):
        name = frame.f_code.co_filename
        if name.startswith(core.DSCH_DIR) or below and name.endswith(BELOW):
            return local
        return None
    return tracer


class Quiet:
    """Stand-in for the context within threads."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.events = []

    def event(self, name, n=1):
        self.events.append((name, n))

    def log(self, text):
        pass

    def fail(self, message, mechanism=None):
        raise core.Violation(message, mechanism)


def threaded(ctx):
    rng = ctx.rng
    members = make_members(ctx, rng, rng.randint(2, 5))
    schemas = Schemas(members)
    for m in members:
        ctx.log('%s %s' % (m.backend, gen.describe(m.spec)))
    history, errors, quiets = [], [], []
    barrier = threading.Barrier(len(members))
    pauses = [0]
    below = rng.random() < 0.4
    if below:
        ctx.event('paused_libraries')

    def work(i, m, seed, n, quiet):
        own = random.Random(seed)
        tracer = pausing_tracer(random.Random(seed + 1), pauses, below)
        try:
            barrier.wait(30)
            sys.settrace(tracer)
            m.start(quiet, own)
            for _ in range(n):
                kind = own.choice(('op',) * 5 + ('save', 'reload', 'validate',
                                                 'validate', 'show'))
                history.append((i, kind))
                if m.backend == 'inmem' and kind in ('save', 'reload'):
                    kind = 'op'
                if kind == 'op':
                    edit(own, m)
                elif kind == 'save':
                    m.storage.save(force=True)
                elif kind == 'reload':
                    reload(quiet, m)
                elif kind == 'validate':
                    oracle.judge_validation(quiet, 'validate',
                                            m.storage.validate,
                                            oracle.invalid_nodes(m.model))
                else:
                    repr(m.storage.data)
                    m.storage.schema_hash()
                stor.expect_state(quiet, m.storage, m.spec, m.model.canon(),
                                  'thread %d (%s), after %s' % (
                                      i, m.backend, kind))
                quiet.event('thread_steps')
        except BaseException as err:  # pylint: disable=broad-except
            errors.append((i, m, err))
        finally:
            sys.settrace(None)

    threads = []
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for i, m in enumerate(members):
            quiet = Quiet(ctx)
            quiets.append(quiet)
            thread = threading.Thread(target=work, daemon=True, args=(
                i, m, rng.getrandbits(40), rng.randint(4, 12), quiet))
            threads.append(thread)
            thread.start()
        for thread in threads:
            thread.join(60)
    finally:
        sys.setswitchinterval(interval)
    if any(t.is_alive() for t in threads):
        raise core.Violation('a thread working with a storage of its own '
                             'does not get ahead for 60 s')
    for quiet in quiets:
        for name, n in quiet.events:
            ctx.event(name, n)
    ctx.event('threads', len(threads))
    ctx.event('pauses', pauses[0])
    ctx.event('thread_switches', sum(1 for a, b in zip(history, history[1:])
                                     if a[0] != b[0]))
    ctx.log('history: %s' % history)
    if errors:
        i, m, err = errors[0]
        kind, text, _ = core.classify(err)
        if kind != 'violation':
            raise err
        ctx.fail('thread %d (%s): %s' % (i, m.backend, text))
    compare_final(ctx, members)
    schemas.check(ctx, 'using storages in threads')
    ctx.state(history)


def compare_final(ctx, members):
    for i, m in enumerate(members):
        stor.expect_state(ctx, m.storage, m.spec, m.model.canon(),
                          'after all threads, storage %d (%s)' % (
                              i, m.backend))
        if m.backend != 'inmem':
            reload(ctx, m)
            stor.expect_state(ctx, m.storage, m.spec, m.model.canon(),
                              'after all threads and reloading, storage %d '
                              '(%s)' % (i, m.backend))
        if m.path and not os.path.exists(m.path):
            ctx.fail('file of storage %d is missing' % i)


# ---------------------------------------------------------- directed

def _same_file(backend):
    """Several storages that were loaded from one file."""
    def run(ctx):
        rng = ctx.rng
        o = stor.opts_for(backend, big=0, constraints=0.2)
        for _ in range(12):
            spec = gen.gen_spec(rng, o, rng.choice((0, 1, 2)))
            if rng.random() < 0.5:
                spec = gen.comp({'more': spec, 'array': gen.plain('Array')})
            tree = gen.gen_tree(rng, spec, fill=0.9, big=0)
            first = stor.filled(ctx, backend, spec, tree)
            first.save(force=True)
            path = first.storage_path
            models = [M.from_tree(spec, tree)]
            storages = [first]
            for _ in range(rng.randint(1, 3)):
                storages.append(stor.load(path, force=True))
                models.append(M.from_tree(spec, tree))
            text = gen.canonical_json(spec)
            source = ops.inmem_source(spec)
            for _ in range(10):
                i = rng.randrange(len(storages))
                r = rng.random()
                if r < 0.15:
                    storages[i].save(force=True)
                    new = stor.load(path, force=True)
                    stor.expect_state(ctx, new, spec, models[i].canon(),
                                      'loaded after save')
                    # The new one takes the place of some storage.
                    j = rng.randrange(len(storages))
                    tree = models[i].tree()
                    storages[j] = new
                    models[j] = M.from_tree(spec, tree)
                elif r < 0.25:
                    repr(storages[i].data)
                else:
                    op = ops.gen_op(rng, models[i])
                    ops.apply_model(models[i], op)
                    ops.apply_real(storages[i].data, op, source)
                for k, (s, m) in enumerate(zip(storages, models)):
                    stor.expect_state(
                        ctx, s, spec, m.canon(), '%s: storage %d of the same '
                        'file after using %d' % (backend, k, i))
                    if s.schema_node.to_json() != text:
                        ctx.fail('schema of storage %d changed' % k)
                ctx.event('same_file')
            # Elements assigned in one of them do not appear in others.
            for i, (s, m) in enumerate(zip(storages, models)):
                for path_, item in M.items(m):
                    if item.spec['t'] != 'Array' or item.value is None \
                            or not item.value.size:
                        continue
                    key = tuple(rng.randrange(n) for n in item.value.shape)
                    new = ops.gen_part(rng, item.spec, item.value[key])
                    item.assign(key, new)
                    M.find(s.data, path_)[key] = new
                    ctx.event('assigned_elements')
                for k, (s2, m2) in enumerate(zip(storages, models)):
                    stor.expect_state(
                        ctx, s2, spec, m2.canon(), '%s: storage %d of the '
                        'same file after assigning elements in %d' % (
                            backend, k, i))
            # Schemas of loaded storages are independent, too.
            change_schema(rng, storages[0].schema_node, spec)
            for s in storages[1:]:
                if s.schema_node is not storages[0].schema_node \
                        and s.schema_node.to_json() != text:
                    ctx.fail('%s: changing the schema of one storage changed '
                             'that of another' % backend)
            ctx.state((backend, text))
    return run


def change_schema(rng, node, spec):
    """Change every node of a schema in place."""
    t = spec['t']
    if t == 'Compilation':
        for name, sub in spec['fields'].items():
            change_schema(rng, node.subnodes[name], sub)
        if isinstance(node.optionals, list):
            node.optionals.append('changed')
        node.subnodes['changed'] = None
        del node.subnodes['changed']
    elif t == 'List':
        change_schema(rng, node.subnode, spec['sub'])
    if t in ('List', 'String', 'Bytes'):
        node.max_length = 4711
        node.min_length = 3
    elif t in ('Date', 'DateTime', 'Time'):
        node.set_on_create = not node.set_on_create
    elif t in ('Array', 'Scalar'):
        node.unit += 'changed'
        node.max_value = 12345
        node.dtype = 'int16'


def _twin_schemas(ctx):
    """Schemas that were built separately have nothing in common."""
    from dsch import schema as S
    rng = ctx.rng
    specs = [gen.gen_spec(rng, gen.Opts(set_on_create=True), d)
             for d in (0, 1, 2, 3) * 12]
    specs += [gen.comp({}), gen.comp({'a': gen.plain('Bool')}),
              gen.comp({'a': gen.plain('Bool')}, ['a']),
              gen.listof(gen.comp({}))] * 3
    for spec in specs:
        text = gen.canonical_json(spec)
        makers = [lambda: gen.build(spec), lambda: gen.build(spec),
                  lambda: S.node_from_json(text),
                  lambda: S.node_from_dict(json.loads(text))]
        schemas = [make() for make in makers]
        rng.shuffle(schemas)
        while schemas:
            change_schema(rng, schemas.pop(), spec)
            for other in schemas + [make() for make in makers]:
                if other.to_json() != text \
                        or other.hash() != gen.spec_hash(spec):
                    ctx.fail('changing a schema changed one that was built '
                             'separately: %s instead of %s' % (
                                 other.to_json(), text))
            ctx.event('twin_schemas')
        ctx.state(('twin', text))


def _together(backend):
    """Storages of one backend, saved and loaded by threads at once."""
    def run(ctx):
        rng = ctx.rng
        o = stor.opts_for(backend, big=0, constraints=0)
        for _ in range(4):
            jobs = []
            for i in range(4):
                spec = gen.gen_spec(rng, o, rng.choice((1, 2)))
                tree = gen.gen_tree(rng, spec, fill=0.9, big=0)
                jobs.append((spec, tree, ctx.path(gen.EXT[backend])))
            errors, pauses, done = [], [0], []
            barrier = threading.Barrier(len(jobs))

            def work(spec, tree, path, seed):
                quiet = Quiet(ctx)
                expected = M.from_tree(spec, tree).canon()
                tracer = pausing_tracer(random.Random(seed), pauses, True,
                                        0.05)
                try:
                    storage = stor.new(quiet, backend, spec, None, path)
                    M.set_tree(storage.data, spec, tree)
                    barrier.wait(30)
                    sys.settrace(tracer)
                    for _ in range(10):
                        storage.save(force=True)
                        storage = None
                        storage = stor.load(path, force=True)
                        stor.expect_state(quiet, storage, spec, expected,
                                          'saved and loaded by a thread')
                        done.append(path)
                except BaseException as err:  # pylint: disable=broad-except
                    errors.append(err)
                finally:
                    sys.settrace(None)

            threads = [threading.Thread(target=work, daemon=True, args=(
                *job, rng.getrandbits(40))) for job in jobs]
            interval = sys.getswitchinterval()
            sys.setswitchinterval(1e-5)
            try:
                for thread in threads:
                    thread.start()
                for thread in threads:
                    thread.join(100)
            finally:
                sys.setswitchinterval(interval)
            if any(t.is_alive() for t in threads):
                raise core.Violation('%s: a thread saving and loading a '
                                     'storage of its own does not get ahead '
                                     'for 100 s' % backend)
            ctx.event('together', len(done))
            ctx.state(('together', backend, tuple(
                int(a != b) for a, b in zip(done, done[1:]))))
            if errors:
                kind, text, _ = core.classify(errors[0])
                if kind != 'violation':
                    raise errors[0]
                ctx.fail('%s: storages saved and loaded by threads, one for '
                         'each: %s' % (backend, text))
    return run


def directed():
    return ([_same_file('npz'), _same_file('mat'), _twin_schemas]
            + [_together(b) for b in gen.FILE_BACKENDS])
