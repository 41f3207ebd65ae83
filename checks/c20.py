"""C20: set_on_create fields get the moment of their creation, once."""
import datetime

from lib import fakeclock, gen, model as M, ops, stor

PROP = 'C20'
RULE = ('The wall clock of the checking process is replaced in libc and '
        'stands still except when the case moves it (forward, back, over '
        'midnight, to whole seconds, in random time zones), so that the '
        'moment of creation of every node is known exactly. A case builds a '
        'random schema with many set_on_create fields, creates a storage and '
        'runs random operations with saves, reloads and copies (to any '
        'backend) in between, moving the clock before each, and compares all '
        'values with a model after each. Distinct: (backend, schema, '
        'operations, times).')
CASES = {'quick': 3000, 'thorough': 45000}
MIN_EVENTS = tuple('%s_%s' % (k, b) for b in gen.ALL_BACKENDS
                   for k in ('created', 'copied_to', 'appended')) + tuple(
    '%s_%s' % (k, b) for b in gen.FILE_BACKENDS
    for k in ('saved', 'reloaded')) + (
    'clock_read', 'whole_second', 'midnight', 'set_Date', 'set_Time',
    'set_DateTime', 'unset', 'cleared_reloaded', 'load_from', 'toplevel')

restart = fakeclock.restart


def moment(rng):
    """A local date and time between 1971 and 2099."""
    day = datetime.date.fromordinal(rng.randint(
        datetime.date(1971, 1, 1).toordinal(),
        datetime.date(2099, 12, 30).toordinal()))
    if rng.random() < 0.2:
        day = datetime.date(*rng.choice(((2000, 2, 29), (2024, 2, 29),
                                         (1999, 12, 31), (2000, 1, 1),
                                         (2038, 1, 19), (2026, 10, 25))))
    r = rng.random()
    if r < 0.3:
        time_ = datetime.time(*rng.choice(gen.TIMES))
    elif r < 0.5:
        time_ = datetime.time(rng.randint(0, 23), rng.randint(0, 59),
                              rng.randint(0, 59))
    else:
        time_ = gen.gen_time(rng)
    return datetime.datetime.combine(day, time_)


def run_case(ctx):
    clock = fakeclock.Clock()
    clock.zone(ctx.rng.choice((0, 3600, 19800, -12600, 50400, -43200,
                               ctx.rng.randint(-86000, 86000))))
    try:
        Case(ctx, clock).run()
    finally:
        clock.off()


class Case:
    def __init__(self, ctx, clock):
        self.ctx, self.rng, self.clock = ctx, ctx.rng, clock

    def tick(self):
        """Move the clock."""
        rng, clock = self.rng, self.clock
        if clock.local is not None and rng.random() < 0.4:
            new = clock.local + datetime.timedelta(microseconds=rng.choice(
                (1, 999, 1000, 10 ** 6, 6 * 10 ** 7, 36 * 10 ** 8,
                 864 * 10 ** 8, -1, -10 ** 6, -864 * 10 ** 8)))
            if not 1971 <= new.year <= 2098:
                new = moment(rng)
        else:
            new = moment(rng)
        clock.set(new)
        if not new.microsecond:
            self.ctx.event('whole_second')
        if not (new.hour or new.minute or new.second):
            self.ctx.event('midnight')

    def run(self):
        ctx, rng, clock = self.ctx, self.rng, self.clock
        backend = gen.ALL_BACKENDS[rng.randrange(4)]
        o = stor.opts_for('mat', big=0.0, set_on_create=True, constraints=0.1,
                          depends=0.0, list_bounds=0.0, item_types=(
                              'Date', 'Date', 'DateTime', 'DateTime', 'Time',
                              'Time', 'Bool', 'String', 'Scalar'))
        spec = gen.gen_spec(rng, o, rng.choice((0, 1, 2, 2, 3, 4)))
        if gen.is_item(spec):
            ctx.event('toplevel')
        for node in gen.walk_spec(spec):
            if 'set_on_create' in node:
                ctx.event('set_' + node['t'] if node['set_on_create']
                          else 'unset')
        self.spec = spec
        self.tick()
        schema = gen.build(spec)
        self.tick()
        start = clock.readings()
        storage = stor.new(ctx, backend, spec, schema)
        model = M.make(spec, clock.value)
        self.what = 'create %s at %s' % (backend, clock.local)
        ctx.log(self.what)
        if clock.readings() != start:
            ctx.event('clock_read')
        ctx.event('created_' + backend)
        self.sides = [(backend, storage, model)]
        self.check()
        kinds = [backend]
        for _ in range(rng.randint(2, 8)):
            self.tick()
            kinds.append(self.step())
            kinds.append(str(clock.local))
            self.check()
        ctx.state((gen.canonical_json(spec), kinds))
        ctx.sample = '; '.join(ctx.log_lines[:5])[:400]

    def check(self):
        self.tick()
        for backend, storage, model in self.sides:
            d = M.diff(model.canon(), M.observe(storage.data, self.spec))
            if d:
                self.ctx.fail('%s: %s storage: %s' % (self.what, backend, d))
            self.ctx.event('observations')

    def step(self):
        from dsch import frontend
        ctx, rng, spec = self.ctx, self.rng, self.spec
        n = rng.randrange(len(self.sides))
        backend, storage, model = self.sides[n]
        r = rng.random()
        at = ' of %s at %s' % (backend, self.clock.local)
        if r < 0.15 and len(self.sides) < 3:
            dst = gen.ALL_BACKENDS[rng.randrange(4)]
            path = ('::inmem::' if dst == 'inmem'
                    else ctx.path(gen.EXT[dst]))
            self.what = 'copy to %s%s' % (dst, at)
            ctx.log(self.what)
            copy = (frontend.create_from(path, storage)
                    if rng.random() < 0.5 else storage.save_as(path))
            twin = M.make(spec, self.clock.value)
            M.fill(twin, model.tree())
            self.sides.append((dst, copy, twin))
            ctx.event('copied_to_' + dst)
            return 'copy'
        if r < 0.3 and backend != 'inmem':
            self.what = 'save' + at
            ctx.log(self.what)
            storage.save(force=True)
            ctx.event('saved_' + backend)
            return 'save'
        if r < 0.55 and backend != 'inmem':
            self.what = 'save and reload' + at
            ctx.log(self.what)
            storage.save(force=True)
            path = storage.storage_path
            self.sides[n] = storage = None
            stor.drop()
            self.tick()
            storage = stor.load(path, force=rng.random() < 0.7)
            self.sides[n] = (backend, storage, model)
            ctx.event('reloaded_' + backend)
            if any(node.empty and node.spec.get('set_on_create')
                   for _, node in M.items(model)):
                ctx.event('cleared_reloaded')
            return 'reload'
        if r < 0.65:
            self.what = 'validate' + at
            ctx.log(self.what)
            storage.validate()
            repr(storage.data)
            storage.data.data_tree(True)
            return 'validate'
        op = self.gen_op(model)
        self.what = ops.show_op(op) + at
        ctx.log(self.what)
        ops.apply_model(model, op)
        ops.apply_real(storage.data, op, self.source)
        if op['op'] == 'append':
            ctx.event('appended_' + backend)
        if op['op'] == 'load_from':
            ctx.event('load_from')
        return op['op']

    def gen_op(self, model):
        rng = self.rng
        lists = [(p, n) for p, n in M.walk(model) if isinstance(n, M.List)]
        if lists and rng.random() < 0.35:
            path, node = rng.choice(lists)
            value = None
            if rng.random() < 0.4:
                value = M.prune(gen.gen_tree(rng, node.spec['sub'], big=0.0))
            return {'op': 'append', 'path': path, 'value': value}
        stamps = [p for p, n in M.items(model)
                  if n.spec.get('set_on_create')]
        if stamps and rng.random() < 0.3:
            return {'op': 'clear', 'path': rng.choice(stamps)}
        return ops.gen_op(rng, model)

    def source(self, op):
        """Node to copy from, holding exactly the given data."""
        from dsch import frontend
        sub = ops.spec_at(self.spec, op['path'])
        backend = gen.ALL_BACKENDS[self.rng.randrange(4)]
        path = ('::inmem::' if backend == 'inmem'
                else self.ctx.path(gen.EXT[backend]))
        storage = frontend.create(path, gen.build(sub))
        M.set_tree(storage.data, sub, op['tree'])
        self.tick()
        self.keep = storage
        return storage.data
