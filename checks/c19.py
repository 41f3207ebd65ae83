"""C19: saved data survives a crash of the process."""
import gc
import os
import pickle
import signal
import struct
import time
import traceback

from lib import core, gen, model as M, ops, oracle, stor

PROP = 'C19'
RULE = ('A case runs one to three sessions, each in a process of its own that '
        'creates or loads the storage, executes a random script of edits and '
        'saves and is killed by SIGKILL: by itself directly after a save, or '
        '(npz, mat) by itself after further unsaved edits, or (npz, mat) by '
        'the parent at a random moment during these. Completed saves are '
        'journalled through a pipe. The parent then loads the file and '
        'compares it with the model at the last journalled save; the next '
        'session goes on from there. Distinct: (backend, schema, data at the '
        'kill, kind of kill).')
CASES = {'quick': 900, 'thorough': 16000}
MIN_EVENTS = tuple('%s_%s' % (k, b) for b in gen.FILE_BACKENDS
                   for k in ('killed', 'after_save', 'later_session',
                             'second_save')) + (
    'after_edits_npz', 'after_edits_mat', 'async_npz', 'async_mat',
    'after_reads_hdf5', 'validated_save')


def run_case(ctx):
    rng = ctx.rng
    backend = gen.FILE_BACKENDS[ctx.case % 3]
    o = stor.opts_for(backend, constraints=0.3)
    spec = gen.gen_spec(rng, o, rng.choice((0, 1, 1, 2, 3)))
    path = ctx.path(gen.EXT[backend])
    saved = None
    for session in range(rng.choice((1, 1, 2, 3))):
        saved = run_session(ctx, backend, spec, path, session, saved)
    ctx.sample = '%s %s: %s' % (backend, gen.describe(spec)[:150], '; '.join(
        ctx.log_lines[-3:]))[:400]


def make_script(ctx, spec, model, backend):
    """(steps, model states at the saves, kind of kill)."""
    rng = ctx.rng
    steps, states = [], []
    for _ in range(rng.choice((1, 1, 2, 3))):
        if rng.random() < 0.4:
            tree = gen.gen_tree(rng, spec, big=0.05)
            M.fill(model, tree)
            steps.append(('tree', model.tree()))
        for _ in range(rng.randint(0, 5)):
            op = ops.gen_op(rng, model)
            ops.apply_model(model, op)
            steps.append(('op', op))
        steps.append(('save', bool(oracle.invalid_nodes(model))
                      or rng.random() < 0.5))
        states.append(model.canon())
        last = model.tree()
    kind = 'after_save'
    if backend == 'hdf5':
        if rng.random() < 0.4:
            kind = 'after_reads'
            steps.append(('read', None))
    elif rng.random() < 0.7:
        kind = rng.choice(('after_edits', 'async'))
        for _ in range(rng.randint(1, 5) if kind == 'after_edits' else 30):
            op = ops.gen_op(rng, model)
            ops.apply_model(model, op)
            steps.append(('op', op))
    return steps, states, kind, last


def run_session(ctx, backend, spec, path, session, saved):
    rng = ctx.rng
    model = M.make(spec) if not session else M.from_tree(spec, saved)
    steps, states, kind, last = make_script(ctx, spec, model, backend)
    ctx.log('session %d: %s, %s' % (session, kind, '; '.join(
        show(s) for s in steps)[:600]))
    gc.collect()
    read_end, write_end = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(read_end)
        child(write_end, backend, spec, path, session > 0, steps, kind)
    os.close(write_end)
    done, died, error = watch(ctx, pid, read_end, len(states), kind, rng)
    if error is not None:
        text, in_dsch = error
        if in_dsch:
            ctx.fail('session %d: %s' % (session, text))
        raise AssertionError(text)
    if died != -signal.SIGKILL or done != len(states):
        raise core.Inconclusive('child ended with %s after %d saves' % (died,
                                                                        done))
    what = '%s, session %d, killed %s (save %d)' % (backend, session, kind,
                                                    done)
    if not os.path.exists(path):
        ctx.fail('%s: no file' % what)
    copy = stor.snapshot(ctx, type('F', (), {'storage_path': path}), backend)
    try:
        storage = stor.load(copy, backend, force=True)
    except Exception as err:  # pylint: disable=broad-except
        ctx.fail('%s: cannot be loaded: %s: %s' % (what, type(err).__name__,
                                                   err))
    stor.expect_state(ctx, storage, spec, states[-1], what)
    if storage.schema_hash() != gen.spec_hash(spec):
        ctx.fail('%s: another schema' % what)
    storage = None
    gc.collect()
    ctx.event('killed_' + backend)
    ctx.event('%s_%s' % (kind, backend))
    if session:
        ctx.event('later_session_' + backend)
    if done > 1:
        ctx.event('second_save_' + backend)
    if any(s == ('save', False) for s in steps):
        ctx.event('validated_save')
    ctx.state((backend, gen.canonical_json(spec), M.freeze(states[-1]), kind))
    return last


def show(step):
    return ops.show_op(step[1])[:120] if step[0] == 'op' else step[0]


def send(fd, obj):
    data = pickle.dumps(obj)
    os.write(fd, struct.pack('<I', len(data)) + data)


def child(fd, backend, spec, path, load, steps, kind):
    """Body of the process that gets killed; never returns."""
    try:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(60)
        from dsch import frontend
        if load:
            storage = frontend.load(path, backend, force=True)
        else:
            storage = frontend.create(path, gen.build(spec), backend)
        source = ops.inmem_source(spec)
        saves = sum(s[0] == 'save' for s in steps)
        done = 0
        for step, arg in steps:
            if step == 'save':
                storage.save(force=arg)
                done += 1
                if done == saves and kind == 'after_save':
                    # Directly: not even the journal gets in between.
                    os.write(fd, struct.pack('<I', len(FINAL)) + FINAL)
                    os.kill(os.getpid(), signal.SIGKILL)
                send(fd, ('saved', done))
            elif step == 'tree':
                M.set_tree(storage.data, spec, arg)
            elif step == 'read':
                repr(storage.data)
                storage.data.data_tree()
            else:
                ops.apply_real(storage.data, arg, source)
                if kind == 'async' and done == saves:
                    time.sleep(0.0005)
        if kind == 'async':
            time.sleep(30)
        os.kill(os.getpid(), signal.SIGKILL)
    except BaseException as err:  # pylint: disable=broad-except
        send(fd, ('error', traceback.format_exc(),
                  core.in_dsch(err.__traceback__)))
    os._exit(3)


FINAL = pickle.dumps(('final',))


def watch(ctx, pid, fd, saves, kind, rng):
    """(completed saves, exit status, error) of the child."""
    done, error = 0, None
    with os.fdopen(fd, 'rb') as pipe:
        while True:
            head = pipe.read(4)
            if len(head) < 4:
                break
            message = pickle.loads(pipe.read(struct.unpack('<I', head)[0]))
            if message[0] == 'saved':
                done = message[1]
                if done == saves and kind == 'async':
                    time.sleep(rng.random() * 0.012)
                    os.kill(pid, signal.SIGKILL)
            elif message[0] == 'final':
                done = saves
            else:
                error = message[1:]
    _, status = os.waitpid(pid, 0)
    return done, -os.WTERMSIG(status) if os.WIFSIGNALED(status) else status, \
        error
