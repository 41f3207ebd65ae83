"""C27: a cut-off or damaged file is never taken for complete data."""
import gc
import os
import signal
import struct

from lib import child, core, gen, model as M, oracle, stor

PROP = 'C27'
RULE = ('A case saves random data, then cuts the file off at random and at '
        'critical lengths, or (npz, whose format has checksums) changes '
        'single bits or bytes of the entries, or overwrites or removes longer '
        'parts of them, and loads the result with and without force and '
        'backend detection. Each load must raise an exception or show exactly '
        'the saved data and schema. (A mat file cut off between its two '
        'variables, within the padding of the first or the 8 bytes announcing '
        'the second, reads as the file of an empty storage.) Distinct: '
        '(backend, schema, damage).')
CASES = {'quick': 2400, 'thorough': 40000}
MIN_EVENTS = tuple('%s_%s' % (k, b) for b in gen.FILE_BACKENDS for k in (
    'cut', 'refused', 'forced')) + ('flipped_npz', 'intact_npz')
ASSUMPTIONS = ['changed bits are only judged in the entries of npz files, as '
               'the mat and HDF5 files and the directory at the end of npz '
               'files have no checksums; a crash of the engine counts as '
               'refusal']


def run_case(ctx):
    died = child.run(ctx, inside)
    if died == signal.SIGALRM:
        raise core.Inconclusive('process ended by signal %d' % died)
    if died:
        # SciPy and HDF5 do not survive all damaged files.
        ctx.event('engine_died')


def boundaries(raw):
    """Ends of the variables of a mat file."""
    out, pos = set(), 128
    while pos + 8 <= len(raw):
        kind, size = struct.unpack_from('<II', raw, pos)
        if kind >> 16:
            size = 0
        pos += 8 + size
        out.add(pos)
    return out


def inside(ctx):
    rng = ctx.rng
    backend = gen.FILE_BACKENDS[ctx.case % 3]
    o = stor.opts_for(backend, constraints=0.2, big=0.03)
    spec = gen.gen_spec(rng, o, rng.choice((0, 1, 1, 2, 3)))
    model = M.from_tree(spec, gen.gen_tree(rng, spec, big=0.1))
    storage = stor.filled(ctx, backend, spec, model.tree())
    storage.save(force=True)
    raw = stor.file_bytes(stor.snapshot(ctx, storage, backend))
    storage = None
    stor.drop()
    ctx.log('%s %s, %d bytes' % (backend, gen.describe(spec), len(raw)))
    n = len(raw)
    for _ in range(8):
        if backend == 'npz' and rng.random() < 0.5:
            data, text = flip(rng, raw)
            ctx.event('flipped_npz')
        else:
            at = cut_at(rng, raw, backend)
            data, text = raw[:at], 'cut at %d of %d' % (at, n)
            ctx.event('cut_' + backend)
        judge(ctx, backend, spec, model, raw, data, text)
    ctx.sample = '; '.join(ctx.log_lines[:5])[:400]


def cut_at(rng, raw, backend):
    n = len(raw)
    marks = [0, 1, n - 1, n - 2, n // 2]
    if backend == 'mat':
        for b in boundaries(raw):
            marks += [b - 1, b, b + 1, b + 8]
        marks += [127, 128, 136]
    elif backend == 'npz':
        at = raw.find(b'PK', 1)
        while at >= 0:
            marks += [at, at + 4, at + 30]
            at = raw.find(b'PK', at + 1)
    else:
        marks += [8, 96, 512, 2048]
    at = rng.choice(marks) if rng.random() < 0.4 else rng.randrange(n)
    return min(max(0, at), n - 1)


def flip(rng, raw):
    data = bytearray(raw)
    r = rng.random()
    # The directory at the end has no checksum of its own.
    limit = struct.unpack_from('<I', raw, raw.rfind(b'PK\5\6') + 16)[0]
    at = rng.randrange(limit)
    if r < 0.6:
        data[at] ^= 1 << rng.randrange(8)
        return bytes(data), 'bit of byte %d changed' % at
    if r < 0.8:
        data[at] = rng.choice((0, 255, (data[at] + 1) % 256))
        return bytes(data), 'byte %d changed' % at
    if r < 0.9:
        end = min(limit, at + rng.choice((1, 4, 16, 100)))
        data[at:end] = bytes(end - at)
        return bytes(data), 'bytes %d..%d zeroed' % (at, end)
    end = min(limit, at + rng.choice((1, 2, 16)))
    del data[at:end]
    return bytes(data), 'bytes %d..%d removed' % (at, end)


def judge(ctx, backend, spec, model, raw, data, text):
    from dsch import frontend
    rng = ctx.rng
    path = ctx.path(gen.EXT[backend])
    with open(path, 'wb') as f:
        f.write(data)
    force = rng.random() < 0.6
    what = '%s, %s, load(%s)' % (backend, text, 'force' if force else '')
    if force:
        ctx.event('forced_' + backend)
    try:
        storage = frontend.load(path, rng.choice((None, backend)),
                                force=force)
        got = M.observe(storage.data, spec)
        digest = storage.schema_hash()
    except Exception as err:  # pylint: disable=broad-except
        ctx.event('refused_' + backend)
        ctx.log('%s: %s' % (what, type(err).__name__))
        ctx.state((backend, gen.describe(spec), text, type(err).__name__))
        return
    finally:
        storage = None
        if backend == 'hdf5':
            gc.collect()
    expected = model.canon()
    ctx.state((backend, gen.describe(spec), text, 'intact'))
    if digest == gen.spec_hash(spec) and not M.diff(expected, got):
        ctx.event('intact_' + backend)
        ctx.log('%s: intact' % what)
        return
    if backend == 'mat' and text.startswith('cut') \
            and any(-8 < len(data) - b < 8 for b in boundaries(raw)) \
            and digest == gen.spec_hash(spec) \
            and not M.diff(M.make(spec).canon(), got):
        ctx.event('no_data_mat')
        return
    ctx.fail('%s: %s' % (what, M.diff(expected, got) or 'another schema'))


# ---------------------------------------------------------- directed

def _every_cut(backend, step):
    def small(ctx):
        spec = gen.comp({'s': gen.plain('String'), 'a': gen.plain('Array'),
                         'l': gen.listof(gen.comp({
                             'b': gen.plain('Bytes'),
                             'd': gen.plain('Date')}))})
        tree = gen.gen_tree(ctx.rng, spec, 1.0, big=0.0)
        model = M.from_tree(spec, tree)
        assert not oracle.invalid_nodes(model)
        storage = stor.filled(ctx, backend, spec, tree)
        storage.save()
        raw = stor.file_bytes(stor.snapshot(ctx, storage, backend))
        storage = None
        stor.drop()
        cuts = range(0, len(raw), max(1, len(raw) // step))
        for at in cuts:
            judge(ctx, backend, spec, model, raw, raw[:at],
                  'cut at %d of %d' % (at, len(raw)))
            ctx.event('cut_' + backend)
            os.remove(os.path.join(ctx.scratch, 'f%d.%s' % (
                ctx._files, gen.EXT[backend])))

    def run(ctx):
        died = child.run(ctx, small, 200)
        if died:
            ctx.event('engine_died')
    return run


def directed():
    return [_every_cut(b, 700) for b in gen.FILE_BACKENDS for _ in range(2)]
