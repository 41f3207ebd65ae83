"""C21: files hold the full data and schema in their native format."""
import json
import re

import h5py
import numpy as np
import scipy.io

from lib import gen, model as M, ops, stor

PROP = 'C21'
RULE = ('A case fills a storage, edits it by random operations, saves it '
        '(several times) and after each save reads a copy of the file with '
        'h5py, numpy.load or scipy.io.loadmat only. An independent decoder '
        'follows the documented layout along the schema and compares names '
        'and native values with the model: every filled item has to be '
        'there, no empty item may be. Distinct: (backend, schema, data).')
CASES = {'quick': 9000, 'thorough': 200000}
MIN_EVENTS = tuple('%s_%s' % (t, b) for t in gen.ITEM_TYPES
                   for b in gen.FILE_BACKENDS) + tuple(
    '%s_%s' % (k, b) for b in gen.FILE_BACKENDS
    for k in ('empty_items', 'lists', 'compilations', 'top_other',
              'empty_list_items', 'second_save', 'reloaded'))


def run_case(ctx):
    rng = ctx.rng
    backend = gen.FILE_BACKENDS[ctx.case % 3]
    o = stor.opts_for(backend, constraints=0.2)
    spec = gen.gen_spec(rng, o)
    model = M.from_tree(spec, gen.gen_tree(rng, spec))
    storage = stor.new(ctx, backend, spec)
    M.apply_tree(rng, storage.data, spec, model.tree())
    if spec['t'] != 'Compilation':
        ctx.event('top_other_' + backend)
    source = ops.inmem_source(spec)
    for save in range(rng.choice((1, 1, 2, 3))):
        if save:
            for _ in range(rng.randint(1, 5)):
                op = ops.gen_op(rng, model)
                ctx.log(ops.show_op(op))
                ops.apply_model(model, op)
                ops.apply_real(storage.data, op, source)
            ctx.event('second_save_' + backend)
        storage.save(force=True)
        inspect(ctx, backend, spec, model, storage)
        if rng.random() < 0.2:
            path = storage.storage_path
            storage = None
            stor.drop()
            storage = stor.load(path, force=True)
            ctx.event('reloaded_' + backend)
    ctx.sample = '%s: %s' % (backend, gen.describe(spec)[:300])


def _long(backend):
    """Lists of many items, some of them empty."""
    def run(ctx):
        import numpy as np
        item = gen.plain('Scalar', dtype='int32')
        for n, sub, make in (
                (1003, item, np.int32),
                (130, gen.listof(item), lambda i: [np.int32(i)] * (i % 12)),
                (270, {'t': 'Compilation', 'optionals': [],
                       'fields': {'a': item, 'b': item}},
                 lambda i: {'a': np.int32(i), 'b': None})):
            for field in (False, True):
                tree = [None if i % 97 == 5 and sub is item else make(i)
                        for i in range(n)]
                spec = gen.listof(sub)
                if field:
                    spec = {'t': 'Compilation', 'optionals': [],
                            'fields': {'l': spec}}
                    tree = {'l': tree}
                storage = stor.filled(ctx, backend, spec, tree)
                storage.save()
                inspect(ctx, backend, spec, M.from_tree(spec, tree), storage)
    return run


def directed():
    return [_long(b) for b in gen.FILE_BACKENDS]


def inspect(ctx, backend, spec, model, storage):
    path = stor.snapshot(ctx, storage, backend)
    ctx.log('inspect ' + gen.describe(spec))
    {'hdf5': hdf5, 'npz': npz, 'mat': mat}[backend](ctx, path, spec, model)
    ctx.event('files')
    ctx.state((backend, gen.canonical_json(spec), M.freeze(model.canon())))


def check_schema(ctx, backend, text, spec):
    if not isinstance(text, str):
        ctx.fail('%s: schema is %r' % (backend, text))
    if json.loads(text) != json.loads(gen.canonical_json(spec)):
        ctx.fail('%s: schema is %s instead of %s' % (
            backend, text, gen.canonical_json(spec)))


def count(ctx, backend, spec, model):
    ctx.event('%s_%s' % (spec['t'] if gen.is_item(spec) else
                         spec['t'].lower() + 's', backend))


def check_members(ctx, what, present, model):
    """Whether names of a container fit what is filled.

    Args:
        present: Names of everything found.
        model: Mapping of names to model nodes.
    """
    for name, node in model.items():
        if isinstance(node, M.Item):
            if node.empty and name in present:
                ctx.fail('%s: empty item %r is in the file' % (what, name))
            if not node.empty and name not in present:
                ctx.fail('%s: item %r is not in the file (only %s)' % (
                    what, name, sorted(present)[:20]))
        elif not node.empty and name not in present:
            ctx.fail('%s: %r is not in the file (only %s)' % (
                what, name, sorted(present)[:20]))


def children(ctx, backend, what, model, present):
    """{name: model node} of a container, after checking the names."""
    if isinstance(model, M.Comp):
        nodes = model.fields
    else:
        nodes = {'item_%d' % i: n for i, n in enumerate(model.items)}
        for name in present:
            if re.fullmatch(r'item_\d+', name) and name not in nodes:
                ctx.fail('%s: has %r, but %d items' % (what, name,
                                                       len(nodes)))
        if any(n.empty for n in model.items):
            ctx.event('empty_list_items_' + backend)
    if any(n.empty and isinstance(n, M.Item) for n in nodes.values()):
        ctx.event('empty_items_' + backend)
    check_members(ctx, what, present, nodes)
    count(ctx, backend, model.spec, model)
    return {k: v for k, v in nodes.items() if k in present}


def numbers(value):
    """Components of a date or time."""
    out = []
    for name in ('year', 'month', 'day', 'hour', 'minute', 'second',
                 'microsecond'):
        if hasattr(value, name):
            out.append(getattr(value, name))
    return out


def bits(arr):
    return M.canon(np.asarray(arr))


# ------------------------------------------------------------------- hdf5

def hdf5(ctx, path, spec, model):
    with h5py.File(path, 'r') as f:
        text = f.attrs.get('dsch_schema')
        if isinstance(text, bytes):
            text = text.decode('utf8')
        check_schema(ctx, 'hdf5', text, spec)
        if spec['t'] == 'Compilation':
            hdf5_node(ctx, '<top>', f, model)
        elif 'dsch_data' in f:
            hdf5_node(ctx, 'dsch_data', f['dsch_data'], model)
            if isinstance(model, M.Item) and model.empty:
                ctx.fail('hdf5: empty dsch_data is in the file')
        elif not model.empty:
            ctx.fail('hdf5: no dsch_data, only %s' % list(f))


def hdf5_node(ctx, what, obj, model):
    if not isinstance(model, M.Item):
        if not isinstance(obj, h5py.Group):
            ctx.fail('hdf5: %s is %r' % (what, obj))
        for name, node in children(ctx, 'hdf5', 'hdf5: ' + what, model,
                                   set(obj.keys())).items():
            hdf5_node(ctx, what + '/' + name, obj[name], node)
        return
    if model.empty:
        return
    spec, value = model.spec, model.value
    t = spec['t']
    if not isinstance(obj, h5py.Dataset):
        ctx.fail('hdf5: %s is %r' % (what, obj))
    got = obj[()]
    if t in ('Array', 'Scalar'):
        ok = (obj.dtype == value.dtype and obj.shape == value.shape
              and bits(got) == bits(value))
    elif t == 'String':
        ok = (h5py.check_string_dtype(obj.dtype) is not None
              and obj.asstr()[()] == value)
    elif t == 'Bytes':
        # Opaque data, not text.
        ok = (obj.dtype.kind == 'V' and h5py.check_string_dtype(obj.dtype)
              is None and np.asarray(got).tobytes() == value)
    elif t == 'Bool':
        ok = obj.dtype == bool and obj.shape == () and bool(got) == value
    else:
        ok = obj.dtype.kind in 'iu' and got.tolist() == numbers(value)
    if not ok:
        ctx.fail('hdf5: %s %s is %r %r instead of %s' % (
            t, what, obj, ops.short(got), ops.short(value)))
    count(ctx, 'hdf5', spec, model)


# -------------------------------------------------------------------- npz

def npz(ctx, path, spec, model):
    with np.load(path, allow_pickle=False) as f:
        content = {name: f[name] for name in f.files}
    text = content.get('_schema')
    check_schema(ctx, 'npz', text if text is None else text.item(), spec)
    # npz files are flat, so look for all names with the same start.
    if spec['t'] == 'Compilation':
        npz_node(ctx, '', content, model)
    else:
        npz_node(ctx, 'data', content, model)


def npz_node(ctx, key, content, model):
    if isinstance(model, M.Item):
        if model.empty:
            if key in content:
                ctx.fail('npz: empty item %r is in the file' % key)
            return
        if key not in content:
            ctx.fail('npz: no %r, only %s' % (key, sorted(content)[:20]))
        npz_item(ctx, key, content[key], model)
        return
    prefix = key + '.' if key else ''
    present = {k[len(prefix):].split('.')[0] for k in content
               if k.startswith(prefix)}
    for name, node in children(ctx, 'npz', 'npz: %r' % key, model,
                               present).items():
        npz_node(ctx, prefix + name, content, node)


def npz_item(ctx, key, got, model):
    spec, value = model.spec, model.value
    t = spec['t']
    if t in ('Array', 'Scalar'):
        ok = (got.dtype == value.dtype and got.shape == value.shape
              and bits(got) == bits(value))
    elif t == 'String':
        ok = got.dtype.kind == 'U' and got.size == 1 and got.item() == value
    elif t == 'Bytes':
        ok = got.dtype.kind in 'SV' and got.tobytes() == value
    elif t == 'Bool':
        ok = got.dtype == bool and got.size == 1 and bool(
            got.item()) == value
    else:
        ok = got.dtype.kind in 'iu' and got.tolist() == numbers(value)
    if not ok:
        ctx.fail('npz: %s %r is %s %s %s instead of %s' % (
            t, key, got.dtype, got.shape, ops.short(got), ops.short(value)))
    count(ctx, 'npz', spec, model)


# -------------------------------------------------------------------- mat

def mat(ctx, path, spec, model):
    f = scipy.io.loadmat(path)
    text = f.get('schema')
    check_schema(ctx, 'mat', text if text is None else text.item(), spec)
    if 'data' in f:
        if isinstance(model, M.Item) and model.empty:
            ctx.fail('mat: empty data is in the file')
        mat_node(ctx, 'data', f['data'], model)
    elif not model.empty:
        ctx.fail('mat: no data, only %s' % list(f))


def mat_node(ctx, what, obj, model):
    if isinstance(model, M.Comp):
        names = obj.dtype.names
        if names is None and model.empty:
            return
        if names is None or obj.size != 1:
            ctx.fail('mat: %s is no struct, but %s %s' % (what, obj.dtype,
                                                          obj.shape))
        for name, node in children(ctx, 'mat', 'mat: ' + what, model,
                                   set(names)).items():
            mat_node(ctx, what + '.' + name, obj[name].ravel()[0], node)
    elif isinstance(model, M.List):
        if obj.dtype != object:
            if model.empty and not obj.size:
                return
            ctx.fail('mat: %s is no cell array, but %s' % (what, obj.dtype))
        cells = obj.ravel()
        if cells.size != len(model.items):
            ctx.fail('mat: %s has %d cells instead of %d' % (
                what, cells.size, len(model.items)))
        present = {'item_%d' % i for i, c in enumerate(cells)
                   if not (c.dtype == object and c.size == 0)}
        for name, node in children(ctx, 'mat', 'mat: ' + what, model,
                                   present).items():
            mat_node(ctx, what + '/' + name, cells[int(name[5:])], node)
    elif not model.empty:
        mat_item(ctx, what, obj, model)


def mat_item(ctx, what, got, model):
    """Compare a MATLAB array; these have at least two dimensions."""
    spec, value = model.spec, model.value
    t = spec['t']
    if t in ('Array', 'Scalar'):
        want = np.asarray(value)
        shape = got.shape == want.shape or (
            want.ndim < 2 and got.size == want.size)
        if want.dtype == bool:
            want = want.astype(got.dtype if got.dtype.kind in 'bu' else bool)
        elif want.dtype == np.float16:
            want = want.astype(got.dtype)
        ok = (shape and got.dtype == want.dtype
              and bits(got.reshape(want.shape)) == bits(want))
    elif t == 'String':
        ok = got.dtype.kind == 'U' and (
            got.size == 1 and got.item() == value
            or got.size == 0 and value == '')
    elif t == 'Bytes':
        ok = got.dtype == np.uint8 and got.tobytes() == value
    elif t == 'Bool':
        ok = got.dtype.kind in 'bu' and got.size == 1 and bool(
            got.item()) == value
    else:
        ok = got.dtype.kind in 'iu' and got.ravel().tolist() == \
            numbers(value)
    if not ok:
        ctx.fail('mat: %s %s is %s %s %s instead of %s' % (
            t, what, got.dtype, got.shape, ops.short(got), ops.short(value)))
    count(ctx, 'mat', spec, model)
