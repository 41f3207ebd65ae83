"""Random operation sequences, applied to the reference model and real nodes."""
import numpy as np

from lib import gen, model as M


def gen_key(rng, shape):
    """An index that numpy and h5py understand in the same way."""
    if not shape:
        return rng.choice(((), Ellipsis))
    r = rng.random()
    if r < 0.1:
        return Ellipsis
    n = rng.randint(1, len(shape))
    key = []
    for size in shape[:n]:
        if size and rng.random() < 0.55:
            i = rng.randrange(size)
            key.append(i - size if rng.random() < 0.25 else i)
        else:
            a, b = sorted((rng.randint(0, size), rng.randint(0, size)))
            # Negative indices count from the end.
            if a < size and rng.random() < 0.3:
                a -= size
            if b < size and rng.random() < 0.3:
                b -= size
            key.append(slice(rng.choice((a, None)), rng.choice((b, None)),
                             rng.choice((None, None, 1, 2, 3))))
    if len(key) == 1 and rng.random() < 0.6:
        return key[0]
    return tuple(key)


def gen_op(rng, root, weights=None):
    """One random operation with valid arguments for the current model state.

    Returns a dict with ``op``, ``path`` and arguments.
    """
    nodes = list(M.walk(root))
    # Prefer deep nodes a little less often than there are of them.
    path, node = rng.choice(nodes)
    if rng.random() < 0.15:
        path, node = nodes[0]
    spec = node.spec
    if isinstance(node, M.Comp):
        r = rng.random()
        if r < 0.15:
            return {'op': 'clear', 'path': path}
        if r < 0.3:
            return {'op': 'load_from', 'path': path,
                    'tree': gen.gen_tree(rng, spec)}
        tree = gen.gen_tree(rng, spec)
        names = [n for n in tree if rng.random() < 0.6]
        return {'op': 'replace', 'path': path,
                'value': M.prune({n: tree[n] for n in names})}
    if isinstance(node, M.List):
        r = rng.random()
        if r < 0.12:
            return {'op': 'clear', 'path': path}
        if r < 0.22:
            return {'op': 'load_from', 'path': path,
                    'tree': gen.gen_tree(rng, spec)}
        if r < 0.45:
            return {'op': 'replace', 'path': path,
                    'value': M.prune(gen.gen_tree(rng, spec))}
        if r < 0.65:
            return {'op': 'append', 'path': path, 'value': None}
        return {'op': 'append', 'path': path,
                'value': M.prune(gen.gen_tree(rng, spec['sub']))}
    # items
    r = rng.random()
    if r < 0.15:
        return {'op': 'clear', 'path': path}
    if r < 0.22:
        return {'op': 'load_from', 'path': path,
                'tree': gen.gen_tree(rng, spec)}
    if spec['t'] == 'Array' and node.value is not None and r < 0.6:
        if r < 0.4 or not node.value.ndim:
            key = gen_key(rng, node.value.shape)
            return {'op': 'assign', 'path': path, 'key': key,
                    'value': gen_part(rng, spec, node.value[key])}
        if r < 0.45:
            return {'op': 'read', 'path': path,
                    'key': gen_key(rng, node.value.shape)}
        size = gen_size(rng, spec, node.value.shape)
        if size is not None:
            return {'op': 'resize', 'path': path, 'size': size}
    return {'op': rng.choice(('set', 'replace')), 'path': path,
            'value': gen.gen_leaf(rng, spec)}


def gen_part(rng, spec, target):
    dt = np.dtype(spec['dtype'])
    plain = {k: spec[k] for k in ('min_value', 'max_value')}
    if np.ndim(target) == 0 or rng.random() < 0.3:
        return dt.type(gen.gen_number(rng, dt, plain))
    sub = dict(spec, ndim=np.ndim(target), max_shape=None, min_shape=None)
    return gen.gen_array_value(rng, sub, np.shape(target))


def gen_size(rng, spec, shape):
    lo, hi = spec['min_shape'], spec['max_shape']
    if hi is not None and hi == lo:
        return None
    if len(shape) != spec['ndim']:
        # An invalid array; the bounds apply to other dimensions.
        hi = None
    size = []
    for i, old in enumerate(shape):
        limit = hi[i] if hi and hi[i] is not None else old + 5
        if len(shape) == 1 and rng.random() < 0.02:
            # Much larger than before.
            limit = min(limit if hi and hi[i] is not None else 1 << 20,
                        old + rng.choice((100, 1000, 5000, 70000)))
        else:
            limit = min(limit, old + 5)
        size.append(rng.choice((old, rng.randint(0, limit), limit)))
    return tuple(size)


def apply_model(root, op):
    """Apply to the model; returns the expected result of a read."""
    node = M.mfind(root, op['path'])
    kind = op['op']
    if kind in ('set', 'replace'):
        node.replace(op['value'])
    elif kind == 'clear':
        node.clear()
    elif kind == 'append':
        node.append(op['value'])
    elif kind == 'load_from':
        M.fill(node, op['tree'])
    elif kind == 'assign':
        node.assign(op['key'], op['value'])
    elif kind == 'resize':
        node.resize(op['size'])
    elif kind == 'read':
        return M.canon(np.asarray(node.value[op['key']]))
    else:
        raise AssertionError(kind)
    return None


def copy_arg(value):
    if isinstance(value, dict):
        return {k: copy_arg(v) for k, v in value.items()}
    if isinstance(value, list):
        return [copy_arg(v) for v in value]
    if isinstance(value, np.ndarray):
        return M.copy_value(value)
    return M.disguise(value)


def containers(value, top=True):
    """The same value with some lists given as tuples or iterators."""
    if isinstance(value, dict):
        return {k: containers(v, False) for k, v in value.items()}
    if isinstance(value, list):
        items = [containers(v, False) for v in value]
        form = M.next_form() % 7
        if form == 2:
            return tuple(items)
        if form == 5:
            return iter(items)
        return items
    return value


def apply_real(root, op, source=None, changed=None):
    """Apply to a real data node tree.

    Args:
        source: Function creating a data node from (spec-path, tree) for
            ``load_from``.
        changed: Function to call with a description if the operation
            modifies a value that has been handed over.
    """
    node = M.find(root, op['path'])
    kind = op['op']
    if kind in ('set', 'replace', 'assign') or (
            kind == 'append' and op['value'] is not None):
        arg = copy_arg(op['value'])
        before = M.canon_tree(arg)
        original = arg
        if kind in ('replace', 'append') and M.next_form() % 3 == 0:
            # Otherwise the argument itself must not be changed.
            arg = containers(arg)
        if kind == 'set':
            node.value = arg
        elif kind == 'replace':
            node.replace(arg)
        elif kind == 'append':
            node.append(arg)
        else:
            node[op['key']] = arg
        if changed and M.diff(before, M.canon_tree(original)):
            changed('%s changed its argument' % show_op(op))
    elif kind == 'clear':
        node.clear()
    elif kind == 'append':
        node.append()
    elif kind == 'load_from':
        node.load_from(source(op))
    elif kind == 'resize':
        node.resize(op['size'])
    elif kind == 'read':
        return M.canon(np.asarray(node[op['key']]))
    else:
        raise AssertionError(kind)
    return None


def spec_at(spec, path):
    for p in path:
        spec = spec['sub'] if isinstance(p, int) else spec['fields'][p]
    return spec


def inmem_source(spec):
    """A ``source`` function which uses in-memory storages."""
    def source(op):
        from dsch import frontend
        sub = spec_at(spec, op['path'])
        storage = frontend.create('::inmem::', gen.build(sub))
        M.apply_tree(None, storage.data, sub, op['tree'])
        return storage.data
    return source


def show_op(op):
    extra = {k: v for k, v in op.items() if k not in ('op', 'path')}
    text = ', '.join('%s=%s' % (k, short(v)) for k, v in extra.items())
    return '%s %s %s' % (op['op'], M.path_str(op['path']), text)


def short(value, limit=200):
    text = repr(value)
    return text if len(text) <= limit else text[:limit] + '...'
