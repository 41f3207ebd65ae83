"""Independent validity oracle: which constraints does a value violate?"""
import datetime

import numpy as np

from lib import gen

PYTYPE = {'Bool': bool, 'Bytes': bytes, 'String': str, 'Date': datetime.date,
          'DateTime': datetime.datetime, 'Time': datetime.time}


def exact(v):
    """Python number with exactly the value of a NumPy element."""
    if v.dtype.kind in 'iu':
        return int(v)
    if v.dtype.kind == 'b':
        return bool(v)
    if v.dtype.kind == 'f':
        return float(v)
    return complex(v)


def item_violations(spec, value):
    """Set of violated constraints of a single item (without dependencies).

    Possible entries: type, dtype, ndim, max_shape, min_shape, max_value,
    min_value, max, min.
    """
    t = spec['t']
    out = set()
    if t == 'Bool':
        return set() if type(value) is bool else {'type'}
    if t in PYTYPE:
        if not isinstance(value, PYTYPE[t]):
            return {'type'}
        if t in ('String', 'Bytes'):
            out |= length_violations(spec, len(value))
        return out
    if t == 'Scalar':
        if not isinstance(value, np.number):
            return {'type'}
        elements = [value]
    else:
        if not isinstance(value, np.ndarray):
            return {'type'}
        elements = list(value.reshape(-1)[:400]) if value.dtype.kind in \
            'biufc' else []
        if value.size > 400 and value.dtype.kind in 'biuf':
            elements += [np.fmax.reduce(value, axis=None),
                         np.fmin.reduce(value, axis=None)]
        if value.ndim != spec['ndim']:
            out.add('ndim')
        else:
            for lo, hi, n in zip(spec['min_shape'] or (None,) * value.ndim,
                                 spec['max_shape'] or (None,) * value.ndim,
                                 value.shape):
                if hi is not None and n > hi:
                    out.add('max_shape')
                if lo is not None and n < lo:
                    out.add('min_shape')
    if value.dtype != np.dtype(spec['dtype']):
        out.add('dtype')
    for e in elements:
        if e.dtype.kind not in 'biuf':
            continue
        e = exact(e)
        if spec['max_value'] is not None and e > spec['max_value']:
            out.add('max_value')
        if spec['min_value'] is not None and e < spec['min_value']:
            out.add('min_value')
    return out


def length_violations(spec, n):
    out = set()
    if spec['max'] is not None and n > spec['max']:
        out.add('max')
    if spec['min'] is not None and n < spec['min']:
        out.add('min')
    return out


def error_matches(err, spec, value, violated, length=None):
    """Whether a ValidationError reports one of the violated constraints.

    Returns None or a text describing what is wrong with the report.
    """
    text = str(err)
    if not isinstance(err.message, str) or err.message not in text:
        return 'str() of the error does not contain its message: %r' % text
    lower = err.message.lower()
    n = length
    if n is None and isinstance(value, (str, bytes)):
        n = len(value)
    for kind in violated:
        if kind == 'type':
            if err.got is type(value):
                return None
        elif kind == 'dtype':
            if (isinstance(err.got, np.dtype) and err.got == value.dtype
                    and np.dtype(err.expected) == np.dtype(spec['dtype'])):
                return None
        elif kind == 'ndim':
            if err.expected == spec['ndim'] and err.got == value.ndim:
                return None
        elif kind in ('max_shape', 'min_shape'):
            if (kind[:3] in lower and is_shape(err.got, value.shape)
                    and is_shape(err.expected, spec[kind])):
                return None
        elif kind in ('max_value', 'min_value'):
            if kind[:3] in lower and same_number(err.expected, spec[kind]) \
                    and offending(err.got, kind, spec):
                return None
        elif kind in ('max', 'min'):
            if kind in lower and err.expected == spec[kind] and err.got == n:
                return None
    return 'error "%s" reports none of the violated constraints %s' % (
        text[:200], sorted(violated))


def is_shape(a, b):
    return isinstance(a, (tuple, list)) and tuple(a) == tuple(b)


def same_number(a, b):
    return a is not None and not isinstance(a, str) and bool(a == b)


def same_size(a, b):
    return isinstance(a, (int, np.integer)) and int(a) == int(b)


def offending(got, kind, spec):
    values = np.asarray(got).reshape(-1)
    if not values.size:
        return False
    if kind == 'max_value':
        return bool(np.all(values > spec['max_value']))
    return bool(np.all(values < spec['min_value']))


# ---------------------------------------------------------- whole trees

def depends_violations(spec, value, siblings):
    """Mismatched (independent size, own size) pairs of a dependent array."""
    out = []
    if spec['t'] != 'Array' or not gen.deps(spec) \
            or not isinstance(value, np.ndarray):
        return out
    for name, n in zip(gen.deps(spec), value.shape):
        if name is None:
            continue
        other = siblings[name].value
        if other is None:
            continue
        if other.size != n:
            out.append((other.size, n))
    return out


class Bad:
    """An invalid node."""

    def __init__(self, path, spec, value, violated, pairs=(), length=None):
        self.path = path
        self.spec = spec
        self.value = value
        self.violated = violated
        self.pairs = list(pairs)
        self.length = length

    def kinds(self):
        return sorted(self.violated) + (['depends'] if self.pairs else [])

    def matches(self, err):
        """None if the ValidationError reports what is wrong here."""
        for size, n in self.pairs:
            if same_size(err.expected, size) and same_size(err.got, n):
                return None
        return error_matches(err, self.spec, self.value, self.violated,
                             self.length) if self.violated else (
            'error "%s" does not report the size mismatch %s' % (
                err, self.pairs))


def invalid_nodes(model, path=(), siblings=None):
    """All invalid nodes at or below a model node: {path: Bad}."""
    from lib import model as M
    out = {}
    if isinstance(model, M.Comp):
        for n, f in model.fields.items():
            out.update(invalid_nodes(f, path + (n,), model.fields))
    elif isinstance(model, M.List):
        violated = length_violations(model.spec, len(model.items))
        if violated:
            out[path] = Bad(path, model.spec, None, violated,
                            length=len(model.items))
        for i, item in enumerate(model.items):
            out.update(invalid_nodes(item, path + (i,)))
    elif model.value is not None:
        violated = item_violations(model.spec, model.value)
        pairs = depends_violations(model.spec, model.value, siblings)
        if violated or pairs:
            out[path] = Bad(path, model.spec, model.value, violated, pairs)
    return out


def judge_validation(ctx, what, fn, bad, base=()):
    """validate() succeeds iff there are no invalid nodes, and names one.

    Args:
        bad: {path: Bad} of invalid nodes (absolute paths).
        base: path of the node that validate() is called on.
    """
    from dsch import exceptions
    from lib import model as M
    try:
        result = fn()
    except exceptions.SubnodeValidationError as err:
        name = err.node_path()
        by_name = {M.path_str(p[len(base):]): b for p, b in bad.items()
                   if p != base}
        if name not in by_name:
            ctx.fail('%s: %s is reported, but the invalid nodes are %s' % (
                what, name, describe(bad)))
        cause = err.original_cause()
        if not isinstance(cause, exceptions.ValidationError):
            ctx.fail('%s: original_cause() is %r' % (what, cause))
        problem = by_name[name].matches(cause)
        if problem:
            ctx.fail('%s: %s: %s' % (what, name, problem))
        if name not in str(err) or str(cause) not in str(err):
            ctx.fail('%s: message %r lacks path or cause' % (what, str(err)))
        rest = str(err).replace(str(cause), '', 1)
        if rest.count('"') != 2 or '"%s"' % name not in rest:
            ctx.fail('%s: message %r names other nodes than %s' % (
                what, str(err), name))
        ctx.event('reported_below')
        return err
    except exceptions.ValidationError as err:
        if base not in bad:
            ctx.fail('%s: reports the node itself (%s), but the invalid nodes '
                     'are %s' % (what, err, describe(bad)))
        problem = bad[base].matches(err)
        if problem:
            ctx.fail('%s: %s' % (what, problem))
        ctx.event('reported_self')
        return err
    if bad:
        ctx.fail('%s: succeeded although these are invalid: %s' % (
            what, describe(bad)))
    if result is not None:
        ctx.fail('%s: returned %r' % (what, result))
    ctx.event('valid')
    return None


def describe(bad):
    from lib import model as M
    return ', '.join('%s (%s)' % (M.path_str(p), '/'.join(b.kinds()))
                     for p, b in list(bad.items())[:8]) or 'none'


# ---------------------------------------------------------- corruption

def corrupt_value(rng, spec, backend):
    """An invalid value which the backend stores as it is, or None."""
    t = spec['t']
    options = []
    if t in ('String', 'Bytes'):
        unit = 'ü' if t == 'String' else b'\xfe'
        if spec['max'] is not None:
            options.append(unit * (spec['max'] + rng.choice((1, 1, 7))))
        if spec['min']:
            options.append(unit * rng.choice((0, spec['min'] - 1)))
    if t in ('Array', 'Scalar'):
        dt = np.dtype(spec['dtype'])
        outside = []
        if dt.kind in 'iuf':
            lo_, hi_ = ((np.iinfo(dt).min, np.iinfo(dt).max)
                        if dt.kind in 'iu' else (-np.inf, np.inf))
            if spec['max_value'] is not None and spec['max_value'] < hi_:
                outside += [hi_, dt.type(spec['max_value']) + dt.type(1)
                            if dt.kind in 'iu' else
                            np.nextafter(dt.type(spec['max_value']),
                                         dt.type(np.inf))]
            if spec['min_value'] is not None and spec['min_value'] > lo_:
                outside += [lo_, dt.type(spec['min_value']) - dt.type(1)
                            if dt.kind in 'iu' else
                            np.nextafter(dt.type(spec['min_value']),
                                         dt.type(-np.inf))]
        if t == 'Scalar':
            options += [dt.type(v) for v in outside]
        else:
            arr = gen.gen_array_value(rng, spec)
            if arr.size:
                for v in outside:
                    bad = arr.copy()
                    bad[tuple(rng.randrange(n) for n in arr.shape)] = v
                    options.append(bad)
            lo, hi = spec['min_shape'], spec['max_shape']
            for i in range(spec['ndim']):
                shape = list(arr.shape)
                if lo and lo[i]:
                    shape[i] = lo[i] - 1
                    options.append(gen.gen_array_value(rng, spec, shape))
                if hi and hi[i] is not None and (backend != 'hdf5'
                                                 or hi == lo):
                    shape[i] = hi[i] + 1
                    options.append(gen.gen_array_value(rng, spec, shape))
            if backend in ('inmem', 'npz'):
                other = 'float64' if dt != np.dtype('float64') else 'int32'
                options.append(np.ones(arr.shape, other))
                if not spec.get('indep'):
                    options.append(np.ones((2,) * (spec['ndim'] + 1), dt))
    if backend == 'inmem' and t not in ('Array', 'Scalar'):
        wrong = [v for v in (3, 'text', b'bytes', 2.5, True, [1])
                 if type(v) is not PYTYPE[t]]
        options.append(rng.choice(wrong))
    return rng.choice(options) if options else None


def corrupt(rng, model, backend, n=1):
    """Make up to n nodes of a model invalid; returns their paths."""
    from lib import model as M
    nodes = list(M.walk(model))
    rng.shuffle(nodes)
    done = []
    for path, node in nodes:
        if len(done) >= n:
            break
        if isinstance(node, M.List):
            spec = node.spec
            if spec['max'] is not None and rng.random() < 0.6:
                while len(node.items) <= spec['max']:
                    node.append()
                done.append(path)
            elif spec['min']:
                node.items = node.items[:spec['min'] - 1]
                done.append(path)
        elif isinstance(node, M.Item):
            value = corrupt_value(rng, node.spec, backend)
            if value is not None:
                node.value = value
                done.append(path)
    return done


def bend(rng, model, data, backend):
    """One edit in place, which may break or repair a node.

    Applied to the model and to the data nodes; returns a description, or
    None if nothing has been changed.
    """
    from lib import model as M, ops
    nodes = [(p, n) for p, n in M.walk(model) if isinstance(n, M.List) or (
        isinstance(n, M.Item) and n.spec['t'] == 'Array'
        and isinstance(n.value, np.ndarray) and n.value.dtype ==
        np.dtype(n.spec['dtype']))]
    if not nodes:
        return None
    path, node = rng.choice(nodes)
    bad = invalid_nodes(model)
    wrong = [(p, n) for p, n in nodes if p in bad]
    if wrong and rng.random() < 0.4:
        path, node = rng.choice(wrong)
    real = M.find(data, path)
    if isinstance(node, M.List):
        if rng.random() < 0.2:
            node.clear()
            real.clear()
            return 'clear %s' % M.path_str(path)
        tree = gen.gen_tree(rng, node.spec['sub'], big=0.0)
        value = M.prune(tree) if rng.random() < 0.5 else None
        node.append(value)
        if value is None:
            real.append()
        else:
            real.append(ops.copy_arg(value))
        return 'append to %s' % M.path_str(path)
    shape = node.value.shape
    if shape and rng.random() < 0.35:
        if backend == 'hdf5' and node.spec['max_shape'] is not None:
            if node.spec['max_shape'] == node.spec['min_shape'] \
                    or any(m is not None and n > m for n, m in
                           zip(shape, node.spec['max_shape'])):
                return None
            limit = [n + 2 if m is None else min(m, n + 2) for n, m in
                     zip(shape, node.spec['max_shape'])]
        else:
            limit = [n + 2 for n in shape]
        size = tuple(rng.choice((n, min(n, m), m, rng.randint(0, m)))
                     for n, m in zip(shape, limit))
        node.resize(size)
        real.resize(size)
        return 'resize %s to %r' % (M.path_str(path), size)
    if not node.value.size:
        return None
    dt = np.dtype(node.spec['dtype'])
    key = tuple(rng.randrange(n) for n in shape)
    if item_violations(node.spec, node.value) and rng.random() < 0.7:
        at = [k for k in np.ndindex(*shape) if item_violations(
            dict(node.spec, max_shape=None, min_shape=None, ndim=0),
            np.asarray(node.value[k]))]
        if at:
            key = rng.choice(at)
    value = None
    if rng.random() < 0.6:
        value = corrupt_value(
            rng, {'t': 'Scalar', 'dtype': node.spec['dtype'],
                  'max_value': node.spec['max_value'],
                  'min_value': node.spec['min_value']}, backend)
    if value is None:
        value = dt.type(gen.gen_number(rng, dt, node.spec)) \
            if dt.kind in 'iufc' else node.value[key]
    node.assign(key, value)
    real[key if rng.random() < 0.8 or len(key) != 1 else key[0]] = value
    return '%s%r = %r' % (M.path_str(path), key, value)
