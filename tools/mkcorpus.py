"""Make the corpus of C22 with the pinned release.

Usage: DSCH_REPO=<checkout of the pinned release> mkcorpus.py OUTPUT

Every file is written by the release and only kept if the release itself reads
back exactly what it was given.
"""
import os
import pickle
import random
import sys
import tarfile
import tempfile
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ['DSCH_REPO'])
warnings.simplefilter('ignore')

import numpy as np                                          # noqa: E402

from lib import gen, model as M, oracle, stor               # noqa: E402

# What the release relies on; newer versions of NumPy have removed it.
np.object = object

PER_BACKEND = 220


def attempt(rng, backend, path, want):
    from dsch import frontend
    o = stor.opts_for(backend, big=0.01, set_on_create=rng.random() < 0.3,
                      constraints=rng.choice((0.0, 0.4)))
    if want:
        o.item_types = (want,)
    spec = gen.gen_spec(rng, o, rng.choice((0, 1, 1, 2, 3)))
    model = M.from_tree(spec, gen.gen_tree(rng, spec, big=0.01))
    if oracle.invalid_nodes(model) and rng.random() < 0.8:
        return None
    try:
        storage = frontend.create(path, gen.build(spec))
        M.set_tree(storage.data, spec, model.tree())
        storage.save(force=True)
        digest, text = storage.schema_hash(), storage.schema_node.to_json()
        storage = None
        stor.drop()
        storage = frontend.load(path, force=True)
        if M.diff(model.canon(), M.observe(storage.data, spec)):
            return None
        if storage.schema_hash() != digest:
            return None
    except Exception:  # pylint: disable=broad-except
        return None
    storage = None
    stor.drop()
    if os.path.getsize(path) > 300000:
        return None
    return {'spec': spec, 'tree': model.tree(), 'hash': digest, 'json': text,
            'backend': backend, 'valid': not oracle.invalid_nodes(model)}


def main():
    rng = random.Random('corpus')
    folder = tempfile.mkdtemp()
    index = {}
    for backend in gen.FILE_BACKENDS:
        n = tries = 0
        while n < PER_BACKEND and tries < 20 * PER_BACKEND:
            tries += 1
            want = (gen.ITEM_TYPES[n % 8] if n < 64 else None)
            name = '%s%03d.%s' % (backend, n, gen.EXT[backend])
            path = os.path.join(folder, name)
            if os.path.exists(path):
                stor.drop()
                os.unlink(path)
            entry = attempt(rng, backend, path, want)
            if entry:
                index[name] = entry
                n += 1
        print(backend, n, 'of', tries)
    with open(os.path.join(folder, 'index.pickle'), 'wb') as f:
        pickle.dump(index, f, protocol=4)
    with tarfile.open(sys.argv[1], 'w:xz') as tar:
        for name in sorted(list(index)) + ['index.pickle']:
            info = tarfile.TarInfo(name)
            full = os.path.join(folder, name)
            info.size = os.path.getsize(full)
            with open(full, 'rb') as f:
                tar.addfile(info, f)
    types = {}
    for e in index.values():
        for node in gen.walk_spec(e['spec']):
            key = (e['backend'], node['t'])
            types[key] = types.get(key, 0) + 1
    print(types)


if __name__ == '__main__':
    main()
