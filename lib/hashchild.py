"""Child process: hashes of specs read from a file (see checks/c11.py)."""
import pickle
import sys

if __name__ == '__main__':
    sys.path[0:1] = sys.argv[1:3]
    sys.dont_write_bytecode = True
    from lib import gen
    with open(sys.argv[3], 'rb') as f:
        specs = pickle.load(f)
    for spec in specs:
        print(gen.build(spec).hash())
