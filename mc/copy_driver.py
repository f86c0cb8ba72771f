"""Unpickles objects in an interpreter of its own, and calls them."""
import os
import pickle
import sys

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")


def main():
    data = pickle.loads(sys.stdin.buffer.read())
    sys.dont_write_bytecode = True
    sys.path.insert(0, data["paths"]["native"])
    out = sys.stdout.buffer
    sys.stdout = sys.stderr
    objs = [pickle.loads(blob) for _, blob in data["jobs"]]  # before frds is imported by anything else
    from mc import impl

    impl.load(data["paths"])
    from mc.props import c28, c39

    ops = c39.objects(impl.native)[data["object"]][1]
    res = [(c39.held(o), c28.attempt(ops[k], (o,))) for o, (k, _) in zip(objs, data["jobs"])]
    out.write(pickle.dumps(res))


main()
