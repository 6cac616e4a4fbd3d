"""Opens what persist_record pickled, in a process of its own, and compares it with the same made afresh."""
import json
import pickle
import sys

sys.path[:] = sys.argv[1:]
items = sys.stdin.buffer.read()

from d_ranges import VALS, MapU, build_set  # noqa: E402
from rangelib import Universe  # noqa: E402

answers = []
for t in pickle.loads(items):
    u = Universe(t["kind"], t["n"])
    try:
        got = pickle.loads(t["pickled"])
        if t["op"] == "range_eq":
            fresh = u.r(t["a"])
        elif t["op"] == "set_eq":
            fresh = build_set(u, t["adds"], t["made"])
        else:
            fresh = MapU(VALS[t["vals"]], u).build(t["ps"], 0)
        eq = [got == fresh, not (got != fresh), fresh == got]
        res = [1] if eq == [True] * 3 else [0] if eq == [False] * 3 else [-79]
    except Exception:   # the specification says what the answer is: anything else differs from it
        answers.append([[-2], 1])
        continue
    try:
        hs = 1 if hash(got) == hash(fresh) and len({got, fresh}) == 1 else 0
    except TypeError:
        hs = 0
    answers.append([res, hs])
print(json.dumps(answers))
