"""Checkpoints: every way the library offers to save a generator and to bring it back."""
import copy, json, pickle
import numpy as np
import randomgen as rg
from sim import gens, life

# what a checkpoint is made of; the first group can leave the process
DURABLE = ["state", "state-pickle", "pickle2", "pickle5", "ext-pickle", "ext-state", "npgen-pickle", "state-json"]
VOLATILE = ["copy", "deepcopy", "ext-copy", "ext-deepcopy", "npgen-deepcopy"]
METHODS = DURABLE + VOLATILE


STATES = ("state", "state-pickle", "ext-state", "state-json")


def plain(x):
    """a state as JSON can hold it"""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return [int(v) if x.dtype.kind in "ui" else float(v) for v in x.ravel()] if isinstance(x, np.ndarray) else int(x) if isinstance(x, np.integer) else x


def loads(m, blob):
    """the state dictionary in a checkpoint"""
    if m == "state-pickle":
        return pickle.loads(blob)
    if m != "state-json":
        return blob
    st = json.loads(blob)
    c = st["bit_generator"].split(".")[-1]
    if c == "MT19937":
        s = st["state"]
        if (s["pos"] + 1) % 3:  # the form RandomState.get_state() gives
            return (c, s["key"], s["pos"]) + ((0, 0.0) if (s["pos"] + 1) % 3 == 1 else ())
    if st["has_uint32"] if "has_uint32" in st else True:
        st["bit_generator"] = c  # the short name is as good
    return st


def save(node, m):
    """-> checkpoint (bytes for what is serialised, the object itself for states and copies)"""
    if m == "state":
        return node.bg.state
    if m == "state-pickle":
        return pickle.dumps(node.bg.state)
    if m == "state-json":
        return json.dumps(plain(node.bg.state))
    if m == "pickle2":
        return pickle.dumps(node.bg, 2)
    if m == "pickle5":
        return pickle.dumps(node.bg, 5)
    if m == "ext-pickle":
        return pickle.dumps(node.get_ext())
    if m == "ext-state":
        return node.get_ext().state
    if m == "npgen-pickle":
        return pickle.dumps(node.get_np())
    if m == "copy":
        return copy.copy(node.bg)
    if m == "deepcopy":
        return copy.deepcopy(node.bg)
    if m == "ext-copy":
        return copy.copy(node.get_ext())
    if m == "ext-deepcopy":
        return copy.deepcopy(node.get_ext())
    if m == "npgen-deepcopy":
        return copy.deepcopy(node.get_np())
    raise KeyError(m)


def target(cfg, seed, ctor=None):
    return life.Node.make(cfg, seed, ctor)


def restore(cfg, m, blob, node, seed, dirt, ext_target=False):
    """a node that continues from the checkpoint.  node: an existing (used) node to restore into, or None"""
    if m in STATES:
        st = loads(m, blob)
        if node is None:
            node = target(cfg, seed)
        for op in dirt or ():
            node.do(op)
        if m == "ext-state" or ext_target:
            node.get_ext().state = st
        else:
            node.bg.state = st
        return node
    if m in ("pickle2", "pickle5"):
        return life.Node(cfg, pickle.loads(blob))
    if m == "ext-pickle":
        e = pickle.loads(blob)
        return life.Node(cfg, e.bit_generator, e)
    if m == "npgen-pickle":
        g = pickle.loads(blob)
        n = life.Node(cfg, g.bit_generator)
        n._np = g
        return n
    if m in ("copy", "deepcopy"):
        # the checkpoint itself stays usable: continue with a copy of it
        return life.Node(cfg, copy.deepcopy(blob) if m == "deepcopy" else copy.copy(blob))
    if m in ("ext-copy", "ext-deepcopy"):
        e = copy.deepcopy(blob) if m == "ext-deepcopy" else copy.copy(blob)
        return life.Node(cfg, e.bit_generator, e)
    if m == "npgen-deepcopy":
        g = copy.deepcopy(blob)
        n = life.Node(cfg, g.bit_generator)
        n._np = g
        return n
    raise KeyError(m)


def damage(rng_list, st):
    """a torn state: one element lost, truncated or replaced.  rng_list: a list of small ints (from the plan)"""
    st = copy.deepcopy(st)
    paths = []

    def walk(x, path):
        for k in sorted(x, key=str):
            paths.append(path + [k])
            if isinstance(x[k], dict):
                walk(x[k], path + [k])
    walk(st, [])
    p = paths[rng_list[0] % len(paths)]
    x = st
    for k in p[:-1]:
        x = x[k]
    v = x[p[-1]]
    how = rng_list[1] % 6
    if how == 0 or isinstance(v, dict):
        del x[p[-1]]
        what = "lost"
    elif isinstance(v, np.ndarray):
        if how in (1, 4):
            x[p[-1]] = v[:-1].copy() if how == 1 else np.append(v, v)
            what = "truncated" if how == 1 else "doubled"
        elif how == 2:
            x[p[-1]] = v.astype(np.int16 if v.dtype != np.int16 else np.int64) if v.dtype.kind in "ui" else v.astype(np.float32)
            what = "mistyped"
        elif how == 5:
            x[p[-1]] = v.reshape(1, -1).copy()
            what = "2d"
        else:
            x[p[-1]] = None
            what = "null"
    elif how < 4:
        x[p[-1]] = [None, "zz", -1][how - 1]
        what = ["null", "text", "negative"][how - 1]
    else:
        x[p[-1]] = [2**200, 10**5 + rng_list[0]][how - 4]
        what = ["huge", "past the end"][how - 4]
    return st, ".".join(map(str, p)), what


POSITIONS = ("idx", "buffer_loc", "buffer_pos", "buffer_idx", "hc_idx", "pos", "offset")
CHOICES = ("variant", "plusplus", "number", "width", "post", "original")      # which of several algorithms: some have defaults


def hopeless(where, what, v):
    """no generator can continue from a state damaged like this"""
    k = where.split(".")[-1]
    if k in CHOICES:
        return False
    if what in ("lost", "null", "text"):
        return True
    if isinstance(v, np.ndarray):
        return what == "truncated"
    return what == "huge" or k in POSITIONS and what in ("negative", "past the end")
