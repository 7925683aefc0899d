"""C12: wavelet packet trees under random histories of edits, against an executable model."""
import copy
import pickle

import numpy as np

import pywt
from rt import gen, ref
from rt.core import Skip, Violation
from rt.fam import Family
from rt.packets import Kind


class M:
    """Model of one node: its data, the shape its reconstruction is trimmed to, its children."""

    def __init__(self, data):
        self.data = data
        self.kids = {}

    def any_kid(self):
        return any(v is not None for v in self.kids.values())


class Model:
    def __init__(self, K):
        self.K = K
        self.root = M(np.array(np.asarray(K.x).astype(gen.out_dtype(K.dt))))
        self.modified = False
        self.low = gen.is32(K.dt)       # single precision data somewhere

    def expand(self, m, replace=False):
        c = self.K.split(m.data, lib=True)
        for p in self.K.parts:
            if replace or m.kids.get(p) is None:
                m.kids[p] = M(c[p])

    def find(self, path, create=True):
        """Node of a path, created by decomposition; None when an ancestor is empty."""
        m = self.root
        for t in self.K.tokens(path):
            if m.kids.get(t) is None:
                if m.data is None or not create:
                    return None
                self.expand(m)
            m = m.kids[t]
        return m

    def assign(self, path, value):
        m = self.root
        for t in self.K.tokens(path):
            if m.kids.get(t) is None:
                m.kids[t] = M(None)
            m = m.kids[t]
        m.data = value
        self.modified = True

    def leaves(self, m=None, path=""):
        m = m or self.root
        if not m.any_kid():
            return [path]
        return [q for p in self.K.parts if m.kids.get(p) is not None for q in self.leaves(m.kids[p], path + p)]

    def paths(self, m=None, path="", depth=False):
        m = m or self.root
        below = [q for p in self.K.parts if m.kids.get(p) is not None for q in self.paths(m.kids[p], path + p, depth)]
        return below + [path] if depth else [path] + below

    def rec(self, m):
        """(array or None, error scale); raises ValueError when the sizes do not fit."""
        if not m.any_kid():
            return m.data, (0.0 if m.data is None else float(np.max(np.abs(m.data))))
        parts, sc = {}, 0.0
        for p in self.K.parts:
            k = m.kids.get(p)
            parts[p] = None
            if k is not None:
                parts[p], s = self.rec(k)
                sc = max(sc, s)
        if all(v is None for v in parts.values()):
            raise ValueError("no data")
        r = self.K.join(parts)
        if m.data is not None:
            r = r[tuple(slice(0, n) for n in np.shape(m.data))]
        g = max(1.0, gen.polygain(self.K.w.fb)) ** self.K.k
        return r, max(sc * g, float(np.max(np.abs(r))) if r.size else 0.0)

    def walk_all(self, m, level, to):
        """Effect of walking with decomposition down to a level."""
        if level < to:
            for p in self.K.parts:
                if m.kids.get(p) is None and m.data is not None:
                    self.expand(m)
                if m.kids.get(p) is not None:
                    self.walk_all(m.kids[p], level + 1, to)


def wild(ctx, K, shape):
    """Data to assign: (passed, value the tree must hold)."""
    rng = ctx.rng
    dt = np.dtype(["<f8", "<f8", "<f4", "<c16", "<c8", "<i4", ">f8", "<f2", "|b1", np.clongdouble, np.longdouble, ">c8"][rng.integers(12)])
    v = gen.layout(rng, gen.data(rng, shape, dt))
    held = np.asarray(v).astype(gen.out_dtype(dt))
    if rng.random() < .15:
        return np.asarray(v, dtype=np.complex128 if dt.kind == "c" else float).tolist(), \
            np.asarray(v).astype(np.complex128 if dt.kind == "c" else np.float64)
    return v, held


def compare(ctx, mod, node, m, path, what):
    K = mod.K
    odt = np.float32 if mod.low else np.float64
    ctx.equal(node.path, path, "path", what)
    ctx.equal(bool(node.is_empty), m.data is None, "is_empty", f"{what}: node {path!r}")
    if m.data is not None:
        d = np.asarray(node.data)
        ctx.check(np.iscomplexobj(d) == np.iscomplexobj(m.data), "real/complex",
                  lambda: f"{what}: node {path!r} is {d.dtype}, model {m.data.dtype}")
        mx = float(np.max(np.abs(m.data))) if m.data.size else 0.0
        ctx.close(d, m.data, "node data", f"{what}: node {path!r} of {K.sig()}", factor=256, dtype=odt,
                  scale=max(mx, mod.big) * max(1.0, gen.gain(K.w.fb)) ** K.k)
    for p in K.parts:
        child = node.get_subnode(p, False)
        mk = m.kids.get(p)
        ctx.check((child is None) == (mk is None), "structure",
                  lambda: f"{what}: node {path + p!r} {'missing' if child is None else 'exists'}, "
                          f"model: {'missing' if mk is None else 'exists'}; {K.sig()}")
        if child is not None:
            compare(ctx, mod, child, mk, path + p, what)


def shape_at(K, path):
    s = list(K.shape)
    for _ in K.tokens(path):
        for a in K.ax:
            s[a] = ref.coeff_len(s[a], K.w.F, K.m)
    return tuple(s)


def history(ctx):
    rng = ctx.rng
    K = Kind(rng, hi={"1": 60, "2": 14, "n": 8}.get("1"), cap=260)
    while K.maxlevel < 1:
        K = Kind(rng, hi=40, cap=260)
    K.maxlevel = K.maxarg = min(K.maxlevel, 4 if K.k == 1 else 2)
    ctx.sig(*K.sig())
    if rng.random() < .2 and (K.kind != "n" or len(K.shape) == K.k):
        # a tree that starts without data
        axp, K.axp = K.axp, K.ax
        wp = ctx.call(K.make, data=None)
        K.axp = axp
        mod = Model(K)
        mod.root.data, mod.modified, mod.big = None, True, 0.0
        ctx.see("tree started empty")
    else:
        wp = ctx.call(K.make)
        mod = Model(K)
        mod.big = float(np.max(np.abs(gen.native(K.x)))) if np.size(K.x) else 0.0
    bare = mod.root.data is None
    log = []
    for step in range(int(rng.integers(3, 14))):
        op = ["read", "read", "assign", "assign", "attr", "delete", "decompose", "level", "leaves", "rec", "rec_sub",
              "pickle", "inplace", "walk", "all_leaves", "empty"][rng.integers(16)]
        path = K.rand_path(rng)
        what = f"after {log[-6:]} then {op} {path!r}"
        log.append(f"{op} {path!r}")
        ctx.trace.append(f"# step {op} {path!r}")
        ctx.see("op " + op)
        if op == "read":
            m = mod.find(path)
            if m is None:
                ctx.raises(wp.__getitem__, path, exc=Exception, key="empty parent")
                ctx.see("read below an empty node")
                continue
            n = ctx.call(wp.__getitem__, path)
            compare(ctx, mod, n, m, path, what)
        elif op in ("assign", "attr"):
            if not path and op == "attr":
                continue
            if rng.random() < .7 and path and mod.find(path[:-K.part_len]) is not None:
                ctx.call(wp.__getitem__, path[:-K.part_len])
            v, held = wild(ctx, K, shape_at(K, path))
            if op == "attr":
                if mod.find(path) is None or mod.find(path).data is None:
                    continue
                n = ctx.call(wp.__getitem__, path)
                if np.shape(n.data) != np.shape(v):
                    continue                # only data of the shape the node has
                n.data = held.copy()
                v = held
                mod.find(path).data = held
                mod.modified = True
            elif rng.random() < .2:
                src = pywt.WaveletPacket(held, "db1", maxlevel=1) if held.ndim else None
                ctx.call(wp.__setitem__, path, src)
                held = held.copy()
                mod.assign(path, held)
            else:
                ctx.call(wp.__setitem__, path, v)
                mod.assign(path, held)
            mod.low |= held.dtype.itemsize // (2 if held.dtype.kind == "c" else 1) == 4
            mod.big = max(mod.big, float(np.max(np.abs(held))))
            ctx.same(np.asarray(wp[path].data), held, "assigned data", what)
        elif op == "inplace":
            m = mod.find(path)
            if m is None or m.data is None or not path:
                continue
            n = ctx.call(wp.__getitem__, path)
            if not n.data.flags.writeable:
                continue
            n.data[...] = n.data * 2
            m.data = m.data * 2
            mod.modified = True
            mod.big *= 2
        elif op == "delete":
            if not path:
                continue
            m = mod.find(path)
            if m is None:
                continue
            par = mod.find(path[:-K.part_len])
            ctx.call(wp.__delitem__, path)
            par.kids[path[-K.part_len:]] = None
            mod.modified = True
        elif op == "decompose":
            if len(path) == K.maxlevel * K.part_len:
                path = path[:-K.part_len]
            m = mod.find(path)
            if m is None or m.data is None:
                continue
            n = ctx.call(wp.__getitem__, path)
            ctx.call(n.decompose)
            mod.expand(m, replace=True)
        elif op == "level":
            L = int(rng.integers(0, K.maxlevel + 1))
            if len(K.parts) ** L > 80:
                continue
            nodes = ctx.call(wp.get_level, L)
            mod.walk_all(mod.root, 0, L)
            want = [p for p in K.level_paths(L) if mod.find(p, create=False) is not None]
            ctx.equal([n.path for n in nodes], want, "get_level", what)
        elif op == "leaves":
            got = ctx.call(wp.get_leaf_nodes)
            ctx.equal([n.path for n in got], mod.leaves() if mod.root.any_kid() else [""], "leaves", what)
        elif op == "all_leaves":
            if len(K.parts) ** K.maxlevel > 100:
                continue
            got = ctx.call(wp.get_leaf_nodes, True)
            mod.walk_all(mod.root, 0, K.maxlevel)
            want = [q for q in mod.leaves() if len(q) == K.maxlevel * K.part_len and mod.find(q, create=False).data is not None]
            ctx.equal([n.path for n in got], want, "leaves decomposed", what)
        elif op == "walk":
            pre, post = [], []
            stop = path if rng.random() < .5 else None
            extra = object()
            ctx.call(wp.walk, lambda n, e, k=None: pre.append((n.path, e is extra, k)) or n.path != stop, (extra,), {"k": 3}, False)
            ctx.call(wp.walk_depth, lambda n, e, k=None: post.append((n.path, e is extra, k)), (extra,), {"k": 3}, False)
            every = mod.paths()
            want = [q for q in every if stop is None or q == stop or not q.startswith(stop)]
            ctx.equal(pre, [(q, True, 3) for q in want], "walk", what + f" stopping at {stop!r}")
            ctx.equal(post, [(q, True, 3) for q in mod.paths(depth=True)], "walk_depth", what)
        elif op == "empty":
            # decomposing a node without data gives it empty children
            if len(path) == K.maxlevel * K.part_len:
                continue
            m = mod.find(path, create=False)
            if path and (m is None or m.data is not None):
                # make it empty: replaced by a node that was only a step on the way to a lower one
                if m is not None:
                    ctx.call(wp.__delitem__, path)
                    mod.find(path[:-K.part_len]).kids[path[-K.part_len:]] = None
                p = K.parts[rng.integers(len(K.parts))]
                v = np.ones(shape_at(K, path + p))
                ctx.call(wp.__setitem__, path + p, v.copy())
                mod.assign(path + p, v)
                if rng.random() < .7:
                    ctx.call(wp.__delitem__, path + p)
                    mod.find(path, create=False).kids[p] = None
                m = mod.find(path, create=False)
            if m is None or m.data is not None or m.any_kid():
                continue
            n = ctx.call(wp.__getitem__, path)
            ctx.call(n.decompose)
            for p in K.parts:
                m.kids[p] = M(None)
            ctx.see("empty node decomposed")
        elif op in ("rec", "rec_sub"):
            if op == "rec":
                path = ""
            m = mod.find(path, create=False)
            if m is None:
                continue
            n = ctx.call(wp.__getitem__, path)
            update = bool(rng.random() < .5)
            try:
                e, sc = mod.rec(m)
            except ValueError:
                ctx.raises(n.reconstruct, update, exc=Exception, key="reconstruct of misfits")
                ctx.see("reconstruction impossible")
                return
            if e is None:
                ctx.check(n.reconstruct(update=update) is None, "reconstruct", f"{what}: data from an empty node")
                continue
            r = np.asarray(ctx.call(n.reconstruct, update=update))
            odt = np.float32 if mod.low else np.float64
            ctx.check(np.iscomplexobj(r) == np.iscomplexobj(e), "reconstruct:complex", lambda: f"{what}: {r.dtype}, model {e.dtype}")
            sc = max(sc, mod.big * max(1.0, gen.polygain(K.w.fb)) ** K.k)
            ctx.close(r, e, "reconstruct", f"{what} of {K.sig()}", scale=sc, factor=256, dtype=odt)
            if path == "" and not bare:
                ctx.equal(r.shape, K.shape, "reconstruct:shape", what)
            if not mod.modified and not path:
                ctx.see("unmodified tree reconstructed")
                de = gen.pr_defect(K.w.fb) * K.k * K.maxlevel
                ctx.close(r, gen.native(K.x), "perfect reconstruction", f"{what} of {K.sig()}", scale=sc * 4, factor=256,
                          dtype=odt, atol=64 * de * sc)
            if update and m.any_kid():
                ctx.same(np.asarray(n.data), r, "update", f"{what}: data after update")
                m.data = r.copy()
            elif not update and m.data is not None:
                ctx.close(np.asarray(n.data), m.data, "update", f"{what}: data changed without update", scale=sc, factor=256, dtype=odt)
        elif op == "pickle":
            how = rng.integers(3)
            old = wp
            if how == 2:
                wp = ctx.call(copy.deepcopy, wp)
            else:
                wp = pickle.loads(pickle.dumps(wp, [2, pickle.HIGHEST_PROTOCOL][how]))
            ctx.check(wp is not old and type(wp) is type(old), "pickle", "type of the copy")
            ctx.equal(wp.maxlevel, old.maxlevel, "pickle:maxlevel", what)
            compare(ctx, mod, wp, mod.root, "", what + " (pickled copy)")
            if rng.random() < .5:
                # the copy is independent
                p = K.parts[0]
                if mod.find(p, create=False) is not None:
                    wp[p] = np.zeros(shape_at(K, p))
                    if mod.find(K.parts[-1], create=False) is not None or mod.root.data is not None:
                        del wp[K.parts[-1]]
                    compare(ctx, mod, old, mod.root, "", what + " (original after its copy was edited)")
                wp = old
    compare(ctx, mod, wp, mod.root, "", f"after {log}")


def rebuild(ctx):
    """A new tree filled with the nodes of one level reconstructs the signal."""
    rng = ctx.rng
    K = Kind(rng, pr=True)
    if K.maxlevel < 1 or len(K.parts) ** K.maxlevel > 100:
        raise Skip()
    odd = False
    s = [K.shape[a] for a in K.ax]
    for _ in range(K.maxlevel):
        odd |= any(n % 2 for n in s)
        s = [ref.coeff_len(n, K.w.F, K.m) for n in s]
    if K.m == "periodization" and odd:
        raise Skip()
    if K.kind == "n" and len(K.shape) != K.k:
        raise Skip()
    ctx.sig(*K.sig())
    wp = ctx.call(K.make)
    L = int(rng.integers(1, K.maxlevel + 1))
    nodes = list(ctx.call(wp.get_level, L))
    K.maxarg = K.maxlevel
    axp = K.axp
    K.axp = K.ax
    new = ctx.call(K.make, data=None)
    K.axp = axp
    for i in rng.permutation(len(nodes)):
        p = nodes[i].path
        ctx.call(new.__setitem__, p, nodes[i] if rng.random() < .5 else nodes[i].data)
    r = ctx.call(new.reconstruct, update=bool(rng.random() < .5))
    for g, n, i in zip(r.shape, K.shape, range(len(K.shape))):
        ctx.check(g >= n, "shape", lambda: f"{r.shape} from the nodes of a tree of shape {K.shape}")
    r = r[tuple(slice(0, n) for n in K.shape)]
    x = gen.native(K.x)
    sc = sum(float(np.max(np.abs(n.data))) for n in nodes) + float(np.max(np.abs(x)))
    sc *= max(1.0, gen.polygain(K.w.fb)) ** (K.k * L)
    ctx.close(r, x, "rebuilt", f"level {L} of {K.sig()}", scale=sc, factor=64, dtype=gen.out_dtype(K.dt),
              atol=64 * gen.pr_defect(K.w.fb) * L * K.k * sc)
    ctx.see("trees rebuilt")


def kept(ctx):
    """Deleting every node but some and reconstructing equals the inverse transform with zeros."""
    rng = ctx.rng
    K = Kind(rng, pr=False, cap=400)
    if K.maxlevel < 1 or len(K.parts) ** min(K.maxlevel, 2) > 70:
        raise Skip()
    L = min(K.maxlevel, 2)
    ctx.sig(*K.sig())
    wp = ctx.call(K.make)
    mod = Model(K)
    nodes = ctx.call(wp.get_level, L)
    mod.walk_all(mod.root, 0, L)
    ps = [n.path for n in nodes]
    drop = [p for p in ps if rng.random() < .5]
    if len(drop) == len(ps):
        drop.pop()
    for p in drop:
        ctx.call(wp.__delitem__, p)
        mod.find(p[:-K.part_len], create=False).kids[p[-K.part_len:]] = None
    z = {}

    def fill(path, lev):
        if lev == L:
            d = mod.find(path, create=False)
            return np.zeros(shape_at(K, path)) if d is None else gen.native(d.data)
        c = {p: fill(path + p, lev + 1) for p in K.parts}
        if K.kind == "2":
            c = {{"a": "aa", "h": "da", "v": "ad", "d": "dd"}[q]: v for q, v in c.items()}
        r = ref.idwtn(c, [K.w.fb] * K.k, [K.m] * K.k, K.ax)
        return r[tuple(slice(0, n) for n in shape_at(K, path))]

    # a part all of whose children were deleted is a leaf again: its own data count
    def gone(path, lev):
        return lev < L and all(mod.find(path + p, create=False) is None for p in K.parts)
    for p in {q[:-K.part_len] for q in drop}:
        if gone(p, len(p) // K.part_len):
            raise Skip()
    e = fill("", 0)
    r = ctx.call(wp.reconstruct, False)
    _, sc = mod.rec(mod.root)
    sc += K.at(ps[0])[1] * max(1.0, gen.polygain(K.w.fb)) ** (K.k * L)
    ctx.close(r, e, "zeroed", f"deleted {drop} of {K.sig()}", scale=sc, factor=128, dtype=gen.out_dtype(K.dt))
    back = drop[rng.integers(len(drop))] if drop else None
    if back:
        e, s2 = K.at(back)
        ctx.close(ctx.call(wp.__getitem__, back).data, e, "recomputed", f"deleted node {back!r} read again", scale=s2, factor=64,
                  dtype=gen.out_dtype(K.dt))
    ctx.see("subsets reconstructed")


FAMILIES = [Family(history, 2500, 120000, boost=.03), Family(rebuild, 500, 20000), Family(kept, 500, 20000)]
