"""C11: wavelet packet nodes, paths, levels and orders."""
import numpy as np

import pywt
from rt import gen, ref
from rt.fam import Family
from rt.core import Skip
from rt.packets import Kind, rank1, rank, rc2


def check_node(ctx, K, wp, node, path):
    ctx.equal(node.path, path, "path", "path attribute")
    ctx.equal(node.level, len(path) // K.part_len, "level", f"level of {path!r}")
    ctx.equal(node.maxlevel, K.maxlevel, "maxlevel", f"maxlevel of {path!r}")
    ctx.equal(tuple(node.path_tuple), tuple(K.tokens(path)), "path_tuple", f"path_tuple of {path!r}")
    ctx.equal(bool(node.is_empty), False, "is_empty", f"is_empty of {path!r}")
    if path:
        ctx.equal(node.node_name, path[-K.part_len:], "node_name", f"node_name of {path!r}")
        ctx.check(node.parent is not None and node.parent.path == path[:-K.part_len], "parent", f"parent of {path!r}")
        ctx.check(node.parent[path[-K.part_len:]] is node, "parent link", f"{path!r} is not the child of its parent")
    else:
        ctx.check(node.parent is None, "parent", "the root has a parent")


def check_data(ctx, K, node, path):
    e, sc = K.at(path)
    if not path:
        ctx.same(np.asarray(node.data), np.asarray(K.x), "root data", "data of the root")
        return
    odt = gen.out_dtype(K.dt)
    ctx.check(node.data.dtype == odt, "dtype", lambda: f"node {path!r}: {node.data.dtype} instead of {odt}")
    ctx.close(node.data, e, "node data", f"node {path!r} of {K.sig()}", scale=sc, factor=32, dtype=odt)


def paths(ctx):
    rng = ctx.rng
    K = Kind(rng, pr=False)
    ctx.sig(*K.sig())
    wp = ctx.call(K.make)
    ctx.see("class " + K.kind)
    seen = {}
    for _ in range(int(rng.integers(2, 8))):
        p = K.rand_path(rng)
        how = rng.integers(4)
        if how == 0:
            node = wp
            for t in K.tokens(p):
                node = ctx.call(node.__getitem__, t)
        elif how == 1:
            node = ctx.call(wp.__getitem__, tuple(K.tokens(p)))
        elif how == 2 and p:
            i = K.part_len * int(rng.integers(0, len(p) // K.part_len + 1))
            node = ctx.call(ctx.call(wp.__getitem__, p[:i]).__getitem__, p[i:])
        else:
            node = ctx.call(wp.__getitem__, p)
        ctx.check(wp[p] is node, "access", lambda: f"step-wise and direct access to {p!r} give different nodes")
        for q, n in seen.items():
            ctx.check(wp[q] is n, "identity", lambda: f"reading {p!r} replaced node {q!r}")
        seen[p] = node
        check_node(ctx, K, wp, node, p)
        check_data(ctx, K, node, p)
        ctx.see(f"nodes at depth {len(p) // K.part_len}")


def order_of(K, level):
    ps = K.level_paths(level)
    if K.kind == "1":
        return sorted(ps, key=rank1)
    rows = {}
    for p in ps:
        r, c = rc2(p)
        rows.setdefault(rank(r), {})[rank(c)] = p
    return [[rows[r][c] for c in sorted(rows[r])] for r in sorted(rows)]


def levels(ctx):
    rng = ctx.rng
    K = Kind(rng, pr=False, cap=600)
    ctx.sig(*K.sig())
    wp = ctx.call(K.make)
    for _ in range(int(rng.integers(0, 3))):
        ctx.call(wp.__getitem__, K.rand_path(rng))
    L = int(rng.integers(0, K.maxlevel + 1))
    order = "natural" if K.kind == "n" or rng.random() < .4 else "freq"
    nodes = ctx.call(wp.get_level, L, *(() if K.kind == "n" or (order == "natural" and rng.random() < .5) else (order,)))
    ctx.see(f"{order} level {L} class {K.kind}")
    if order == "natural":
        want = K.level_paths(L)
        ctx.equal([n.path for n in nodes], want, "natural order", f"level {L} of {K.sig()}")
        flat = nodes
    else:
        want = order_of(K, L)
        got = [n.path for n in nodes] if K.kind == "1" else [[n.path for n in row] for row in nodes]
        ctx.equal(got, want, "frequency order", f"level {L} of {K.sig()}")
        flat = nodes if K.kind == "1" else [n for row in nodes for n in row]
    for n in flat:
        ctx.check(wp[n.path] is n, "access", f"get_level node {n.path!r} is not the node of that path")
    for i in {int(v) for v in rng.integers(0, len(flat), 3)}:
        check_node(ctx, K, wp, flat[i], flat[i].path)
        check_data(ctx, K, flat[i], flat[i].path)
    # all leaves
    if len(K.parts) ** K.maxlevel <= 300:
        leaves = ctx.call(wp.get_leaf_nodes, decompose=True)
        ctx.equal([n.path for n in leaves], K.level_paths(K.maxlevel), "leaves", "leaves of the full tree")
        for i in {int(v) for v in rng.integers(0, len(leaves), 3)}:
            check_data(ctx, K, leaves[i], leaves[i].path)
        post, pre = [], []
        ctx.call(wp.walk, lambda n: pre.append(n.path) or True)
        ctx.call(wp.walk_depth, lambda n: post.append(n.path))
        full = [p for lev in range(K.maxlevel + 1) for p in K.level_paths(lev)]
        ctx.equal(sorted(pre), sorted(full), "walk", "walk visits")
        ctx.equal(sorted(post), sorted(full), "walk_depth", "walk_depth visits")
        seen = set()
        for p in pre:
            ctx.check(not p or p[:-K.part_len] in seen, "walk order", f"{p!r} before its parent")
            seen.add(p)
        seen = set()
        for p in post:
            ctx.check(p[:-K.part_len] not in seen or not p, "walk_depth order", f"{p!r} after its parent")
            seen.add(p)


def partial(ctx):
    """Trees of which only some nodes exist: decompose=False never creates nodes."""
    rng = ctx.rng
    K = Kind(rng, cap=600)
    ctx.sig(*K.sig())
    wp = ctx.call(K.make)
    exist = {""}
    for _ in range(int(rng.integers(0, 4))):
        p = K.rand_path(rng)
        ctx.call(wp.__getitem__, p)
        toks = K.tokens(p)
        for i in range(len(toks)):
            exist |= {"".join(toks[:i]) + q for q in K.parts}
    leaves = [p for p in exist if not any(p + q in exist for q in K.parts)]
    got = ctx.call(wp.get_leaf_nodes, False)
    ctx.equal(sorted(n.path for n in got), sorted(leaves), "leaves", f"existing leaves of {K.sig()}")
    L = int(rng.integers(0, K.maxlevel + 1))
    want = [p for p in K.level_paths(L) if p in exist]
    got = ctx.call(wp.get_level, L, decompose=False)
    ctx.equal([n.path for n in got], want, "natural order", f"existing nodes of level {L}")
    if K.kind == "1":
        got = ctx.call(wp.get_level, L, "freq", False)
        ctx.equal([n.path for n in got], [p for p in order_of(K, L) if p in exist], "frequency order",
                  f"existing nodes of level {L}")
    pre = []
    ctx.call(wp.walk, lambda n: pre.append(n.path) or True, decompose=False)
    ctx.equal(sorted(pre), sorted(exist), "walk", "walk(decompose=False) visits")
    stop = K.rand_path(rng)
    pre = []
    ctx.call(wp.walk, lambda n: pre.append(n.path) or n.path != stop, decompose=False)
    ctx.equal(sorted(pre), sorted(p for p in exist if p == stop or not (
        p.startswith(stop) and len(p) > len(stop))), "walk stops", f"walk that stops at {stop!r}")
    for p in exist:
        if p:
            par = wp[p[:-K.part_len]]
            ctx.check(par.get_subnode(p[-K.part_len:], False) is not None, "subnode", f"{p!r} vanished")
            ctx.check(bool(par.has_any_subnode), "has_any_subnode", f"parent of {p!r}")
    for p in leaves:
        ctx.check(not wp[p].has_any_subnode, "has_any_subnode", f"leaf {p!r}")
        if len(p) < K.maxlevel * K.part_len:
            ctx.check(wp[p].get_subnode(K.parts[0], False) is None, "get_subnode", "decompose=False created a node")
    ctx.see("partial trees")


def rejects(ctx):
    rng = ctx.rng
    K = Kind(rng, cap=400)
    ctx.sig(*K.sig())
    wp = ctx.call(K.make)
    bad = {"1": ["x", "A", "h", " "], "2": ["x", "A", "l"], "n": ["x" * K.part_len, "b" * K.part_len, "h" * K.part_len]}[K.kind]
    b = bad[rng.integers(len(bad))]
    p = K.rand_path(rng, int(rng.integers(0, K.maxlevel)) if K.maxlevel else 0)
    if K.maxlevel > len(p) // K.part_len:
        ctx.raises(wp.__getitem__, p + b, exc=(ValueError, IndexError, KeyError), key="bad letter")
        ctx.raises(wp.__setitem__, p + b, np.zeros(3), exc=(ValueError, IndexError, KeyError), key="bad letter")
    deep = K.rand_path(rng, K.maxlevel + 1)
    ctx.raises(wp.__getitem__, deep, exc=(IndexError, ValueError), key="too deep")
    ctx.raises(wp.__setitem__, deep, np.zeros(3), exc=(IndexError, ValueError), key="too deep")
    half = K.rand_path(rng, K.maxlevel)
    node = ctx.call(wp.__getitem__, half)
    ctx.raises(node.__getitem__, K.parts[0], exc=(IndexError, ValueError), key="too deep")
    ctx.raises(node.decompose, exc=ValueError, key="too deep")
    ctx.raises(wp.get_level, K.maxlevel + 1, exc=ValueError, key="too deep")
    if K.kind != "n":
        ctx.raises(wp.get_level, 0, "nonsense", exc=ValueError, key="bad order")
    for t in (1, None, 2.5, ["a"], b"a", (1,)):
        ctx.raises(wp.__getitem__, t, exc=TypeError, key="bad path type")
    ctx.raises(wp.__setitem__, 3, np.zeros(3), exc=TypeError, key="bad path type")
    nd = len(K.shape)
    if K.kind == "1":
        ctx.raises(pywt.WaveletPacket, K.x, K.w.arg, axis=nd, exc=(ValueError, IndexError), key="bad axis")
        ctx.raises(pywt.WaveletPacket, K.x, K.w.arg, axis=-nd - 1, exc=(ValueError, IndexError), key="bad axis")
    else:
        cls = pywt.WaveletPacket2D if K.kind == "2" else pywt.WaveletPacketND
        ctx.raises(cls, K.x, K.w.arg, axes=(0, 0), exc=ValueError, key="repeated axes")
        ctx.raises(cls, K.x, K.w.arg, axes=(0, -nd), exc=ValueError, key="repeated axes")
        ctx.raises(cls, K.x, K.w.arg, axes=(0, nd), exc=(ValueError, IndexError), key="bad axis")
    check_data(ctx, K, wp[half], half)


def bands(ctx):
    """The frequency order is the order of the pass bands: a sinusoid lands in the node of its band."""
    rng = ctx.rng
    w = ["db16", "sym16", "db20", "coif8"][rng.integers(4)]
    L = int(rng.integers(1, 5))
    n = 1024
    k = int(rng.integers(0, 2 ** L))
    f = (k + rng.uniform(.35, .65)) / 2 ** L * .5
    x = np.cos(2 * np.pi * f * np.arange(n) + rng.uniform(0, 6))
    ctx.sig(w, L, k)
    if rng.random() < .6:
        wp = ctx.call(pywt.WaveletPacket, x, w, "periodization", maxlevel=L)
        e = [float(np.sum(nd.data ** 2)) for nd in ctx.call(wp.get_level, L, "freq")]
        ctx.equal(int(np.argmax(e)), k, "band", f"energy of a sinusoid of band {k} of {2 ** L}, {w}")
    else:
        L = min(L, 3)
        n, w = 256, "db12"
        k, l = (int(v) for v in rng.integers(0, 2 ** L, 2))
        f, g = ((v + rng.uniform(.4, .6)) / 2 ** L * .5 for v in (k, l))
        x = np.cos(2 * np.pi * f * np.arange(n) + 1)[:, None] * np.cos(2 * np.pi * g * np.arange(n) + 2)[None]
        wp = ctx.call(pywt.WaveletPacket2D, x, w, "periodization", maxlevel=L)
        e = np.array([[float(np.sum(nd.data ** 2)) for nd in row] for row in ctx.call(wp.get_level, L, "freq")])
        ctx.equal(tuple(int(v) for v in np.unravel_index(int(np.argmax(e)), e.shape)), (k, l), "band",
                  f"energy of a 2-D sinusoid of bands {k}, {l} of {2 ** L}")


def bare(ctx):
    """A tree without data and without maxlevel takes its depth from the coefficients assigned to it."""
    rng = ctx.rng
    for _ in range(60):
        K = Kind(rng, pr=False, cap=800)
        if len(K.shape) == K.k and K.k < 3 or K.kind == "n" and len(K.shape) == K.k:
            break
    else:
        raise Skip()
    x = gen.native(K.x)
    parts = {q: np.asarray(v) for q, v in K.split(x, lib=True).items()}
    shape = parts[K.parts[0]].shape
    depth = 1 + min(ref.max_level(n, K.w.F) for n in shape[:]) if min(shape) >= 1 else 1
    wp = ctx.call(lambda: (pywt.WaveletPacket(None, K.w.arg, K.marg, axis=K.ax[0]) if K.kind == "1" else
                           (pywt.WaveletPacket2D if K.kind == "2" else pywt.WaveletPacketND)(None, K.w.arg, K.marg, axes=K.axp)))
    ctx.sig("bare", *K.sig())
    ctx.check(wp.maxlevel is None and wp.is_empty and not wp.has_any_subnode, "bare:empty", lambda: f"maxlevel of an empty tree is {wp.maxlevel}")
    names = [K.parts[i] for i in rng.permutation(len(K.parts))[:int(rng.integers(1, len(K.parts) + 1))]]
    for q in names:
        ctx.call(wp.__setitem__, q, parts[q])
    order = [wp, wp[names[0]], wp[names[-1]]]
    for i in rng.permutation(3):
        ctx.equal(order[i].maxlevel, depth, "bare:maxlevel", f"{order[i].path!r} of a tree made of {names} of shape {shape}, {K.sig()}")
    ctx.see("trees without data")
    for q in names:
        ctx.same(np.asarray(wp[q].data), parts[q].astype(gen.out_dtype(parts[q].dtype)), "bare:data", f"{q} as assigned")
        if depth > 1:
            sub = K.split(parts[q], lib=True)
            for r in K.parts:
                ctx.same(np.asarray(wp[q + r].data), np.asarray(sub[r]), "bare:below", f"{q + r} of a tree made of {names}, {K.sig()}")
                ctx.see("nodes below")
    ctx.raises(wp.get_level, depth + 1, exc=ValueError, key="bare:too deep")
    if depth == 1:
        e = K.join({q: parts[q] if q in names else None for q in K.parts})
        ctx.same(np.asarray(ctx.call(wp.reconstruct, False)), e, "bare:reconstruct", f"reconstruction from {names}, {K.sig()}")


FAMILIES = [Family(bare, 300, 12000), Family(paths, 1200, 60000, boost=.03), Family(levels, 700, 30000, boost=0.01), Family(partial, 500, 25000),
            Family(rejects, 250, 12000), Family(bands, 60, 1500)]
