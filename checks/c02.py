"""C02: tilings partition a tensor; row views are lossless."""

import itertools

import numpy as np
import torch

import fastforward as ff

from fastforward.quantization import granularity as G
from fastforward.quantization import tiled_tensor as T

from ffmon import gen
from ffmon.core import section

META = {
    "technique": "runtime monitoring: conservation/partition oracle with uniquely labelled elements",
    "level_note": "Every element carries a unique id, so the row view read back reveals exactly where each element went; compared with index arithmetic on all generated shapes/tiles.",
    "rule": "distinct (granularity kind, ndim, tile pattern) signatures",
}


def _rows_ref(shp, tile):
    """Row-major tiles, row-major elements inside a tile, by explicit enumeration."""
    ids = np.arange(int(np.prod(shp))).reshape(shp)
    rows = []
    for blk in itertools.product(*[range(a // b) for a, b in zip(shp, tile)]):
        sl = tuple(slice(i * t, (i + 1) * t) for i, t in zip(blk, tile))
        rows.append(ids[sl].reshape(-1))
    return torch.from_numpy(np.stack(rows))


@section(quick=2500, thorough=50000)
def rows(ctx):
    rng = ctx.rng
    shp = gen.shape(rng, 1, 5)
    gr, tile, desc = gen.granularity(rng, shp)
    ids = torch.arange(int(np.prod(shp))).reshape(shp)
    x = gen.noncontiguous(rng, ids)
    ctx.note(shape=shp, tile=tile, gran=desc)
    ts = gr.tile_size(torch.Size(shp))
    if ts == "data_shape":
        ctx.equal(tile, shp, "tile-size")
    else:
        ctx.equal(tuple(ts), tile, "tile-size")
    ctx.equal(gr.parameter_dimensionality(torch.Size(shp)), gen.n_tiles(shp, tile), "param-count")
    arg = ts if rng.random() < 0.7 else torch.Size(tile)
    r = T.tiles_to_rows(x, arg)
    want = _rows_ref(shp, tile)
    ctx.same(r, want, "row-view")
    ctx.same(T.rows_to_tiles(r, x.shape, arg), ids, "round-trip")
    ctx.equal(sorted(r.flatten().tolist()), list(range(ids.numel())), "partition")
    labels = torch.arange(gen.n_tiles(shp, tile))[:, None].expand(want.shape).contiguous()
    ctx.same(T.rows_to_tiles(labels, torch.Size(shp), arg), torch.from_numpy(gen.tile_index(shp, tile)), "tile-of-element")
    ctx.event("elements", ids.numel())
    ctx.state(type(gr).__name__, len(shp), tuple(1 if t == 1 else 2 if t == s else 3 for s, t in zip(shp, tile)))


@section(quick=1500, thorough=30000)
def from_sizes(ctx):
    """Describing a tile size as a granularity expands to the same tiling."""
    rng = ctx.rng
    shp = gen.shape(rng, 1, 5)
    tile = tuple(rng.choice(gen.divisors(n) + [1, n]) for n in shp)
    g = G.granularity_from_sizes(torch.Size(shp), torch.Size(tile))
    ctx.note(shape=shp, tile=tile, g=repr(g))
    ts = g.tile_size(torch.Size(shp))
    ctx.equal(shp if ts == "data_shape" else tuple(ts), tile, "same-tiling")
    ctx.equal(g.parameter_dimensionality(torch.Size(shp)), gen.n_tiles(shp, tile), "param-count")
    ctx.state(type(g).__name__, len(shp))


@section(quick=1200, thorough=20000)
def rejects(ctx):
    """Incompatible shapes are rejected, never mis-tiled."""
    rng = ctx.rng
    shp = gen.shape(rng, 1, 4)
    mode = rng.randrange(5)
    x = torch.arange(int(np.prod(shp)), dtype=torch.float32).reshape(shp)
    ctx.note(shape=shp, mode=mode)
    if mode == 0:  # non-dividing tile
        d = rng.randrange(len(shp))
        bad = [k for k in range(2, shp[d] + 4) if shp[d] % k]
        if not bad:
            bad = [shp[d] + 1]
        tile = list(rng.choice(gen.divisors(n)) for n in shp)
        tile[d] = rng.choice(bad)
        ctx.note(tile=tile)
        ctx.raises(ValueError, lambda: T.tiles_to_rows(x, torch.Size(tile)), "non-dividing")
        ctx.raises(ValueError, lambda: G.PerTile(tuple(tile)).tile_size(x.shape), "non-dividing-granularity")
        ctx.raises(ValueError, lambda: T.check_tile_compatibility(x.shape, torch.Size(tile)), "non-dividing-check")
    elif mode == 1:  # wrong rank
        tile = list(shp) + [1] if rng.random() < 0.5 else list(shp)[:-1]
        ctx.raises(ValueError, lambda: T.tiles_to_rows(x, torch.Size(tile)), "rank")
        ctx.raises(ValueError, lambda: G.PerTile(tuple(tile)).tile_size(x.shape), "rank-granularity")
    elif mode == 2:  # block size
        d = rng.randrange(len(shp))
        g = G.PerBlock(d, shp[d] + rng.randint(1, 3))
        ctx.raises(ValueError, lambda: g.tile_size(x.shape), "block-too-large")
        bad = [k for k in range(2, shp[d]) if shp[d] % k]
        if bad:
            b = rng.choice(bad)
            ctx.raises(ValueError, lambda: G.PerBlock(d, b).tile_size(x.shape), "strict-block")
            g2 = G.PerBlock(d, b, strict_blocks=False)
            ctx.equal(tuple(g2.tile_size(x.shape)), tuple(b if i == d else n for i, n in enumerate(shp)), "permissive-block")
            # permissive blocks still cannot be used to quantize this tensor
            ctx.raises(Exception, lambda: ff.quantization.affine.quantize_per_granularity(x, torch.ones(1), None, g2), "permissive-quantize")
        ctx.raises(ValueError, lambda: G.PerBlock((0, 1), (2,)), "dims-sizes-mismatch")
    elif mode == 3:  # row view of the wrong size
        _, tile, _ = gen.granularity(rng, shp)
        r = T.tiles_to_rows(x, torch.Size(tile))
        bad_r = r[:, :-1] if r.shape[1] > 1 and rng.random() < 0.5 else torch.cat([r, r[:1]])
        ctx.raises(ValueError, lambda: T.rows_to_tiles(bad_r, x.shape, torch.Size(tile)), "wrong-rows") if bad_r.numel() else None
    else:  # number of parameters does not fit
        gr, tile, desc = gen.granularity(rng, shp)
        n = gen.n_tiles(shp, tile)
        k = n + rng.randint(1, 3)
        if n == 1:
            ctx.raises(Exception, lambda: _strict_single(x, k, gr), "too-many-params")
        else:
            ctx.raises(Exception, lambda: ff.quantization.affine.quantize_per_granularity(x, torch.ones(k), None, gr), "wrong-param-count")
    ctx.state(mode, len(shp))


def _strict_single(x, k, gr):
    q = ff.quantization.affine.quantize_per_granularity(x, torch.ones(k), None, gr)
    return q


@section(quick=800, thorough=10000)
def equality(ctx):
    """Granularities comparing equal describe the same tiling on every shape; quantizers agree on counts."""
    rng = ctx.rng
    shp = gen.shape(rng, 2, 4)
    a, ta, da = gen.granularity(rng, shp)
    b, tb, db = gen.granularity(rng, shp, kinds=(type(a).__name__[3:].lower(),)) if rng.random() < 0.8 else gen.granularity(rng, shp)
    ctx.note(shape=shp, a=da, b=db)
    if a == b:
        ctx.equal(ta, tb, "equal-implies-same-tiling")
        ctx.event("equal")
    else:
        ctx.event("unequal")
    ctx.check(a == a and not (a != a), "reflexive")
    ctx.check((a == b) == (b == a), "symmetric")
    import copy

    ctx.check(copy.deepcopy(a) == a, "copy-equal")
    q = ff.nn.LinearQuantizer(4, granularity=a)
    n = gen.n_tiles(shp, ta)
    q.quantization_range = (torch.full((n,), -1.0), torch.full((n,), 1.0))
    ctx.equal(q.scale.numel(), n, "quantizer-param-count")
    dq = ff.quantization.affine.dynamic.quantize_per_granularity(torch.randn(shp), a, 4)
    ctx.equal(dq.quantization_context.quantization_params.scale.numel(), n, "dynamic-param-count")
    ctx.equal(ff.quantization.granularity.is_per_channel(a), isinstance(a, G.PerChannel), "kind")
    ctx.state(da[:8], db[:8], a == b)
