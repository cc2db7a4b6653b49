"""C01: quantization lands on the tile's grid."""

import torch

import fastforward as ff

from ffmon import gen
from ffmon.core import section

META = {
    "technique": "runtime monitoring: elementwise reference-grid oracle over seeded executions",
    "level_note": "Held on the generated executions: every element of every quantized tensor is compared with an independent index-arithmetic model (bit-exact on dyadic inputs incl. ties, within float rounding elsewhere). Trusts torch elementwise arithmetic.",
    "rule": "distinct (entry point, granularity kind, ndim, bit width, dtype, offset kind, layout) signatures",
    "assumptions": ["CPU kernels", "scale != 0"],
}

A = ff.quantization.affine


def _entry(ctx, x, sc, off, gr, tile, bits, qdt=None):
    """Quantize through one of the public entry points."""
    rng = ctx.rng
    opts = ["granularity", "context", "quantizer", "by_tile"]
    kind = type(gr).__name__
    if kind == "PerTensor":
        opts += ["per_tensor", "float", "float"]
    if kind == "PerChannel":
        opts += ["per_channel"]
    e = rng.choice(opts)
    if e == "granularity":
        return e, A.quantize_per_granularity(x, sc, off, gr, bits, qdt)
    if e == "by_tile":
        return e, A.quantize_by_tile(x, sc, off, torch.Size(tile), bits, qdt)
    if e == "per_tensor":
        return e, A.quantize_per_tensor(x, sc, off, bits, qdt)
    if e == "float":
        return e, A.quantize_per_tensor(x, float(sc[0]), None if off is None else float(off[0]), bits, qdt)
    if e == "per_channel":
        return e, A.quantize_per_channel(x, sc, off, gr.channel_dims, bits, qdt)
    if e == "context":
        c = A.quantization_context(sc, off, gr, bits, output_dtype=qdt)
        return e, c.quantization_fn.quantize(x, c.quantization_params)
    q = ff.nn.LinearQuantizer(
        bits, symmetric=off is None, allow_one_sided=False, granularity=gr, quantized_dtype=qdt, param_dtype=sc.dtype
    )
    q.quantization_range = (torch.full((sc.numel(),), -1.0), torch.full((sc.numel(),), 1.0))
    with torch.no_grad():
        q.scale.copy_(sc.reshape(-1))
        if off is not None:
            q.offset.copy_(off.reshape(-1))
    return e, q(x)


@section(quick=1600, thorough=40000)
def exact_grid(ctx):
    """Dyadic scales, integer or fractional offsets, tie values: bit-exact."""
    rng = ctx.rng
    shp = gen.shape(rng)
    gr, tile, desc = gen.granularity(rng, shp)
    n = gen.n_tiles(shp, tile)
    bits = rng.choice([2, 3, 4, 5, 7, 8, 10])
    single = n > 1 and rng.random() < 0.1
    sc, off = gen.dyadic_params(rng, 1 if single else n, bits, negative=rng.random() < 0.3)
    if off is not None and rng.random() < 0.4:  # fractional offsets are rounded
        off = off + torch.tensor([rng.choice([-0.25, 0.0, 0.25, 0.4, 0.5, -0.5]) for _ in range(off.numel())])
    grid = gen.Grid(gen.tile_index(shp, tile), sc, off, bits)
    x = gen.dyadic_data(rng, grid)
    if rng.random() < 0.2:
        m = torch.rand(shp)
        x = torch.where(m < 0.1, torch.tensor(float("inf")), torch.where(m > 0.9, torch.tensor(float("-inf")), x))
    x = gen.noncontiguous(rng, x)
    layout = x.is_contiguous()
    rg = rng.random() < 0.3
    if rg:
        x = x.detach().clone().requires_grad_() if layout else x.detach().requires_grad_()
    before = gen.fingerprint(x)
    if single:
        e, qt = "single-param", A.quantize_by_tile(x, sc, off, torch.Size(tile), bits)
    else:
        e, qt = _entry(ctx, x, sc, off, gr, tile, bits)
    ctx.note(shape=shp, gran=desc, bits=bits, scale=sc.tolist()[:6], offset=None if off is None else off.tolist()[:6], entry=e)
    ctx.check(isinstance(qt, ff.QuantizedTensor), "quantized-type", type(qt).__name__)
    want = grid.quant(x)
    ctx.same(qt.raw_data, want, "grid-integer")
    ctx.same(qt.int_repr(), want, "int-repr")
    dq = qt.dequantize()
    ctx.same(dq, grid.dequant(want), "grid-value")
    ctx.check(dq.dtype == x.dtype, "dequant-dtype", f"{dq.dtype} vs {x.dtype}")
    ctx.check(tuple(dq.shape) == shp and tuple(qt.shape) == shp, "shape")
    ctx.check(gen.fingerprint(x) == before, "input-unchanged")
    if not single:
        c = qt.quantization_context
        q2 = c.quantization_fn.quantize(dq, c.quantization_params)
        ctx.same(q2.raw_data, want, "requantize-idempotent")
    if off is not None:
        ctx.event("with-offset")
    ctx.event("saturated", int(((want == grid.lo) | (want == grid.hi)).sum()))
    ctx.event("elements", want.numel())
    ctx.event("ties", int(((grid.pre(x) - grid.pre(x).floor()) == 0.5).sum()))
    ctx.state(e, type(gr).__name__, len(shp), bits, off is not None, layout, rg)


@section(quick=1600, thorough=30000)
def real_grid(ctx):
    """Arbitrary scales/offsets/dtypes: nearest grid point up to float rounding of the quotient."""
    rng = ctx.rng
    shp = gen.shape(rng)
    gr, tile, desc = gen.granularity(rng, shp)
    n = gen.n_tiles(shp, tile)
    dt = rng.choice([torch.float32, torch.float32, torch.float64, torch.float64, torch.bfloat16, torch.float16])
    bits = rng.choice([2, 3, 4, 8] if dt in (torch.bfloat16, torch.float16) else [2, 3, 4, 6, 8, 12, 16])
    mag = 10 ** rng.uniform(-2, 2) if dt in (torch.bfloat16, torch.float16) else 10 ** rng.uniform(-6, 6)
    sc = ((torch.rand(n, dtype=torch.float64) + 0.05) * mag).to(dt)
    off = None
    if rng.random() < 0.6:
        off = ((torch.rand(n) - 0.5) * min(2.0**bits, 200)).to(dt)
    grid = gen.Grid(gen.tile_index(shp, tile), sc, off, bits)
    x = (torch.randn(shp).double() * 2 ** (bits - 1) * rng.choice([0.2, 0.5, 1.5]) + (grid.o())).mul(grid.s()).to(dt)
    if rng.random() < 0.5:  # just beside a tie
        k = torch.randint(-(2 ** (bits - 1)), 2 ** (bits - 1), shp).double()
        side = torch.where(torch.rand(shp) < 0.5, -1.0, 1.0).double() * rng.choice([1e-2, 1e-4, 1e-6])
        x = ((k + 0.5 + side + grid.o()) * grid.s()).to(dt)
    x = gen.noncontiguous(rng, x)
    if dt == torch.float16 and bool((x.abs() > 30000).any()):
        x = x.clamp(-30000, 30000)
    e, qt = _entry(ctx, x, sc, off, gr, tile, bits)
    ctx.note(shape=shp, gran=desc, bits=bits, dtype=str(dt), scale=sc.tolist()[:6], offset=None if off is None else off.tolist()[:6], entry=e)
    q = qt.raw_data.double()
    pre = grid.pre(x)
    ctx.check(bool((q == q.round()).all()), "integer-valued")
    ctx.check(bool((q >= grid.lo).all() and (q <= grid.hi).all()), "in-range")
    eps = torch.finfo(dt).eps
    tol = eps * 4 * (pre.abs() + 2 * grid.o().abs() + 1) + 1e-9
    clamped = pre.clamp(grid.lo, grid.hi)
    err = (q - clamped).abs()
    ctx.check(bool((err <= 0.5 + tol).all()), "nearest-grid-point", f"max err {err.max().item()}")
    deq = qt.dequantize()
    ctx.check(deq.dtype == dt, "dequant-dtype", str(deq.dtype))
    ctx.close(deq, grid.dequant(q), "grid-value", rtol=4 * eps, atol=float(eps * 4 * (grid.o().abs() + 1).max() * grid.s().abs().max()))
    ctx.event("elements", q.numel())
    ctx.state(e, type(gr).__name__, len(shp), bits, str(dt), off is not None)


@section(quick=200, thorough=3000)
def per_block_api(ctx):
    """quantize_per_block: one parameter per (channel, block)."""
    rng = ctx.rng
    while True:
        shp = gen.shape(rng, 2, 4)
        ca, ba = rng.sample(range(len(shp)), 2)
        bs = rng.choice(gen.divisors(shp[ba]))
        break
    tile = tuple(1 if d == ca else bs if d == ba else n for d, n in enumerate(shp))
    n = gen.n_tiles(shp, tile)
    bits = rng.choice([2, 4, 8])
    sc, off = gen.dyadic_params(rng, n, bits, with_offset=True)
    if rng.random() < 0.3:
        ca, ba = ca - len(shp), ba - len(shp)
    grid = gen.Grid(gen.tile_index(shp, tile), sc, off, bits)
    x = gen.dyadic_data(rng, grid)
    ctx.note(shape=shp, ca=ca, ba=ba, bs=bs, bits=bits)
    qt = A.quantize_per_block(x, sc, off, ca, ba, bs, bits)
    ctx.same(qt.raw_data, grid.quant(x), "grid-integer")
    ctx.same(qt.dequantize(), grid.qdq(x), "grid-value")
    ctx.state(len(shp), ca, ba, bits)


@section(quick=150, thorough=2000)
def histories(ctx):
    """One quantizer used over a history of inputs and parameter updates: no stale parameters."""
    rng = ctx.rng
    shp = gen.shape(rng)
    q, grid, desc = gen.linear_quantizer(rng, shp)
    held = []
    for step in range(rng.randint(2, 6)):
        if rng.random() < 0.5:
            sc, off = gen.dyadic_params(rng, grid.scale.numel(), grid.bits, with_offset=q.offset is not None)
            if rng.random() < 0.5:
                with torch.no_grad():
                    q.scale.copy_(sc)
                    if off is not None:
                        q.offset.copy_(off)
                held.clear()
            else:
                q.scale = torch.nn.Parameter(sc)
                if off is not None:
                    if "offset" in q._buffers:
                        q.offset = off
                    else:
                        q.offset = torch.nn.Parameter(off)
            grid = gen.Grid(grid.tiles, sc, off, grid.bits)
        x = gen.dyadic_data(rng, grid)
        out = q(x)
        ctx.note(desc=desc, step=step, shape=shp)
        ctx.same(out.raw_data, grid.quant(x), "grid-integer")
        held.append((out, grid.qdq(x)))
        for o, w in held:
            ctx.same(o.dequantize(), w, "held-value")
        ctx.event("steps")
    ctx.state(desc.split()[0][:8], len(shp))
