"""C04: storage never wraps."""

import torch

import fastforward as ff

from ffmon import gen
from ffmon.core import section

META = {
    "technique": "runtime monitoring: differential oracle against unrestricted (float64) storage",
    "level_note": "All storage types x bit widths 2..18 are driven with saturating data; a stored integer differing from the float64 storage run is a violation, refusal is accepted only when the type cannot hold the range.",
    "rule": "distinct (storage dtype, bits, entry point, granularity, accepted/refused) signatures",
}
A = ff.quantization.affine
DTYPES = [torch.int8, torch.uint8, torch.int16, torch.int32, torch.int64, torch.float16, torch.bfloat16, torch.float32, torch.float64]
CAP = {torch.int8: 8, torch.uint8: 0, torch.int16: 16, torch.int32: 32, torch.int64: 64, torch.float16: 12, torch.bfloat16: 9, torch.float32: 25, torch.float64: 54}


@section(quick=2500, thorough=30000, requires=("accepted", "refused"))
def storage(ctx):
    rng = ctx.rng
    c = ctx.case
    dt = DTYPES[c % len(DTYPES)]
    bits = 2 + (c // len(DTYPES)) % 17
    shp = gen.shape(rng, max_numel=200)
    gr, tile, desc = gen.granularity(rng, shp)
    n = gen.n_tiles(shp, tile)
    sc, off = gen.dyadic_params(rng, n, bits)
    grid = gen.Grid(gen.tile_index(shp, tile), sc, off, bits)
    x = gen.dyadic_data(rng, grid)
    flat = x.reshape(-1)
    flat[0] = float("-inf") if rng.random() < 0.5 else grid.dequant(torch.full(shp, grid.lo)).reshape(-1)[0]
    flat[-1] = float("inf") if rng.random() < 0.5 else grid.dequant(torch.full(shp, grid.hi)).reshape(-1)[-1]
    x = flat.reshape(shp)
    e = rng.choice(["static", "quantizer", "dynamic", "dynamic-quantizer"])
    ctx.note(dtype=str(dt), bits=bits, desc=desc, shape=shp, entry=e)
    if e.startswith("dynamic"):
        x = x.clamp(-1e4, 1e4)

    def run(d):
        if e == "static":
            return A.quantize_per_granularity(x, sc, off, gr, bits, d)
        if e == "quantizer":
            q = ff.nn.LinearQuantizer(bits, symmetric=off is None, allow_one_sided=False, granularity=gr, quantized_dtype=d)
            q.quantization_range = (torch.full((n,), -1.0), torch.full((n,), 1.0))
            with torch.no_grad():
                q.scale.copy_(sc)
                if off is not None:
                    q.offset.copy_(off)
            return q(x)
        if e == "dynamic":
            return A.dynamic.quantize_per_granularity(x, gr, bits, off is None, False, d)
        return ff.nn.DynamicLinearQuantizer(bits, granularity=gr, symmetric=off is None, quantized_dtype=d)(x)

    ref = run(torch.float64)
    fits = bits <= CAP[dt]
    try:
        got = run(dt)
    except RuntimeError as err:
        ctx.check(not fits or dt == torch.uint8, "refused-only-when-too-small", f"{err}")
        ctx.event("refused")
        ctx.state(str(dt), bits, e, "refused")
        return
    ctx.event("accepted")
    ctx.check(got.raw_data.dtype == dt, "storage-dtype", str(got.raw_data.dtype))
    ctx.same(got.raw_data, ref.raw_data, "stored-integer-exact")
    ctx.same(got.int_repr(), ref.raw_data, "int-repr-exact")
    if e in ("static", "quantizer"):
        ctx.same(got.raw_data, grid.quant(x), "reference-integer")
    d1, d2 = got.dequantize(), ref.dequantize()
    ctx.check(d1.dtype == x.dtype, "dequant-dtype", str(d1.dtype))
    ctx.same(d1, d2, "dequantized-equal")
    ctx.state(str(dt), bits, e, type(gr).__name__)


@section(quick=500, thorough=6000)
def dequantize_type(ctx):
    """Explicit dequantization type: the value is the grid value cast to that type."""
    rng = ctx.rng
    shp = gen.shape(rng, max_numel=200)
    gr, tile, desc = gen.granularity(rng, shp)
    n = gen.n_tiles(shp, tile)
    bits = rng.choice([2, 4, 8])
    sc, off = gen.dyadic_params(rng, n, bits)
    grid = gen.Grid(gen.tile_index(shp, tile), sc, off, bits)
    x = gen.dyadic_data(rng, grid, dtype=rng.choice([torch.float32, torch.float64]))
    qd = rng.choice([None, torch.int8, torch.int16, torch.int32, torch.float32, torch.bfloat16])
    dd = rng.choice([None, torch.float32, torch.float64, torch.bfloat16, torch.float16])
    ctx.note(desc=desc, shape=shp, bits=bits, quantized=str(qd), dequantized=str(dd))
    if rng.random() < 0.7:
        c = A.quantization_context(sc, off, gr, bits, output_dtype=qd, dequantize_dtype=dd)
        want_q = grid.quant(x)
        qt = c.quantization_fn.quantize(x, c.quantization_params)
        ctx.same(qt.raw_data, want_q, "stored-integer-exact")
    else:
        c = A.dynamic.quantization_context(gr, bits, symmetric=True, quantized_dtype=qd, dequantize_dtype=dd)
        qt = c.quantization_fn.quantize(x, c.quantization_params)
        p = qt.quantization_context.quantization_params
        grid = gen.Grid(grid.tiles, p.scale, p.offset, bits)
        want_q = qt.raw_data.double()
    y = qt.dequantize()
    ctx.check(y.dtype == (dd or x.dtype), "dequant-dtype", f"{y.dtype}")
    ctx.check(qt.raw_data.dtype == (qd or x.dtype), "storage-dtype", f"{qt.raw_data.dtype}")
    if y.dtype in (torch.float32, torch.float64) and qd in (None, torch.int8, torch.int16, torch.int32, torch.float32):
        ctx.close(y, grid.dequant(want_q), "grid-value", rtol=1e-6, atol=0)
    else:
        ctx.close(y, grid.dequant(want_q), "grid-value", rtol=2e-2, atol=1e-6)
    ctx.state(str(qd), str(dd), str(x.dtype), type(gr).__name__)
