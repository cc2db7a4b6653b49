"""C03: range -> parameters is usable, covering and tight."""

import torch

import fastforward as ff

from ffmon import gen
from ffmon.core import Skip, section

META = {
    "technique": "runtime monitoring: coverage/tightness oracle on derived parameters",
    "level_note": "For every generated range and tensor the derived scale/offset are checked for finiteness, positivity, coverage to half a step and tightness, and the quantized data for its clipping error.",
    "rule": "distinct (symmetric, one-sided, bits, range class, granularity) signatures",
    "assumptions": ["bit width >= 2", "min <= max", "magnitudes representable in float32"],
}
A = ff.quantization.affine
EPS = torch.finfo(torch.float32).eps


def _range(rng, n):
    kind = rng.choice(["two", "two", "pos", "neg", "zero", "point", "tiny", "huge", "mixed"])

    def one(k):
        m = 10 ** rng.uniform(-4, 4)
        if k == "two":
            return -rng.random() * m, rng.random() * m
        if k == "pos":
            a = rng.random() * m if rng.random() < 0.6 else 0.0
            return a, a + rng.random() * m
        if k == "neg":
            b = -rng.random() * m if rng.random() < 0.6 else 0.0
            return b - rng.random() * m, b
        if k == "zero":
            return 0.0, 0.0
        if k == "point":
            v = rng.choice([-1, 1]) * m
            return v, v
        if k == "tiny":
            return -rng.random() * 1e-20, rng.random() * 1e-20
        return -rng.random() * 1e30, rng.random() * 1e30

    if kind == "mixed":
        ks = [rng.choice(["two", "pos", "neg", "zero", "point"]) for _ in range(n)]
    else:
        ks = [kind] * n
    r = [one(k) for k in ks]
    lo = torch.tensor([a for a, _ in r], dtype=torch.float32)
    hi = torch.tensor([b for _, b in r], dtype=torch.float32)
    return kind, torch.minimum(lo, hi), torch.maximum(lo, hi)


def _verify(ctx, lo, hi, scale, offset, bits, symmetric, one_sided, tag=""):
    """The oracle."""
    scale = scale.detach().double().reshape(-1)
    lo, hi = lo.double().reshape(-1), hi.double().reshape(-1)
    ctx.check(bool(torch.isfinite(scale).all() and (scale > 0).all()), tag + "scale-positive-finite", scale=scale.tolist())
    imin, imax = -(2.0 ** (bits - 1)), 2.0 ** (bits - 1) - 1
    unsigned = symmetric and one_sided and bool((lo >= 0).all())
    if offset is None:
        off = torch.zeros_like(scale)
    else:
        off = offset.detach().double().reshape(-1)
        ctx.check(bool(torch.isfinite(off).all()), tag + "offset-finite")
        off = off.round()
    if symmetric and not unsigned:
        ctx.check(bool((off == 0).all()), tag + "symmetric-no-offset")
    if unsigned:
        ctx.check(bool((off == imin * -1).all() or (off == -imin).all()), tag + "unsigned-offset", offset=off.tolist())
    gmin, gmax = (imin + off) * scale, (imax + off) * scale
    # float32 computation of offset = min/scale - int_min loses up to eps * |min|/scale steps
    slack = scale * (0.5 + 1e-5) + 8 * EPS * (lo.abs() + hi.abs()) + (0 if offset is None else 8 * EPS * scale * 2.0**bits)
    ctx.check(bool((gmin <= lo + slack).all()), tag + "covers-min", f"grid min {gmin.tolist()} range {lo.tolist()}")
    ctx.check(bool((gmax >= hi - slack).all()), tag + "covers-max", f"grid max {gmax.tolist()} range {hi.tolist()}")
    # tightness
    if symmetric and not unsigned:
        need = torch.maximum(lo.abs() / -imin, hi.abs() / imax)
    elif unsigned:
        need = hi / (2.0**bits - 1)
    else:
        need = (hi - lo) / (2.0**bits - 1)
    floor = 2 * EPS  # degenerate ranges may use a tiny positive step instead
    ctx.check(bool((scale <= torch.maximum(need * (1 + 1e-5), need + floor)).all()), tag + "tight", f"scale {scale.tolist()} need {need.tolist()}")
    ctx.check(bool((scale >= need * (1 - 1e-5)).all()), tag + "wide-enough")
    return gmin, gmax, scale


@section(quick=3000, thorough=60000)
def parameters(ctx):
    rng = ctx.rng
    n = rng.choice([1, 1, 2, 3, 5])
    kind, lo, hi = _range(rng, n)
    bits = rng.choice([2, 3, 4, 5, 8, 8, 10, 16])
    sym, os = rng.random() < 0.5, rng.random() < 0.5
    ctx.note(kind=kind, lo=lo.tolist(), hi=hi.tolist(), bits=bits, sym=sym, one_sided=os)
    scale, off = A.parameters_for_range(lo, hi, bits, symmetric=sym, allow_one_sided=os)
    gmin, gmax, s = _verify(ctx, lo, hi, scale, off, bits, sym, os)
    r0, r1 = A.quantization_range(scale, off, bits)
    o = torch.zeros_like(s) if off is None else off.double()
    ctx.close(r0, (-(2.0 ** (bits - 1)) + o) * s, "range-of-parameters", rtol=1e-5, atol=0)
    ctx.close(r1, (2.0 ** (bits - 1) - 1 + o) * s, "range-of-parameters", rtol=1e-5, atol=0)
    ctx.equal((A.integer_minimum(bits), A.integer_maximum(bits)), (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1), "integer-bounds")
    if sym or bool((lo <= 0).all() and (hi >= 0).all()):
        if off is not None:
            ro = off.double().round()
            ctx.check(bool(((-ro >= -(2.0 ** (bits - 1)) - 0.5) & (-ro <= 2.0 ** (bits - 1) - 0.5)).all()), "zero-on-grid", f"{off.tolist()}")
        ctx.event("zero-checked")
    ctx.state(kind, bits, sym, os, n > 1)


@section(quick=1200, thorough=20000)
def quantizer_range(ctx):
    """Setting a quantizer's range over a history; reading back; data inside is not clipped."""
    rng = ctx.rng
    shp = gen.shape(rng)
    gr, tile, desc = gen.granularity(rng, shp)
    n = gen.n_tiles(shp, tile)
    bits = rng.choice([2, 3, 4, 8])
    sym, os = rng.random() < 0.5, rng.random() < 0.5
    q = ff.nn.LinearQuantizer(bits, symmetric=sym, allow_one_sided=os, granularity=gr)
    ctx.equal(q.symmetric, sym, "symmetric-property")
    ctx.equal(q.quantization_range, (None, None), "uninitialized-range")
    ctx.equal((q.integer_minimum, q.integer_maximum), (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1), "integer-bounds")
    for step in range(rng.randint(1, 4)):
        kind, lo, hi = _range(rng, n)
        if kind == "huge":
            continue
        ctx.note(desc=desc, kind=kind, lo=lo.tolist()[:5], hi=hi.tolist()[:5], bits=bits, sym=sym, os=os, step=step)
        if n == 1 and rng.random() < 0.3:
            q.quantization_range = (float(lo[0]), float(hi[0]))
        else:
            q.quantization_range = (lo, hi)
        _verify(ctx, lo, hi, q.scale, q.offset, bits, sym, os)
        ctx.equal(q.scale.numel(), n, "param-count")
        g0, g1 = q.quantization_range
        slack = q.scale.detach() * (0.5 + 1e-5) + 8 * EPS * (lo.abs() + hi.abs()) + 8 * EPS * q.scale.detach() * 2.0**bits
        ctx.check(bool((g0 <= lo + slack).all() and (g1 >= hi - slack).all()), "read-back-covers", f"{g0} {g1}")
        # data inside of the range: error at most one step (half a step + half a step of offset rounding)
        t = torch.from_numpy(gen.tile_index(shp, tile))
        u = torch.rand(shp)
        x = lo[t] + u * (hi - lo)[t]
        x = torch.minimum(torch.maximum(x, lo[t]), hi[t])
        y = q(x).dequantize()
        err = (y - x).abs()
        s = q.scale.detach().reshape(-1)
        s = s[t]
        ctx.check(bool(torch.isfinite(y).all()), "finite-result")
        ctx.check(bool((err <= s * 1.0001 + 16 * EPS * (x.abs() + lo[t].abs() + hi[t].abs())).all()), "no-clipping", f"max err {err.max()}")
        if sym:
            ctx.check(bool((err <= s * 0.5001 + 16 * EPS * (x.abs() + hi[t].abs())).all()), "half-step-error")
        op = q.operator_for_range(lo, hi, torch.Size(shp))
        ctx.same(op(x).dequantize(), y, "operator-for-range")
        ctx.event("ranges")
    ctx.state(desc[:8], bits, sym, os)


@section(quick=1500, thorough=30000)
def dynamic(ctx):
    """Data dependent parameters cover each tile of the data."""
    rng = ctx.rng
    shp = gen.shape(rng)
    gr, tile, desc = gen.granularity(rng, shp)
    n = gen.n_tiles(shp, tile)
    t = torch.from_numpy(gen.tile_index(shp, tile))
    bits = rng.choice([2, 3, 4, 8, 8, 12])
    sym, os = rng.random() < 0.5, rng.random() < 0.5
    kind = rng.choice(["normal", "pos", "neg", "const", "zero", "scaled", "mixedzero"])
    x = torch.randn(shp) * 10 ** rng.uniform(-2, 2)
    if kind == "pos":
        x = x.abs()
    elif kind == "neg":
        x = -x.abs()
    elif kind == "const":
        x = torch.full(shp, float(x.flatten()[0]))
    elif kind == "zero":
        x = torch.zeros(shp)
    elif kind == "scaled":
        x = x * (10 ** (torch.rand(n) * 4 - 2))[t]
    elif kind == "mixedzero":
        x = x * (torch.rand(n) < 0.5)[t]
    x = gen.noncontiguous(rng, x)
    e = rng.choice(["quantizer", "granularity", "by_tile", "fn"])
    ctx.note(desc=desc, shape=shp, bits=bits, sym=sym, os=os, kind=kind, entry=e)
    D = A.dynamic
    if e == "quantizer":
        qt = ff.nn.DynamicLinearQuantizer(bits, granularity=gr, symmetric=sym, allow_one_sided=os)(x)
    elif e == "granularity":
        qt = D.quantize_per_granularity(x, gr, bits, sym, os)
    elif e == "by_tile":
        qt = D.quantize_by_tile(x, torch.Size(tile), bits, sym, os)
    else:
        c = D.quantization_context(gr, bits, sym, os)
        qt = c.quantization_fn.quantize(x, c.quantization_params)
    p = qt.quantization_context.quantization_params
    lo = torch.stack([x.reshape(shp)[t == i].min() for i in range(n)])
    hi = torch.stack([x.reshape(shp)[t == i].max() for i in range(n)])
    _verify(ctx, lo, hi, p.scale, p.offset, bits, sym, os)
    grid = gen.Grid(t.numpy(), p.scale, p.offset, bits)
    y = qt.dequantize()
    q = qt.raw_data.double()
    ctx.check(bool((q == q.round()).all() and (q >= grid.lo).all() and (q <= grid.hi).all()), "grid-integer")
    ctx.close(y, grid.dequant(q), "grid-value", rtol=1e-5, atol=1e-5 * float((grid.s() * (grid.o().abs() + 1)).max()))
    pre = grid.pre(x)
    tol = 8 * EPS * (pre.abs() + 2 * grid.o().abs() + 1) + 1e-9
    ctx.check(bool(((q - pre.clamp(grid.lo, grid.hi)).abs() <= 0.5 + tol).all()), "nearest")
    err = (y.double() - x.double()).abs()
    ctx.check(bool((err <= grid.s() * (1 + 1e-4) + 32 * EPS * (x.abs() + hi[t].abs() + lo[t].abs())).all()), "no-clipping", f"{err.max()}")
    # the same data quantized as static with these parameters gives the same integers
    st = A.quantize_by_tile(x, p.scale, p.offset, torch.Size(tile), bits)
    ctx.same(st.raw_data, qt.raw_data, "dynamic-equals-static")
    ctx.state(desc[:8], bits, sym, os, kind, e)


@section(quick=250, thorough=3000)
def dynamic_api(ctx):
    """Axis based dynamic entry points, custom inference functions, refusals."""
    rng = ctx.rng
    D = A.dynamic
    shp = gen.shape(rng, 2, 4)
    x = torch.randn(shp)
    bits = rng.choice([2, 4, 8])
    sym, os = rng.random() < 0.5, rng.random() < 0.5
    m = rng.randrange(5)
    ctx.note(shape=shp, m=m, bits=bits, sym=sym, os=os)
    if m == 0:
        ca, ba = rng.sample(range(len(shp)), 2)
        bs = rng.choice(gen.divisors(shp[ba]))
        tile = tuple(1 if d == ca else bs if d == ba else n for d, n in enumerate(shp))
        qt = D.quantize_per_block(x, ca, ba, bs, bits, sym, os)
        ctx.same(qt.dequantize(), D.quantize_by_tile(x, torch.Size(tile), bits, sym, os).dequantize(), "per-block")
    elif m == 1:
        ax = rng.randrange(len(shp))
        tile = tuple(1 if d == ax else n for d, n in enumerate(shp))
        qt = D.quantize_per_channel(x, ax, bits, sym, os)
        ctx.same(qt.dequantize(), D.quantize_by_tile(x, torch.Size(tile), bits, sym, os).dequantize(), "per-channel")
    elif m == 2:
        qt = D.quantize_per_tensor(x, bits, sym, os)
        ctx.same(qt.dequantize(), D.quantize_by_tile(x, torch.Size(shp), bits, sym, os).dequantize(), "per-tensor")
    elif m == 3:
        gr, tile, desc = gen.granularity(rng, shp)
        n = gen.n_tiles(shp, tile)
        sc, off = gen.dyadic_params(rng, n, bits)
        seen = []

        def infer(params, data):
            seen.append((params, data))
            return sc, off

        qt = ff.nn.DynamicLinearQuantizer(bits, granularity=gr, symmetric=sym, allow_one_sided=os, parameter_inference_fn=infer)(x)
        ctx.equal(len(seen), 1, "inference-called-once")
        ctx.check(seen[0][1] is x or torch.equal(seen[0][1], x), "inference-data")
        ctx.equal((seen[0][0].num_bits, seen[0][0].symmetric, seen[0][0].allow_one_sided), (bits, sym, os), "inference-params")
        grid = gen.Grid(gen.tile_index(shp, tile), sc, off, bits)
        ctx.same(qt.dequantize(), grid.qdq(x), "inference-used")
    else:
        bad = list(shp)
        bad[rng.randrange(len(bad))] = 0
        ctx.raises(
            ff.exceptions.QuantizationError,
            lambda: ff.nn.DynamicLinearQuantizer(bits, symmetric=sym)(torch.zeros(bad)),
            "empty-refused",
        )
    ctx.state(m, bits, sym, os)
