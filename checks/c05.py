"""C05: gradients are straight-through / learned-step gradients, per tile."""

import torch

import fastforward as ff

from fastforward.quantization.ste import round_ste, ste

from ffmon import gen
from ffmon.core import section

META = {
    "technique": "runtime monitoring: differential oracle (reference autograd of the STE expression in float64, and per-tile sums by index arithmetic)",
    "level_note": "Every gradient produced by the real backward pass is compared with torch autograd of the elementwise straight-through expression with expanded parameters.",
    "rule": "distinct (granularity, bits, offset, which inputs need grad, entry point, layout) signatures",
    "assumptions": ["float32 parameters", "sums compared up to float rounding"],
}
A = ff.quantization.affine


class _Round(torch.autograd.Function):
    @staticmethod
    def forward(ctx, x):
        return torch.round(x)

    @staticmethod
    def backward(ctx, g):
        return g


def _reference(x, sc, off, tiles, bits, g):
    """Elementwise STE expression, float64, independent of fastforward."""
    x = x.detach().double().requires_grad_()
    s = sc.detach().double().reshape(-1).clone().requires_grad_()
    o = None if off is None else off.detach().double().reshape(-1).clone().requires_grad_()
    t = torch.from_numpy(tiles)
    se = s[t]
    oe = torch.zeros_like(se) if o is None else _Round.apply(o)[t]
    lo, hi = -(2.0 ** (bits - 1)), 2.0 ** (bits - 1) - 1
    pre = _Round.apply(x / se - oe)
    y = (torch.clamp(pre, lo, hi) + oe) * se
    y.backward(g.double())
    return y.detach(), x.grad, s.grad, None if o is None else o.grad


@section(quick=1800, thorough=40000, requires=("saturated", "in-range"))
def static(ctx):
    rng = ctx.rng
    shp = gen.shape(rng, max_numel=300)
    gr, tile, desc = gen.granularity(rng, shp)
    n = gen.n_tiles(shp, tile)
    bits = rng.choice([2, 3, 4, 8])
    dy = rng.random() < 0.5
    sc, off = gen.dyadic_params(rng, n, bits)
    grid = gen.Grid(gen.tile_index(shp, tile), sc, off, bits)
    x = gen.dyadic_data(rng, grid)
    if not dy:
        x = x + torch.randn(shp) * 0.1
        sc = sc * (1 + 0.5 * torch.rand(n))
        if off is not None:
            off = off + (torch.rand(n) - 0.5) * 0.9
        grid = gen.Grid(grid.tiles, sc, off, bits)
        pre = grid.pre(x)
        near = ((pre - pre.floor() - 0.5).abs() < 1e-3)
        x = torch.where(near, x + 0.01 * grid.s().float(), x)
    need_x, need_s, need_o = rng.random() < 0.9, rng.random() < 0.8, rng.random() < 0.8
    if not (need_x or need_s or (need_o and off is not None)):
        need_x = True
    x = gen.noncontiguous(rng, x).detach().requires_grad_(need_x)
    g = torch.randint(-3, 4, shp).float() if rng.random() < 0.5 else torch.randn(shp)
    entry = rng.choice(["quantizer", "granularity"])
    if entry == "quantizer":
        q = ff.nn.LinearQuantizer(bits, symmetric=off is None, allow_one_sided=False, granularity=gr)
        q.quantization_range = (torch.full((n,), -1.0), torch.full((n,), 1.0))
        with torch.no_grad():
            q.scale.copy_(sc)
            if off is not None:
                q.offset.copy_(off)
        q.scale.requires_grad_(need_s)
        S, O = q.scale, q.offset
        if O is not None:
            O.requires_grad_(need_o)
        out = q(x)
    else:
        S = sc.clone().requires_grad_(need_s)
        O = None if off is None else off.clone().requires_grad_(need_o)
        out = A.quantize_per_granularity(x, S, O, gr, bits)
    ctx.note(desc=desc, shape=shp, bits=bits, dyadic=dy, needs=(need_x, need_s, need_o), entry=entry)
    y = out.dequantize()
    if not y.requires_grad:
        ctx.check(not (need_x or need_s or (need_o and off is not None)), "graph-connected")
        return
    times = rng.choice([1, 1, 2])
    for _ in range(times):  # accumulation: same graph used repeatedly
        y.backward(gen.noncontiguous(rng, g), retain_graph=True)
    yr, gx, gs, go = _reference(x, sc, off, grid.tiles, bits, g)
    ctx.close(y, yr, "value", rtol=1e-5, atol=1e-5 * float((grid.s().abs() * (1 + grid.o().abs())).max()))
    if need_x:
        ctx.close(x.grad, gx * times, "data-grad", rtol=1e-5, atol=1e-6)
    else:
        ctx.check(x.grad is None, "no-data-grad")
    mag = float(g.abs().sum() * 2**bits + 1)
    if need_s:
        ctx.check(S.grad is not None and S.grad.shape == S.shape, "scale-grad-shape")
        ctx.close(S.grad.reshape(-1), gs * times, "scale-grad", rtol=1e-4, atol=2e-6 * mag)
    if off is not None and need_o:
        ctx.check(O.grad is not None and O.grad.shape == O.shape, "offset-grad-shape")
        ctx.close(O.grad.reshape(-1), go * times, "offset-grad", rtol=1e-4, atol=2e-6 * float(g.abs().sum() * sc.abs().max() + 1))
    r = torch.round(grid.pre(x))
    sat = (r < grid.lo) | (r > grid.hi)
    ctx.event("saturated", int(sat.sum()))
    ctx.event("in-range", int((~sat).sum()))
    ctx.state(desc[:8], bits, off is not None, need_x, need_s, need_o, entry, x.is_contiguous())


@section(quick=400, thorough=8000)
def composed(ctx):
    """Several uses of quantized tensors in one graph: gradients add up like the STE expression."""
    rng = ctx.rng
    m, k, n = rng.randint(1, 5), rng.choice([2, 4, 6]), rng.randint(1, 4)
    bits = rng.choice([3, 4, 8])
    x0, w0 = torch.randn(m, k), torch.randn(n, k)
    gw = ff.PerChannel(0) if rng.random() < 0.5 else ff.PerTensor()
    nw = n if isinstance(gw, ff.PerChannel) else 1
    qx = ff.nn.LinearQuantizer(bits, symmetric=False)
    qw = ff.nn.LinearQuantizer(bits, granularity=gw, allow_one_sided=False)
    qx.quantization_range = (-1.5, 1.2)
    qw.quantization_range = (torch.full((nw,), -1.3), torch.full((nw,), 1.1) + torch.rand(nw))
    qo = ff.nn.LinearQuantizer(bits, symmetric=False)
    qo.quantization_range = (-2.0, 2.5)
    x, w = x0.clone().requires_grad_(), w0.clone().requires_grad_()
    view = rng.choice(["none", "reshape", "transpose"])
    reuse = rng.random() < 0.5
    ctx.note(m=m, k=k, n=n, bits=bits, gw=repr(gw), view=view, reuse=reuse)
    xq, wq = qx(x), qw(w)
    out = ff.nn.functional.linear(xq, wq, output_quantizer=qo)
    y = out.dequantize()
    if view == "reshape":
        y = y.reshape(-1)
    elif view == "transpose":
        y = y.t()
    loss = (y * torch.arange(1.0, y.numel() + 1).reshape(y.shape)).sum()
    if reuse:
        loss = loss + (xq.dequantize() ** 2).sum()
    loss.backward()

    def qdq(v, q, tiles):
        s, o = q.scale.detach().double(), q.offset
        t = torch.from_numpy(tiles)
        se = s.requires_grad_()[t]
        o2 = None
        if o is None:
            oe = torch.zeros_like(se)
        else:
            o2 = o.detach().double().requires_grad_()
            oe = _Round.apply(o2)[t]
        lo, hi = -(2.0 ** (bits - 1)), 2.0 ** (bits - 1) - 1
        return (torch.clamp(_Round.apply(v / se - oe), lo, hi) + oe) * se, s, o2

    x2, w2 = x0.double().requires_grad_(), w0.double().requires_grad_()
    tw = gen.tile_index((n, k), (1, k) if nw == n and isinstance(gw, ff.PerChannel) else (n, k))
    xd, sx, ox = qdq(x2, qx, gen.tile_index((m, k), (m, k)))
    wd, sw, _ = qdq(w2, qw, tw)
    yd, so, oo = qdq(torch.nn.functional.linear(xd, wd), qo, gen.tile_index((m, n), (m, n)))
    if bool(((torch.nn.functional.linear(xd, wd) / so - oo.round()).remainder(1) - 0.5).abs().min() < 1e-3):
        return  # a rounding tie in float32 could go either way
    yy = yd.reshape(-1) if view == "reshape" else yd.t() if view == "transpose" else yd
    l2 = (yy * torch.arange(1.0, yy.numel() + 1).reshape(yy.shape)).sum()
    if reuse:
        l2 = l2 + (xd**2).sum()
    l2.backward()
    ctx.close(loss, l2, "loss", rtol=1e-4, atol=1e-3)
    for got, want, name in [
        (x.grad, x2.grad, "x"), (w.grad, w2.grad, "w"), (qx.scale.grad, sx.grad, "sx"), (qx.offset.grad, ox.grad, "ox"),
        (qw.scale.grad, sw.grad, "sw"), (qo.scale.grad, so.grad, "so"), (qo.offset.grad, oo.grad, "oo"),
    ]:
        ctx.close(got, want, "grad-" + name, rtol=1e-3, atol=1e-3 * (1 + float(want.abs().max())))
    ctx.state(m > 1, k, n, bits, repr(gw), view, reuse)


@section(quick=400, thorough=5000)
def dynamic_and_ste(ctx):
    """Dynamic quantizers pass gradients through; ste-wrapped functions are identity backwards."""
    rng = ctx.rng
    shp = gen.shape(rng, max_numel=200)
    if rng.random() < 0.5:
        gr, tile, desc = gen.granularity(rng, shp)
        x = torch.randn(shp).requires_grad_()
        q = ff.nn.DynamicLinearQuantizer(rng.choice([2, 4, 8]), granularity=gr, symmetric=rng.random() < 0.5)
        g = torch.randn(shp)
        ctx.note(desc=desc, shape=shp)
        q(x).dequantize().backward(g)
        ctx.same(x.grad, g, "dynamic-identity")
        ctx.state("dyn", desc[:8], len(shp))
    else:
        fn, name = rng.choice([(torch.round, "round"), (torch.sign, "sign"), (torch.floor, "floor"), (lambda t: t * 0 + 3, "const")])
        w = round_ste if name == "round" and rng.random() < 0.5 else ste(fn)
        x = torch.randn(shp).requires_grad_()
        g = torch.randn(shp)
        y = w(x)
        ctx.same(y, fn(x.detach()), "ste-value")
        y.backward(g)
        ctx.same(x.grad, g, "ste-identity")
        ctx.raises(RuntimeError, lambda: ste(lambda t: t.sum())(x), "ste-shape-mismatch")
        ctx.state("ste", name, len(shp))
