"""C19: GPTQ yields weights on the quantizer's grid by the documented column procedure and changes nothing else."""

import copy
import math

import torch

import fastforward as ff

from fastforward.quantization.gptq import gptq

from ffmon import gen
from ffmon.core import section

META = {
    "technique": "runtime monitoring: every run of the optimiser is replayed column by column in float64 by a certificate checker that takes the implementation's roundings and requires each to be the nearest grid point of the error-compensated weight",
    "level_note": "Random linear and (grouped, strided, padded, dilated) convolution layers, granularities, bit widths, block sizes, ordering, damping and calibration sets (correlated, rank deficient, dead inputs, views, half precision) are optimised. The monitor recomputes the Hessian from the layer's own definition, follows the documented column-by-column procedure in float64 with the values actually chosen, requires nearest-grid roundings and parameters covering the group they were computed for, re-quantisation to be the identity, all other tensors (calibration data, bias, other quantizers) to be bit-identical, and the result to be independent of batching; aggregated error is compared with plain rounding.",
    "rule": "distinct (layer kind, granularity, bits, block size, ordering, data kind) signatures",
}


def correlated(rng, n, f, kind):
    x = torch.randn(n, f)
    if kind == "correlated":
        x = x @ (torch.randn(f, f) / math.sqrt(f)) + 0.5 * torch.randn(n, 1)
    elif kind == "low-rank":
        r = max(1, f // 3)
        x = torch.randn(n, r) @ torch.randn(r, f)
    elif kind == "dead":
        x[:, torch.rand(f) < 0.3] = 0
    elif kind == "scaled":
        x = x * torch.logspace(-2, 2, f)[torch.randperm(f)]
    elif kind == "few":
        x = x[: max(1, f // 4)]
    return x


def hessian(module, data):
    """2/N sum x x^T over all positions, from the layer's definition, in float64."""
    w = module.weight
    if isinstance(module, torch.nn.Conv2d):
        g, (o, i, kh, kw) = module.groups, w.shape
        cols = []
        for x in data:
            x = x.double()
            per_group = []
            for gi in range(g):
                xs = x[:, gi * i : (gi + 1) * i]
                eye = torch.eye(i * kh * kw, dtype=torch.float64).view(i * kh * kw, i, kh, kw)
                r = torch.nn.functional.conv2d(xs, eye, None, module.stride, module.padding, module.dilation)
                per_group.append(r.transpose(0, 1).flatten(1))
            cols.append(torch.cat(per_group, 1))
        x = torch.cat(cols, 1)
    else:
        x = torch.cat([d.double().reshape(-1, w.shape[1]) for d in data]).t()
    h = 2.0 / x.shape[1] * (x @ x.t())
    return h, x


def elementwise(q, shape2d):
    """scale and offset of every weight element (2-d view)."""
    gr = q.granularity
    tile = gr.tile_size(torch.Size(shape2d))
    tile = list(shape2d) if isinstance(tile, str) else list(tile)
    rows, cols = shape2d
    nr, nc = rows // tile[0], cols // tile[1]
    idx = (torch.arange(rows) // tile[0])[:, None] * nc + (torch.arange(cols) // tile[1])[None]
    s = q.scale.detach().double().flatten()[idx]
    o = q.offset.detach().double().flatten().round()[idx] if q.offset is not None else torch.zeros_like(s)
    return s, o, tile, (nr, nc)


def certificate(ctx, w0, h, module, order_by_activation, block, damp, label, calibrated):
    """The optimised weight follows from w0 by the column procedure."""
    q = module.weight_quantizer
    w = w0.double().clone()
    result = module.weight.detach().double().flatten(1)
    s, o, tile, (nr, nc) = elementwise(q, w.shape)
    lo, hi = -(2.0 ** (q.num_bits - 1)), 2.0 ** (q.num_bits - 1) - 1
    h = h.clone()
    dead = torch.diag(h) == 0
    h[dead, dead] = 1
    n = h.shape[0]
    order = torch.arange(n)
    if order_by_activation:
        # ties may be broken either way: accept the order that the float32 diagonal gives
        order = torch.argsort(torch.diag(h).float(), descending=True)
    h = h[order][:, order]
    h = h + damp * torch.diag(h).mean() * torch.eye(n, dtype=h.dtype)
    u = torch.linalg.cholesky(torch.cholesky_inverse(torch.linalg.cholesky(h)), upper=True)
    recompute = isinstance(q.granularity, ff.granularity.PerBlock | ff.granularity.PerTile) and nc > 1 and not order_by_activation
    w, result, s, o = w[:, order], result[:, order], s[:, order], o[:, order]
    if not recompute:
        for name, p in calibrated.named_parameters():
            ctx.close(dict(q.named_parameters())[name].double(), p.double(), "calibration", f"{label}: {name}")
    stale = w.clone()
    half = q.scale.dtype == torch.float16
    for j in range(n):
        if j % block == 0:
            stale = w.clone()
        if recompute and j % tile[1] == 0:
            ok = []
            for source in (stale, w):
                group = source[:, j : j + tile[1]].reshape(nr, -1).float()
                gs, go = ff.quantization.affine.parameters_for_range(group.min(-1).values, group.max(-1).values, q.num_bits, q.symmetric, q.allow_one_sided)
                gs = gs.double().repeat_interleave(tile[0])
                go = (go.double().round() if go is not None else torch.zeros(nr, dtype=torch.float64)).repeat_interleave(tile[0])
                rel = ((s[:, j] - gs).abs() / gs).max().item()
                off = ((o[:, j] - go).abs() - 0.01 * go.abs()).max().item()
                ok.append((rel < 2e-2 and off <= 1 + (4 if half else 0), rel, off))
            ctx.check(any(x[0] for x in ok), "group-parameters", f"{label}: group at column {j}: relative scale error, offset error = {ok}")
            ctx.event("recomputed-group")
        col, got, sj, oj = w[:, j], result[:, j], s[:, j], o[:, j]
        nearest = ((col / sj - oj).round().clamp(lo, hi) + oj) * sj
        slack = (got - col).abs() - (nearest - col).abs()
        tol = 0.03 * sj + 5e-3 * (col - w0.double()[:, order][:, j]).abs() + 1e-3 * col.abs() * (20 if half else 1)
        bad = (slack > tol).nonzero()
        if len(bad):
            r = int(bad[0])
            ctx.fail("not-nearest", f"{label}: row {r}, column {int(order[j])} (step {j}): weight {col[r]:.6g} rounded to {got[r]:.6g}, nearest grid value {nearest[r]:.6g} (scale {sj[r]:.4g})")
        err = (col - got) / u[j, j]
        w[:, j + 1 :] -= err[:, None] * u[j, j + 1 :][None]
    ctx.event("columns", n)


def granularity(rng, rows, cols, conv):
    G = ff.granularity
    div = lambda k: rng.choice([d for d in range(1, k + 1) if k % d == 0])  # noqa: E731
    k = rng.choice(["tensor", "row"] if conv else ["tensor", "row", "col", "both", "block", "block", "block2", "tile"])
    if k == "tensor":
        return G.PerTensor(), k
    if k == "row":
        return G.PerChannel(0), k
    if k == "col":
        return G.PerChannel(1), k
    if k == "both":
        return G.PerChannel((0, 1)), k
    if k == "block":
        return G.PerBlock(block_dims=1, block_sizes=div(cols), per_channel_dims=0), k
    if k == "block2":
        return G.PerBlock(block_dims=(0, 1), block_sizes=(div(rows), div(cols))), k
    return G.PerTile((div(rows), div(cols))), k


def layer(ctx, kind, gr_conv=False):
    rng = ctx.rng
    if kind == "conv":
        g = rng.choice([1, 1, 1, 2])
        i, o = g * rng.choice([1, 2, 3]), g * rng.choice([1, 2, 4])
        k = (rng.choice([1, 2, 3]), rng.choice([1, 2, 3]))
        m = ff.nn.QuantizedConv2d(
            i, o, k, stride=rng.choice([1, 2, (1, 2)]), padding=rng.choice([0, 1, (1, 0)]), dilation=rng.choice([1, 1, 2]), groups=g, bias=rng.random() < 0.5
        )
        if g > 1:
            ctx.event("grouped-convolution")
    else:
        i, o = rng.choice([4, 6, 8, 12, 16, 24]), rng.choice([1, 2, 4, 6, 8])
        m = ff.nn.QuantizedLinear(i, o, bias=rng.random() < 0.5)
    with torch.no_grad():
        style = rng.choice(["normal", "normal", "positive", "outlier", "constant-row", "zero"])
        w = torch.randn_like(m.weight)
        if style == "positive":
            w = w.abs() + 0.1
        elif style == "outlier":
            w = w * (1 + 10 * (torch.rand_like(w) < 0.05))
        elif style == "constant-row":
            w[0] = 0.25
        elif style == "zero":
            w[-1] = 0
        m.weight.copy_(w)
    if rng.random() < 0.15:
        m = m.to(rng.choice([torch.float64, torch.bfloat16]))
        ctx.event("other-dtype")
    return m


def dataset(ctx, m, kind):
    """List of activations; the float32 ones may be views of one tensor."""
    rng = ctx.rng
    if isinstance(m, torch.nn.Conv2d):
        n, hw = rng.randint(2, 6), rng.randint(5, 8)
        x = torch.randn(n, m.in_channels, hw, hw)
        if kind == "correlated":
            x = torch.nn.functional.avg_pool2d(x, 3, 1, 1) * 3
        elif kind == "dead":
            x[:, 0] = 0
        return list(x.split(rng.choice([1, 2, n])))
    f = m.weight.shape[1]
    x = correlated(rng, rng.choice([8, 32, 64]), f, kind)
    k = rng.random()
    if k < 0.3:
        out = [x.unsqueeze(0)]
    elif k < 0.8:
        out = [t.unsqueeze(0) for t in x.split(max(1, len(x) // rng.choice([2, 4])))]
    elif k < 0.9:
        out = [x.reshape(1, 1, -1, f) if rng.random() < 0.5 else x]
        ctx.event("other-rank")
    else:
        out = [t.unsqueeze(0).transpose(0, 1) for t in x.split(max(1, len(x) // 2))]
    if rng.random() < 0.1:
        out = [t.to(torch.float64) for t in out]
    return out


def quantizer(ctx, m):
    rng = ctx.rng
    rows, cols = m.weight.flatten(1).shape
    gr, k = granularity(rng, rows, cols, isinstance(m, torch.nn.Conv2d))
    q = ff.nn.LinearQuantizer(
        rng.choice([2, 3, 4, 4, 8]), symmetric=rng.random() < 0.5, allow_one_sided=rng.random() < 0.6, granularity=gr,
        quantized_dtype=rng.choice([None, None, torch.int8, torch.float32]),
    )
    return q, k


KINDS = ["normal", "correlated", "low-rank", "dead", "scaled", "few"]


@section(
    quick=1500, thorough=120000,
    requires=("linear", "conv", "columns", "recomputed-group", "actorder", "grouped-convolution", "other-dtype", "other-rank", "rounded-differently", "split"),
)
def procedure(ctx):
    rng = ctx.rng
    kind = rng.choice(["linear", "linear", "linear", "conv"])
    m = layer(ctx, kind)
    rows, cols = m.weight.flatten(1).shape
    dk = rng.choice(KINDS)
    data = dataset(ctx, m, dk)
    q, gk = quantizer(ctx, m)
    m.weight_quantizer = q
    m.output_quantizer = ff.nn.LinearQuantizer(4)
    m.output_quantizer.quantization_range = (-1.0, 2.0)
    block = rng.choice([1, 2, 3, 4, 8, 128])
    damp = rng.choice([0.01, 0.01, 0.1, 0.001])
    act = rng.random() < 0.3
    label = f"{kind} {tuple(m.weight.shape)} {gk} bits={q.num_bits} sym={q.symmetric} block={block} damp={damp} act={act} data={dk}"
    ctx.note(case=label)
    ctx.event(kind)
    ctx.event("actorder", act)
    w0 = m.weight.detach().clone().flatten(1)
    before = {n: gen.fingerprint(p) for n, p in m.state_dict(keep_vars=True).items() if not n.startswith("weight") and "_quantizer" not in n}
    out_q = gen.fingerprint(m.output_quantizer.scale), id(m.output_quantizer)
    prints = [gen.fingerprint(t) for t in data]
    rng_state = torch.get_rng_state()
    entries = [((t,), {}) for t in data]
    reference = copy.deepcopy(q)
    with torch.no_grad(), ff.strict_quantization(False):
        with ff.estimate_ranges(reference, ff.range_setting.smoothed_minmax):
            reference(w0.float())
        r = gptq(m, iter(entries) if rng.random() < 0.5 else entries, block_size=block, perc_damp=damp, actorder=act)
    ctx.check(r is None and m.weight_quantizer is q, "identity", label)
    # nothing else changed
    ctx.equal([gen.fingerprint(t) for t in data], prints, "calibration-data-changed", label)
    ctx.equal({n: gen.fingerprint(p) for n, p in m.state_dict(keep_vars=True).items() if n in before}, before, "other-tensors", label)
    ctx.equal((gen.fingerprint(m.output_quantizer.scale), id(m.output_quantizer)), out_q, "other-quantizers", label)
    ctx.check(torch.equal(torch.get_rng_state(), rng_state), "rng-consumed", label)
    ctx.check(not list(q.overrides), "override-left", label)
    # on the grid
    with torch.no_grad(), ff.strict_quantization(False):
        again = m.weight_quantizer(m.weight.detach())
    exact = m.weight.dtype == torch.float32
    deq = again.dequantize().to(m.weight.dtype)
    if exact:
        s, o, _, _ = elementwise(q, (rows, cols))
        ctx.check(((deq - m.weight.detach()).double().flatten(1).abs() <= 1e-5 * s * (1 + o.abs())).all(), "on-grid", label)
    h, _ = hessian(m, data)
    if exact:
        certificate(ctx, w0, h, m, act, block, damp, label, reference)
    s, o, _, _ = elementwise(reference, (rows, cols))
    plain = ((w0.double() / s - o).round().clamp(-(2.0 ** (q.num_bits - 1)), 2.0 ** (q.num_bits - 1) - 1) + o) * s
    ctx.event("rounded-differently", bool(((plain - m.weight.detach().double().flatten(1)).abs() > 0.4 * s).any()))
    # the same calibration set split in other batches gives the same procedure
    if exact and rng.random() < 0.4:
        m2 = copy.deepcopy(m)
        with torch.no_grad():
            m2.weight.copy_(w0.view_as(m2.weight))
        m2.weight_quantizer.reset_parameters()
        if kind == "conv":
            parts = [t.contiguous() for t in torch.cat([t for t in data]).split(1)]
        else:
            flat = torch.cat([t.reshape(-1, cols) for t in data])
            perm = torch.randperm(len(flat))
            cuts = sorted(rng.sample(range(1, len(flat)), min(3, len(flat) - 1))) if len(flat) > 1 else []
            parts = [t.unsqueeze(0) for t in flat[perm].tensor_split(cuts)]
        with torch.no_grad(), ff.strict_quantization(False):
            gptq(m2, [((t,), {}) for t in parts], block_size=block, perc_damp=damp, actorder=act)
        if not act:  # a different summation order may swap equally active columns
            certificate(ctx, w0, h, m2, act, block, damp, label + " (other batches)", reference)
        ctx.event("split")
    ctx.state(kind, gk, q.num_bits, q.symmetric, block, act, dk, str(m.weight.dtype))


@section(quick=60, thorough=3000, requires=("better",))
def quality(ctx):
    """Over many rows the compensated weights give a smaller output error than plain rounding."""
    rng = ctx.rng
    n = rng.choice([16, 24, 32])
    total = {"gptq": 0.0, "plain": 0.0}
    bits, act, sym = rng.choice([2, 3, 4]), rng.random() < 0.3, rng.random() < 0.5
    gr = rng.choice([ff.granularity.PerTensor(), ff.granularity.PerChannel(0)])
    conv = rng.random() < 0.3
    label = f"bits={bits} act={act} sym={sym} {gr} conv={conv}"
    for _ in range(3):
        if conv:
            m = ff.nn.QuantizedConv2d(4, 32, 3, padding=1, bias=False)
            data = [torch.nn.functional.avg_pool2d(torch.randn(2, 4, 9, 9), 3, 1, 1) for _ in range(4)]
        else:
            m = ff.nn.QuantizedLinear(n, 48, bias=False)
            mix = torch.randn(n, n) @ torch.diag(torch.logspace(0, -1.5, n)) @ torch.randn(n, n)
            data = [(torch.randn(1, 64, n) @ mix) for _ in range(3)]
        with torch.no_grad():
            m.weight.copy_(torch.randn_like(m.weight))
        m.weight_quantizer = ff.nn.LinearQuantizer(bits, granularity=gr, symmetric=sym)
        w0 = m.weight.detach().clone()
        with torch.no_grad(), ff.strict_quantization(False):
            with ff.estimate_ranges(m.weight_quantizer, ff.range_setting.smoothed_minmax):
                m.weight_quantizer(w0.flatten(1))
            plain = m.weight_quantizer(w0.flatten(1)).dequantize()
            m.weight_quantizer.reset_parameters()
            _, x = hessian(m, [t.clone() for t in data])
            gptq(m, [((t,), {}) for t in data], block_size=rng.choice([4, 16, 128]), actorder=act)
        for k, w in (("gptq", m.weight.detach().flatten(1)), ("plain", plain)):
            d = (w.double() - w0.double().flatten(1)) @ x
            total[k] += float((d * d).sum() / ((w0.double().flatten(1) @ x) ** 2).sum())
    ctx.note(case=label, total=total)
    ctx.check(total["gptq"] < total["plain"], "worse-than-plain-rounding", f"{label}: {total}")
    ctx.event("better")
    ctx.state(label)


@section(quick=150, thorough=1500, requires=("refused",))
def refusals(ctx):
    """Unsupported requests raise and leave the layer as it was."""
    rng = ctx.rng
    conv = rng.random() < 0.5
    m = layer(ctx, "conv" if conv else "linear")
    G = ff.granularity
    rows, cols = m.weight.flatten(1).shape
    if conv:
        options = [
            (ff.nn.QuantizerStub(), ValueError), (ff.nn.DynamicLinearQuantizer(4), ValueError),
            (ff.nn.LinearQuantizer(4, granularity=G.PerChannel(1)), NotImplementedError),
            (ff.nn.LinearQuantizer(4, granularity=G.PerTile(tuple(m.weight.shape))), NotImplementedError),
            (ff.nn.LinearQuantizer(4, granularity=G.PerBlock(block_dims=1, block_sizes=1, per_channel_dims=0)), NotImplementedError),
        ]
    else:
        options = [
            (ff.nn.QuantizerStub(), ValueError), (ff.nn.DynamicLinearQuantizer(4), ValueError),
            (ff.nn.LinearQuantizer(4, granularity=G.PerBlock(block_dims=1, block_sizes=2, per_channel_dims=0, strict_blocks=False)), ValueError),
        ]
    q, exc = rng.choice(options)
    m.weight_quantizer = q
    w = gen.fingerprint(m.weight)
    state = {k: "lazy" if torch.nn.parameter.is_lazy(v) else gen.fingerprint(v) for k, v in m.state_dict(keep_vars=True).items()} if not q.is_stub() else None
    consumed = []

    def entries():
        consumed.append(1)
        yield (dataset(ctx, m, "normal")[0],), {}

    with torch.no_grad(), ff.strict_quantization(False):
        ctx.raises(exc, lambda: gptq(m, entries()), "refused", f"{type(q).__name__} {getattr(q, 'granularity', None)}")
    ctx.event("refused")
    ctx.check(gen.fingerprint(m.weight) == w and m.weight_quantizer is q and not consumed, "refused-changed", "")
    if state is not None:
        ctx.equal({k: "lazy" if torch.nn.parameter.is_lazy(v) else gen.fingerprint(v) for k, v in m.state_dict(keep_vars=True).items()}, state, "refused-changed", "")
    ctx.state(conv, type(q).__name__, str(getattr(q, "granularity", None)))
