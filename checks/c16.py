"""C16: calibrated ranges are those of the data seen."""

import math

import numpy as np
import torch

import fastforward as ff

from fastforward.nn.quantized_module import named_quantizers
from fastforward.range_setting import estimate_ranges, mse_error, running_minmax, smoothed_minmax
from fastforward.range_setting.min_error import mse_grid, uniform_search_grid

from ffmon import gen
from ffmon.core import section

META = {
    "technique": "runtime monitoring: the data each quantizer sees inside an estimation scope is logged and an offline checker recomputes the estimator's result from the log",
    "level_note": "Quantizers of every granularity, alone or inside converted models, are calibrated over random batch histories by every estimator. The log of what each quantizer actually received is the only input of the offline checker, which recomputes extremes tile by tile with index arithmetic, replays the smoothing recurrence, or evaluates every candidate of the search grid on a twin quantizer. Metamorphic runs re-order and re-split the same data.",
    "rule": "distinct (estimator, granularity, option, history) combinations",
}


def new_quantizer(rng, shape, kinds=("tensor", "channel", "block", "tile")):
    gr, tile, gd = gen.granularity(rng, shape, kinds)
    bits = rng.choice([2, 3, 4, 8])
    sym, one = rng.random() < 0.5, rng.random() < 0.5

    def make():
        return ff.nn.LinearQuantizer(bits, symmetric=sym, allow_one_sided=one, granularity=gr)

    return make, gr, tile, f"{gd} bits={bits} sym={sym} os={one}"


def extremes(x, tile):
    """Per-tile minimum and maximum, by index arithmetic."""
    t = gen.tile_index(tuple(x.shape), tile).reshape(-1)
    v = x.detach().double().numpy().reshape(-1)
    n = gen.n_tiles(tuple(x.shape), tile)
    lo, hi = np.full(n, np.inf), np.full(n, -np.inf)
    np.minimum.at(lo, t, v)
    np.maximum.at(hi, t, v)
    return torch.from_numpy(lo), torch.from_numpy(hi)


def params(q):
    return [None if p is None else p.detach().clone() for p in (q.scale, q.offset)]


def expect(ctx, q, make, lo, hi, dtype, desc):
    """q's parameters must be those make()'s quantizer gets for the range (lo, hi)."""
    twin = make()
    twin.quantization_range = (lo.to(dtype), hi.to(dtype))
    ctx.check(not q.has_uninitialized_params, "not-calibrated", desc)
    ctx.same(q.scale, twin.scale, "scale", desc, dtype=True)
    ctx.check((q.offset is None) == (twin.offset is None), "offset", desc)
    if q.offset is not None:
        ctx.same(q.offset, twin.offset, "offset", desc)
    return twin


def batches(rng, shape, dtype, n):
    kind = rng.choice(["normal", "normal", "positive", "negative", "tiny", "integers", "constant"])
    out = []
    for _ in range(n):
        x = torch.randn(shape, dtype=torch.float64) * rng.choice([0.1, 1, 5])
        if kind == "positive":
            x = x.abs() + rng.choice([0, 1])
        elif kind == "negative":
            x = -x.abs() - rng.choice([0, 1])
        elif kind == "tiny":
            x = x * 1e-3
        elif kind == "integers":
            x = x.round()
        elif kind == "constant":
            x = torch.full(shape, float(rng.choice([0.0, 1.5, -2.0])), dtype=torch.float64)
        out.append(gen.noncontiguous(rng, x.to(dtype)))
    return out, kind


@section(quick=4000, thorough=200000, requires=("running", "smoothed", "fresh", "preset", "disabled", "enabled", "exception", "nested-selection"))
def minmax(ctx):
    """A single quantizer over a random history."""
    rng = ctx.rng
    shape = gen.shape(rng, 1, 4, 200)
    make, gr, tile, desc = new_quantizer(rng, shape)
    dtype = rng.choice([torch.float32, torch.float32, torch.float64])
    q, bystander = make(), make()
    n_par = gen.n_tiles(shape, tile)
    smoothed = rng.random() < 0.5
    gamma = rng.choice([None, 1.0, 0.5, 0.25, 0.9]) if smoothed else None
    disabled = rng.random() < 0.5
    ctx.event("smoothed" if smoothed else "running")
    ctx.event("disabled" if disabled else "enabled")
    data, kind = batches(rng, shape, dtype, rng.randint(1, 4))
    lo = hi = None
    if rng.random() < 0.3:
        q.quantization_range = (-torch.rand(n_par) - 0.1, torch.rand(n_par) + 0.1)
        lo, hi = (t.detach().double().reshape(-1) for t in q.quantization_range)
        ctx.event("preset")
    else:
        ctx.event("fresh")
    if rng.random() < 0.5:
        bystander.quantization_range = (-1.0, 3.0) if n_par == 1 else (torch.full((n_par,), -1.0), torch.full((n_par,), 3.0))
    others = None if bystander.has_uninitialized_params else params(bystander)
    kw = {} if gamma is None else {"gamma": gamma}
    if disabled or rng.random() < 0.3:
        kw["disable_quantization"] = disabled
    desc = f"{'smoothed' if smoothed else 'running'} {kw} {desc} {shape} {dtype} {kind} n={len(data)}"
    ctx.note(desc=desc)
    est = smoothed_minmax if smoothed else running_minmax
    scope = estimate_ranges(q, est, **kw) if rng.random() < 0.5 else estimate_ranges([q], est(**kw))
    fault = rng.random() < 0.2
    grad = rng.random() < 0.5
    try:
        with scope, torch.set_grad_enabled(grad):
            for x in data:
                fp = gen.fingerprint(x)
                xin = x.clone().requires_grad_() if grad and rng.random() < 0.5 else x
                out = q(xin)
                ctx.equal(gen.fingerprint(xin), fp, "data-modified", desc)
                a, b = extremes(x, tile)
                if smoothed:
                    g = 1.0 if gamma is None else gamma
                    if lo is None:
                        lo, hi = a, b
                    else:
                        lo, hi = g * a + (1 - g) * lo, g * b + (1 - g) * hi
                else:
                    lo, hi = (a, b) if lo is None else (torch.minimum(lo, a), torch.maximum(hi, b))
                if smoothed:
                    # the recurrence is evaluated in the data's precision by the code: compare ranges, not bits
                    twin = make()
                    twin.quantization_range = (lo.to(dtype), hi.to(dtype))
                    tol = 1e-4 * float(1 + twin.scale.abs().max())
                    ctx.close(q.scale, twin.scale, "scale", desc, rtol=1e-4, atol=4e-6 * float(torch.maximum(lo.abs(), hi.abs()).max()) + 1e-9)
                    if q.offset is not None:
                        ctx.check(float((q.offset.double() * q.scale.double() - twin.offset.double() * twin.scale.double()).abs().max()) <= 1.01 * float(twin.scale.abs().max()) + tol, "offset", desc)
                else:
                    expect(ctx, q, make, lo, hi, dtype, desc)
                if disabled:
                    ctx.check(type(out) is torch.Tensor, "disabled-output", desc)
                    ctx.same(out, x, "disabled-output", desc)
                else:
                    twin = make()
                    twin.quantization_range = (-torch.ones(n_par), torch.ones(n_par))
                    with torch.no_grad():
                        twin.scale.copy_(q.scale)
                        if twin.offset is not None:
                            twin.offset.copy_(q.offset)
                    ctx.equal(gen.fingerprint(out), gen.fingerprint(twin(x)), "enabled-output", desc)
            if fault:
                ctx.event("exception")
                raise KeyError("fault")
    except KeyError:
        pass
    final = params(q)
    ctx.check(not list(q.overrides), "estimator-left-behind", desc)
    y = q(batches(rng, shape, dtype, 1)[0][0] * 100)
    ctx.check(isinstance(y, ff.QuantizedTensor), "not-quantizing", desc)
    for a, b in zip(params(q), final):
        if a is not None:
            ctx.same(a, b, "estimating-after-scope", desc)
    if others is None:
        ctx.check(bystander.has_uninitialized_params, "bystander", desc)
    else:
        for a, b in zip(params(bystander), others):
            if a is not None:
                ctx.same(a, b, "bystander", desc)
    if rng.random() < 0.1:
        ctx.event("nested-selection")
        two = torch.nn.ModuleList([make(), make(), ff.nn.QuantizerStub()])
        with estimate_ranges([two, two[0]], running_minmax, disable_quantization=disabled):
            two[0](data[0])
        a, b = extremes(data[0], tile)
        expect(ctx, two[0], make, a, b, dtype, desc)
        ctx.check(two[1].has_uninitialized_params, "unused-quantizer", desc)
    ctx.state(desc)


@section(quick=2500, thorough=100000, requires=("order", "split", "merge"))
def invariance(ctx):
    """Running min-max is a function of the set of data, not of its order or batching."""
    rng = ctx.rng
    rest = gen.shape(rng, 1, 3, 40)
    total = rng.choice([2, 3, 4, 6, 8])
    # tiles must not split the batch dimension
    gr, tile, gd = gen.granularity(rng, rest)
    if isinstance(gr, ff.PerTensor):
        bgr = gr
    else:
        dims = [d for d in range(len(rest)) if tile[d] == 1]
        others = [d for d in range(len(rest)) if tile[d] not in (1, rest[d])]
        if others or not dims:
            bgr = ff.PerTensor() if not dims else ff.PerChannel(tuple(d - len(rest) for d in dims))
        else:
            bgr = ff.PerChannel(tuple(d - len(rest) for d in dims))
    sym, one, bits = rng.random() < 0.5, rng.random() < 0.5, rng.choice([2, 4, 8])
    make = lambda: ff.nn.LinearQuantizer(bits, symmetric=sym, allow_one_sided=one, granularity=bgr)  # noqa: E731
    pool = batches(rng, (total, *rest), torch.float32, 1)[0][0]

    def calibrate(parts):
        q = make()
        with estimate_ranges(q, running_minmax, disable_quantization=rng.random() < 0.5):
            for p in parts:
                q(p)
        return params(q)

    want = calibrate([pool])
    perm = list(range(total))
    rng.shuffle(perm)
    cuts = sorted(rng.sample(range(1, total), rng.randint(0, total - 1)))
    parts = [pool[perm][a:b] for a, b in zip([0, *cuts], [*cuts, total])]
    desc = f"{bgr} {tuple(pool.shape)} perm={perm} cuts={cuts} sym={sym} os={one}"
    for name, ps in (("order", [pool[perm]]), ("split", parts), ("merge", [torch.cat(parts)] + parts[:1])):
        ctx.event(name)
        for a, b in zip(calibrate(ps), want):
            if b is not None:
                ctx.same(a, b, name, desc)
    ctx.state(desc)


@section(quick=1300, thorough=40000, requires=("default-grid", "custom-grid", "policy", "non-square", "error-fn", "symmetric", "asymmetric", "nonnegative"))
def min_error(ctx):
    """Exhaustive re-evaluation of the search grid."""
    rng = ctx.rng
    shape = gen.shape(rng, 1, 3, 120)
    make, gr, tile, desc = new_quantizer(rng, shape)
    n_par = gen.n_tiles(shape, tile)
    cand = rng.choice([1, 2, 3, 4, 5, 7, 9, 10, 16, 20, 31])
    data, kind = batches(rng, shape, torch.float32, rng.randint(1, 3))
    q = make()
    kw = {"num_candidates": cand}
    rows = [None]
    if rng.random() < 0.3:
        ctx.event("custom-grid")
        k = cand if rng.random() < 0.5 else rng.choice([1, 3, 12])
        glo, ghi = -torch.rand(k, n_par) * 3, torch.rand(k, n_par) * 3 + 0.1
        kw["search_grid_generator"] = lambda *_a: (glo.clone(), ghi.clone())
    else:
        ctx.event("default-grid")
        ctx.event("symmetric" if q.symmetric else "asymmetric")
        if rng.random() < 0.5:
            grid = uniform_search_grid(absolute_margin=rng.choice([0.0, 0.25, 0.5]), relative_margin=rng.choice([1.0, 1.1]))
            kw["search_grid_generator"] = grid
        else:
            grid = uniform_search_grid()
        t = torch.from_numpy(gen.tile_index(shape, tile)).reshape(-1)
        first = data[0].reshape(-1)[torch.argsort(t, stable=True)].reshape(n_par, -1)
        glo, ghi = grid(first, q.symmetric, n_par, cand)
        if math.isqrt(cand) ** 2 != cand:
            ctx.event("non-square")
        if bool((first >= 0.6).all()):
            ctx.event("nonnegative")
        # the documented extent and size of the grid
        ctx.check(glo.shape == ghi.shape and glo.shape[1] == n_par and glo.shape[0] >= cand, "grid-size", f"{desc} {tuple(glo.shape)} for {cand}")
        ctx.check(bool(glo.isfinite().all() and ghi.isfinite().all()), "grid-finite", desc)
    err_kind = rng.choice(["mse", "mse", "l1"])
    if err_kind == "l1":
        ctx.event("error-fn")
        kw["error_fn"] = lambda a, b: (a - b).abs().mean(dim=1)
    elif rng.random() < 0.3:
        kw["error_fn"] = mse_error
    every = rng.choice([None, None, 1, 2])
    if every:
        ctx.event("policy")
        kw["update_range_policy"] = lambda _e, step: step % every == 0
    desc = f"{desc} {shape} {kind} batches={len(data)} candidates={cand} grid={tuple(glo.shape)} {err_kind} every={every}"
    ctx.note(desc=desc)
    idx = torch.from_numpy(gen.tile_index(shape, tile)).reshape(-1)
    counts = torch.bincount(idx, minlength=n_par).double()
    # candidate parameters and their errors, with a twin quantizer
    cps, errs = [], torch.zeros(glo.shape[0], n_par, dtype=torch.float64)
    for i in range(glo.shape[0]):
        twin = make()
        twin.quantization_range = (glo[i], ghi[i])
        cps.append(params(twin))
    seen = 0
    preset = rng.random() < 0.2
    if preset:
        q.quantization_range = (-torch.ones(n_par), torch.ones(n_par) * 2)
    start = None if q.has_uninitialized_params else params(q)
    grad = rng.random() < 0.5
    updated = False
    with torch.set_grad_enabled(grad), estimate_ranges(q, mse_grid, **kw):
        for step, x in enumerate(data, 1):
            if every and step % every and q.has_uninitialized_params:
                # nothing was set yet: quantizing has to fail, but the batch counts
                ctx.raises((ValueError, RuntimeError), lambda x=x: q(x), "unset", desc)
            else:
                q(x)
            seen += 1
            for i in range(glo.shape[0]):
                twin = make()
                twin.quantization_range = (glo[i], ghi[i])
                d = twin(x).dequantize().detach().double() - x.double()
                e = d.abs() if err_kind == "l1" else d**2
                errs[i] += torch.zeros(n_par, dtype=torch.float64).index_add_(0, idx, e.reshape(-1)) / counts
            if every and step % every:
                if not updated:
                    if start is None:
                        ctx.check(q.has_uninitialized_params, "policy-ignored", desc)
                    else:
                        ctx.same(q.scale, start[0], "policy-ignored", desc)
                continue
            updated = True
            best = errs.min(dim=0).values
            for t in range(n_par):
                match = [i for i, (s, o) in enumerate(cps) if s.reshape(-1)[t] == q.scale.reshape(-1)[t] and (q.offset is None or o.reshape(-1)[t] == q.offset.reshape(-1)[t])]
                ctx.check(match, "not-a-candidate", f"{desc} tile {t}: scale {q.scale.reshape(-1)[t].item()}")
                e = min(errs[i, t].item() for i in match)
                ctx.check(e <= best[t].item() * (1 + 1e-4) + 1e-9 * seen, "not-the-best", f"{desc} tile {t} after {seen}: error {e} but a candidate has {best[t].item()}")
    ctx.check(not list(q.overrides), "estimator-left-behind", desc)
    ctx.state(desc)


class Net(torch.nn.Module):
    def __init__(self, d, rng):
        super().__init__()
        self.a = torch.nn.Linear(d, d)
        self.b = torch.nn.Sequential(torch.nn.ReLU(), torch.nn.Linear(d, d, bias=False))
        self.c = torch.nn.LayerNorm(d)
        self.mode = rng.randrange(3)

    def forward(self, x):
        h = self.a(x)
        if self.mode:
            h = self.a(h) if self.mode == 1 else self.b(h)
        y = self.b(h)
        return self.c(y)


class QNet(ff.nn.QuantizedModule, Net):
    pass


@section(quick=900, thorough=40000, requires=("model:running", "model:smoothed", "model:grid", "disabled", "enabled", "selection", "unsupported-skipped", "unsupported-refused", "tied", "module-reused"))
def models(ctx):
    """Whole models: the log of every quantizer decides its parameters."""
    rng = ctx.rng
    d = rng.randint(2, 4)
    net = Net(d, rng)
    if net.mode:
        ctx.event("module-reused")
    model = ff.quantize_model(net)
    makers, tied = {}, None
    for n, s in list(named_quantizers(model, skip_stubs=False)):
        if rng.random() < 0.25:
            continue
        owner, _, leaf = n.rpartition(".")
        m = model.get_submodule(owner)
        if leaf == "weight_quantizer" and isinstance(m, torch.nn.Linear):
            make = new_quantizer(rng, tuple(m.weight.shape))[0]
        else:
            make = new_quantizer(rng, (d,), ("tensor",))[0]
        if tied and rng.random() < 0.15 and leaf != "weight_quantizer":
            setattr(m, leaf, tied)
            ctx.event("tied")
            continue
        q = make()
        setattr(m, leaf, q)
        makers[id(q)] = make
        if leaf != "weight_quantizer":
            tied = q
    qs = dict(named_quantizers(model))
    dyn = rng.random() < 0.2
    if dyn:
        model.a.input_quantizer = ff.nn.DynamicLinearQuantizer(4)
    method = rng.choice(["running", "smoothed", "grid"])
    ctx.event("model:" + method)
    disabled = method != "grid" and rng.random() < 0.5
    # uncovered quantizers get a range first
    select = [model] if rng.random() < 0.6 else rng.sample([model.a, model.b, model.c], rng.randint(1, 2))
    if not disabled and len(select) == 2 and {id(q) for q in select[0].modules()} & {id(q) for q in select[1].modules()}:
        # A quantized tensor refers to its quantizer's parameters. A quantizer that is selected twice
        # and re-quantizes its own output would change the data under its second estimator.
        select = select[:1]
    covered = {id(q) for m in select for _, q in named_quantizers(m)}
    qs = dict(named_quantizers(model))
    untouched = {}
    for n, q in qs.items():
        if id(q) in covered or not isinstance(q, ff.nn.LinearQuantizer):
            continue
        ctx.event("selection")
        par = model.get_submodule(n.rpartition(".")[0])
        k = q.granularity.parameter_dimensionality(par.weight.shape) if n.endswith("weight_quantizer") and not isinstance(q.granularity, ff.PerTensor) else 1
        q.quantization_range = (torch.full((k,), -2.0), torch.full((k,), 2.0))
        untouched[n] = params(q)
    gamma = rng.choice([1.0, 0.5])
    est, kw = {"running": (running_minmax, {}), "smoothed": (smoothed_minmax, {"gamma": gamma}), "grid": (mse_grid, {"num_candidates": rng.choice([4, 7])})}[method]
    if method != "grid":
        kw["disable_quantization"] = disabled
    ctx.event("disabled" if disabled else "enabled")
    if dyn and id(model.a.input_quantizer) in covered:
        if rng.random() < 0.5:
            ctx.event("unsupported-refused")

            def enter():
                with estimate_ranges(select, est, **kw):
                    pass

            ctx.raises((TypeError,), enter, "unsupported-accepted", "")
            ctx.check(not any(list(q.overrides) for q in qs.values()), "refused-but-prepared", "")
        ctx.event("unsupported-skipped")
        kw["skip_unsupported_quantizers"] = True
    log = {id(q): [] for q in qs.values()}
    handles = []
    for q in qs.values():
        handles.append(q.register_forward_pre_hook(lambda m, a: log[id(m)].append((a[0].dequantize() if isinstance(a[0], ff.QuantizedTensor) else a[0]).detach().clone())))
    xs = [torch.randn(rng.randint(1, 3), d) for _ in range(rng.randint(1, 3))]
    outs = []
    with ff.strict_quantization(False), torch.no_grad():
        with estimate_ranges(select, est, **kw):
            for x in xs:
                outs.append(model(x))
    for h in handles:
        h.remove()
    for n, q in qs.items():
        ctx.check(not list(q.overrides), "estimator-left-behind", n)
        if n in untouched:
            for a, b in zip(params(q), untouched[n]):
                if a is not None:
                    ctx.same(a, b, "unselected-changed", n)
            continue
        if id(q) not in covered or not isinstance(q, ff.nn.LinearQuantizer):
            continue
        seen = log[id(q)]
        if not seen:
            ctx.check(q.has_uninitialized_params, "unused-calibrated", n)
            continue
        lo = hi = None
        for x in seen:
            tile = tuple(q.granularity.tile_size(x.shape)) if not isinstance(q.granularity, ff.PerTensor) else tuple(x.shape)
            a, b = extremes(x, tile)
            if method == "running":
                lo, hi = (a, b) if lo is None else (torch.minimum(lo, a), torch.maximum(hi, b))
            elif method == "smoothed":
                lo, hi = (a, b) if lo is None else (gamma * a + (1 - gamma) * lo, gamma * b + (1 - gamma) * hi)
        if method == "running" or (method == "smoothed" and gamma == 1.0):
            expect(ctx, q, makers[id(q)], lo, hi, torch.float32, f"{n} in {len(seen)} calls {lo} {hi} select={[type(m).__name__ for m in select]} {model}")
        elif method == "smoothed":
            twin = makers[id(q)]()
            twin.quantization_range = (lo.float(), hi.float())
            ctx.close(q.scale, twin.scale, "scale", n, rtol=1e-4, atol=4e-6 * float(torch.maximum(lo.abs(), hi.abs()).max()) + 1e-9)
        else:
            ctx.check(not q.has_uninitialized_params, "not-calibrated", n)
    if disabled and len(select) == 1 and select[0] is model and not dyn:
        with ff.strict_quantization(False), torch.no_grad():
            for x, out in zip(xs, outs):
                ref = copy_float(model)(x)
                ctx.same(out, ref, "disabled-output", "")
    ctx.state(method, disabled, len(covered), net.mode, dyn, tuple(sorted(qs)))


def copy_float(model):
    import copy

    m = copy.deepcopy(model)
    for mod in list(m.modules()):
        for n, q in list(mod._modules.items()):  # named_children() hides second aliases
            if isinstance(q, ff.nn.Quantizer):
                setattr(mod, n, ff.nn.QuantizerStub())
    return m
