"""C28: fusing quantized weights keeps the numbers of the network."""

import warnings

import torch

import fastforward as ff

from fastforward.exceptions import QuantizationError
from fastforward.export.stages.base_pipeline_stages import stage_fuse_qdq_weights
from fastforward.quantization.fuse import ConventionDiscovery, find_weight_quantizers, fuse_qdq_weights, stub_weight_quantizers

from ffmon import gen
from ffmon.core import section

META = {
    "technique": "runtime monitoring: models are run before and after fusing under a monitor of every output, parameter, quantizer and module; reference quantizers and an element-wise alias map of all parameter storages decide values and refusals",
    "level_note": "Random networks of linear, convolution and embedding layers whose weights have quantizers of any granularity, bit width and symmetry, are shared, tied, transposed, sliced or reshaped views of each other, share quantizers, have stubs or are not quantized; in float32, float64, float16 and bfloat16. After fusing (directly, with stubs, by export stage, by custom discovery, repeatedly) outputs must be bit-identical, weights equal to the reference, everything else untouched; where two uses of one storage element would need different values fusing must be refused without any change, and otherwise not.",
    "rule": "distinct (layer kinds, ties, quantizers, mode) arrangements",
}

warnings.simplefilter("ignore")

N = 6


class Branch(torch.nn.Module):
    """Runs all its layers on inputs derived from the same data."""

    def __init__(self):
        super().__init__()
        self.layers = torch.nn.ModuleList()
        self.again = []

    def forward(self, x):
        outs = []
        for i, layer in enumerate([*self.layers, *(self.layers[j] for j in self.again)]):
            kind = type(layer).__name__
            if "Embedding" in kind:
                y = layer((x.abs() * 3).long().clamp(max=N - 1))
            elif "Conv1d" in kind:
                y = layer(x.expand(2, N, N) * 1.0)
            elif "Conv2d" in kind:
                y = layer(x.reshape(1, 1, N, N).expand(2, N, N, N) * 1.0)
            elif isinstance(layer, Holder):
                y = layer(x)
            else:
                y = layer(x)
            outs.append(y.dequantize() if isinstance(y, ff.QuantizedTensor) else y)
        return outs


class Holder(torch.nn.Module):
    """Uses a parameter directly, without quantization."""

    def __init__(self, weight):
        super().__init__()
        self.table = weight

    def forward(self, x):
        return x.sum() * self.table


def raw(layer_kind, rng, dtype):
    if layer_kind == "linear":
        m = ff.nn.QuantizedLinear(N, N, bias=rng.random() < 0.5)
    elif layer_kind == "conv1d":
        m = ff.nn.QuantizedConv1d(N, N, 1)
    elif layer_kind == "conv2d":
        m = ff.nn.QuantizedConv2d(N, N, (1, 1))
    elif layer_kind == "embedding":
        m = ff.nn.QuantizedEmbedding(N, N)
    elif layer_kind == "plain":
        m = torch.nn.Linear(N, N)
    with torch.no_grad():  # sums are exact, whatever their order
        for p in m.parameters():
            p.copy_(torch.round(p * 64) / 64)
    m = m.to(dtype)
    return m


def quantizer_for(rng, weight):
    """A linear quantizer with a reference."""
    max_bits = 8
    q, grid, desc = gen.linear_quantizer(rng, tuple(weight.shape), rng.choice([2, 3, 4, 6, 8][: 5 if max_bits == 8 else 3]), dyadic=True)
    return q, grid, desc


def run(model, xs):
    with torch.no_grad(), ff.strict_quantization(False):
        return [model(x) for x in xs]


def bits_equal(a, b):
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    return bool(((a == b) | (torch.isnan(a) & torch.isnan(b))).all())


def alias(t):
    """Storage identity and element offsets of a tensor."""
    s = t.untyped_storage()
    n = s.nbytes() // t.element_size()
    idx = torch.arange(n).as_strided(t.shape, t.stride(), t.storage_offset())
    return s.data_ptr(), idx.flatten().tolist()


def build(ctx):
    rng = ctx.rng
    ctx.torch_seed()
    dtype = rng.choice([torch.float32] * 4 + [torch.float64, torch.float16, torch.bfloat16])
    model = Branch()
    refs = {}  # id(module) -> (quantizer, grid)
    sig = []
    n = rng.randint(1, 5)
    for i in range(n):
        kind = rng.choice(["linear", "linear", "conv1d", "conv2d", "embedding", "plain"])
        if dtype in (torch.float16, torch.bfloat16) and kind.startswith("conv"):
            kind = "linear"
        m = raw(kind, rng, dtype)
        tie = "own"
        others = [o for o in model.layers if hasattr(o, "weight")]
        if others and rng.random() < 0.55:
            o = rng.choice(others)
            src = o.weight
            flat = src.data.reshape(N, N) if src.data.is_contiguous() else src.data.squeeze().reshape(N, N)
            same_storage = flat.untyped_storage().data_ptr() == src.untyped_storage().data_ptr()
            tie = rng.choice(["same", "same", "view", "transposed", "slice", "copy", "holder"])
            if tie == "same" and m.weight.shape == src.shape:
                m.weight = src
            elif tie == "view" and same_storage:
                m.weight = torch.nn.Parameter(flat.reshape(m.weight.shape))
            elif tie == "transposed" and same_storage:
                m.weight = torch.nn.Parameter(flat.t().reshape(m.weight.shape)) if m.weight.dim() == 2 else m.weight
            elif tie == "slice" and m.weight.dim() == 2 and type(m).__name__.endswith("Linear"):
                big = (torch.round(torch.randn(2 * N, N) * 64) / 64).to(dtype)
                o_is_2d = o.weight.dim() == 2
                k = rng.randint(0, N)
                if o_is_2d and type(o).__name__.endswith("Linear"):
                    o.weight = torch.nn.Parameter(big[:N])
                    m.weight = torch.nn.Parameter(big[k : k + N])
            elif tie == "holder" and same_storage:
                model.layers.append(Holder(torch.nn.Parameter(flat[: rng.randint(1, N)])))
            else:
                m.weight = torch.nn.Parameter(src.data.clone().reshape(m.weight.shape))
        sig.append((kind, tie))
        model.layers.append(m)
    if rng.random() < 0.3:
        model.again = [rng.randrange(len(model.layers))]
    # quantizers
    pool = []
    for m in model.layers:
        if not hasattr(m, "weight_quantizer"):
            continue
        r = rng.random()
        if r < 0.15:
            sig.append("stub")
            continue
        fit = [(q, g, d) for q, g, d, shp in pool if shp == tuple(m.weight.shape)]
        if fit and r < 0.55:
            q, g, d = rng.choice(fit)
            if rng.random() < 0.5:  # same parameters, own instance
                c = ff.nn.LinearQuantizer(q.num_bits, symmetric=q.symmetric, allow_one_sided=q.allow_one_sided, granularity=q.granularity, quantized_dtype=q.quantized_dtype)
                c.quantization_range = q.quantization_range
                with torch.no_grad():
                    c.scale.copy_(q.scale)
                    if q.offset is not None:
                        c.offset.copy_(q.offset)
                if (c.offset is None) == (q.offset is None):
                    q, d = c, d + " equal"
            else:
                d += " shared"
        else:
            q, g, d = quantizer_for(rng, m.weight)
            pool.append((q, g, d, tuple(m.weight.shape)))
        m.weight_quantizer = q
        refs[id(m)] = (q, g)
        sig.append(d)
    for m in model.layers:  # activation and bias quantizers
        for name in ("input_quantizer", "output_quantizer", "bias_quantizer"):
            if hasattr(m, name) and rng.random() < 0.3 and not isinstance(m, ff.nn.QuantizedEmbedding):
                if name == "bias_quantizer" and m.bias is None:
                    continue
                a = ff.nn.LinearQuantizer(8, symmetric=rng.random() < 0.5)
                a.quantization_range = (torch.tensor(-4.0), torch.tensor(4.0 - 1 / 32))
                setattr(m, name, a)
    xs = [(torch.round(torch.randn(N, N) * f * 16) / 16).to(dtype) for f in (1, 40, 0)]
    return rng, dtype, model, refs, xs, sig


def snapshot(model):
    return (
        {n: (id(p), p.detach().clone(), p.requires_grad, p.dtype, p.stride(), p.data_ptr()) for n, p in model.named_parameters(remove_duplicate=False)},
        {n: (id(b), b.detach().clone()) for n, b in model.named_buffers(remove_duplicate=False)},
        [(n, id(m), m.training) for n, m in model.named_modules(remove_duplicate=False)],
    )


def check_unchanged(ctx, before, after, key, values=True):
    ctx.equal(after[2], before[2], key, "modules")
    for i in (0, 1):
        ctx.equal(list(after[i]), list(before[i]), key, "names")
        for n in before[i]:
            ctx.equal(after[i][n][0], before[i][n][0], key, f"identity of {n}")
            ctx.check(bits_equal(after[i][n][1], before[i][n][1]), key, f"value of {n}")


def expectation(model, refs, only=None):
    """Expected values per parameter use; None if two uses of an element disagree."""
    store = {}
    uses = []
    for m in model.modules():
        for name, p in m.named_parameters(recurse=False):
            target = name == "weight" and id(m) in refs and (only is None or id(m) in only)
            want = refs[id(m)][1].qdq(p.detach()).to(p.dtype) if target else p.detach().clone()
            ptr, idx = alias(p)
            uses.append((p, target, want, ptr, idx))
    fused = {}
    for p, target, want, ptr, idx in uses:
        if target:
            for i, v in zip(idx, want.flatten().tolist()):
                fused.setdefault(ptr, {}).setdefault(i, set()).add(v + 0.0)
    for p, target, want, ptr, idx in uses:
        if ptr in fused:
            for i, v in zip(idx, want.flatten().tolist()):
                vals = fused[ptr].get(i)
                if vals is not None and vals != {v + 0.0}:
                    return None
    return [(m, refs[id(m)][1].qdq(m.weight.detach()).to(m.weight.dtype)) for m in model.modules() if id(m) in refs and (only is None or id(m) in only)]


@section(quick=2500, thorough=150000, requires=("fused", "refused", "stubbed", "tied", "shared-quantizer", "partial", "half"))
def models(ctx):
    rng, dtype, model, refs, xs, sig = build(ctx)
    mode = rng.choice(["fuse", "fuse", "stub", "stub", "stage", "stage-off", "some", "disabled"])
    before_out = run(model, xs)
    before = snapshot(model)
    only = None
    if mode == "some":
        chosen = [m for m in model.layers if id(m) in refs and rng.random() < 0.5]
        only = {id(m) for m in chosen}
    elif mode in ("stage-off", "disabled"):
        only = set()
    want = expectation(model, refs, only)
    stub = mode == "stub" or (mode == "some" and rng.random() < 0.5)
    targets = find_weight_quantizers(model)
    ctx.equal(sorted((id(m), a, id(q)) for m, a, q in targets), sorted((k, "weight", id(q)) for k, (q, _) in refs.items()), "discovery", "targets", sig=sig)
    check_unchanged(ctx, before, snapshot(model), "discovery")

    def fuse():
        if mode in ("fuse", "stub"):
            fuse_qdq_weights(model, stub_quantizers=stub)
        elif mode == "stage":
            out = stage_fuse_qdq_weights((model,), [], {"store_weights_as_qdq": True})
            ctx.check(out is model, "stage")
        elif mode == "stage-off":
            out = stage_fuse_qdq_weights((model,), [], rng.choice([{}, {"store_weights_as_qdq": False}]))
            ctx.check(out is model, "stage")
        elif mode == "disabled":
            with ff.disable_quantization(model):
                fuse_qdq_weights(model, stub_quantizers=rng.random() < 0.5)
        else:
            fuse_qdq_weights(model, stub_quantizers=stub, discovery=lambda m: ((p, a, q) for p, a, q in ConventionDiscovery()(m) if id(p) in only))

    ctx.state(str(sig), mode, str(dtype), stub, tuple(model.again))
    w = dict(sig=sig, mode=mode, dtype=str(dtype), stub=stub)
    if want is None:
        ctx.event("refused")
        ctx.raises(QuantizationError, fuse, "refuse", "fusing a weight with two different values", **w)
        check_unchanged(ctx, before, snapshot(model), "refused-unchanged")
        check_out(ctx, run(model, xs), before_out, "refused-unchanged", w)
        return
    rounds = rng.choice([1, 1, 2, 3])
    for _ in range(rounds):
        fuse()
        check_out(ctx, run(model, xs), before_out, "outputs", w)
        for m, v in want:
            ctx.check(bits_equal(m.weight.detach() + 0.0, v + 0.0), "weights", "fused weight", got=m.weight, want=v, **w)
        if mode == "some" and stub:
            break
    if only is None or only:
        ctx.event("fused", len(want))
        ctx.event("shared-quantizer", int(len({id(q) for q, _ in refs.values()}) < len(refs)))
        ctx.event("tied", int(any(isinstance(s, tuple) and s[1] in ("same", "view", "transposed", "slice") for s in sig)))
        ctx.event("partial", int(mode == "some"))
        ctx.event("half", int(dtype in (torch.float16, torch.bfloat16)))
    # nothing else changed
    fused = {id(m.weight) for m, _ in want}
    touched = {alias(m.weight)[0] for m, _ in want}
    after = snapshot(model)
    stubbed = {}
    for m, _ in want:
        q = refs[id(m)][0]
        now = m.weight_quantizer
        if stub:
            ctx.check(isinstance(now, ff.nn.QuantizerStub), "stub", "quantizer not replaced by a stub", **w)
            # Quantizers have the metadata of the module they were assigned to last.
            if sum(q is o for o, _ in refs.values()) == 1:
                ctx.check(now.quant_metadata == q.quant_metadata or vars(now.quant_metadata) == vars(q.quant_metadata), "stub", "metadata of the stub", **w)
            ctx.check(now.quant_metadata.weight_quantizer and now.quant_metadata.parameter_quantizer, "stub", "tag of the stub", **w)
            stubbed[id(now)] = True
            ctx.event("stubbed")
        else:
            ctx.check(now is q, "stub", "quantizer replaced", **w)
    names = {n: i for n, i, _ in before[2]}
    for n, i, training in after[2]:
        ctx.check(i == names.get(n) or i in stubbed, "unchanged", f"module {n}", **w)
    ctx.equal([(n, t) for n, _, t in after[2] if n in names], [(n, t) for n, _, t in before[2]], "unchanged", "modes and order of modules", **w)
    gone = {id(p) for m, _ in want if stub for p in refs[id(m)][0].parameters()}
    for n, (i, v, grad, dt, stride, ptr) in before[0].items():
        if i in gone and n not in after[0]:
            continue
        a = after[0][n]
        ctx.equal((a[0], *a[2:]), (i, grad, dt, stride, ptr), "unchanged", f"parameter {n}", **w)
        if i not in fused and not any(p is not None and id(p) == i and p.untyped_storage().data_ptr() in touched for p in model.parameters()):
            ctx.check(bits_equal(a[1], v), "unchanged", f"value of {n}", **w)


def check_out(ctx, got, want, key, w):
    for x, (g, e) in enumerate(zip(got, want)):
        ctx.equal(len(g), len(e), key, "number of outputs", **w)
        for i, (a, b) in enumerate(zip(g, e)):
            ctx.check(bits_equal(a, b), key, f"output {i} of input {x} changed", got=a, want=b, **w)


def same_output(ctx, got, want, conv, message):
    if conv or want.dtype == torch.float32:  # kernels may depend on the alignment of the weight
        tol = 1e-4 if want.dtype == torch.float32 else 1e-10
        ctx.close(got, want, "exact", message, rtol=tol, atol=tol * float(want.abs().max()))
    else:
        ctx.check(bits_equal(got, want), "exact", message)


@section(quick=800, thorough=40000, requires=("stubbed", "reload", "wide"))
def numerics(ctx):
    """Real (not dyadic) grids, wide integers, fractional offsets: fusing is exact and idempotent; stubs load fused weights."""
    rng = ctx.rng
    ctx.torch_seed()
    dtype = rng.choice([torch.float32, torch.float32, torch.float64])
    bits = rng.choice([2, 4, 8, 8, 12, 16])
    shp = rng.choice([(N, N), (3, N), (N, 2, 3), (N, 3, 2, 2)])
    m = {2: lambda: ff.nn.QuantizedLinear(shp[1], shp[0]), 3: lambda: ff.nn.QuantizedConv1d(shp[1], shp[0], shp[2]), 4: lambda: ff.nn.QuantizedConv2d(shp[1], shp[0], shp[2:])}[len(shp)]().to(dtype)
    gr, _, desc = gen.granularity(rng, shp)
    q = ff.nn.LinearQuantizer(bits, symmetric=rng.random() < 0.5, allow_one_sided=rng.random() < 0.5, granularity=gr, quantized_dtype=rng.choice([None, torch.float32]))
    m.weight_quantizer = q
    scale = 10 ** rng.uniform(-4, 4)
    with torch.no_grad():
        m.weight.mul_(scale)
        if rng.random() < 0.2:
            m.weight.abs_()
    with ff.estimate_ranges(m, ff.range_setting.running_minmax), ff.strict_quantization(False):
        q(m.weight)
    if dtype == torch.float64 or rng.random() < 0.3:
        m.to(dtype)
    x = torch.randn(2, shp[1], *([5] * (len(shp) - 2)), dtype=dtype)
    with torch.no_grad(), ff.strict_quantization(False):
        direct = q(m.weight)
        ints, values = direct.raw_data.clone(), direct.dequantize().clone()
        out = m(x)
        fuse_qdq_weights(m)
        ctx.check(bits_equal(m.weight.detach(), values.to(dtype)), "exact", "fused weight", desc=desc, bits=bits)
        # Integers and offset are recovered as long as their sum is much smaller than the precision.
        if q.offset is not None and float(q.offset.abs().max()) > 2**20:
            ctx.event("far-offset")
            return
        again = q(m.weight)
        ctx.check(bits_equal(again.raw_data, ints), "exact", "fused weights leave their grid points", desc=desc, bits=bits)
        same_output(ctx, m(x), out, len(shp) > 2, "output with active quantizer")
        fuse_qdq_weights(m)
        ctx.check(bits_equal(m.weight.detach(), values.to(dtype)), "exact", "fused twice", desc=desc, bits=bits)
        ctx.event("wide", int(bits >= 12))
        kind = rng.choice(["stub", "stub-only", "reload"])
        if kind == "stub":
            fuse_qdq_weights(m, stub_quantizers=True)
        elif kind == "stub-only":
            stub_weight_quantizers(m)
        else:  # a fused artifact in a new model
            other = type(m)(*((shp[1], shp[0]) if len(shp) == 2 else (shp[1], shp[0], shp[2] if len(shp) == 3 else shp[2:]))).to(dtype)
            other.weight_quantizer = ff.nn.LinearQuantizer(2, granularity=ff.PerTensor())
            stub_weight_quantizers(other)
            other.load_state_dict({k: v for k, v in m.state_dict().items() if not k.startswith("weight_quantizer")})
            m = other
            ctx.event("reload")
        ctx.check(isinstance(m.weight_quantizer, ff.nn.QuantizerStub), "exact", "no stub", kind=kind)
        ctx.check(bits_equal(m.weight.detach(), values.to(dtype)), "exact", "stubbing changed the weight", kind=kind)
        same_output(ctx, m(x), out, len(shp) > 2, "output with stubs")
        ctx.event("stubbed")
    ctx.state(desc, bits, shp, str(dtype), kind)
