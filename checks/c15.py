"""C15: quantized layers equal the float layer between their quantizers."""

import copy

import torch

import fastforward as ff

from ffmon import gen
from ffmon.core import section

META = {
    "technique": "runtime monitoring: every quantizer of a layer is hooked and its consultations recorded; the float layer evaluated on the recorded tensors is the oracle",
    "level_note": "Layers of every quantized type are generated over all of their constructor options; each quantizer slot is a placeholder, a linear quantizer of any granularity or a dynamic quantizer. Monitors on every slot log what it was given and what it returned. The oracle is torch's own layer (functional_call on the float twin) fed with the logged tensors; outputs, gradients, buffers and parameters are compared bit for bit.",
    "rule": "distinct (layer type, option, slot assignment) combinations",
}

DT = [torch.float32] * 6 + [torch.float64] * 3 + [torch.bfloat16, torch.float16]

TOL = {torch.float32: 3e-6, torch.float64: 1e-14, torch.bfloat16: 3e-2, torch.float16: 4e-3}


def conv_options(rng, nd):
    groups = rng.choice([1, 1, 1, 2, 3])
    cin, cout = groups * rng.randint(1, 3), groups * rng.randint(1, 3)
    mode = rng.choice(["zeros", "zeros", "reflect", "replicate", "circular"])
    sz = [rng.randint(4, 8) for _ in range(nd)]
    ks = [rng.randint(1, 3) for _ in range(nd)]
    dil = [rng.choice([1, 1, 2]) if (k - 1) * 2 + 1 <= s else 1 for k, s in zip(ks, sz)]
    pad = rng.choice(["num", "num", "num", "same", "valid"])
    stride = [1] * nd if pad == "same" else [rng.randint(1, 3) for _ in range(nd)]
    padding = [rng.randint(0, 3) for _ in range(nd)] if pad == "num" else pad

    def scalar(v):
        return v[0] if isinstance(v, list) and (rng.random() < 0.3 or nd == 1 and rng.random() < 0.5) else (tuple(v) if isinstance(v, list) else v)

    ks2 = scalar(ks)
    kk = (ks2,) * nd if isinstance(ks2, int) else ks2
    dil2 = scalar(dil)
    dd = (dil2,) * nd if isinstance(dil2, int) else dil2
    sz = [max(s, d * (k - 1) + 1, 4) for s, k, d in zip(sz, kk, dd)]
    opts = dict(stride=scalar(stride), padding=scalar(padding), dilation=dil2, groups=groups, bias=rng.random() < 0.6, padding_mode=mode)
    shape = ([] if rng.random() < 0.25 else [rng.randint(1, 3)]) + [cin] + sz
    return (cin, cout, ks2), opts, shape


def build(ctx, kinds=None):
    """(float layer, quantized layer, input, description)"""
    rng = ctx.rng
    kind = rng.choice(kinds or ["Linear", "Conv1d", "Conv1d", "Conv2d", "Conv2d", "LayerNorm", "Embedding", "ReLU", "SiLU"])
    dtype = rng.choice(DT)
    if kind == "Linear":
        i, o = rng.randint(1, 6), rng.randint(1, 6)
        opts = dict(bias=rng.random() < 0.6)
        layer = torch.nn.Linear(i, o, **opts)
        shape = [rng.randint(1, 4) for _ in range(rng.randint(0, 3))] + [i]
        args = (i, o)
    elif kind in ("Conv1d", "Conv2d"):
        args, opts, shape = conv_options(rng, int(kind[4]))
        layer = getattr(torch.nn, kind)(*args, **opts)
    elif kind == "LayerNorm":
        lead = [rng.randint(1, 3) for _ in range(rng.randint(0, 2))]
        norm = [rng.randint(2, 5) for _ in range(rng.randint(1, 2))]
        opts = dict(eps=rng.choice([1e-5, 0.25, 1e-2]), elementwise_affine=rng.random() < 0.75, bias=rng.random() < 0.7)
        args = (norm[0],) if len(norm) == 1 and rng.random() < 0.5 else (tuple(norm),)
        layer = torch.nn.LayerNorm(*args, **opts)
        shape = lead + norm
    elif kind == "Embedding":
        n, d = rng.randint(2, 6), rng.randint(1, 5)
        opts = dict(padding_idx=rng.choice([None, None, 0, n - 1, -1]), max_norm=rng.choice([None, None, None, 0.7]), norm_type=rng.choice([2.0, 1.0]), scale_grad_by_freq=rng.random() < 0.3)
        layer = torch.nn.Embedding(n, d, **opts)
        args = (n, d)
        shape = [rng.randint(1, 5) for _ in range(rng.randint(1, 3))]
    else:
        opts = dict(inplace=rng.random() < 0.4)
        layer = getattr(torch.nn, kind)(**opts)
        args = ()
        shape = [rng.randint(1, 5) for _ in range(rng.randint(0, 3))]
    with torch.no_grad():
        for p in layer.parameters():
            p.copy_(torch.randn(p.shape))
    layer = layer.to(dtype)
    if kind == "Embedding":
        x = torch.randint(0, args[0], shape)
    else:
        x = torch.randn(shape, dtype=dtype)
        if x.ndim:
            x = gen.noncontiguous(rng, x)
    desc = f"{kind}{args} {opts} {dtype} in={tuple(shape)}"
    ctx.event("layer:" + kind)
    for k, v in opts.items():
        ctx.event(f"{kind}.{k}={v if isinstance(v, (bool, str, type(None))) else 'set'}")
    qname = {"ReLU": "QuantizedRelu", "SiLU": "QuantizedSilu"}.get(kind, "Quantized" + kind)
    qcls = getattr(ff.nn, qname)
    if rng.random() < 0.5:
        quant = ff.quantize_model(copy.deepcopy(layer))
        ctx.event("by-conversion")
    else:
        quant = qcls(*args, **opts).to(dtype)
        quant.load_state_dict(layer.state_dict())
        ctx.event("by-constructor")
    ctx.check(type(quant) is qcls, "type", desc)
    return layer, quant, x, kind, desc


def slots_of(kind, layer):
    s = {"output_quantizer"}
    if kind != "Embedding":
        s.add("input_quantizer")
    if getattr(layer, "weight", None) is not None:
        s.add("weight_quantizer")
    if getattr(layer, "bias", None) is not None:
        s.add("bias_quantizer")
    return s


def slot_quantizer(ctx, shape, dtype, activation):
    rng = ctx.rng
    gran, _, gd = gen.granularity(rng, shape) if shape and not activation else (ff.PerTensor(), None, "PerTensor")
    bits = rng.choice([2, 3, 4, 8])
    if rng.random() < 0.15:
        return ff.nn.DynamicLinearQuantizer(bits, granularity=gran), "dyn:" + gd
    q = ff.nn.LinearQuantizer(bits, symmetric=rng.random() < 0.5, allow_one_sided=False, granularity=gran, param_dtype=dtype)
    n = gran.parameter_dimensionality(torch.Size(shape)) if shape and not isinstance(gran, ff.PerTensor) else 1
    q.quantization_range = (-torch.rand(n) * 2 - 0.2, torch.rand(n) * 2 + 0.2)
    return q.to(dtype), "lin:" + gd


class Log:
    def __init__(self, quant):
        self.calls = []
        self.handles = [m.register_forward_hook(self._hook(n)) for n, m in quant.named_children()]

    def _hook(self, name):
        def hook(_m, args, out):
            self.calls.append((name, args, out))

        return hook


def deq(t):
    return t.dequantize() if isinstance(t, ff.quantized_tensor.QuantizedTensor) else t


@section(
    quick=5000,
    thorough=60000,
    requires=tuple("layer:" + k for k in ("Linear", "Conv1d", "Conv2d", "LayerNorm", "Embedding", "ReLU", "SiLU"))
    + tuple(f"Conv{d}d.padding_mode={m}" for d in (1, 2) for m in ("zeros", "reflect", "replicate", "circular"))
    + ("gradients", "Embedding.max_norm=set", "LayerNorm.bias=False", "LayerNorm.elementwise_affine=False"),
)
def placeholders(ctx):
    """With placeholder quantizers the layer is the float layer, bit for bit."""
    rng = ctx.rng
    layer, quant, x, kind, desc = build(ctx)
    ctx.note(desc=desc)
    ctx.equal({n for n, m in quant.named_children()}, slots_of(kind, layer), "slots", desc)
    ctx.check(all(m.is_stub() for m in quant.children()), "slots-stubs", desc)
    quant.train(rng.random() < 0.5)
    grad = rng.random() < 0.5 and x.dtype != torch.float16 and "max_norm=0.7" not in desc and "'max_norm': 0.7" not in desc
    xa, xb = x.clone(), x.clone()
    if grad and x.is_floating_point():
        xa.requires_grad_(), xb.requires_grad_()
    if grad and kind in ("ReLU", "SiLU"):
        layer.inplace = False
    log = Log(quant)
    with torch.set_grad_enabled(grad), ff.strict_quantization(False):
        want = layer(xa)
        got = quant(xb)
    ctx.check(type(got) in (torch.Tensor, torch.nn.Parameter), "type", desc)
    ctx.same(got, want, "output", desc, dtype=True)
    ctx.equal(sorted(n for n, *_ in log.calls), sorted(slots_of(kind, layer)), "consulted-once", desc)
    if kind not in ("ReLU", "SiLU"):
        ctx.same(xb, x, "input-modified", desc)
    for (n, a), (m, b) in zip(layer.named_parameters(), quant.named_parameters()):
        ctx.equal(n, m, "parameters", desc)
        ctx.same(b, a, "parameters", desc, dtype=True)
    if grad and want.requires_grad:
        ctx.event("gradients")
        g = torch.randn(want.shape, dtype=want.dtype)
        want.backward(g)
        got.backward(g)
        if x.is_floating_point():
            ctx.same(xb.grad, xa.grad, "gradient", desc)
        for (n, a), b in zip(layer.named_parameters(), quant.parameters()):
            ctx.check((a.grad is None) == (b.grad is None), "gradient", f"{desc} {n}")
            if a.grad is not None:
                ctx.same(b.grad, a.grad, "gradient", f"{desc} {n}")
    ctx.state(kind, desc)


@section(
    quick=6000,
    thorough=70000,
    requires=tuple("layer:" + k for k in ("Linear", "Conv1d", "Conv2d", "LayerNorm", "Embedding", "ReLU", "SiLU"))
    + tuple(f"Conv{d}d.padding_mode={m}" for d in (1, 2) for m in ("zeros", "reflect", "replicate", "circular"))
    + tuple("slot:" + s for s in ("input_quantizer", "weight_quantizer", "bias_quantizer", "output_quantizer"))
    + ("strict", "strict-refused", "gradients", "quantized-input", "Embedding.max_norm=set", "slot-none"),
)
def assigned(ctx):
    """Any assignment of quantizers: the float layer on the quantized operands, each slot once."""
    rng = ctx.rng
    layer, quant, x, kind, desc = build(ctx)
    dtype = x.dtype if x.is_floating_point() else layer.weight.dtype
    slots = slots_of(kind, layer)
    full = rng.random() < 0.45
    assignment = {}
    for s in sorted(slots):
        if not full and rng.random() < 0.4:
            if rng.random() < 0.5:
                setattr(quant, s, ff.nn.QuantizerStub())
            continue
        if s == "bias_quantizer" and rng.random() < 0.3:
            quant.register_quantizer("bias_quantizer", None)
            ctx.event("slot-none")
            continue
        t = {"input_quantizer": x, "weight_quantizer": getattr(layer, "weight", None), "bias_quantizer": getattr(layer, "bias", None)}.get(s)
        q, gd = slot_quantizer(ctx, tuple(t.shape) if t is not None else (), dtype, s in ("input_quantizer", "output_quantizer"))
        setattr(quant, s, q)
        assignment[s] = gd
        ctx.event("slot:" + s)
    desc = f"{desc} {assignment}"
    ctx.note(desc=desc)
    inp = x
    if x.is_floating_point() and "input_quantizer" not in assignment and rng.random() < 0.4:
        inp = slot_quantizer(ctx, tuple(x.shape), dtype, True)[0](x)
        ctx.event("quantized-input")
    needed = {"output_quantizer"} | ({"weight_quantizer"} if getattr(layer, "weight", None) is not None and kind != "LayerNorm" else set())
    if kind == "LayerNorm" and getattr(layer, "weight", None) is not None:
        needed.add("weight_quantizer")
    satisfied = needed <= set(assignment) and (kind == "Embedding" or "input_quantizer" in assignment or inp is not x)
    strict = rng.random() < 0.5
    before = {n: gen.fingerprint(p) for n, p in quant.named_parameters()}
    if strict and not satisfied:
        # a missing output quantizer or an unquantized operand must not pass silently
        missing_in = (needed - {"output_quantizer"}) - set(assignment) or (kind != "Embedding" and "input_quantizer" not in assignment and inp is x)
        if missing_in and kind != "LayerNorm":
            ctx.event("strict-refused")
            with ff.strict_quantization(True), torch.no_grad():
                ctx.raises((ff.exceptions.QuantizationError,), lambda: quant(inp), "strict-refusal", desc)
            ctx.equal({n: gen.fingerprint(p) for n, p in quant.named_parameters()}, before, "strict-refusal-state", desc)
            return
        strict = False
    if strict:
        ctx.event("strict")
    max_norm = getattr(layer, "max_norm", None) is not None
    grad = rng.random() < 0.5 and dtype not in (torch.float16,) and not max_norm and inp is x
    xin = inp
    if grad and x.is_floating_point():
        xin = x.clone().requires_grad_()
    log = Log(quant)
    with torch.set_grad_enabled(grad), ff.strict_quantization(strict):
        out = quant(xin)
    expect = slots - ({"bias_quantizer"} if getattr(quant, "bias_quantizer", 0) is None else set())
    ctx.equal(sorted(n for n, *_ in log.calls), sorted(expect), "consulted-once", desc)
    calls = {n: (a, o) for n, a, o in log.calls}
    operand = {"input_quantizer": xin, "weight_quantizer": getattr(quant, "weight", None), "bias_quantizer": getattr(quant, "bias", None)}
    for n, (a, o) in calls.items():
        ctx.equal(len(a), 1, "consulted-with", f"{desc} {n}")
        if n != "output_quantizer":
            ctx.same(deq(a[0]), deq(operand[n]), "consulted-with", f"{desc} {n}")
    # oracle: torch's own layer on the tensors the slots returned
    args = {"weight": deq(calls["weight_quantizer"][1]) if "weight_quantizer" in calls else None}
    if "bias_quantizer" in calls:
        args["bias"] = deq(calls["bias_quantizer"][1])
    elif getattr(quant, "bias", None) is not None:
        args["bias"] = quant.bias
    args = {k: v.detach().clone() for k, v in args.items() if v is not None}
    source = deq(calls["input_quantizer"][1]).detach() if "input_quantizer" in calls else xin
    twin = copy.deepcopy(layer)
    with torch.no_grad():
        want = torch.func.functional_call(twin, args, (source.clone(),))
    pre = calls["output_quantizer"][0][0]
    # memory layouts may differ, so kernels may accumulate in another order
    ctx.equal(deq(pre).dtype, want.dtype, "pre-output", desc)
    ctx.close(deq(pre), want, "pre-output", desc, rtol=TOL[dtype], atol=TOL[dtype] * float(1 + want.abs().max()) if want.numel() else 0)
    ctx.check(out is calls["output_quantizer"][1], "output-is-quantized", desc)
    if "output_quantizer" in assignment:
        ctx.check(isinstance(out, ff.quantized_tensor.QuantizedTensor), "output-type", desc)
        with torch.no_grad():
            ctx.equal(gen.fingerprint(out), gen.fingerprint(quant.output_quantizer(pre)), "output", desc)
    if not (max_norm and "weight_quantizer" not in assignment):
        ctx.equal({n: gen.fingerprint(p) for n, p in quant.named_parameters()}, before, "parameters-modified", desc)
    ctx.same(deq(xin).detach(), deq(inp).detach(), "input-modified", desc)
    if grad and out.requires_grad:
        # gradients: the same computation spelled with torch and the very same quantizers
        ctx.event("gradients")
        leaves = [p for p in quant.parameters() if p.requires_grad]
        if x.is_floating_point():
            leaves.append(xin)
        g = torch.randn(out.shape, dtype=dtype)
        got = torch.autograd.grad(deq(out), leaves, g, allow_unused=True)
        over = {n: (getattr(quant, n + "_quantizer", None) or torch.nn.Identity())(getattr(quant, n)) for n in ("weight", "bias") if getattr(quant, n, None) is not None}
        over = {n: deq(t) for n, t in over.items()}
        src = deq(quant.input_quantizer(xin)) if x.is_floating_point() else xin
        base = copy.deepcopy(layer)
        if hasattr(base, "inplace"):
            base.inplace = False
        ref = deq(quant.output_quantizer(torch.func.functional_call(base, over, (src,))))
        want = torch.autograd.grad(ref, leaves, g, allow_unused=True)
        for i, (a, b) in enumerate(zip(got, want)):
            ctx.check((a is None) == (b is None), "gradient", f"{desc} leaf {i}")
            if a is not None:
                tol = TOL[dtype]
                ctx.close(a, b, "gradient", f"{desc} leaf {i}", rtol=10 * tol, atol=10 * tol * float(1 + b.abs().max()) if b.numel() else 0)
    ctx.state(kind, desc)
