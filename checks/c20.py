"""C20: quantized attention equals the reference attention."""

import contextlib
import math
import random

import torch
import torch.nn.functional as F
from torch.nn.attention import SDPBackend, sdpa_kernel

import fastforward as ff

from fastforward.exceptions import QuantizationError
from fastforward.nn import functional as FF

from ffmon import gen
from ffmon.core import Known as KnownFinding, section

META = {
    "technique": "runtime monitoring: recording quantizers observe every intermediate of the attention; each is compared with a float64 reference of the next step computed from what was recorded before, and unquantized runs with the framework's kernel",
    "level_note": "Random shapes (batch dimensions, lengths, head dimensions, grouped heads, empty sequences, strides), masks (boolean, additive, broadcast, fully masked rows, causal), scales (also negative and zero), dropout, data types, upcast contexts, fallback flag, quantizer subsets and strictness. Monitors require each named quantizer to run exactly once, on its own intermediate with the expected data type, outputs and gradients to agree with the reference, inputs to be bit-identical, per-sample runs to give the batch result, and illegal combinations to be refused.",
    "rule": "distinct (mask kind, grouping, scale kind, dropout, dtype, quantizer subset, mode) signatures",
}

NAMES = [
    "scaled_query_quantizer", "scaled_key_quantizer", "attn_scores_quantizer", "attn_mask_quantizer",
    "masked_scores_quantizer", "attn_weights_quantizer", "dropout_quantizer", "output_quantizer",
]


class Recorder(ff.nn.Quantizer):
    """Rounds to a grid and remembers what it was given."""

    def __init__(self, name, log, step):
        super().__init__()
        self.name, self.log, self.step = name, log, step

    def quantize(self, x):
        out = x if self.step is None else torch.round(x / self.step) * self.step
        self.log.append((self.name, x, out))
        return out


def case(ctx):
    rng = ctx.rng
    batch = tuple(rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 1, 2])))
    gqa = len(batch) > 0 and rng.random() < 0.35
    heads_kv = rng.choice([1, 2, 3])
    heads = heads_kv * rng.choice([1, 2, 3]) if gqa else heads_kv
    heads_k = heads_v = heads_kv
    if gqa and rng.random() < 0.3:  # keys and values may be grouped differently
        heads_k, heads_v = (rng.choice([h for h in range(1, heads + 1) if heads % h == 0]) for _ in "kv")
    lq, lk, e, ev = rng.choice([1, 2, 3, 5, 7]), rng.choice([1, 2, 3, 5, 7]), rng.choice([1, 2, 4, 8]), rng.choice([1, 3, 4])
    if rng.random() < 0.04:
        lk = 0
    elif rng.random() < 0.04:
        lq = 0
    lead = (batch + (heads,)) if gqa or rng.random() < 0.8 else batch
    lead_k, lead_v = ((batch + (h,)) if gqa else lead for h in (heads_k, heads_v))
    dtype = rng.choice([torch.float32, torch.float32, torch.float32, torch.float64, torch.float16, torch.bfloat16])
    amp = rng.choice([0.5, 1.0, 1.0, 4.0])

    def make(shape):
        t = torch.randn(shape, dtype=torch.float64) * amp
        k = rng.random()
        if k < 0.2 and t.dim() >= 3:
            t = t.transpose(-3, -2).contiguous().transpose(-3, -2)
        elif k < 0.3:
            t = torch.stack([t, t], -1)[..., 0]
        elif k < 0.35 and t.dim() >= 3 and t.shape[0] > 1:
            t = t[:1].expand(t.shape)
        return t.to(dtype)

    q, k, v = make((*lead, lq, e)), make((*lead_k, lk, e)), make((*lead_v, lk, ev))
    mk = rng.choice(["none", "none", "bool", "bool", "float", "float", "causal"])
    mask = None
    if mk in ("bool", "float"):
        full = (*lead, lq, lk)
        shape = [d if rng.random() < 0.7 else 1 for d in full]
        shape[-1] = lk  # torch requires neither, but a key mask is the usual case
        if rng.random() < 0.3:
            shape[-1] = rng.choice([1, lk])
        shape = shape[rng.randint(0, len(shape) - 2):]
        if mk == "bool":
            mask = torch.rand(shape) < rng.choice([0.2, 0.6, 0.9])
        else:
            mask = (torch.randn(shape, dtype=torch.float64) * 2).to(dtype)
            if rng.random() < 0.6:
                mask = mask.masked_fill(torch.rand(shape) < rng.choice([0.2, 0.8]), float("-inf"))
    sk = rng.choice(["default", "default", "default", "value", "value", "negative", "zero"])
    scale = {"default": None, "value": rng.choice([0.01, 0.1, 0.5, 1.0, 2.0]), "negative": -rng.choice([0.1, 1.0]), "zero": 0.0}[sk]
    return dict(q=q, k=k, v=v, mask=mask, causal=mk == "causal", scale=scale, gqa=gqa, mk=mk, sk=sk, dtype=dtype, terse=rng.random() < 0.4)


def reference(c, dropout_mask=None, step=lambda name, x: x, neg_inf=float("-inf")):
    """Float64 attention; step(name, x) may replace intermediates."""
    q, k, v = (c[n].double() for n in "qkv")
    if c["gqa"]:
        k = k.repeat_interleave(q.shape[-3] // k.shape[-3], -3)
        v = v.repeat_interleave(q.shape[-3] // v.shape[-3], -3)
    scale = 1 / math.sqrt(q.shape[-1]) if c["scale"] is None else c["scale"]
    root = math.sqrt(abs(scale))
    sq = step("scaled_query_quantizer", q * (-root if scale < 0 else root))
    skt = step("scaled_key_quantizer", k.transpose(-2, -1) * root)
    scores = step("attn_scores_quantizer", sq @ skt)
    lq, lk = q.shape[-2], k.shape[-2]
    if c["causal"]:
        bias = torch.zeros(lq, lk, dtype=torch.float64).masked_fill(~torch.ones(lq, lk, dtype=torch.bool).tril(), neg_inf)
    elif c["mask"] is None:
        bias = torch.zeros(lq, lk, dtype=torch.float64)
    elif c["mask"].dtype == torch.bool:
        bias = torch.zeros(c["mask"].shape, dtype=torch.float64).masked_fill(~c["mask"], neg_inf)
    else:
        bias = c["mask"].double()
    bias = step("attn_mask_quantizer", bias)
    masked = step("masked_scores_quantizer", scores + bias)
    if masked.shape[-1]:
        hidden = masked.isneginf() if neg_inf == float("-inf") else masked <= neg_inf
        dead = hidden.all(-1, keepdim=True)
        weights = torch.softmax(masked.masked_fill(dead, 0.0), -1).masked_fill(dead, 0.0)
    else:
        weights = masked
    weights = step("attn_weights_quantizer", weights)
    if dropout_mask is not None:
        weights = weights * dropout_mask
    weights = step("dropout_quantizer", weights)
    return step("output_quantizer", weights @ v)


def kwargs_of(c):
    kw = dict(attn_mask=c["mask"], is_causal=c["causal"], scale=c["scale"], enable_gqa=c["gqa"])
    return {k: v for k, v in kw.items() if not (c["terse"] and (v is None or v is False))}


def describe(c):
    return f"q{tuple(c['q'].shape)} k{tuple(c['k'].shape)} v{tuple(c['v'].shape)} mask={c['mk']}{'' if c['mask'] is None else tuple(c['mask'].shape)} scale={c['scale']} gqa={c['gqa']} {c['dtype']}"


def tolerance(dtype, upcast):
    return {torch.float64: 1e-9, torch.float32: 2e-5, torch.float16: 2e-3 if upcast else 5e-2, torch.bfloat16: 2e-2 if upcast else 3e-1}[dtype]


def near(ctx, got, want, tol, key, label):
    ctx.check(tuple(got.shape) == tuple(want.shape), key, f"{label}: shape {tuple(got.shape)} instead of {tuple(want.shape)}")
    got, want = got.detach().double(), want.detach().double()
    same_inf = (got == want) | (got.isnan() & want.isnan())
    bad = ~(same_inf | ((got - want).abs() <= tol * (1 + want.abs())))
    ctx.check(not bad.any(), key, f"{label}: {int(bad.sum())} of {bad.numel()} elements differ, e.g. {got[bad][:3].tolist()} instead of {want[bad][:3].tolist()}")


@section(
    quick=2500, thorough=280000,
    requires=("bool", "float", "causal", "none", "gqa", "negative", "zero", "dropout", "dead-row", "empty", "gradients", "half", "fallback", "per-sample"),
)
def unquantized(ctx):
    """No or placeholder quantizers: the framework's attention."""
    rng = ctx.rng
    c = case(ctx)
    label = describe(c)
    for e in (c["mk"], c["sk"]):
        ctx.event(e)
    ctx.event("gqa", c["gqa"])
    ctx.event("empty", 0 in c["q"].shape or 0 in c["k"].shape)
    half = c["dtype"] in (torch.float16, torch.bfloat16)
    ctx.event("half", half)
    dropout = rng.choice([0.0, 0.0, 0.0, 0.3, 1.0])
    stubs = {n: ff.nn.QuantizerStub() for n in NAMES if rng.random() < 0.3}
    fallback = rng.choice([None, False, False, True])
    flag = rng.random() < 0.2
    effective = fallback if fallback is not None else flag
    prints = {n: gen.fingerprint(c[n]) for n in ("q", "k", "v", "mask") if c[n] is not None}
    ctx.note(case=label, dropout=dropout, fallback=effective)
    seed = rng.randrange(10**6)
    grad = rng.random() < 0.3 and dropout == 0.0 and not half
    leaves = [c[n] for n in "qkv"] + ([c["mask"]] if c["mask"] is not None and c["mask"].dtype != torch.bool else [])
    leaves = [t.detach().clone().requires_grad_(grad) for t in leaves]
    args = leaves[:3]
    kw = kwargs_of(c)
    if len(leaves) == 4:
        kw["attn_mask"] = leaves[3]
    before = [gen.fingerprint(t) for t in leaves]
    torch.manual_seed(seed)
    with ff.sdpa_torch_fallback_allowed(flag), contextlib.nullcontext() if rng.random() < 0.5 else ff.strict_quantization(False):
        out = FF.scaled_dot_product_attention(
            *args, dropout_p=dropout, strict_quantization=False,
            **({} if fallback is None else {"sdpa_torch_fallback": fallback}), **stubs, **kw,
        )
    after_state = torch.get_rng_state()
    ctx.equal(out.dtype, c["dtype"], "dtype", label)
    ctx.equal([gen.fingerprint(t) for t in leaves], before, "inputs-changed", label)
    drop = None
    torch.manual_seed(seed)
    if dropout:
        shape = torch.broadcast_shapes(c["q"].shape[:-2], c["k"].shape[:-2] if not c["gqa"] else c["q"].shape[:-2]) + (c["q"].shape[-2], c["k"].shape[-2])
        drop = F.dropout(torch.ones(shape, dtype=torch.float64 if c["dtype"] == torch.float64 else torch.float32), dropout).double()
        ctx.event("dropout")
    ref_state = torch.get_rng_state()
    if effective:
        ctx.event("fallback")
    if effective and dropout and drop.numel():
        with sdpa_kernel([SDPBackend.MATH]):
            torch.manual_seed(seed)
            F.scaled_dot_product_attention(*[c[n] for n in "qkv"], dropout_p=dropout, **kwargs_of(c))
        again = F.dropout(torch.ones(drop.shape, dtype=torch.float64 if c["dtype"] == torch.float64 else torch.float32), dropout).double()
        options = [reference(c, d) for d in (drop, again)]
        fits = [bool(((out.double() - w).abs() <= tolerance(c["dtype"], True) * (1 + w.abs())).all()) for w in options]
        ctx.check(any(fits), "reference", f"{label}: dropout={dropout} with fallback")
        if not torch.equal(after_state, torch.get_rng_state()):
            raise KnownFinding("fallback-with-dropout", f"{label}: with the fallback enabled the generator is advanced twice, so the output differs from torch's under the same seed")
    else:
        ctx.check(torch.equal(after_state, ref_state), "generator", f"{label}: random numbers consumed")
        want = reference(c, drop)
        if want.numel():
            near(ctx, out, want, tolerance(c["dtype"], True), "reference", label)
    if not dropout and c["k"].shape[-2] and c["q"].shape[-2]:
        mask = c["mask"]
        with sdpa_kernel([SDPBackend.MATH]), torch.no_grad():
            t = F.scaled_dot_product_attention(*[c[n] for n in "qkv"], **{**kwargs_of(c), "attn_mask": mask})
        near(ctx, out, t, tolerance(c["dtype"], True), "framework", label)
        bias = reference(c, step=lambda n, x: x)
        ctx.event("dead-row", bool((bias == 0).all(-1).any()))
    if grad and out.numel() and c["k"].shape[-2]:
        w = torch.randn_like(out)
        got = torch.autograd.grad((out * w).sum(), leaves)
        ref_leaves = [t.detach().double().requires_grad_() for t in leaves]
        c2 = dict(c, q=ref_leaves[0], k=ref_leaves[1], v=ref_leaves[2])
        if len(leaves) == 4:
            c2["mask"] = ref_leaves[3]
        want = torch.autograd.grad((reference(c2) * w.double()).sum(), ref_leaves)
        ctx.event("gradients")
        for g, x, n in zip(got, want, ("query", "key", "value", "mask")):
            near(ctx, g, x, 20 * tolerance(c["dtype"], True), "gradient", f"{label}: {n}")
    if not dropout and c["q"].dim() > 2 and c["q"].shape[0] > 1 and rng.random() < 0.5 and not c["gqa"]:
        ctx.event("per-sample")
        i = rng.randrange(c["q"].shape[0])
        m = c["mask"]
        if m is not None and m.dim() == c["q"].dim():
            m = m[i if m.shape[0] > 1 else 0]
        one = FF.scaled_dot_product_attention(c["q"][i], c["k"][i], c["v"][i], strict_quantization=False, **{**kwargs_of(c), "attn_mask": m})
        near(ctx, one, out[i], tolerance(c["dtype"], True), "per-sample", label)
    ctx.equal({n: gen.fingerprint(c[n]) for n in prints}, prints, "inputs-changed", label)
    ctx.state(c["mk"], c["gqa"], c["sk"], dropout > 0, str(c["dtype"]), len(stubs), effective, grad)


@section(quick=2500, thorough=250000, requires=("recorded", "finite-neg-inf", "upcast-none", "upcast-other", "dropout", "gqa"))
def recorded(ctx):
    """Each named quantizer sees exactly its own intermediate, once."""
    rng = ctx.rng
    c = case(ctx)
    label = describe(c)
    half = c["dtype"] in (torch.float16, torch.bfloat16)
    names = [n for n in NAMES if rng.random() < rng.choice([0.3, 0.6, 1.0])] or [rng.choice(NAMES)]
    log = []
    quantizers = {n: Recorder(n, log, None if half else 2.0 ** -rng.choice([2, 4, 8])) for n in names}
    dropout = rng.choice([0.0, 0.0, 0.4])
    neg = float("-inf")
    if rng.random() < 0.3:
        neg = -rng.choice([100.0, 1000.0, 30000.0])
        ctx.event("finite-neg-inf")
    upcast = rng.choice(["default", "default", "none", "other", "true", "nested"]) if half else rng.choice(["default", "default", "none"])
    compute = c["dtype"]
    with contextlib.ExitStack() as stack:
        if upcast == "none":
            stack.enter_context(ff.sdpa_upcast(rng.choice([None, False])))
            ctx.event("upcast-none")
        elif upcast == "other":
            stack.enter_context(ff.sdpa_upcast(torch.float64))
            compute = torch.float64
            ctx.event("upcast-other")
        elif upcast == "nested":
            outer = ff.sdpa_upcast(torch.float64)
            with ff.sdpa_upcast(None):
                with outer:
                    pass
                ctx.check(ff.sdpa_upcast.dtype is None, "upcast-restored", f"{ff.sdpa_upcast.dtype}")
            compute = torch.float32
        elif half:
            if upcast == "true":
                stack.enter_context(ff.sdpa_upcast(True))
            compute = torch.float32
        seed = rng.randrange(10**6)
        torch.manual_seed(seed)
        with torch.no_grad(), ff.sdpa_torch_fallback_allowed(rng.random() < 0.3):
            out = FF.scaled_dot_product_attention(
                c["q"], c["k"], c["v"], dropout_p=dropout, neg_inf=neg, strict_quantization=False, **quantizers, **kwargs_of(c)
            )
    ctx.check(ff.sdpa_upcast.dtype is torch.float32, "upcast-restored", f"{ff.sdpa_upcast.dtype}")
    label += f" quantizers={names} dropout={dropout} neg_inf={neg} upcast={upcast}"
    ctx.note(case=label)
    ctx.event("gqa", c["gqa"])
    ctx.equal(sorted(n for n, _, _ in log), sorted(names), "exactly-once", label)
    by = {n: (x, y) for n, x, y in log}
    for n, (x, _) in by.items():
        if n == "attn_mask_quantizer" and c["mask"] is not None and c["mask"].dtype != torch.bool:
            continue
        ctx.equal(x.dtype, compute, "compute-dtype", f"{label}: {n}")
    drop = None
    if dropout:
        torch.manual_seed(seed)
        shape = c["q"].shape[:-2] + (c["q"].shape[-2], c["k"].shape[-2])
        drop = F.dropout(torch.ones(shape, dtype=compute), dropout).double()
        ctx.event("dropout")
    low = compute in (torch.float16, torch.bfloat16)
    tol = tolerance(compute, True) if not low else {torch.float16: 2e-2, torch.bfloat16: 2e-1}[compute]
    order = []

    def step(name, want):
        if name not in by:
            return want
        got, produced = by[name]
        # low precision compares each quantized value with the reference of its own inputs only
        near(ctx, got, want, tol, "intermediate", f"{label}: {name}")
        order.append(name)
        ctx.event("recorded")
        return produced.double()

    if low and len(names) < 5:
        tol *= 4
    fully = neg != float("-inf") and (c["mask"] is not None)
    if not (fully and _has_dead_rows(c)) and c["k"].shape[-2]:
        want = reference(c, drop, step, neg)
        ctx.equal(order, [n for n in NAMES if n in names], "order", label)
        near(ctx, out, want, max(tol, tolerance(c["dtype"], True)), "output", label)
    ctx.equal(out.dtype, c["dtype"], "dtype", label)
    ctx.state(tuple(names), c["mk"], c["gqa"], dropout > 0, neg, upcast, str(c["dtype"]))


def _has_dead_rows(c):
    m = c["mask"]
    hidden = ~m if m.dtype == torch.bool else m.isneginf()
    return bool(hidden.all(-1).any()) or (m.dtype != torch.bool and bool(hidden.any()))


@section(quick=1000, thorough=70000, requires=("strict", "lenient", "refused", "calibrated"))
def quantizers(ctx):
    """Real quantizers, strict and lenient."""
    rng = ctx.rng
    c = case(ctx)
    c["dtype"] = torch.float32 if c["dtype"] in (torch.float16, torch.bfloat16) else c["dtype"]
    for n in "qkv":
        c[n] = c[n].to(c["dtype"])
    if c["mask"] is not None and c["mask"].dtype != torch.bool:
        c["mask"] = c["mask"].to(c["dtype"]).clamp_min(-50.0)
    label = describe(c)
    ctx.note(case=label)
    if not c["q"].numel() or not c["k"].numel():
        return

    def quantizer():
        q = ff.nn.LinearQuantizer(rng.choice([4, 8, 8]), symmetric=rng.random() < 0.5)
        return q

    subset = [n for n in NAMES if rng.random() < 0.5]
    strict = rng.random() < 0.5
    if strict:
        subset = list(NAMES)
    qs = {n: quantizer() for n in subset}
    inputs = {}
    for n in "qkv":
        z = quantizer()
        z.quantization_range = (float(c[n].min()) - 0.01, float(c[n].max()) + 0.01)
        inputs[n] = z(c[n]) if strict or rng.random() < 0.5 else c[n]
    quantized = {n: (t.dequantize() if isinstance(t, ff.QuantizedTensor) else t) for n, t in inputs.items()}
    kw = dict(kwargs_of(c), neg_inf=-100.0)
    box = torch.nn.ModuleList(qs.values())
    with ff.strict_quantization(False), torch.no_grad():
        if qs:
            with ff.estimate_ranges(box, ff.range_setting.running_minmax):
                FF.scaled_dot_product_attention(*inputs.values(), **qs, **kw)
            ctx.event("calibrated")
    log = []
    for n, z in qs.items():
        z.register_override(lambda zc, fn, args, kwargs, n=n: (lambda y: (log.append((n, args[0], y)), y)[1])(fn(*args, **kwargs)))
    flag = rng.random() < 0.5
    run = lambda **x: FF.scaled_dot_product_attention(*inputs.values(), **{**qs, **kw, **x})  # noqa: E731
    if strict and c["gqa"]:
        ctx.raises(QuantizationError, lambda: run(strict_quantization=True), "grouped-strict", label)
        ctx.event("refused")
        return
    with torch.no_grad() if rng.random() < 0.5 else contextlib.nullcontext():
        if strict:
            with ff.strict_quantization(flag):
                out = run(strict_quantization=True) if not flag or rng.random() < 0.5 else run()
            ctx.event("strict")
        else:
            with ff.strict_quantization(flag):
                out = run(strict_quantization=False) if flag or rng.random() < 0.5 else run()
            ctx.event("lenient")
    ctx.check(isinstance(out, ff.QuantizedTensor) == ("output_quantizer" in qs), "output-quantized", label)
    ctx.equal(sorted(n for n, _, _ in log), sorted(subset), "exactly-once", label)
    value = lambda t: (t.dequantize() if isinstance(t, ff.QuantizedTensor) else t).detach().double()  # noqa: E731
    by = {n: (x, y) for n, x, y in log}

    def step(name, want):
        if name not in by:
            return want
        near(ctx, value(by[name][0]), want, 1e-4, "intermediate", f"{label}: {name}")
        return value(by[name][1])

    if c["mk"] in ("none", "causal") or c["mk"] == "float" or not _has_dead_rows(c):
        want = reference(dict(c, **quantized), None, step, -100.0)
        near(ctx, value(out), want, 1e-4, "output", label)
    if strict:
        # a missing quantizer or an unquantized input is refused
        missing = rng.choice([n for n in NAMES if n in ("attn_scores_quantizer", "attn_mask_quantizer", "masked_scores_quantizer", "attn_weights_quantizer", "dropout_quantizer", "output_quantizer")])
        ctx.raises(QuantizationError, lambda: run(strict_quantization=True, **{missing: None if missing in ("masked_scores_quantizer", "output_quantizer") or rng.random() < 0.5 else ff.nn.QuantizerStub()}), "unquantized-refused", f"{label}: {missing}")
        inputs[rng.choice("qkv")] = c["v"]
        name = next(n for n in "qkv" if not isinstance(inputs[n], ff.QuantizedTensor))
        inputs[name] = c[name]
        ctx.raises(QuantizationError, lambda: run(strict_quantization=True), "unquantized-refused", f"{label}: {name}")
        ctx.event("refused")
    ctx.state(tuple(subset), strict, c["mk"], c["gqa"], flag)


@section(quick=100, thorough=1000, requires=("refused",))
def refusals(ctx):
    rng = ctx.rng
    random.seed(rng.random())
    c = case(ctx)
    while c["q"].shape[-2] == 0 or c["k"].shape[-2] == 0:
        c = case(ctx)
    lq, lk = c["q"].shape[-2], c["k"].shape[-2]
    base = [c["q"], c["k"], c["v"]]
    with ff.strict_quantization(False):
        ctx.raises(ValueError, lambda: FF.scaled_dot_product_attention(*base, attn_mask=torch.ones(lq, lk, dtype=torch.bool), is_causal=True, enable_gqa=c["gqa"]), "mask-and-causal", describe(c))
        ctx.raises(TypeError, lambda: FF.scaled_dot_product_attention(*base, enable_gqa=c["gqa"], other_quantizer=ff.nn.QuantizerStub()), "unknown-quantizer", describe(c))
    with ff.strict_quantization(True):
        ctx.raises(QuantizationError, lambda: FF.scaled_dot_product_attention(*base), "strict-unquantized", describe(c))
        ctx.raises(QuantizationError, lambda: FF.scaled_dot_product_attention(*base, enable_gqa=True), "strict-grouped", describe(c))
    ctx.event("refused")
    ctx.state(describe(c))
