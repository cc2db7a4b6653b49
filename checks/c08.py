"""C08: quantized functional operators are the float operator between quantizers."""

import importlib
import os
import pathlib
import sys
import uuid

import torch
import torch.nn.functional as F

import fastforward as ff

from ffmon import gen
from ffmon.core import REPO, Skip, section

META = {
    "technique": "runtime monitoring: recording output quantizer + differential oracle against the float operator",
    "level_note": "Every operator of the functional library is called with random argument values, calling styles, quantized/float mixes and strictness; a recording output quantizer shows what it received and how often; compared with the torch operator on the dequantized values. Operators re-generated from the specification file are held to the same oracle.",
    "rule": "distinct (operator, set of given arguments, positional/keyword split, quantized mix, strictness, quantizer kind, outcome) signatures",
}
QErr = ff.exceptions.QuantizationError


class Recorder(ff.nn.LinearQuantizer):
    """Output quantizer that records the values it is given."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.seen = []

    def forward(self, data):
        self.seen.append(data.detach().clone() if not isinstance(data, ff.QuantizedTensor) else data)
        return super().forward(data)


def _recorder(rng):
    q = Recorder(rng.choice([3, 4, 8]), symmetric=rng.random() < 0.5)
    lim = rng.choice([0.5, 2.0, 20.0])
    q.quantization_range = (-lim, lim)
    q.seen.clear()
    return q


# ---------------------------------------------------------------- workloads
# Every entry yields (arguments in declaration order, required, kinds, torch reference)
# kind Q: quantized parameter; M: may be quantized; V: value


def _t(*s):
    return torch.randn(s)


def _conv(nd, rng):
    g = rng.choice([1, 1, 2])
    ci, co = 2 * g, 2 * g
    k = rng.choice([1, 2, 3])
    sp = [rng.randint(4, 6) for _ in range(nd)]
    one = lambda vals: rng.choice(vals) if rng.random() < 0.5 else tuple(rng.choice(vals) for _ in range(nd))  # noqa: E731
    stride = one([1, 2])
    same = rng.random() < 0.2
    pad = rng.choice(["same", "valid"]) if same else one([0, 1, 2])
    if pad == "same":
        stride = 1
    args = dict(input=_t(2, ci, *sp), weight=_t(co, ci // g, *[k] * nd), bias=_t(co), stride=stride, padding=pad, dilation=one([1, 2]) if k < 3 else 1, groups=g)
    if pad == "same":
        args["stride"] = 1
    return args, ("input", "weight"), "QQM", ("groups",) if g > 1 else ()


def _convt(nd, rng):
    g = rng.choice([1, 2])
    ci, co = 2 * g, 2 * g
    k = rng.choice([2, 3])
    s = 2
    dil = rng.choice([1, 2])
    return dict(input=_t(2, ci, *[rng.randint(2, 4)] * nd), weight=_t(ci, co // g, *[k] * nd), bias=_t(co), stride=s, padding=rng.choice([0, 1]), output_padding=rng.choice([0, 1]), groups=g, dilation=dil), ("input", "weight"), "QQM", ("groups", "stride", "dilation") if g > 1 else ("stride",)


def _avg(nd, rng):
    return dict(input=_t(2, 3, *[rng.randint(4, 7) for _ in range(nd)]), kernel_size=rng.choice([2, 3, (2,) * nd]), stride=rng.choice([1, 2, (2,) * nd]), padding=rng.choice([0, 1]), ceil_mode=rng.random() < 0.5, count_include_pad=rng.random() < 0.5), ("input", "kernel_size", "stride"), "Q", ()


def _bin(name, rng):
    a = _t(3, 4)
    b = rng.choice([_t(3, 4), _t(4), _t(3, 1), rng.choice([2.0, -0.5, 3])])
    if name == "pow":
        a = a.abs() + 0.1
        b = rng.choice([2.0, 3, _t(3, 4)])
    second = "exponent" if name == "pow" else "other"
    d = {"input": a, second: b}
    if name in ("add", "sub"):
        d["alpha"] = rng.choice([1, 2, -0.5])
    return d, ("input", second), "QQ", ()


def _intbin(rng):
    return dict(input=torch.randint(0, 16, (3, 4)), other=torch.randint(0, 4, (3, 4))), ("input", "other"), "QQ", ()


def _like(name, rng):
    d = dict(input=_t(2, 3, 2, 2))
    if name == "full_like":
        d["fill_value"] = rng.choice([0.5, 2, -1.25])
    d.update(dtype=rng.choice([torch.float32, torch.float64]), layout=torch.strided, device=torch.device("cpu"), requires_grad=rng.random() < 0.5, memory_format=rng.choice([torch.preserve_format, torch.channels_last]))
    return d, ("input", "fill_value") if name == "full_like" else ("input",), "Q", ()


def _interp(rng):
    if rng.random() < 0.5:
        d = dict(input=_t(1, 2, 4, 5), size=rng.choice([6, (3, 7)]))
    else:
        d = dict(input=_t(1, 2, 4, 5), scale_factor=rng.choice([2.0, 1.5, (2.0, 0.5)]))
    d["mode"] = rng.choice(["nearest", "bilinear", "bicubic", "area"])
    need = ["mode"]
    if d["mode"] in ("bilinear", "bicubic"):
        d["align_corners"] = rng.random() < 0.5
        if rng.random() < 0.3:
            d["antialias"] = True
            d["align_corners"] = False
    if "scale_factor" in d and rng.random() < 0.3:
        d["recompute_scale_factor"] = True
    return d, ("input",), "Q", tuple(need) + (("size",) if "size" in d else ("scale_factor",))


def _emb(rng):
    return dict(input=torch.randint(0, 7, (2, 3)), weight=_t(7, 4), padding_idx=rng.choice([0, -1]), max_norm=None, norm_type=2.0, scale_grad_by_freq=rng.random() < 0.5, sparse=False), ("input", "weight"), "VQ", ()


def _norm(rng, ln):
    shp = rng.choice([(4,), (3, 4)])
    d = dict(input=_t(2, 3, 4), normalized_shape=shp, weight=_t(*shp))
    if ln:
        d["bias"] = _t(*shp)
    d["eps"] = rng.choice([1e-5, 1e-2])
    return d, ("input", "normalized_shape"), "QVQM" if ln else "QVQ", ()


def _unary(rng):
    return dict(input=_t(3, 4)), ("input",), "Q", ()


TABLE = {
    "linear": (F.linear, lambda r: (dict(input=_t(2, 3, 4), weight=_t(5, 4), bias=_t(5)), ("input", "weight"), "QQM", ())),
    "conv1d": (F.conv1d, lambda r: _conv(1, r)),
    "conv2d": (F.conv2d, lambda r: _conv(2, r)),
    "conv3d": (F.conv3d, lambda r: _conv(3, r)),
    "softmax": (F.softmax, lambda r: (dict(input=_t(3, 4), dim=r.choice([0, 1, -1]), dtype=r.choice([torch.float64, torch.float32])), ("input", "dim"), "Q", ())),
    "relu": (F.relu, _unary),
    "sigmoid": (F.sigmoid, _unary),
    "conv_transpose1d": (F.conv_transpose1d, lambda r: _convt(1, r)),
    "conv_transpose2d": (F.conv_transpose2d, lambda r: _convt(2, r)),
    "conv_transpose3d": (F.conv_transpose3d, lambda r: _convt(3, r)),
    "avg_pool1d": (F.avg_pool1d, lambda r: _avg(1, r)),
    "avg_pool2d": (F.avg_pool2d, lambda r: _avg(2, r)),
    "avg_pool3d": (F.avg_pool3d, lambda r: _avg(3, r)),
    "embedding": (F.embedding, _emb),
    "layer_norm": (F.layer_norm, lambda r: _norm(r, True)),
    "matmul": (torch.matmul, lambda r: (dict(input=_t(3, 4), other=r.choice([_t(4, 2), _t(4), _t(2, 4, 3)])), ("input", "other"), "QQ", ())),
    "mm": (torch.mm, lambda r: (dict(input=_t(3, 4), mat2=_t(4, 2)), ("input", "mat2"), "QQ", ())),
    "bmm": (torch.bmm, lambda r: (dict(input=_t(2, 3, 4), mat2=_t(2, 4, 2)), ("input", "mat2"), "QQ", ())),
    "sum": (torch.sum, lambda r: (dict(input=_t(3, 4), dim=r.choice([0, 1, -1, None])), ("input",), "Q", ())),
    "negative": (torch.negative, _unary),
    "positive": (torch.positive, _unary),
    "silu": (F.silu, _unary),
    "gelu": (F.gelu, lambda r: (dict(input=_t(3, 4), approximate=r.choice(["none", "tanh"])), ("input",), "Q", ())),
    "dropout": (F.dropout, lambda r: (dict(input=_t(6, 7), p=r.choice([0.1, 0.7]), training=r.random() < 0.7, inplace=False), ("input",), "Q", ())),
    "permute": (torch.permute, lambda r: (dict(input=_t(2, 3, 4), dims=r.choice([(2, 0, 1), (1, 0, 2), (0, 2, 1)])), ("input", "dims"), "Q", ())),
    "cat": (torch.cat, lambda r: (dict(tensors=[_t(2, 3) for _ in range(r.randint(1, 3))], dim=r.choice([0, 1, -1])), ("tensors",), "L", ())),
    "index_add": (torch.index_add, lambda r: (dict(input=_t(4, 3), dim=0, index=torch.tensor([0, 2, 2]), source=_t(3, 3), alpha=r.choice([1, 2.0, -0.5])), ("input", "dim", "index", "source"), "QVVQ", ())),
    "cumsum": (torch.cumsum, lambda r: (dict(input=_t(3, 4), dim=r.choice([0, 1])), ("input", "dim"), "Q", ())),
    "max_pool2d": (F.max_pool2d, lambda r: (dict(input=_t(2, 3, 6, 7), kernel_size=r.choice([2, 3, (2, 3)]), stride=r.choice([1, 2, (1, 2)]), padding=r.choice([0, 1]), dilation=r.choice([1, 2]), ceil_mode=r.random() < 0.5), ("input", "kernel_size"), "Q", ())),
    "interpolate": (F.interpolate, _interp),
    "unfold": (F.unfold, lambda r: (dict(input=_t(1, 2, 6, 6), kernel_size=r.choice([2, (2, 3)]), dilation=r.choice([1, 2, (1, 2)]), padding=r.choice([0, 1, (0, 1)]), stride=r.choice([1, 2, (2, 1)])), ("input", "kernel_size"), "Q", ())),
    "exp": (torch.exp, _unary),
    "sin": (torch.sin, _unary),
    "cos": (torch.cos, _unary),
    "rms_norm": (F.rms_norm, lambda r: _norm(r, False)),
}


def _pad(r):
    m = r.random()
    d = dict(input=_t(2, 3, 5), pad=r.choice([(1, 2), (0, 1), (2, 0)]))
    if m < 0.6:
        d["mode"] = r.choice(["constant", "reflect", "replicate"])
    if d.get("mode", "constant") == "constant":
        d["value"] = r.choice([0.0, 1.5])
    return d, ("input", "pad"), "Q", ("mode",) if d.get("mode", "constant") != "constant" else ()


TABLE["pad"] = (F.pad, _pad)
for _n in ("add", "sub", "mul", "div", "pow", "floor_divide", "remainder"):
    TABLE[_n] = (getattr(torch, _n), lambda r, n=_n: _bin(n, r))
for _n in ("bitwise_and", "bitwise_or", "bitwise_xor", "bitwise_left_shift", "bitwise_right_shift"):
    TABLE[_n] = (getattr(torch, _n), _intbin)
TABLE["bitwise_not"] = (torch.bitwise_not, lambda r: (dict(input=torch.randint(-9, 9, (3, 4))), ("input",), "Q", ()))
for _n in ("ones_like", "zeros_like", "full_like", "empty_like"):
    TABLE[_n] = (getattr(torch, _n), lambda r, n=_n: _like(n, r))

# declaration order where the workload does not build every parameter
ORDER = {
    "interpolate": ["input", "size", "scale_factor", "mode", "align_corners", "recompute_scale_factor", "antialias"],
    "pad": ["input", "pad", "mode", "value"],
    "embedding": ["input", "weight", "padding_idx", "max_norm", "norm_type", "scale_grad_by_freq", "sparse"],
}
NAMES = sorted(TABLE)


def _quantize(rng, t):
    shp = tuple(t.shape)
    gr, tile, _ = gen.granularity(rng, shp)
    n = gen.n_tiles(shp, tile)
    sc, off = gen.dyadic_params(rng, n, 4)
    return ff.quantization.affine.quantize_per_granularity(t, sc, off, gr, 4)


def _drive(ctx, fns, name, strict_default):
    """Call operator `name` of namespace `fns` once and check everything about it."""
    rng = ctx.rng
    ref_fn, make = TABLE[name]
    full, required, kinds, keep = make(rng)
    if name in ("embedding",):
        full.pop("max_norm")
    # Drop a random subset of the optional arguments.
    given = {k: v for k, v in full.items() if k in required or k in keep or rng.random() < 0.6}
    if name == "conv_transpose1d" or name.startswith("conv_transpose"):
        given.setdefault("stride", full["stride"])
    if ("stride" not in given or given.get("dilation", 1) == 1) and name.startswith("conv_transpose"):
        pass
    explicit = rng.choice([None, True, False])
    effective = explicit if explicit is not None else strict_default
    # in strict mode mostly build acceptable calls
    want_ok = rng.random() < 0.65
    kindmap = dict(zip(full, kinds.ljust(len(full), "V")))
    args = {}
    mix = []
    missing = False
    for k, v in given.items():
        kd = kindmap[k]
        if kd == "L":
            ls = []
            for t in v:
                q = rng.random() < (0.97 if effective and want_ok else 0.5)
                ls.append(_quantize(rng, t) if q else t)
                missing |= not q
                mix.append(q)
            if rng.random() < 0.2 and isinstance(ls[0], ff.QuantizedTensor):
                ls = [ls[0].clone() for _ in ls]
                missing = False
            args[k] = rng.choice([list, tuple])(ls)
        elif kd in "QM" and isinstance(v, torch.Tensor):
            p = 0.97 if effective and want_ok and kd == "Q" else 0.5
            q = v.is_floating_point() and rng.random() < p
            args[k] = _quantize(rng, v) if q else v
            if not q and kd == "Q":
                missing = True
            mix.append(q)
        else:
            args[k] = v
    oq_kind = rng.choice(["rec", "rec", "rec", "none", "stub"] if not (effective and want_ok) else ["rec", "rec", "rec", "rec", "stub", "none"])
    oq = _recorder(rng) if oq_kind == "rec" else (ff.nn.QuantizerStub() if oq_kind == "stub" else None)
    # calling style
    names = list(args)
    order = ORDER.get(name, list(full))
    npos = 0
    while npos < len(names) and names[npos] == order[npos] and rng.random() < 0.6:
        npos += 1
    pos = [args[k] for k in names[:npos]]
    kw = {k: args[k] for k in names[npos:]}
    if oq is not None or rng.random() < 0.3:
        kw["output_quantizer"] = oq
    if explicit is not None:
        kw["strict_quantization"] = explicit
    items = list(kw.items())
    rng.shuffle(items)
    kw = dict(items)

    def deq(v):
        if isinstance(v, ff.QuantizedTensor):
            return v.dequantize().detach().clone()
        if isinstance(v, torch.Tensor):
            return v.detach().clone()
        if isinstance(v, (list, tuple)) and v and isinstance(v[0], torch.Tensor):
            return [deq(x) for x in v]
        return v

    plain = {k: deq(v) for k, v in args.items()}
    ctx.note(op=name, given={k: (v if not isinstance(v, (torch.Tensor, list)) else "tensor") for k, v in args.items()}, npos=npos, mix=mix, oq=oq_kind, strict=(explicit, effective))
    torch.manual_seed(ctx.case)
    try:
        want = ref_fn(**plain)
    except Exception as e:  # noqa: BLE001
        want = e
    tensors = [v for v in args.values() if isinstance(v, torch.Tensor)] + [t for v in args.values() if isinstance(v, (list, tuple)) for t in v if isinstance(t, torch.Tensor)]
    before = [gen.fingerprint(t) for t in tensors]
    refuse = effective and (oq is None or missing)
    torch.manual_seed(ctx.case)
    try:
        got = getattr(fns, name)(*pos, **kw)
    except QErr:
        ctx.check(refuse, "unexpected-refusal", f"{name} refused although quantizer and quantized inputs were given")
        ctx.equal([gen.fingerprint(t) for t in tensors], before, "inputs-unchanged")
        ctx.event("refused")
        ctx.state(name, tuple(given), npos, tuple(mix), oq_kind, effective, "refused")
        return
    except Exception as e:  # noqa: BLE001
        if isinstance(want, Exception):
            ctx.check(True, "both-invalid")
            ctx.event("invalid")
            return
        if refuse:
            ctx.fail("refusal-type", f"{name} raised {type(e).__name__}: {e} instead of QuantizationError")
        raise
    if isinstance(want, Exception):
        ctx.fail("accepted-invalid", f"{name} returned a value where the float operator raises {want!r}")
    ctx.equal([gen.fingerprint(t) for t in tensors], before, "inputs-unchanged")
    isq = isinstance(got, ff.QuantizedTensor)
    if refuse:
        # a quantized kernel may serve the call exactly without a new grid
        ctx.check(isq and oq_kind != "rec", "strict-not-enforced", f"{name} computed although strict quantization requires quantized inputs and an output quantizer")
        ctx.close(got.dequantize(), want, "value", rtol=1e-5, atol=1e-5)
        ctx.event("exact-kernel")
        return
    if name == "empty_like":
        ctx.equal((tuple(got.shape), got.device.type), (tuple(want.shape), want.device.type), "shape")
        if oq_kind == "rec":
            ctx.equal(len(oq.seen), 1, "quantizer-applied-once")
            ctx.equal(oq.seen[0].dtype, want.dtype, "dtype")
        return
    if oq_kind == "rec":
        ctx.equal(len(oq.seen), 1, "quantizer-applied-once")
        r = oq.seen[0]
        ctx.check(not isinstance(r, ff.QuantizedTensor), "quantizer-input-float")
        ctx.close(r, want, "value", rtol=1e-4, atol=1e-5)
        ctx.equal(r.dtype, want.dtype, "dtype")
        if name.endswith("_like"):
            ctx.equal(r.stride(), want.stride(), "memory-format")
        ctx.check(isq, "result-quantized")
        again = ff.nn.LinearQuantizer.forward(oq, r)
        ctx.same(got.dequantize(), again.dequantize(), "quantized-result")
    else:
        v = got.dequantize() if isq else got
        ctx.close(v, want, "value", rtol=1e-4, atol=1e-5)
        if not isq:
            ctx.equal(v.dtype, want.dtype, "dtype")
            if name.endswith("_like"):
                ctx.equal((v.stride(), v.requires_grad), (want.stride(), want.requires_grad), "like-attrs")
        ctx.event("unquantized-result" if not isq else "exact-kernel")
    ctx.event("op:" + name)
    ctx.state(name, tuple(given), npos, tuple(mix), oq_kind, effective, "ok")


@section(quick=8000, thorough=200000, requires=("refused", *("op:" + n for n in NAMES if not n.startswith("bitwise") and n != "empty_like")))
def operators(ctx):
    name = NAMES[ctx.case % len(NAMES)]
    strict = ctx.rng.random() < 0.5
    with ff.strict_quantization(strict):
        _drive(ctx, ff.nn.functional, name, strict)


@section(quick=2500, thorough=40000)
def fallbacks(ctx):
    """The fallback implementations (strict unless told otherwise)."""
    from fastforward._gen import fallback

    name = NAMES[ctx.case % len(NAMES)]
    with ff.strict_quantization(ctx.rng.random() < 0.5):
        _drive(ctx, fallback, name, True)


_GEN = {}


def _regenerated(ctx):
    """Package generated afresh from the operator specification."""
    if "m" not in _GEN:
        from fastforward._quantops import OperatorTable
        from fastforward._quantops import generate as G
        import fastforward._quantops as Q

        d = ctx.scratch()
        pkg = "ffregen_" + uuid.uuid4().hex[:8]
        (d / pkg).mkdir()
        (d / pkg / "__init__.py").write_text("")
        cwd = os.getcwd()
        os.chdir(REPO)
        try:
            src = pathlib.Path(Q.__file__).parent / "quantized_operators.yaml"
            G.generate(OperatorTable.from_yaml(src), src, d / pkg)
        finally:
            os.chdir(cwd)
        sys.path.insert(0, str(d))
        _GEN["m"] = importlib.import_module(pkg + ".operators")
    return _GEN["m"]


@section(quick=2500, thorough=40000)
def regenerated(ctx):
    """Operators generated afresh from the specification obey the same contract."""
    m = _regenerated(ctx)
    name = NAMES[ctx.case % len(NAMES)]
    strict = ctx.rng.random() < 0.5
    if not hasattr(m, name):
        ctx.fail("missing-operator", f"{name} is not generated from the specification")
    with ff.strict_quantization(strict):
        _drive(ctx, m, name, strict)


@section(quick=53, thorough=53)
def table(ctx):
    """The operator table resolves each float operator to its quantized counterpart."""
    from fastforward._quantops import OperatorTable

    if "t" not in _GEN:
        _GEN["t"] = OperatorTable.from_yaml(alias_extensions=[])
    t = _GEN["t"]
    names = sorted({o.identifier for o in t.operators()} | set(NAMES))
    if ctx.case >= len(names):
        raise Skip()
    name = names[ctx.case]
    ctx.note(op=name)
    if name not in TABLE:
        return
    ref = TABLE[name][0]
    ops = list(t.get(ref))
    ctx.check(ops, "listed", f"{name} has no table entry for its float operator")
    ctx.equal(ops[0].identifier, name, "identifier")
    ctx.check(ops[0].metadata.dispatch_op is getattr(ff.nn.functional, name), "dispatch-op")
    full = TABLE[name][1](ctx.rng)[0]
    ctx.equal([p.name for p in ops[0].parameters][: len(full)][:1], list(full)[:1], "first-parameter")
    ctx.state(name)
