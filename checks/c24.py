"""C24: exported quantize/dequantize graphs compute what the quantized model computes."""

import collections
import copy
import pickle
import warnings

import onnx
import onnxruntime as ort
import torch

import fastforward as ff
import fastforward.export as fexport

from fastforward.exceptions import ExportError
from fastforward.export.pipeline import ExportOrchestrator, ExportRequest, QnnOnnxOptions

from checks.c23 import Dead1, Dead2, observed_quantizers, quiet
from ffmon import onnxsim as S
from ffmon.core import section

META = {
    "technique": "runtime monitoring: random models are exported as QDQ graphs and executed by onnxruntime and by a float64 interpreter; outputs are compared with the eager quantized model, and the quantization nodes with the quantizers observed during its execution",
    "level_note": "Random networks (layers, branches, views, splits, re-quantization, shared modules and quantizers, several inputs and outputs, keyword inputs, dead code) with per-tensor and per-channel quantizers of any axis and 4, 8 or 16 bits. With dyadic parameters the interpreter must agree exactly with the eager model (with even zero points, or an independent quantizer that rounds ties as ONNX does); onnxruntime must agree exactly if float32 suffices. Layers with realistic continuous data must agree up to one step on the few elements that are near a tie. Every quantization node must carry the parameters of a quantizer that ran, and each of those must have a node. Bit widths, tiles and zero points that a QDQ pair cannot express must be refused; renaming options must be honoured.",
    "rule": "distinct (model structure, quantizer settings, options) combinations",
}

warnings.simplefilter("ignore")


class RefQuantizer(torch.nn.Module):
    """Quantize and dequantize, rounding before the zero point is added."""

    def __init__(self, q):
        super().__init__()
        self.bits, self.gran = q.num_bits, q.granularity
        self.s = q.scale.detach().double()
        self.z = torch.zeros_like(self.s) if q.offset is None else -torch.round(q.offset.detach().double())

    def forward(self, x):
        shape = [1] * x.dim()
        if isinstance(self.gran, ff.PerChannel):
            shape[self.gran.channel_dims[0]] = -1
        s, z = self.s.reshape(shape), self.z.reshape(shape)
        return (torch.clamp(torch.round(x / s) + z, -(2 ** (self.bits - 1)), 2 ** (self.bits - 1) - 1) - z) * s


def onnx_rounding(net, store=True):
    """A copy of the network that rounds as ONNX does; `store`: the weights are those on the grid."""
    net = copy.deepcopy(net)
    for m in net.modules():
        if store and isinstance(getattr(m, "weight_quantizer", None), ff.nn.LinearQuantizer):
            with torch.no_grad():
                m.weight.copy_(m.weight_quantizer(m.weight).dequantize())
    for m in list(net.modules()):
        for n, c in list(m._modules.items()):
            if isinstance(c, ff.nn.LinearQuantizer):
                setattr(m, n, RefQuantizer(c))
    return net


def run_export(ctx, net, xs, kw, where, *, via="export", store=True, **opts):
    with quiet():
        if via == "export":
            fexport.export(net, xs, where, "mm", model_kwargs=kw, verbose=False, format="onnx_qdq", **opts)
        else:
            options = QnnOnnxOptions(store_weights_as_qdq=store, verbose=False, **opts)
            ExportOrchestrator().export(ExportRequest(model=net, sample_inputs=[(xs, kw)], output_dir=where, model_name="mm", target="qnn", format="onnx_qdq", options=options.to_context()))
    proto = onnx.load(where / "mm.onnx")
    onnx.checker.check_model(proto)
    ctx.check(all(o.version >= 21 for o in proto.opset_import if o.domain == ""), "opset")
    return proto


def run_ort(where, feeds):
    opt = ort.SessionOptions()
    opt.graph_optimization_level = ort.GraphOptimizationLevel.ORT_DISABLE_ALL
    opt.intra_op_num_threads = 1
    opt.log_severity_level = 3
    s = ort.InferenceSession(str(where / "mm.onnx"), opt, providers=["CPUExecutionProvider"])
    names = [i.name for i in s.get_inputs()]
    return [torch.from_numpy(v) for v in s.run(None, {n: x.numpy() for n, x in zip(names, feeds)})]


_BITS = {onnx.TensorProto.INT4: 4, onnx.TensorProto.INT8: 8, onnx.TensorProto.INT16: 16}


def qdq_nodes(ctx, proto):
    """(bits, scale, -zero point) of each quantize node; checks that it is followed by its inverse."""
    init = {t.name: t for t in proto.graph.initializer}
    users = collections.defaultdict(list)
    for n in proto.graph.node:
        for i in n.input:
            users[i].append(n)
    out = []
    for n in proto.graph.node:
        if n.op_type != "QuantizeLinear":
            continue
        at = {a.name: onnx.helper.get_attribute_value(a) for a in n.attribute}
        ctx.equal(len(n.input), 3, "zero-point", n.name)
        s, z = (init[i] for i in n.input[1:])
        z_val = torch.tensor(onnx.numpy_helper.to_array(z).astype("float64"))
        s_val = torch.tensor(onnx.numpy_helper.to_array(s)).double()
        ctx.check(users[n.output[0]], "unused", n.name)
        for d in users[n.output[0]]:
            ctx.equal(d.op_type, "DequantizeLinear", "pair", n.name)
            at2 = {a.name: onnx.helper.get_attribute_value(a) for a in d.attribute}
            s2, z2 = (init[i] for i in d.input[1:])
            ctx.same(torch.tensor(onnx.numpy_helper.to_array(s2)).double(), s_val, "pair-scale")
            ctx.same(torch.tensor(onnx.numpy_helper.to_array(z2).astype("float64")), z_val, "pair-zero-point")
            ctx.equal(z2.data_type, z.data_type, "pair-type")
            if s_val.numel() > 1:
                ctx.equal(at2.get("axis", 1), at.get("axis", 1), "pair-axis")
        out.append((_BITS[z.data_type], tuple(s_val.reshape(-1).tolist()), tuple((-z_val).reshape(-1).tolist())))
    return out


def compare(ctx, got, want, tol, key, what):
    ctx.equal(len(got), len(want), "outputs")
    for i, (a, b) in enumerate(zip(got, want)):
        ctx.equal(tuple(a.shape), tuple(b.shape), "shape", f"output {i}")
        err = (a.double() - b.double()).abs().max().item() if a.numel() else 0.0
        ctx.check(err <= tol, key, f"output {i} of {what} differs by {err:.3g}")


@section(quick=112, thorough=2200)
def models(ctx):
    rng = ctx.rng
    even = rng.random() < 0.5
    smooth = rng.random() < 0.25
    grans = rng.choice([("tensor",), ("tensor", "channel"), ("tensor", "channel", "channel_last")])
    bits = rng.choice([(4, 8), (4, 8), (4, 8, 16)])
    k = dict(requant=rng.random() < 0.6, split=True, smooth=smooth, act_bits=bits, weight_bits=(4, 8), weight_gran=("tensor", *grans), act_gran=grans, offset_lim=7, even_offsets=even, size=rng.choice([4, 6, 9]))
    net, xs, kw = S.Gen(rng, **k).build()
    inner = net
    if len(xs) == 1 and rng.random() < 0.2:
        net = Dead1(net, rng.randrange(2))
    elif len(xs) == 2 and not kw and rng.random() < 0.2:
        net = Dead2(net, 0)
    net.eval()
    via = rng.choice(["export", "orchestrator"])
    store = via == "export" or rng.random() < 0.5
    want = S.reference(inner if even else onnx_rounding(inner, store), xs, kw)
    if even:  # the independent quantizer is the same then
        compare(ctx, S.reference(onnx_rounding(inner), xs, kw), want, 0.0, "reference", "the reference quantizer")
    quants = observed_quantizers(inner, xs, kw)
    weights = {n: p.detach().clone() for n, p in inner.named_parameters()}
    n_in, n_out = len(xs) + len(kw), len(want)
    opts = {}
    ins = outs = None
    if rng.random() < 0.3:
        opts["input_names"] = ins = [f"IN_{i}" for i in rng.sample(range(9), n_in)]
    if rng.random() < 0.3:
        opts["output_names"] = outs = [f"OUT_{i}" for i in rng.sample(range(9), n_out)]
    if rng.random() < 0.3:
        opts["alter_node_names"] = True
    if rng.random() < 0.2:
        opts["onnx_export_options"] = {"opset_version": rng.choice([21, 22, 23])}
    given = {k2: (dict(v) if isinstance(v, dict) else v) for k2, v in opts.items()}
    with torch.no_grad(), ff.strict_quantization(False):
        eager = net(*xs, **kw)
    where = ctx.scratch()
    ctx.note(opts=opts, via=via, store=store, settings=k)
    proto = run_export(ctx, net, xs, kw, where, via=via, store=store, **opts)
    ctx.equal(opts, given, "options", "export changed the options it was given")
    if ins:
        ctx.equal([i.name for i in proto.graph.input], ins, "input-names")
    if outs:
        ctx.equal([o.name for o in proto.graph.output], outs, "output-names")
    if opts.get("alter_node_names"):
        ctx.check(all(n.name.startswith("ff_") for n in proto.graph.node if n.name), "node-names")
    feeds = list(xs) + list(kw.values())
    it = S.Interp(proto)
    got = it.run(dict(zip([i.name for i in proto.graph.input], feeds)))
    compare(ctx, got, want, 1e-9, "interpreter", "the exported graph")
    ctx.event("onnx-ops", len(it.ops))
    run = run_ort(where, feeds)
    if not smooth and 16 not in bits:
        compare(ctx, run, want, 1e-5, "onnxruntime", "onnxruntime")
        ctx.event("onnxruntime-exact")
    else:
        for a, b in zip(run, want):
            ctx.equal(tuple(a.shape), tuple(b.shape), "shape")
        ctx.event("onnxruntime-loads")

    # Quantization nodes: those of the quantizers that ran, with their parameters.
    have = set(qdq_nodes(ctx, proto))
    need = {(int(b), tuple(s.tolist()), tuple((o + 0.0).tolist())) for b, s, o, _ in quants}
    norm = lambda q: {(b, s, tuple(v + 0.0 for v in o)) for b, s, o in q}  # noqa: E731
    ctx.equal(norm(need) - norm(have), set(), "missing", "quantizers without a node")
    ctx.equal(norm(have) - norm(need), set(), "foreign", "nodes of no quantizer")
    ctx.event("qdq-pairs", sum(o == "QuantizeLinear" for o in it.ops))
    ctx.check(sum(o == "QuantizeLinear" for o in it.ops) <= len(quants), "count", "more quantization nodes than quantizer calls")

    for n, m in inner.named_modules():
        if hasattr(m, "weight_quantizer") and isinstance(m.weight_quantizer, ff.nn.LinearQuantizer):
            old = weights[f"{n}.weight"]
            ctx.same(m.weight.detach(), (m.weight_quantizer(old).dequantize() if store else old).detach(), "weights", f"{n} store_weights_as_qdq={store}")
    rec = pickle.loads((where / "mm_input_output.pickle").read_bytes())
    flat = eager if isinstance(eager, tuple) else (eager,)
    recs = rec["output"] if isinstance(rec["output"], (tuple, list)) else (rec["output"],)
    ctx.equal(len(recs), len(flat), "golden-count")
    ctx.event("exports")
    ctx.state(tuple(op for op, _, _ in inner.prog), tuple(sorted(opts)), store, grans, bits, even)


@section(quick=40, thorough=800)
def layers(ctx):
    """Layers with continuous data and ranges estimated from the data."""
    rng = ctx.rng
    ctx.torch_seed()
    bits = rng.choice([4, 8, 8, 16])
    wbits = rng.choice([4, 8])
    kind = rng.choice(["linear", "linear3d", "conv1d", "conv2d", "bare", "two"])
    i, o = rng.choice([3, 8, 17]), rng.choice([2, 5])
    sym, wsym = rng.random() < 0.5, rng.random() < 0.7

    def fit(q, data, channel=False):
        d = data.detach().transpose(0, 0).flatten(1) if channel else data.detach().reshape(1, -1)
        lo, hi = d.amin(1).clamp(max=-1e-3), d.amax(1).clamp(min=1e-3)
        q.quantization_range = (lo, hi)
        return q

    x = {"linear": torch.randn(7, i), "linear3d": torch.randn(2, 3, i), "conv1d": torch.randn(2, i, 6), "conv2d": torch.randn(2, i, 5, 4), "bare": torch.randn(4, i), "two": torch.randn(7, i)}[kind] * rng.choice([0.1, 1.0, 20.0])
    channel = rng.random() < 0.6
    if kind == "bare":
        q = ff.nn.LinearQuantizer(bits, symmetric=sym, allow_one_sided=rng.random() < 0.5)
        net = torch.nn.Sequential(fit(q, x * rng.choice([1.0, 0.5])), torch.nn.ReLU())
        mod = None
    else:
        mod = {"linear": lambda: ff.nn.QuantizedLinear(i, o), "two": lambda: ff.nn.QuantizedLinear(i, o), "linear3d": lambda: ff.nn.QuantizedLinear(i, o), "conv1d": lambda: ff.nn.QuantizedConv1d(i, o, 3, padding=rng.choice([0, 1]), stride=rng.choice([1, 2])), "conv2d": lambda: ff.nn.QuantizedConv2d(i, o, rng.choice([1, 3]), padding=rng.choice([0, 1]))}[kind]()
        wq = ff.nn.LinearQuantizer(wbits, symmetric=wsym, granularity=ff.PerChannel(0) if channel else ff.PerTensor())
        mod.weight_quantizer = fit(wq, mod.weight, channel)
        mod.input_quantizer = fit(ff.nn.LinearQuantizer(bits, symmetric=sym), x)
        with torch.no_grad(), ff.strict_quantization(False):
            mod.output_quantizer = fit(ff.nn.LinearQuantizer(bits, symmetric=sym), mod(x))
        net = torch.nn.Sequential(mod)
        if kind == "two":
            net.append(torch.nn.ReLU())
    net.eval()
    with torch.no_grad(), ff.strict_quantization(False):
        want = net(x)
    last = net[0] if mod is None else mod.output_quantizer
    want = want.dequantize() if isinstance(want, ff.QuantizedTensor) else want
    where = ctx.scratch()
    proto = run_export(ctx, net, (x,), {}, where)
    (got,) = run_ort(where, [x])
    ctx.equal(tuple(got.shape), tuple(want.shape), "shape")
    step = float(last.scale.max())
    steps = ((got - want).abs() / step).detach()
    ctx.note(kind=kind, bits=bits, sym=sym)
    # Accumulation order and ties may move an element to a neighbouring grid point.
    ctx.check(steps.max().item() <= 1.01, "steps", f"{kind}: {steps.max().item():.2f} steps off")
    off = (steps > 0.01).float().mean().item()
    ctx.check(off <= (0.08 if bits < 16 else 0.5) + 1.5 / steps.numel(), "fraction", f"{kind} bits={bits}: {off:.2%} of the elements differ from the eager model")
    qdq_nodes(ctx, proto)
    ctx.event("elements", steps.numel())
    ctx.event("moved", int((steps > 0.01).sum()))
    ctx.state(kind, bits, wbits, sym, wsym, channel)


@section(quick=48, thorough=600)
def refusals(ctx):
    rng = ctx.rng
    kind = rng.choice(["bits", "frac", "zero-point", "block", "channels", "tile", "opset", "ok"])
    shape = (4, 6)
    gran, n = {"block": (ff.PerBlock(1, 2, 0), 12), "channels": (ff.PerChannel((0, 1)), 24), "tile": (ff.PerTile(rng.choice([(2, 2), (2, 6), (4, 3), (1, 3), (2, 1)])), None)}.get(kind, rng.choice([(ff.PerTensor(), 1), (ff.PerChannel(0), 4), (ff.PerChannel(1), 6)]))
    if n is None:
        t = gran.tile_size(torch.Size(shape))
        n = (4 // t[0]) * (6 // t[1])
    bits = {"bits": rng.choice([2, 3, 5, 7, 12]), "frac": rng.choice([4.5, 7.5, 8.25, 3.75])}.get(kind, rng.choice([4, 8, 16]))
    q = ff.nn.LinearQuantizer(bits, symmetric=False, granularity=gran)
    q.quantization_range = (torch.full((n,), -1.0), torch.full((n,), 1.0))
    lim = 2 ** (int(bits) - 1)
    with torch.no_grad():
        q.offset.copy_(torch.tensor([float(rng.randint(-lim + 1, lim)) for _ in range(n)]))
        if kind == "zero-point":
            q.offset[rng.randrange(n)] = rng.choice([lim + 1.0, 3.0 * lim, -1.0 * lim, -2.5 * lim, lim + 0.6])
    q = q.eval()
    net = torch.nn.Sequential(q, torch.nn.ReLU())
    x = torch.randn(*shape)
    opts = {"onnx_export_options": {"opset_version": rng.choice([17, 20])}} if kind == "opset" else {}
    where = ctx.scratch()
    ctx.state(kind, str(gran), bits)
    if kind == "ok":
        run_export(ctx, net, (x,), {}, where, **opts)
        want = S.reference_plain(onnx_rounding(net), x)
        (got,) = run_ort(where, [x])
        ctx.check((got.double() - want).abs().max().item() <= 1e-4 + q.scale.max().item() * 1.01, "accepted")
        ctx.check(((got.double() - want).abs() > q.scale.max().item() / 2).double().mean().item() <= 0.1, "accepted-exact", "outputs of an accepted quantizer differ from those of the model")
        ctx.event("accepted")
        return
    ctx.raises(ExportError, lambda: run_export(ctx, net, (x,), {}, where, **opts), "refuse", f"{kind} bits={bits} {gran} offset={q.offset.tolist()}")
    ctx.check(not (where / "mm.onnx").exists(), "refuse-file", "a refused export left a model behind")
    ctx.event("refused")
