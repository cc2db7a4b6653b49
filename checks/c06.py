"""C06: operating modes never change the numbers."""

import copy

import torch

import fastforward as ff

from ffmon import gen
from ffmon.core import section

META = {
    "technique": "runtime monitoring: differential oracle between operating modes of the same real code",
    "level_note": "The same quantizer/module is executed eagerly and under each mode (grad, no-grad, inference, export mode, traced export program, fake tensors, compiled kernels); results must agree bit for bit.",
    "rule": "distinct (mode, granularity, bits, storage dtype, offset, ndim) signatures",
    "assumptions": ["CPU", "compiled kernels compared up to one float rounding"],
}
A = ff.quantization.affine


def _q(ctx, shp, storage=True):
    rng = ctx.rng
    qd = rng.choice([None, None, torch.int8, torch.int16, torch.int32, torch.float64, torch.float32]) if storage else None
    return gen.linear_quantizer(rng, shp, quantized_dtype=qd, dyadic=rng.random() < 0.5) + (qd,)


@section(quick=1200, thorough=20000)
def quantizer_modes(ctx):
    rng = ctx.rng
    shp = gen.shape(rng)
    q, grid, desc, qd = _q(ctx, shp)
    x = gen.noncontiguous(rng, gen.dyadic_data(rng, grid))
    ctx.note(desc=desc, shape=shp, storage=str(qd))
    base = q(x)
    want = base.dequantize().detach()
    raw = base.raw_data.detach()
    ctx.check(want.dtype == x.dtype, "dtype")
    with torch.no_grad():
        ctx.same(q(x).raw_data, raw, "no-grad")
        ctx.same(q(x).dequantize(), want, "no-grad")
    with torch.inference_mode():
        ctx.same(q(x).dequantize(), want, "inference-mode")
    ctx.same(q(x.detach().clone().requires_grad_()).dequantize(), want, "requires-grad")
    q.eval()
    ctx.same(q(x).dequantize(), want, "eval")
    q.train()
    ctx.same(q(x).dequantize(), want, "train")
    with ff.strict_quantization(rng.random() < 0.5):
        ctx.same(q(x).dequantize(), want, "strictness")
    with ff.export_mode(True):
        e = q(x)
    ctx.check(not isinstance(e, ff.QuantizedTensor), "export-plain-tensor", type(e).__name__)
    ctx.check(e.dtype == want.dtype, "export-dtype", f"{e.dtype} != {want.dtype}")
    ctx.same(e, want, "export-mode")
    ctx.check(isinstance(q(x), ff.QuantizedTensor), "export-mode-ended")
    c = copy.deepcopy(q)
    ctx.same(c(x).dequantize(), want, "deepcopy")
    ctx.same(q.to("cpu")(x).dequantize(), want, "to-device")
    p = q.quantization_parameters()
    ctx.same(q.quantization_function.quantize(x, p).dequantize(), want, "via-parameters")
    ctx.same(q.quantization_context().quantization_fn.quantize(x, p).raw_data, raw, "via-context")
    n = q.scale.numel()
    q2 = ff.nn.LinearQuantizer(q.num_bits, symmetric=q.symmetric, allow_one_sided=q.allow_one_sided, granularity=q.granularity, quantized_dtype=q.quantized_dtype)
    q2.quantization_range = (torch.full((n,), -1.0), torch.full((n,), 1.0))
    q2.load_state_dict(q.state_dict())
    ctx.same(q2(x).dequantize(), want, "state-dict")
    ctx.state(desc.split()[0][:8], q.num_bits, str(qd), len(shp), q.offset is not None)


class _Net(ff.nn.QuantizedModule):
    def __init__(self, rng, d_in, d_out):
        super().__init__()
        self.lin = ff.nn.QuantizedLinear(d_in, d_out, bias=rng.random() < 0.7)
        self.act = rng.choice([ff.nn.QuantizedRelu, ff.nn.QuantizedSilu])()
        self.mode = rng.choice(["plain", "add", "view"])

    def __init_quantization__(self):
        super().__init_quantization__()
        self.q_in = ff.nn.QuantizerStub(output_quantizer=True)
        self.q_add = ff.nn.QuantizerStub(output_quantizer=True)

    def forward(self, x):
        x = self.q_in(x)
        y = self.act(self.lin(x))
        if self.mode == "add":
            y = ff.nn.functional.add(y, y, output_quantizer=self.q_add)
        elif self.mode == "view":
            y = y.reshape(-1)
        return y


def _net(ctx):
    rng = ctx.rng
    di, do = rng.choice([2, 4, 6]), rng.choice([2, 3, 4])
    net = _Net(rng, di, do)
    for m in list(net.modules()):
        if isinstance(m, ff.nn.QuantizedModule):
            for name, stub in list(m.named_children()):
                if not isinstance(stub, ff.nn.QuantizerStub):
                    continue
                if name == "bias_quantizer" and rng.random() < 0.5:
                    continue
                q = ff.nn.LinearQuantizer(rng.choice([3, 4, 8]), symmetric=rng.random() < 0.5, allow_one_sided=rng.random() < 0.5,
                                          quantized_dtype=rng.choice([None, None, torch.int8, torch.int32]),
                                          granularity=ff.PerChannel(0) if name == "weight_quantizer" and rng.random() < 0.5 else None)
                k = do if isinstance(q.granularity, ff.PerChannel) else 1
                lo = -torch.rand(k) - 0.1
                q.quantization_range = (lo, torch.rand(k) + 0.5)
                setattr(m, name, q)
    return net, di


@section(quick=250, thorough=3000)
def module_modes(ctx):
    rng = ctx.rng
    net, di = _net(ctx)
    x = torch.randn(rng.randint(1, 3), di)
    ctx.note(net=net.mode, net_repr=str(net)[:1500])
    with ff.strict_quantization(False):
        y = net(x)
        want = y.dequantize() if isinstance(y, ff.QuantizedTensor) else y
        want = want.detach()
        with torch.no_grad():
            y2 = net(x)
        ctx.same(y2.dequantize() if isinstance(y2, ff.QuantizedTensor) else y2, want, "no-grad")
        with ff.export_mode(True):
            e = net(x)
        ctx.check(not isinstance(e, ff.QuantizedTensor), "export-plain-tensor")
        ctx.same(e, want, "export-mode")
        c = copy.deepcopy(net)(x)
        ctx.same(c.dequantize() if isinstance(c, ff.QuantizedTensor) else c, want, "deepcopy")
    ctx.state(net.mode, type(net.act).__name__, di)


@section(quick=24, thorough=200)
def exported_program(ctx):
    """torch.export of a quantized module in export mode runs like the eager module."""
    rng = ctx.rng
    net, di = _net(ctx)
    x = torch.randn(2, di)
    ctx.note(net_repr=str(net)[:1500])
    with ff.strict_quantization(False), torch.no_grad():
        y = net(x)
        want = (y.dequantize() if isinstance(y, ff.QuantizedTensor) else y).detach()
        with ff.export_mode(True):
            ep = torch.export.export(net, (x,))
        for _ in range(3):
            ctx.same(ep.module()(x), want, "exported-program")
            x = torch.randn(2, di)
            y = net(x)
            want = (y.dequantize() if isinstance(y, ff.QuantizedTensor) else y).detach()
    vals = [n.meta["val"] for n in ep.graph.nodes if n.op == "call_function" and isinstance(n.meta.get("val"), torch.Tensor)]
    ctx.event("fake-nodes", len(vals))
    # recorded (fake) result types are those of the real execution
    seen = {}

    class Rec(torch.fx.Interpreter):
        def run_node(self, n):
            r = super().run_node(n)
            if isinstance(r, torch.Tensor):
                seen[n.name] = (tuple(r.shape), r.dtype)
            return r

    gm = ep.module()
    Rec(gm).run(x)
    for n in gm.graph.nodes:
        v = n.meta.get("val")
        if n.op == "call_function" and isinstance(v, torch.Tensor) and n.name in seen:
            ctx.equal((tuple(v.shape), v.dtype), seen[n.name], "fake-type-agrees", n.name)
    ctx.state(net.mode, type(net.act).__name__, di)


@section(quick=300, thorough=4000)
def fake_tensors(ctx):
    """Shape/type inference (fake tensors) predicts the real execution."""
    from torch._subclasses.fake_tensor import FakeTensorMode

    rng = ctx.rng
    shp = gen.shape(rng, max_numel=200)
    gr, tile, desc = gen.granularity(rng, shp)
    n = gen.n_tiles(shp, tile)
    bits = rng.choice([2, 4, 8])
    sc, off = gen.dyadic_params(rng, n, bits)
    x = torch.randn(shp)
    qd = rng.choice([torch.float32, torch.int8, torch.int32, torch.float64])
    dd = rng.choice([torch.float32, torch.float64, torch.bfloat16])
    ctx.note(desc=desc, shape=shp, qd=str(qd), dd=str(dd))

    def run(x, sc, off):
        a = torch.ops.fastforward.quantize_by_tile(x, sc, list(tile), bits, qd, off)
        b = torch.ops.fastforward.dequantize_by_tile(a, sc, list(tile), off, dd)
        return a, b

    real = run(x, sc, off)
    with FakeTensorMode(allow_non_fake_inputs=False) as m:
        fake = run(m.from_tensor(x), m.from_tensor(sc), None if off is None else m.from_tensor(off))
    for r, f, nm in zip(real, fake, ("quantize", "dequantize")):
        ctx.equal((tuple(f.shape), f.dtype), (tuple(r.shape), r.dtype), "fake-" + nm)
    ctx.state(desc[:8], str(qd), str(dd))


@section(quick=8, thorough=40)
def compiled_kernels(ctx):
    """Compiled quantization kernels agree with the interpreted ones."""
    import os

    os.environ.setdefault("TORCHINDUCTOR_CACHE_DIR", str(ctx.scratch_root) + "/inductor")
    rng = ctx.rng
    for _ in range(1 if ctx.tier == "quick" else 3):
        shp = gen.shape(rng, 2, 2, max_numel=60)
        q, grid, desc = gen.linear_quantizer(rng, shp, bits=4, symmetric=False)
        x = gen.dyadic_data(rng, grid).requires_grad_()
        g = torch.randn(shp)
        ctx.note(desc=desc, shape=shp)
        q.zero_grad()
        a = q(x)
        a.dequantize().backward(g)
        want = (a.raw_data.detach().clone(), a.dequantize().detach().clone(), x.grad.clone(), q.scale.grad.clone(), q.offset.grad.clone())
        x.grad = None
        q.zero_grad()
        with ff.flags.compiled_quant_funcs(True):
            b = q(x)
            b.dequantize().backward(g)
        ctx.check(not ff.flags.get_compiled_quant_funcs(), "flag-restored")
        got = (b.raw_data, b.dequantize(), x.grad, q.scale.grad, q.offset.grad)
        for u, v, nm in zip(got, want, ("integers", "values", "data-grad", "scale-grad", "offset-grad")):
            ctx.close(u, v, "compiled-" + nm, rtol=1e-5, atol=1e-4)
        ctx.state(desc[:8], len(shp))
