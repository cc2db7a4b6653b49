"""C23: exported encodings describe exactly the quantizers of the model."""

import contextlib
import copy
import io
import json
import logging
import pickle
import warnings

import onnx
import torch

import fastforward as ff
import fastforward.export as fexport

from fastforward.exceptions import ExportError
from fastforward.export._export_schemas import LegacySchemaHandler, V1SchemaHandler, V2SchemaHandler
from fastforward.export._lpbq import LPBQProcessor
from fastforward.export.pipeline import ExportOrchestrator, ExportRequest, QnnOnnxOptions

from ffmon import onnxsim as S
from ffmon.core import Known, section

META = {
    "technique": "runtime monitoring: random models are exported and an interpreter executes the exported graph in float64, applying each emitted encoding to the tensor it names; outputs are compared bit by bit with the eager quantized model, and decoded encodings with the quantizers observed during its execution",
    "level_note": "Random networks (layers, shared modules, views, branches, several inputs and outputs, keyword inputs, dead code) with dyadic quantization parameters go through export() and the orchestrator with all three schema versions, renaming options, reused handlers and both settings of store_weights_as_qdq. In addition the schema handlers get random quantization parameters for every granularity directly; what they emit is decoded per element of the tensor. LPBQ encodings must reproduce each block scale within half an integer step. Unsupported granularities, bit widths and asymmetric LPBQ must be refused.",
    "rule": "distinct (model structure, quantizer settings, schema version, options) combinations",
}

warnings.simplefilter("ignore")


@contextlib.contextmanager
def quiet():
    logging.disable(logging.ERROR)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        logging.disable(logging.NOTSET)


# --------------------------------------------------------------------------- decoding


def decode(d):
    """Encodings by name: (kind, bits, scale, float offset, is_sym, extra) under the rules of the version."""
    out = {}

    def put(name, **e):
        assert name not in out, f"two encodings for {name}"
        out[name] = e

    if d["version"] == "0.6.1":
        for group in ("param_encodings", "activation_encodings"):
            for name, es in d[group].items():
                bits = {e["bitwidth"] for e in es}
                assert len(bits) == 1 and all(e["dtype"] == "int" for e in es)
                put(name, bits=bits.pop(), scale=[e["scale"] for e in es], off=[e["offset"] for e in es], sym={"True": True, "False": False}[es[0]["is_symmetric"]], rng=[(e["min"], e["max"]) for e in es], param=group[0] == "p", kind="PER_CHANNEL" if len(es) > 1 else "PER_TENSOR", axis=0)
    elif d["version"] == "1.0.0":
        for group in ("param_encodings", "activation_encodings"):
            for e in d[group]:
                assert e["dtype"] == "INT"
                put(e["name"], bits=e["bw"], scale=e["scale"], off=e["offset"], sym=e["is_sym"], kind=e["enc_type"], block=e.get("block_size"), param=group[0] == "p", axis=0, raw=e, flat=True)
    else:
        assert d["version"] == "2.0.0"
        for e in d["encodings"]:
            ty = e["output_dtype"]
            unsigned = ty.startswith("u")
            bits = int(ty.removeprefix("u").removeprefix("int"))
            scale = torch.tensor(e["y_scale"], dtype=torch.float64)
            off = torch.tensor(e["y_zero_point"], dtype=torch.float64) if "y_zero_point" in e else torch.full_like(scale, -(2.0 ** (bits - 1)))
            assert unsigned == ("y_zero_point" in e) and off.shape == scale.shape
            kind = "PER_BLOCK" if "block_size" in e else "PER_CHANNEL" if "axis" in e else "PER_TENSOR"
            put(e["name"], bits=bits, scale=scale, off=off, sym=not unsigned, kind=kind, axis=e.get("axis"), block=e.get("block_size"), param=None)
    for e in out.values():
        e["scale"] = torch.as_tensor(e["scale"], dtype=torch.float64)
        e["off"] = torch.as_tensor(e["off"], dtype=torch.float64)
    return out


def expand(e, shape, *, block_layout=None):
    """Scale and offset of each element of a tensor of `shape`."""
    s, o = e["scale"], e["off"]
    if e["kind"] == "PER_TENSOR":
        assert s.numel() == 1
        return tuple(v.reshape(()).expand(shape) for v in (s, o))
    if e["kind"] == "PER_CHANNEL":
        view = [1] * len(shape)
        view[e["axis"]] = -1
        assert s.numel() == shape[e["axis"]], f"{s.numel()} scales for axis {e['axis']} of {tuple(shape)}"
        return tuple(v.reshape(view).expand(shape) for v in (s, o))
    if e.get("flat"):  # V1: flattened, in the order of the blocks
        chan, blk = block_layout
        n = shape[blk] // e["block"]
        grid = (shape[chan], n) if chan < blk else (n, shape[chan])
        s, o = (v.reshape(*grid, *[1] * (len(shape) - 2)) for v in (s, o))
        axis = blk
    else:
        axis = e["axis"]
    return tuple(v.repeat_interleave(e["block"], axis).expand(shape) for v in (s, o))


def quantize(t, s, o, bits):
    """QNN: float = (q + offset) * scale with q in [0, 2**bits - 1]."""
    return (torch.clamp(torch.round(t / s - o), 0, 2**bits - 1) + o) * s


# --------------------------------------------------------------------------- schema handlers


def random_tiles(ctx):
    rng = ctx.rng
    rank = rng.randint(1, 4)
    shape = tuple(rng.choice([2, 3, 4, 6, 8]) for _ in range(rank))
    kind = rng.choice(["tensor", "channel0", "channel0", "channel", "channels", "block", "block", "blocks", "tile"])
    tile = list(shape)
    if kind == "channel0":
        tile[0] = 1
    elif kind == "channel":
        tile[rng.randrange(rank)] = 1
    elif kind == "channels":
        for d in rng.sample(range(rank), min(2, rank)):
            tile[d] = 1
    elif kind in ("block", "blocks", "tile"):
        dims = rng.sample(range(rank), min(rank, 2 if kind == "block" else 3))
        for i, d in enumerate(dims):
            divs = [k for k in range(1, shape[d] + 1) if shape[d] % k == 0]
            proper = [k for k in divs if 1 < k < shape[d]] or [1]
            tile[d] = rng.choice(proper) if i == 0 else 1 if kind != "tile" else rng.choice(divs)
        if kind == "block" and rng.random() < 0.2 and rank > 1:
            tile[dims[1]] = shape[dims[1]]
    return shape, tuple(tile)


def tiles_to_elements(v, shape, tile):
    grid = [s // t for s, t in zip(shape, tile)]
    out = v.reshape(grid).double()
    for d, t in enumerate(tile):
        out = out.repeat_interleave(t, d)
    return out


def classify(shape, tile):
    """What a schema can express: the tiled dimensions, split in single elements and blocks."""
    split = [d for d in range(len(shape)) if tile[d] != shape[d]]
    single = [d for d in split if tile[d] == 1]
    block = [d for d in split if tile[d] != 1]
    if not split:
        return "tensor", single, block
    if not block and len(single) == 1:
        return ("channel0" if single == [0] else "channel"), single, block
    if not block:
        return "channels", single, block
    return ("block" if len(block) == 1 else "blocks"), single, block


@section(quick=1600, thorough=60000)
def schemas(ctx):
    rng = ctx.rng
    for handler, version, lpbq in (
        (LegacySchemaHandler(), "0.6.1", None),
        (V1SchemaHandler(), "1.0.0", None),
        (V1SchemaHandler(lpbq_processor=LPBQProcessor(*(c := rng.choice([(4, 8), (2, 8), (3, 4), (8, 16)])))), "1.0.0", c),
        (V2SchemaHandler(), "2.0.0", None),
    ):
        specs = {}
        for i in range(rng.randint(1, 4)):
            add_one(ctx, handler, version, lpbq, f"t{i}", specs)
        first = handler.build_encodings_dictionary()
        verify(ctx, first, specs, version, lpbq)
        again = json.loads(json.dumps(first))
        # A handler that is used again starts afresh and leaves earlier results alone.
        if rng.random() < 0.5:
            handler.clear()
            more = {}
            add_one(ctx, handler, version, lpbq, rng.choice(["t0", "other"]), more)
            verify(ctx, handler.build_encodings_dictionary(), more, version, lpbq)
            ctx.event("handler-reuse")
            ctx.equal(json.loads(json.dumps(first)), again, "reuse", "reusing a handler changed the encodings built earlier")


def add_one(ctx, handler, version, lpbq, name, specs):
    rng = ctx.rng
    shape, tile = random_tiles(ctx)
    kind, single, block = classify(shape, tile)
    n = 1
    for s, t in zip(shape, tile):
        n *= s // t
    bits = rng.choice([2, 3, 4, 5, 8, 12, 16, 4 if lpbq is None else lpbq[0]])
    scale = torch.tensor([rng.choice([2.0 ** rng.randint(-12, 3), rng.uniform(1e-4, 3.0)]) for _ in range(n)])
    how = rng.choice(["none", "zero", "asym", "asym", "mixed", "frac"])
    if lpbq is not None and kind == "block":
        how, bits = rng.choice(["none", "zero", "zero", "asym"]), rng.choice([lpbq[0]] * 4 + [5])
    lim = 2 ** (bits - 1)
    off = None if how == "none" else torch.zeros(n)
    if how in ("asym", "frac"):
        off = torch.tensor([float(rng.choice([-1, 1]) * rng.randint(1, lim)) for _ in range(n)])
    if how == "mixed":
        off = torch.tensor([float(rng.randint(-lim, lim)) * rng.choice([0, 1]) for _ in range(n)])
    if how == "frac":
        off = off + torch.tensor([rng.choice([-0.375, 0.25, 0.0]) for _ in range(n)])
    frac_bits = rng.random() < 0.06
    enc = {"scale": scale, "offset": off, "num_bits": bits + 0.5 if frac_bits else rng.choice([bits, float(bits)]), "data_shape": shape, "tile_size": tile}
    true_off = torch.zeros(n) if off is None else torch.round(off)
    sym = not bool((true_off != 0).any())
    param = rng.random() < 0.5
    # What the schemas document.
    if version == "2.0.0":
        ok = kind in ("tensor", "channel0") or kind == "block"
    elif version == "1.0.0":
        ok = kind in ("tensor", "channel0") or (kind == "block" and len(single) == 1 and sorted(single + block) == [0, 1])
        if lpbq is not None and kind == "block":
            ok = ok and sym and bits == lpbq[0]
    else:
        ok = kind in ("tensor", "channel0")
    before = json.dumps(handler.build_encodings_dictionary())
    if frac_bits or not ok:
        ctx.event("refused")
        ctx.state("refused", version, lpbq, kind, tuple(single), tuple(block), frac_bits)
        ctx.raises((ExportError, ValueError), lambda: handler.add_encoding(name, enc, param), "refuse", f"{version} {shape} {tile} bits={enc['num_bits']} lpbq={lpbq} offset={how}")
        ctx.equal(json.dumps(handler.build_encodings_dictionary()), before, "refuse-clean", "a refused encoding left something behind")
        return
    kept = {k: (v.clone() if isinstance(v, torch.Tensor) else v) for k, v in enc.items()}
    handler.add_encoding(name, enc, param)
    for k, v in kept.items():
        ctx.check(torch.equal(v, enc[k]) if isinstance(v, torch.Tensor) else v == enc[k], "input-kept", f"add_encoding changed its input {k}")
    if rng.random() < 0.1:  # the first encoding of a tensor stays
        with quiet():
            handler.add_encoding(name, {**enc, "scale": scale * 3}, param)
    specs[name] = (shape, tile, bits, scale, true_off, sym, param, kind, single, block)
    ctx.event("encodings")
    ctx.state("enc", version, lpbq is not None, kind, tuple(single), tuple(block), bits, how)


def verify(ctx, d, specs, version, lpbq):
    json.dumps(d)
    ctx.equal(d["version"], version, "version")
    encs = decode(d)
    ctx.equal(set(encs), set(specs), "names")
    for name, (shape, tile, bits, scale, off, sym, param, kind, single, block) in specs.items():
        e = encs[name]
        tag = f"{version} {shape} {tile} {e.get('raw', e)}"
        if e["param"] is not None:
            ctx.equal(e["param"], param, "category", tag)
        ctx.equal(e["sym"], sym, "symmetry", tag)
        if e["kind"] == "LPBQ":
            check_lpbq(ctx, e, lpbq, shape, tile, scale, single[0], block[0], tag)
            continue
        ctx.equal(e["bits"], bits, "bits", tag)
        layout = (single[0], block[0]) if kind == "block" and single else None
        s, o = expand(e, shape, block_layout=layout)
        ctx.same(s, tiles_to_elements(scale, shape, tile), "scale", tag)
        ctx.same(o, tiles_to_elements(off - 2 ** (bits - 1), shape, tile), "offset", tag)
        if "rng" in e:
            for (lo, hi), sc, of in zip(e["rng"], scale.double().tolist(), off.tolist()):
                ctx.close(torch.tensor(lo), torch.tensor((of - 2 ** (bits - 1)) * sc), "min", atol=1e-6 * abs(sc) * 2**bits)
                ctx.close(torch.tensor(hi), torch.tensor((of + 2 ** (bits - 1) - 1) * sc), "max", atol=1e-6 * abs(sc) * 2**bits)


def check_lpbq(ctx, e, lpbq, shape, tile, scale, chan, blk, tag):
    raw = e["raw"]
    small, big = lpbq
    ctx.equal((raw["compressed_bw"], raw["bw"], raw["block_size"]), (small, big, tile[blk]), "lpbq-settings", tag)
    n = shape[blk] // tile[blk]
    grid = (shape[chan], n) if chan < blk else (n, shape[chan])
    true = scale.double().reshape(grid)
    ints = torch.tensor(raw["per_block_int_scale"], dtype=torch.float64).reshape(grid)
    fl = e["scale"].reshape((-1, 1) if chan < blk else (1, -1))
    ctx.equal(e["scale"].numel(), shape[chan], "lpbq-channels", tag)
    ctx.check(bool((ints == ints.round()).all() and ints.min() >= 1 and ints.max() <= 2**small), "lpbq-range", tag)
    ctx.equal(set(raw["offset"]), {-(2.0 ** (big - 1))}, "lpbq-offset", tag)
    ctx.equal(len(raw["offset"]), shape[chan], "lpbq-offset-count", tag)
    err = (ints * fl - true).abs() / fl
    bad = (err > 0.5 + 1e-4) & ~((ints == 1) & (true < fl))
    ctx.check(not bool(bad.any()), "lpbq-scale", f"integer block scales are more than half a step from the block scales: {tag} {true.tolist()}")
    ctx.event("lpbq")


# --------------------------------------------------------------------------- models

HANDLERS = {"0.6.1": LegacySchemaHandler, "1.0.0": V1SchemaHandler, "2.0.0": V2SchemaHandler}


class Dead(torch.nn.Module):
    """Adds computations whose result is not used."""

    def __init__(self, net, when):
        super().__init__()
        self.net, self.when = net, when

    def waste(self, x):
        return (torch.relu(x) + 1.0).reshape(-1) * 2.0


class Dead1(Dead):
    def forward(self, a):
        if self.when == 0:
            self.waste(a)
        out = self.net(a)
        if self.when == 1:
            self.waste(out[0] if isinstance(out, tuple) else out)
        return out


class Dead2(Dead):
    def forward(self, a, b):
        self.waste(b)
        return self.net(a, b)


def observed_quantizers(net, xs, kw):
    """Parameters of the quantizers that run, by module, as (bits, scale, offset, shape)."""
    seen = []

    def hook(m, args, _out):
        seen.append((m.num_bits, m.scale.detach().double().reshape(-1), (torch.zeros_like(m.scale) if m.offset is None else torch.round(m.offset)).detach().double().reshape(-1), tuple(args[0].shape)))

    net = copy.deepcopy(net)
    live = set(net.outs)
    first = len(xs) + len(kw)
    for k in reversed(range(len(net.prog))):
        if k + first in live:
            live.update(net.prog[k][1])
        else:
            net.prog[k] = ("skip", (), None)
    hs = [m.register_forward_hook(hook) for m in net.modules() if isinstance(m, ff.nn.LinearQuantizer)]
    with torch.no_grad(), ff.strict_quantization(False):
        net(*xs, **kw)
    for h in hs:
        h.remove()
    return seen


def run_export(ctx, net, xs, kw, where, *, handler, via="export", store=True, **opts):
    with quiet():
        if via == "export":
            art = fexport.export(net, xs, where, "mm", model_kwargs=kw, encoding_schema_handler=handler, verbose=False, **opts)
        else:
            options = QnnOnnxOptions(encoding_schema_handler=handler, store_weights_as_qdq=store, verbose=False, **opts)
            art = ExportOrchestrator().export(ExportRequest(model=net, sample_inputs=[(xs, kw)], output_dir=where, model_name="mm", target="qnn", format="onnx", options=options.to_context()))
    proto = onnx.load(where / "mm.onnx")
    encs = json.loads((where / "mm.encodings").read_text())
    onnx.checker.check_model(proto)
    ctx.check(encs in [json.loads(json.dumps(v)) for v in art.stage_outputs.values() if isinstance(v, dict)], "artifact", "the returned encodings differ from the stored ones")
    return proto, encs


def consumers(proto):
    cons = {}
    for n in proto.graph.node:
        for i, a in enumerate(n.input):
            cons.setdefault(a, []).append((n.op_type, i))
    return cons


def simulate(ctx, proto, encs, feeds):
    """Outputs of the graph with each encoding applied to the tensor it names."""
    decoded = decode(encs)
    cons = consumers(proto)
    weights = {t.name for t in proto.graph.initializer}
    used = set()

    def hook(name, t):
        e = decoded.get(name)
        if e is None:
            return t
        used.add(name)
        folded = name in weights and any(c in (("Gemm", 1), ("MatMul", 1)) for c in cons.get(name, []))
        e = dict(e)
        if folded and e["kind"] != "PER_TENSOR":
            # A weight of which the transpose was folded: its output channels come last.
            s, o = expand({**e, "axis": 1 if e["kind"] == "PER_BLOCK" else 0}, (t.shape[-1], t.shape[-2]), block_layout=(0, 1))
            return quantize(t, s.T, o.T, e["bits"])
        if e["kind"] != "PER_TENSOR" and e["axis"] is None:
            e["axis"] = 0
        s, o = expand(e, t.shape, block_layout=(0, 1))
        return quantize(t, s, o, e["bits"])

    it = S.Interp(proto, hook)
    got = it.run(dict(zip([i.name for i in proto.graph.input], feeds)))
    ctx.equal(used, set(decoded), "names", "encodings for tensors that the graph does not have")
    ctx.event("onnx-ops", len(it.ops))
    return got, decoded


def settings(rng, version):
    k = dict(clean=True, size=rng.choice([4, 6, 9]), smooth=rng.random() < 0.3, act_gran=rng.choice([("tensor",), ("tensor", "tensor", "channel")]), weight_gran=rng.choice([("tensor",), ("channel",), ("tensor", "channel")]))
    if version != "0.6.1" and rng.random() < 0.3:
        k["weight_gran"] = ("block", "channel")
    return k


@section(quick=104, thorough=2600)
def models(ctx):
    rng = ctx.rng
    version = rng.choice(["0.6.1", "1.0.0", "1.0.0", "2.0.0"])
    k = settings(rng, version)
    net, xs, kw = S.Gen(rng, **k).build()
    inner = net
    if len(xs) == 1 and rng.random() < 0.25:
        net = Dead1(net, rng.randrange(2))
    elif len(xs) == 2 and not kw and rng.random() < 0.25:
        net = Dead2(net, 0)
    net.eval()
    want = S.reference(inner, xs, kw)
    quants = observed_quantizers(inner, xs, kw)
    weights = {n: p.detach().clone() for n, p in net.named_parameters()}
    handler = HANDLERS[version]()
    opts = {}
    n_in, n_out = len(xs) + len(kw), len(want)
    ins = outs = None
    if rng.random() < 0.3:
        opts["input_names"] = ins = [f"IN_{i}" for i in rng.sample(range(9), n_in)]
    if rng.random() < 0.3:
        opts["output_names"] = outs = [f"OUT_{i}" for i in rng.sample(range(9), n_out)]
    if rng.random() < 0.3:
        opts["alter_node_names"] = True
    via = rng.choice(["export", "orchestrator"])
    store = via == "export" or rng.random() < 0.5
    with torch.no_grad(), ff.strict_quantization(False):
        eager = net(*xs, **kw)
    where = ctx.scratch()
    proto, encs = run_export(ctx, net, xs, kw, where, handler=handler, via=via, store=store, **opts)
    ctx.note(version=version, opts=opts, via=via, store=store, settings=k)
    ctx.equal(encs["version"], version, "version")
    if ins:
        ctx.equal([i.name for i in proto.graph.input], ins, "input-names")
    if outs:
        ctx.equal([o.name for o in proto.graph.output], outs, "output-names")
    ctx.equal(len(proto.graph.output), n_out, "outputs")

    got, decoded = simulate(ctx, proto, encs, list(xs) + list(kw.values()))
    for i, (a, b) in enumerate(zip(got, want)):
        ctx.equal(tuple(a.shape), tuple(b.shape), "shape", f"output {i}")
        err = (a - b).abs().max().item() if a.numel() else 0.0
        ctx.check(err <= 1e-9, "outputs", f"output {i} of the exported graph with encodings applied differs by {err:.3g} from the quantized model", encodings=encs)

    # Each quantizer has an encoding and each encoding belongs to a quantizer.
    def key(bits, s, o):
        return (int(bits), tuple(s.reshape(-1).tolist()), tuple(o.reshape(-1).tolist()))

    have = {key(e["bits"], e["scale"], e["off"] + 2 ** (e["bits"] - 1)) for e in decoded.values()}
    need = {key(b, s, o) for b, s, o, _ in quants}
    ctx.equal(need - have, set(), "missing", "quantizers without encoding")
    ctx.equal(have - need, set(), "foreign", "encodings that belong to no quantizer")
    for name, e in decoded.items():
        ctx.equal(e["sym"], not bool((e["off"] != -(2 ** (e["bits"] - 1))).any()), "symmetry", name)
        if e["param"] is not None:
            ctx.equal(e["param"], name in {t.name for t in proto.graph.initializer}, "category", name)
    ctx.event("encodings", len(decoded))

    # Weights: on the grid if requested, else untouched.
    for n, m in inner.named_modules():
        if hasattr(m, "weight_quantizer") and isinstance(m.weight_quantizer, ff.nn.LinearQuantizer):
            old = weights[f"{'net.' if net is not inner else ''}{n}.weight"]
            exp = m.weight_quantizer(old).dequantize() if store else old
            ctx.same(m.weight.detach(), exp.detach(), "weights", f"{n} store_weights_as_qdq={store}")
    # The golden reference holds what the eager model computes.
    files = list(where.glob("*_input_output.pickle"))
    ctx.equal([f.name for f in files], ["mm_input_output.pickle"], "pickle")
    rec = pickle.loads(files[0].read_bytes())
    flat = eager if isinstance(eager, tuple) else (eager,)
    recs = rec["output"] if isinstance(rec["output"], (tuple, list)) else (rec["output"],)
    ctx.equal(len(recs), len(flat), "golden-count")
    for a, b in zip(recs, flat):
        a = a["value"] if isinstance(a, dict) and "value" in a else a
        b = b.dequantize() if isinstance(b, ff.QuantizedTensor) else b
        if isinstance(a, torch.Tensor):
            ctx.same(a.detach(), b.detach(), "golden")
    ctx.event("exports")
    ctx.event(f"schema-{version}")
    ctx.state(version, tuple(op for op, _, _ in inner.prog), tuple(sorted(opts)), store, k["weight_gran"])

    # The same handler for another model.
    if rng.random() < 0.25:
        kept = copy.deepcopy(encs)
        net2, xs2, kw2 = S.Gen(rng, clean=True, size=3).build()
        where2 = ctx.scratch() / "second"
        proto2, encs2 = run_export(ctx, net2, xs2, kw2, where2, handler=handler)
        want2 = S.reference(net2, xs2, kw2)
        got2, _ = simulate(ctx, proto2, encs2, list(xs2) + list(kw2.values()))
        for a, b in zip(got2, want2):
            ctx.check((a - b).abs().max().item() <= 1e-9, "reuse", "reused handler")
        ctx.equal(json.loads((where / "mm.encodings").read_text()), kept, "reuse-file")
        ctx.event("handler-reuse")


class Split(torch.nn.Module):
    def __init__(self, chunk):
        super().__init__()
        self.q0, self.q1 = (ff.nn.LinearQuantizer(b, allow_one_sided=False) for b in (4, 3))
        for q, s in ((self.q0, 0.25), (self.q1, 0.5)):
            S.set_params(q, torch.tensor([s]), None)
        self.chunk = chunk

    def forward(self, x):
        a, b = x.chunk(2, -1) if self.chunk else torch.split(x, x.shape[-1] // 2, -1)
        return self.q0(a) * 2.0, self.q1(b) * 3.0


class Twice(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.q0, self.q1 = (ff.nn.LinearQuantizer(b, allow_one_sided=False) for b in (4, 3))
        for q, s in ((self.q0, 0.25), (self.q1, 0.5)):
            S.set_params(q, torch.tensor([s]), None)

    def forward(self, x):
        return self.q0(torch.relu(x)) * 2.0, self.q1(torch.relu(x)) * 3.0


class Fused(Twice):
    def forward(self, x):
        return torch.relu(self.q1(torch.relu(x))), self.q0(x * 2.0)


@section(quick=5, thorough=5)
def known(ctx):
    """Models for which the export is known to lose or misplace an encoding."""
    x = torch.arange(-8.0, 8.0).reshape(2, 8) / 8
    if ctx.case == 4:
        net = torch.nn.Sequential(ff.nn.QuantizedLinear(4, 3, bias=False))
        net[0].weight_quantizer = ff.nn.LinearQuantizer(4, granularity=ff.PerChannel(0), allow_one_sided=False)
        S.set_params(net[0].weight_quantizer, torch.tensor([0.25, 0.5, 1.0]), None)
        net[0].output_quantizer = ff.nn.LinearQuantizer(8, allow_one_sided=False)
        S.set_params(net[0].output_quantizer, torch.tensor([0.25]), None)
        proto, encs = run_export(ctx, net, (torch.ones(2, 4),), {}, ctx.scratch(), handler=V2SchemaHandler())
        cons = consumers(proto)
        init = {t.name: tuple(t.dims) for t in proto.graph.initializer}
        for name, e in decode(encs).items():
            if name in init and e["kind"] == "PER_CHANNEL":
                trans = {n.name: {a.name: onnx.helper.get_attribute_value(a) for a in n.attribute}.get("transB", 0) for n in proto.graph.node if n.op_type == "Gemm"}
                out_axis = 0 if any(trans.values()) else 1
                ctx.event("axes")
                if any(c[0] in ("Gemm", "MatMul") for c in cons[name]) and e["axis"] != out_axis:
                    raise Known("v2-axis-of-transposed-weight", f"V2 encoding of '{name}' {init[name]} has axis {e['axis']}, its {e['scale'].numel()} scales are those of axis {out_axis}")
        return
    net = (Split(False), Split(True), Twice(), Fused())[ctx.case]
    finding = ("split-outputs", "split-outputs", "merged-duplicates", "merged-duplicates")[ctx.case]
    want = S.reference(net, (x,), {})
    proto, encs = run_export(ctx, net, (x,), {}, ctx.scratch(), handler=V1SchemaHandler())
    got, decoded = simulate(ctx, proto, encs, [x])
    err = max((a - b).abs().max().item() for a, b in zip(got, want))
    ctx.event("outputs")
    if len(decoded) < 2 or err > 1e-9:
        what = "the encodings of the outputs of a split are lost" if ctx.case < 2 else "the ONNX exporter merges expressions that only differ in quantizers (equal expressions, relu of relu); an encoding is lost"
        raise Known(finding, f"{what}: {len(decoded)} of 2 encodings, outputs differ by {err:.3g}")


@section(quick=32, thorough=400)
def refusals(ctx):
    """Quantizers that the schema cannot express are refused."""
    rng = ctx.rng
    version = rng.choice(list(HANDLERS))
    kind = rng.choice(["bits", "channel1", "tile", "block"])
    if kind == "block":
        version = "0.6.1"
    gran = {"bits": ff.PerTensor(), "channel1": ff.PerChannel(1), "tile": ff.PerTile((2, 2)), "block": ff.PerBlock(1, 2, 0)}[kind]
    n = {"bits": 1, "channel1": 6, "tile": 6, "block": 12}[kind]
    q = ff.nn.LinearQuantizer(rng.choice([2.5, 7.25]) if kind == "bits" else 4, granularity=gran, symmetric=rng.random() < 0.5, allow_one_sided=False)
    q.quantization_range = (torch.full((n,), -1.0), torch.full((n,), 1.0))
    if rng.random() < 0.5:
        net = torch.nn.Sequential(q, torch.nn.ReLU())
        x = torch.randn(4, 6)
    else:
        net = torch.nn.Sequential(ff.nn.QuantizedConv1d(6, 4, 1, bias=False))
        net[0].weight_quantizer = q
        if kind in ("channel1", "bits"):
            x = torch.randn(1, 6, 3)
        else:
            net, x = torch.nn.Sequential(q, torch.nn.ReLU()), torch.randn(4, 6)
    ctx.raises(Exception, lambda: run_export(ctx, net, (x,), {}, ctx.scratch(), handler=HANDLERS[version]()), "refuse", f"{kind} {version}")
    ctx.event("refused")
    ctx.state(kind, version, type(net[0]).__name__)
