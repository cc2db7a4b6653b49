"""C12: quantization state survives saving and loading."""

import json
import random

import torch
import yaml

import fastforward as ff

from ffmon import gen, peek
from ffmon.core import section

META = {
    "technique": "runtime monitoring: save/load round-trip differential monitor over random models with fault injection into artifacts and targets",
    "level_note": "Random nested models (tied weights, shared modules and quantizers, odd names, converted and custom layers) get random quantizers (static, dynamic, user subclasses, lazy, re-configured, cast, aliased parameters); both on-disk formats, plain state dicts and YAML are round-tripped and every quantizer is compared bit for bit (type, settings, parameters, dtypes, raw output), with sharing, metadata and untouched parts checked. Mismatching targets and damaged artifacts must raise and leave the target bit-identical.",
    "rule": "distinct (format, policy, quantizer kinds, sharing, fault, outcome) signatures",
}


class DoublingQuantizer(ff.nn.LinearQuantizer):
    """A user subclass that inherits __init__."""

    def quantize(self, data):
        return super().quantize(data * 2)


class OddQuantizer(ff.nn.LinearQuantizer):
    """A user subclass with its own signature and extra attributes."""

    def __init__(self, bits_exponent, mode="a", **kw):
        super().__init__(2**bits_exponent, **kw)
        self.mode = mode
        self.table = {"x": [1, 2], "y": (3, None)}


def infer_fn(data, granularity, num_bits):
    raise NotImplementedError


class Block(torch.nn.Module):
    def __init__(self, n):
        super().__init__()
        self.proj = torch.nn.Linear(n, n)
        self.norm = torch.nn.LayerNorm(n)
        self.register_buffer("shift", torch.zeros(n))

    def forward(self, x):
        return self.norm(self.proj(x)) + self.shift


class QBlock(ff.nn.QuantizedModule, Block):
    def __init_quantization__(self):
        super().__init_quantization__()
        self.extra_quantizer = ff.nn.QuantizerStub(output_quantizer=True)

    def forward(self, x):
        return self.extra_quantizer(self.norm(self.proj(x)) + self.shift)


class Net(torch.nn.Module):
    def __init__(self, spec):
        super().__init__()
        r = random.Random(spec)
        n = r.choice([4, 8])
        self.n = n
        self.width = n
        self.blocks = torch.nn.ModuleDict()
        keys = r.sample(["a", "b0", "x,y", "k=v", "p::q", "scale", "ä", "a b"], r.randint(1, 4))
        shared = None
        for k in keys:
            c = r.random()
            if c < 0.35:
                m = torch.nn.Linear(n, n, bias=r.random() < 0.6)
            elif c < 0.6:
                m = Block(n)
            elif c < 0.75:
                m = torch.nn.Sequential(torch.nn.Linear(n, n), torch.nn.ReLU())
            elif shared is not None:
                m = shared
            else:
                m = torch.nn.Linear(n, n)
            shared = shared or m
            self.blocks[k] = m
        self.embed = torch.nn.Embedding(n, n)
        self.head = torch.nn.Linear(n, n, bias=False)
        if r.random() < 0.5:
            self.head.weight = self.embed.weight
        self.conv = torch.nn.Conv2d(1, 2, 2)
        if r.random() < 0.3:
            self.conv.to(memory_format=torch.channels_last)

    def forward(self, idx):
        h = self.embed(idx)
        for b in self.blocks.values():
            h = b(h)
        return self.head(h), self.conv(h.reshape(1, 1, -1, self.width))


class QNet(ff.nn.QuantizedModule, Net):
    pass


def build(spec, seed):
    torch.manual_seed(seed)
    m = Net(spec)
    ff.quantize_model(m)
    return m


def quantizer_slots(m):
    """(parent, attribute, names) of every quantizer slot of the model."""
    out = {}
    for pname, parent in m.named_modules(remove_duplicate=False):
        for attr, child in parent.named_children():
            if isinstance(child, ff.nn.Quantizer):
                out.setdefault((id(parent), attr), (parent, attr, []))[2].append((pname + "." if pname else "") + attr)
    return list(out.values())


def random_quantizer(ctx, shape, allow_lazy):
    rng = ctx.rng
    k = rng.random()
    if k < 0.15:
        gr, _, d = gen.granularity(rng, shape)
        q = ff.nn.DynamicLinearQuantizer(rng.choice([2, 4, 8]), granularity=gr, symmetric=rng.random() < 0.5, allow_one_sided=rng.random() < 0.5)
        ctx.event("dynamic")
        return q, "dyn"
    bits = rng.choice([2, 3, 4, 6, 8])
    gr, tile, d = gen.granularity(rng, shape)
    kw = dict(
        symmetric=rng.random() < 0.5,
        allow_one_sided=rng.random() < 0.5,
        granularity=gr if rng.random() < 0.9 else None,
        quantized_dtype=rng.choice([None, None, torch.int8, torch.float32, torch.int32]),
    )
    if rng.random() < 0.2:
        kw["param_dtype"] = rng.choice([torch.float64, torch.float16])
        ctx.event("param-dtype")
    if kw["granularity"] is None:
        tile = tuple(shape)
    cls = rng.choice(["lin", "lin", "lin", "sub", "odd"])
    if cls == "odd":
        bits = rng.choice([1, 2, 3])
        q = OddQuantizer(bits, rng.choice(["a", "b"]), **kw)
    else:
        q = (ff.nn.LinearQuantizer if cls == "lin" else DoublingQuantizer)(bits, **kw)
    if cls != "lin":
        ctx.event("subclass")
    if allow_lazy and rng.random() < 0.25:
        ctx.event("lazy")
        return q, "lazy"
    n = gen.n_tiles(shape, tile)
    lo = -torch.rand(n) * (rng.random() < 0.7) - 0.01 * rng.random()
    q.quantization_range = (lo, lo + torch.rand(n) + 0.05)
    if rng.random() < 0.15:  # re-configured after construction
        q.num_bits = max(2, int(q.num_bits) - 1)
        q.quantized_dtype = rng.choice([None, torch.int16])
        q.allow_one_sided = not q.allow_one_sided if rng.random() < 0.5 else q.allow_one_sided
        ctx.event("reconfigured")
    if rng.random() < 0.15:
        q.custom_note = rng.choice(["n", 3, [1, 2]])
    if rng.random() < 0.1:
        q.to(rng.choice([torch.float16, torch.float64]))
        ctx.event("cast")
    if rng.random() < 0.1 and n > 1:
        q.scale = torch.nn.Parameter(q.scale.detach()[:1].expand(n), requires_grad=rng.random() < 0.5)
        ctx.event("expanded-parameter")
    return q, cls


def populate(ctx, m, allow_lazy, p=0.5):
    """Attach random quantizers to random slots; returns {slot name: quantizer}."""
    rng = ctx.rng
    made = {}
    kinds = set()
    slots = quantizer_slots(m)
    rng.shuffle(slots)
    for parent, attr, names in slots:
        if rng.random() > p:
            continue
        w = getattr(parent, attr.removesuffix("_quantizer"), None) if attr in ("weight_quantizer", "bias_quantizer") else None
        shape = tuple(w.shape) if isinstance(w, torch.Tensor) else (2, 4)
        same = [(q, s) for q, s, _ in made.values() if s == shape]
        c = rng.random()
        if same and c < 0.15:
            q = rng.choice(same)[0]
            ctx.event("shared-quantizer")
            kinds.add("shared")
        elif same and c < 0.25:
            src = rng.choice(same)[0]
            q = ff.nn.LinearQuantizer(4, symmetric=True, allow_one_sided=False, granularity=getattr(src, "granularity", None))
            if not isinstance(src, ff.nn.LinearQuantizer) or src.has_uninitialized_params:
                q, kd = random_quantizer(ctx, shape, allow_lazy)
            else:
                q.scale = src.scale
                ctx.event("shared-parameter")
                kinds.add("tied")
        else:
            q, kd = random_quantizer(ctx, shape, allow_lazy)
            kinds.add(kd)
        setattr(parent, attr, q)
        for nm in names:
            made[nm] = (q, shape, names)
    return made, kinds


def qsig(q):
    ps = {}
    for k, v in list(q.named_parameters()) + list(q.named_buffers()):
        ps[k] = "lazy" if torch.nn.parameter.is_lazy(v) else (str(v.dtype), tuple(v.shape), tuple(v.detach().double().flatten().tolist()))
    st = {k: repr(v) for k, v in vars(q).items() if not k.startswith("_") and k != "quant_metadata" and k != "training"}
    return type(q).__qualname__, ps, st


def snapshot(m):
    """Everything observable about a model: module identities, tensors, quantizer state."""
    mods = [(n, id(x), type(x).__name__) for n, x in m.named_modules(remove_duplicate=False)]
    tens = {
        n: ("lazy" if torch.nn.parameter.is_lazy(t) else gen.fingerprint(t), id(t))
        for n, t in list(m.named_parameters(remove_duplicate=False)) + list(m.named_buffers(remove_duplicate=False))
    }
    qs = {n: qsig(q) for n, q in m.named_modules() if isinstance(q, ff.nn.Quantizer)}
    return mods, tens, qs


def compare(ctx, src, dst, covered, what, made=None):
    """Every covered quantizer of dst behaves bit-identically to that of src."""
    a = dict(src.named_modules(remove_duplicate=False))
    b = dict(dst.named_modules(remove_duplicate=False))
    for nm in covered:
        q, r = a[nm], b[nm]
        ctx.check(q is not r, "distinct-object", f"{what}: {nm} is the saved object itself")
        ctx.equal(qsig(r), qsig(q), "quantizer-state", f"{what}: {nm}")
        slots = {tuple(v[2]) for n2, v in (made or covered).items() if a[n2] is q}
        ctx.check(
            len(slots) > 1  # a quantizer in several slots carries the role of one of them
            or (q.quant_metadata is None) == (r.quant_metadata is None)
            and (q.quant_metadata is None or (peek.tags(q.quant_metadata) == peek.tags(r.quant_metadata) and q.quant_metadata.shape == r.quant_metadata.shape)),
            "metadata",
            f"{what}: {nm} {q.quant_metadata} vs {r.quant_metadata}",
        )
        shape = covered[nm][1]
        if not any(torch.nn.parameter.is_lazy(p) for p in list(q.parameters()) + list(q.buffers())):
            for dt in (torch.float32, torch.float64):
                x = (torch.randn(shape) * 2).to(dt)
                y, z = q(x), r(x)
                ctx.equal(gen.fingerprint(z), gen.fingerprint(y), "quantizer-output", f"{what}: {nm}")
        else:
            ctx.raises(ValueError, lambda: r(torch.ones(shape)), "lazy-stays-lazy", nm)
    names = list(covered)
    for i, n1 in enumerate(names):
        for n2 in names[i + 1 :]:
            ctx.equal(b[n1] is b[n2], a[n1] is a[n2], "sharing", f"{what}: {n1} {n2}")


def saver(ctx, fmt, m, d, lazy, method):
    if fmt == "state":
        f = m.save_quantization_state if method else lambda **k: ff.quantization.save_quantization_state(m, **k)
        return f(name_or_path="org/model 1", tag="t", cache_dir=d, allow_lazy_params=lazy)
    f = m.save_quantized_model if method else lambda *a, **k: ff.quantization.save_quantized_model(m, *a, **k)
    return f(d / "art", name_or_path="org/model 1", allow_lazy_params=lazy)


def loader(ctx, fmt, m, d, lazy=False, policy="error", name="org/model 1", method=False):
    if fmt == "state":
        f = m.load_quantization_state if method else lambda **k: ff.quantization.load_quantization_state(m, **k)
        return f(name_or_path=name, tag="t", cache_dir=d, overwrite_policy=policy, allow_lazy_params=lazy)
    f = m.load_quantized_model if method else lambda *a, **k: ff.quantization.load_quantized_model(m, *a, **k)
    return f(d / "art", overwrite_policy=policy, allow_lazy_params=lazy, expected_name=name)


@section(
    quick=500,
    thorough=12000,
    requires=("dynamic", "subclass", "lazy", "reconfigured", "cast", "shared-quantizer", "shared-parameter", "param-dtype", "expanded-parameter", "forward-compared", "saved-again"),
)
def roundtrip(ctx):
    rng = ctx.rng
    spec, s1 = rng.randrange(10**6), rng.randrange(10**6)
    fmt = rng.choice(["state", "model"])
    lazy = rng.random() < 0.3
    m = build(spec, s1)
    with torch.no_grad():
        for _, b in m.named_buffers():
            if b.numel():
                b.uniform_(-1, 1)
    made, kinds = populate(ctx, m, lazy, p=rng.choice([0.2, 0.5, 1.0]) if rng.random() < 0.95 else 0.0)
    has_lazy = any(torch.nn.parameter.is_lazy(p) for q, _, _ in made.values() for p in q.parameters())
    ctx.note(spec=spec, fmt=fmt, kinds=sorted(kinds), names=sorted(made))
    d = ctx.scratch()
    before = snapshot(m)
    method = isinstance(m, ff.nn.QuantizedModule)
    saver(ctx, fmt, m, d, lazy, method)
    ctx.equal(snapshot(m), before, "source-untouched", "saving changed the model")

    dst = build(spec, s1 + 1)
    stubs = {n: x for n, x in dst.named_modules(remove_duplicate=False) if isinstance(x, ff.nn.Quantizer)}
    weights0 = {n: gen.fingerprint(p) for n, p in dst.named_parameters()}
    ids0 = {n: id(x) for n, x in dst.named_modules(remove_duplicate=False) if not isinstance(x, ff.nn.Quantizer)}
    loader(ctx, fmt, dst, d, lazy, rng.choice(["error", "skip", "overwrite"]), method=method)
    ctx.equal(
        sorted(n for n, x in dst.named_modules(remove_duplicate=False) if isinstance(x, ff.nn.Quantizer) and not x.is_stub()),
        sorted(made),
        "covered-set",
        "quantizers of the target",
    )
    compare(ctx, m, dst, made, "loaded")
    for n, x in stubs.items():
        if n not in made:
            ctx.check(dict(dst.named_modules(remove_duplicate=False))[n] is x, "uncovered-untouched", n)
    ctx.equal({n: id(x) for n, x in dst.named_modules(remove_duplicate=False) if not isinstance(x, ff.nn.Quantizer)}, ids0, "modules-kept", "")
    pa, pb = dict(m.named_parameters(remove_duplicate=False)), dict(dst.named_parameters(remove_duplicate=False))
    if fmt == "state":
        for n in weights0:
            ctx.equal(gen.fingerprint(pb[n]), weights0[n], "weights-untouched", n)
        src_sd = {n: t for n, t in m.state_dict(keep_vars=True).items() if not any(n.startswith(k + ".") for k in stubs)}
        dst.load_state_dict(src_sd, strict=False)
    for n in pb:
        if any(n.startswith(k + ".") for k in stubs):
            continue
        ctx.same(pb[n], pa[n], "weights-restored", n, dtype=True)
    for n, t in m.named_buffers():
        if not any(n.startswith(k + ".") for k in stubs):
            ctx.same(dict(dst.named_buffers())[n], t, "buffers-restored", n)
    if not has_lazy:
        with ff.strict_quantization(False):
            x = torch.randint(0, m.n, (2, m.n // 2))
            try:
                want = m(x)
            except Exception as e:  # an arbitrary assignment may not be executable; then neither is the copy
                ctx.raises(type(e), lambda: dst(x), "forward-raises-alike", "")
            else:
                ctx.event("forward-compared")
                got = dst(x)
                for g, w in zip(got, want):
                    ctx.equal(gen.fingerprint(g), gen.fingerprint(w), "forward", "loaded model output")
    # A loaded model is as good a source as the original, also when saved over the old artifact
    ctx.event("saved-again")
    saver(ctx, fmt, dst, d, lazy, method)
    third = build(spec, s1 + 2)
    loader(ctx, fmt, third, d, lazy, method=method)
    compare(ctx, m, third, made, "second generation")
    ctx.state(fmt, sorted(kinds), lazy, len(made))


class Storages(torch.nn.Module):
    """Parameters and buffers laid out as views of a few common storages."""

    def __init__(self, spec):
        super().__init__()
        r = random.Random(spec)
        self.layout = []
        g = torch.Generator().manual_seed(spec)
        n = r.choice([2, 3, 4])
        base = torch.randn(n * n * 2, generator=g)
        for i in range(r.randint(2, 4)):
            k = r.choice(["same", "transposed", "first", "second", "int-view", "reversed-strides", "own", "empty", "row", "same"])
            sq = base[: n * n].view(n, n)
            t = {
                "same": lambda: sq,
                "transposed": lambda: sq.t(),
                "first": lambda: base[: n * n],
                "second": lambda: base[n * n :],
                "int-view": lambda: sq.view(torch.int32),
                "reversed-strides": lambda: base.view(2, n, n).permute(2, 1, 0),
                "own": lambda: torch.randn(n, n, generator=g),
                "empty": lambda: torch.empty(0, n),
                "row": lambda: sq[0],
            }[k]()
            self.layout.append(k)
            nm = f"{r.choice('abcxyz')}{i}"
            if k == "int-view" or r.random() < 0.4:
                self.register_buffer(nm, t)
            else:
                self.register_parameter(nm, torch.nn.Parameter(t))
        self.lin = torch.nn.Linear(n, n)
        if r.random() < 0.5:
            self.lin.weight = torch.nn.Parameter(sq.t() if r.random() < 0.5 else sq)
            self.layout.append("lin")

    def forward(self, x):
        return self.lin(x)


class QStorages(ff.nn.QuantizedModule, Storages):
    pass


@section(quick=300, thorough=6000, requires=("stored", "refused", "transposed", "int-view"))
def storages(ctx):
    """Tensors that are views of one storage are restored exactly, or saving refuses."""
    spec = ctx.rng.randrange(10**6)
    m, dst = Storages(spec), Storages(spec)
    ff.quantize_model(m)
    ff.quantize_model(dst)
    with torch.no_grad():
        for t in list(dst.parameters()) + list(dst.buffers()):
            t.zero_()
    for k in m.layout:
        if k in ("transposed", "int-view"):
            ctx.event(k)
    ctx.note(spec=spec, layout=m.layout)
    d = ctx.scratch()
    want = {k: (t.detach().clone(), t.dtype) for k, t in list(m.named_parameters()) + list(m.named_buffers())}
    try:
        ff.quantization.save_quantized_model(m, d / "art", name_or_path="org/model 1")
    except RuntimeError:  # overlapping tensors may be refused (safetensors cannot represent them)
        ctx.check(any(k != "own" and k != "empty" for k in m.layout), "refused", f"a model without shared storage was refused: {m.layout}")
        ctx.event("refused")
        ctx.state("refused", sorted(set(m.layout)))
        return
    ctx.event("stored")
    ff.quantization.load_quantized_model(dst, d / "art", expected_name="org/model 1")
    got = dict(list(dst.named_parameters()) + list(dst.named_buffers()))
    for k, (t, dt) in want.items():
        ctx.equal(got[k].dtype, dt, "dtype", k)
        ctx.same(got[k], t, "views-restored", f"{k} of {m.layout}")
    ctx.state("stored", sorted(set(m.layout)))


FAULTS = [
    "none", "existing", "existing", "existing", "missing-module", "not-a-quantizer", "lazy", "name", "version", "lost-tensor",
    "weight-missing", "weight-extra", "weight-shape", "truncated", "no-file", "bad-policy",
]


@section(quick=700, thorough=20000, requires=tuple(f"fault:{f}" for f in sorted(set(FAULTS))) + ("policy:error", "policy:skip", "policy:overwrite"))
def mismatch(ctx):
    """A load that does not fit raises and is not applied partially."""
    rng = ctx.rng
    spec, s1 = rng.randrange(10**6), rng.randrange(10**6)
    fmt = rng.choice(["state", "model"])
    fault = rng.choice(FAULTS)
    policy = rng.choice(["error", "skip", "overwrite"])
    if fault.startswith("weight"):
        fmt = "model"
    ctx.note(spec=spec, fmt=fmt, fault=fault, policy=policy)
    m = build(spec, s1)
    made, kinds = populate(ctx, m, fault == "lazy", p=0.6)
    has_lazy = any(torch.nn.parameter.is_lazy(p) for q, _, _ in made.values() for p in q.parameters())
    d = ctx.scratch()
    if fault == "lazy":
        if has_lazy:
            ctx.raises(ValueError, lambda: saver(ctx, fmt, m, d, False, False), "lazy-refused", "saving")
    if fmt == "model" and fault == "weight-extra":
        m.embed.register_buffer("extra", torch.ones(2))
    if fmt == "model" and fault == "weight-shape":
        m.conv.weight = torch.nn.Parameter(torch.randn(3, 1, 2, 2))
    saver(ctx, fmt, m, d, True, False)
    base = next(iter(d.rglob("config.yaml"))).parent
    dst = build(spec, s1 + 1)
    name = "org/model 1"
    existing = {}
    expect = None  # exception type(s), None: must succeed
    if fault == "existing":
        names = set(n for _, _, ns in quantizer_slots(dst) for n in ns)
        for parent, attr, ns in quantizer_slots(dst):
            if rng.random() < 0.3:
                q = ff.nn.LinearQuantizer(3)
                q.quantization_range = (-2.0, 3.0)
                setattr(parent, attr, q)
                for n in ns:
                    existing[n] = q
        del names
        if policy == "error" and set(existing) & set(made):
            expect = ff.exceptions.QuantizationError
    elif fault == "missing-module":
        victim = rng.choice(["head", "conv", "embed"])
        dst.__delattr__(victim)
        if fmt == "model" or any(n.startswith(victim + ".") for n in made):
            expect = Exception
    elif fault == "not-a-quantizer":
        if not made:
            return
        n = rng.choice(sorted(made))
        parent, _, attr = n.rpartition(".")
        par = dict(dst.named_modules(remove_duplicate=False))[parent]
        delattr(par, attr)
        setattr(par, attr, rng.choice([None, torch.nn.Identity(), 3]))
        expect = Exception
    elif fault == "lazy":
        if has_lazy:
            expect = ValueError
    elif fault == "name":
        name = "org/model 2"
        if fmt == "state":
            other = d / "quantization-state--org--model--2"
            base.parent.rename(other)
            base = other / "t"
        expect = RuntimeError
    elif fault == "version":
        if fmt == "model" and rng.random() < 0.5:
            f = base / "manifest.json"
            c = json.loads(f.read_text())
            c["version"] = "0.9"
            f.write_text(json.dumps(c))
        else:
            f = base / "config.yaml"
            f.write_text(f.read_text().replace("version: '1.0'", "version: '2.0'", 1))
        expect = ValueError
    elif fault == "lost-tensor":
        f = base / ("model.safetensors" if fmt == "state" else "quantizer_state.safetensors")
        from safetensors import safe_open
        from safetensors.torch import save_file

        with safe_open(f, framework="pt") as h:
            md = h.metadata()
            ts = {k: h.get_tensor(k) for k in h.keys()}
        if not ts:
            return
        ts.pop(rng.choice(sorted(ts)))
        save_file(ts, f, metadata=md)
        expect = Exception
    elif fault == "weight-missing":
        dst.embed.register_buffer("extra", torch.ones(2))
        expect = RuntimeError
    elif fault in ("weight-extra", "weight-shape"):
        expect = RuntimeError
    elif fault == "truncated":
        f = rng.choice(sorted(base.glob("*.safetensors")))
        if (fmt == "state" or f.name.startswith("quantizer")) and not made:
            return
        raw = f.read_bytes()
        f.write_bytes(raw[: len(raw) // 2])
        expect = Exception
    elif fault == "no-file":
        rng.choice(sorted(base.iterdir())).unlink()
        expect = FileNotFoundError
    elif fault == "bad-policy":
        policy = "merge"
        if made:
            n = rng.choice(sorted(made))
            parent, _, attr = n.rpartition(".")
            setattr(dict(dst.named_modules(remove_duplicate=False))[parent], attr, ff.nn.LinearQuantizer(3))
            expect = ff.exceptions.QuantizationError
    ctx.event(f"fault:{fault}")
    ctx.event(f"policy:{policy}")
    before = snapshot(dst)
    lazy_ok = fault != "lazy"
    if expect is not None:
        ctx.raises(expect, lambda: loader(ctx, fmt, dst, d, lazy_ok, policy, name), "mismatch-reported", fault)
        ctx.equal(snapshot(dst), before, "not-applied-partially", f"{fault} {policy} {fmt}")
        ctx.state(fault, policy, fmt, "raised", sorted(kinds))
        return
    loader(ctx, fmt, dst, d, lazy_ok, policy, name)
    after = dict(dst.named_modules(remove_duplicate=False))
    covered = {n: v for n, v in made.items() if not (policy == "skip" and n in existing)}
    compare(ctx, m, dst, covered, f"policy {policy}", made)
    for n, q in existing.items():
        if n not in covered:
            ctx.check(after[n] is q, "existing-kept", n)
    ctx.state(fault, policy, fmt, "loaded", sorted(kinds), bool(existing))


@section(quick=1500, thorough=60000, requires=("uninitialised-target", "initialised-target", "nested"))
def state_dict(ctx):
    """torch's own state dict protocol on quantizers and quantized modules."""
    rng = ctx.rng
    shape = gen.shape(rng, 1, 3, 200)
    q, grid, desc = gen.linear_quantizer(rng, shape, dyadic=rng.random() < 0.5)
    r = ff.nn.LinearQuantizer(
        q.num_bits, symmetric=q.symmetric, allow_one_sided=q.offset is not None if q.symmetric else q.allow_one_sided, granularity=q.granularity
    )
    r.allow_one_sided = q.allow_one_sided
    if rng.random() < 0.4:
        n = q.scale.numel()
        r.quantization_range = (torch.full((n,), -3.0), torch.full((n,), 2.0))
        ctx.event("initialised-target")
    else:
        ctx.event("uninitialised-target")
    x = torch.randn(shape)
    want = gen.fingerprint(q(x))
    ctx.note(desc=desc)
    nest = rng.random() < 0.5
    if nest:
        ctx.event("nested")
        a, b = torch.nn.ModuleDict({"scale": torch.nn.ModuleList([q])}), torch.nn.ModuleDict({"scale": torch.nn.ModuleList([r])})
        sd = a.state_dict()
        if rng.random() < 0.5:
            sd = ff.nn.quantized_module.quantizer_state_dict(a)
        res = b.load_state_dict({k: v.clone() for k, v in sd.items()}, strict=True)
    else:
        sd = q.state_dict()
        res = r.load_state_dict({k: v.clone() for k, v in sd.items()}, strict=True)
    ctx.equal((list(res.missing_keys), list(res.unexpected_keys)), ([], []), "state-dict-keys", "")
    ctx.equal(gen.fingerprint(r(x)), want, "state-dict-restores", desc)
    with torch.no_grad():
        r.scale.mul_(2)
    ctx.equal(gen.fingerprint(q(x)), want, "state-dict-independent", desc)
    ctx.state(desc, nest)


@section(quick=1500, thorough=60000)
def yaml_roundtrip(ctx):
    """Objects written to YAML are re-created with the same configuration."""
    rng = ctx.rng
    shape = gen.shape(rng, 1, 4, 200)
    gr, tile, desc = gen.granularity(rng, shape)
    g2 = yaml.load(yaml.dump(gr), yaml.Loader)
    ctx.equal((type(g2), g2), (type(gr), gr), "granularity-yaml", desc)
    ctx.equal(g2.tile_size(torch.Size(shape)), gr.tile_size(torch.Size(shape)), "granularity-yaml-tiles", desc)
    q, kind = random_quantizer(ctx, shape, True)
    two = yaml.load(yaml.dump({"a": q, "b": [q]}), yaml.Loader)
    r = two["a"]
    ctx.check(two["b"][0] is r, "yaml-identity", "")
    ctx.equal(type(r), type(q), "yaml-type", "")
    ctx.equal(qsig(r)[2], qsig(q)[2], "yaml-config", kind)
    for k, v in q.named_parameters():
        ctx.check(k in dict(r.named_parameters()), "yaml-params", k)
    ctx.equal(getattr(r, "symmetric", None), getattr(q, "symmetric", None), "yaml-symmetric", kind)
    ctx.state(kind, desc)
