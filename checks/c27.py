"""C27: what is recorded at module boundaries is what the modules saw, and encodings belong to it."""

import collections
import json
import pickle
import warnings

import onnxruntime
import torch

import fastforward as ff

from fastforward.export import _export_schemas as schemas
from fastforward.export.module_export import ModuleIORecorder, export_modules

from checks.c23 import quiet
from ffmon import gen
from ffmon.core import section

META = {
    "technique": "runtime monitoring: instrumented modules log the arguments and results of every call in snapshots of their own; an offline checker compares the log with what recorders and exported files hold",
    "level_note": "Random networks of logging modules with nested, keyword, quantized and non-tensor arguments and structured outputs, called repeatedly, re-entrantly, by several callers and with failures, with arguments and results changed in place during and after the calls; a twin run without recorders must behave identically. Module exports of random signatures: both stored runs must equal the log, and the encoding of every graph input and output must be that of the tensor which arrived there (inputs are identified by signature, outputs by value with ONNX Runtime). Faults in either run or in the export of any module must leave hooks, quantizers and the encodings handler clean.",
    "rule": "distinct (argument structure, call history) shapes and export signatures",
}

warnings.simplefilter("ignore")

Pair = collections.namedtuple("Pair", "left right")


class Boom(Exception):
    pass


# --------------------------------------------------------------------------- snapshots


def params_of(t):
    qp = t.quantization_context.quantization_params
    off = None if qp.offset is None else torch.as_tensor(qp.offset).detach().clone()
    tile = qp.granularity.tile_size(t.shape)
    return (torch.as_tensor(qp.scale).detach().clone(), off, qp.num_bits, tuple(t.shape), tuple(t.shape) if tile == "data_shape" else tuple(tile))


def snap(x):
    if isinstance(x, ff.QuantizedTensor):
        return ("q", x.detach().dequantize().clone(), params_of(x))
    if isinstance(x, torch.Tensor):
        return ("t", x.detach().clone(), None)
    if isinstance(x, dict):
        return (type(x), list(x), [snap(v) for v in x.values()])
    if isinstance(x, (list, tuple)):
        return (type(x), len(x), [snap(v) for v in x])
    return ("v", x, None)


def leaves(s):
    if s[0] in ("q", "t", "v"):
        return [s]
    return [leaf for c in s[2] for leaf in leaves(c)]


def check_params(ctx, settings, want, key, **w):
    if want is None:
        ctx.check(settings is None, key, "settings for an unquantized value", settings=settings, **w)
        return
    ctx.check(isinstance(settings, dict), key, "no settings for a quantized tensor", **w)
    scale, off, bits, shape, tile = want
    ctx.same(torch.as_tensor(settings["scale"]).detach(), scale, key, "scale", **w)
    ctx.check((settings["offset"] is None) == (off is None), key, "offset", **w)
    if off is not None:
        ctx.same(torch.as_tensor(settings["offset"]).detach(), off, key, "offset", **w)
    ctx.equal((settings["num_bits"], tuple(settings["data_shape"]), tuple(settings["tile_size"])), (bits, shape, tile), key, "bits, shape, tile", **w)


def check_leaf(ctx, got, want, key, **w):
    kind, value, _ = want
    if kind == "v":
        ctx.check(type(got) is type(value) and got == value, key, "a value", got=got, want=value, **w)
    else:
        ctx.check(isinstance(got, torch.Tensor) and not isinstance(got, ff.QuantizedTensor), key, f"not a plain tensor: {type(got)}", **w)
        ctx.same(got.detach(), value, key, "a tensor", dtype=True, **w)


def check_tree(ctx, got, settings, want, key, **w):
    if want[0] in ("q", "t", "v"):
        check_leaf(ctx, got, want, key, **w)
        if settings is not False:
            check_params(ctx, settings, want[2], key + "-settings", **w)
        return
    kind, names, children = want
    ctx.check(type(got) is kind, key, f"structure {type(got)} instead of {kind}", **w)
    if issubclass(kind, dict):
        ctx.equal(list(got), names, key, "keys", **w)
        if settings is not False:
            ctx.equal(list(settings), names, key + "-settings", "keys", **w)
        for k, c in zip(names, children):
            check_tree(ctx, got[k], settings is not False and settings[k], c, key, **w)
    else:
        ctx.equal(len(got), names, key, "length", **w)
        if settings is not False:
            ctx.equal(len(settings), names, key + "-settings", "length", **w)
        for i, c in enumerate(children):
            check_tree(ctx, got[i], settings is not False and settings[i], c, key, **w)


class Log:
    def __init__(self):
        self.done = {}
        self.n = 0
        self.fail_at = None
        self.active = False


# --------------------------------------------------------------------------- recorder workloads


def quantized(rng, base):
    shp = tuple(base.shape)
    q, _, _ = gen.linear_quantizer(rng, shp, kinds=("tensor", "channel"), dyadic=False)
    with torch.no_grad():
        return q(base)


def random_tree(rng, pool, depth=0):
    """A nested argument; returns (tree, signature)."""
    r = rng.random()
    if depth < 3 and r < 0.35 + 0.25 * (depth == 0):
        n = rng.randint(0, 3)
        items = [random_tree(rng, pool, depth + 1) for _ in range(n)]
        kind = rng.choice(["tuple", "list", "dict", "odict", "pair"])
        vals = [v for v, _ in items]
        sig = (kind, tuple(s for _, s in items))
        if kind == "tuple":
            return tuple(vals), sig
        if kind == "list":
            return vals, sig
        if kind == "pair":
            pair = [random_tree(rng, pool, depth + 1) for _ in range(2)]
            return Pair(*(v for v, _ in pair)), ("pair", tuple(s for _, s in pair))
        keys = rng.sample("zyxwabcd", n)
        return (dict if kind == "dict" else collections.OrderedDict)(zip(keys, vals)), sig
    if r < 0.8:
        t = rng.choice(pool)
        return t, "q" if isinstance(t, ff.QuantizedTensor) else "t"
    v = rng.choice([None, 1, 2.5, True, "text"])
    return v, repr(v)


def tensors(tree):
    if isinstance(tree, torch.Tensor):
        return [tree]
    if isinstance(tree, dict):
        return [t for v in tree.values() for t in tensors(v)]
    if isinstance(tree, (list, tuple)):
        return [t for v in tree for t in tensors(v)]
    return []


def containers(tree):
    out = []
    if isinstance(tree, dict):
        out = [tree] + [c for v in tree.values() for c in containers(v)]
    elif isinstance(tree, list):
        out = [tree] + [c for v in tree for c in containers(v)]
    elif isinstance(tree, tuple):
        out = [c for v in tree for c in containers(v)]
    return out


class Probe(torch.nn.Module):
    """Logs its calls; its behaviour is drawn from a seed such that a twin behaves identically."""

    def __init__(self, name, log, seed, children=()):
        super().__init__()
        self.name, self.log, self.seed = name, log, seed
        self.kids = torch.nn.ModuleList(children)
        self.calls = 0
        self.depth = 0

    def forward(self, *args, **kwargs):
        import random

        entry = (snap(args), snap(kwargs))
        self.calls += 1
        rng = random.Random(self.seed * 1000 + self.calls)
        self.log.n += 1
        if self.log.n == self.log.fail_at:
            raise Boom(self.name)
        ts = tensors((args, kwargs))
        plain = [t for t in ts if not isinstance(t, ff.QuantizedTensor)]
        made = [t.dequantize() * 0.5 if isinstance(t, ff.QuantizedTensor) else t * 0.5 for t in ts[:3]] or [torch.ones(2)]
        # change arguments in place
        for t in plain:
            if rng.random() < 0.3:
                with torch.no_grad():
                    t.add_(1.0)
        for c in containers((args, kwargs)):
            if rng.random() < 0.2:
                if isinstance(c, list):
                    c.append("leak")
                else:
                    c["leak"] = 1
        pool = ts + made + [quantized(rng, t) for t in made[:2]]
        if self.depth == 0 and rng.random() < 0.15:
            self.depth += 1
            try:
                r = self(random_tree(rng, pool)[0], again=random_tree(rng, pool)[0])
            finally:
                self.depth -= 1
            pool += tensors(r)
        for kid in self.kids:
            for _ in range(rng.choice([1, 1, 2])):
                a = [random_tree(rng, pool)[0] for _ in range(rng.randint(0, 3))]
                k = {n: random_tree(rng, pool)[0] for n in rng.sample(["u", "v", "a", "input"], rng.randint(0, 2))}
                try:
                    r = kid(*a, **k)
                except Boom:
                    if rng.random() < 0.5:
                        raise
                    continue
                res = tensors(r)
                pool += res
                for t in res:  # results are changed in place by the caller
                    if not isinstance(t, ff.QuantizedTensor) and rng.random() < 0.3:
                        with torch.no_grad():
                            t.mul_(-2.0)
        out = random_tree(rng, pool)[0]
        self.log.done[self.name] = (*entry, snap(out))
        return out


def build(rng_seed, log):
    import random

    rng = random.Random(rng_seed)
    leafs = [Probe(f"leaf{i}", log, rng.randrange(10**6)) for i in range(rng.randint(1, 3))]
    mids = [Probe(f"mid{i}", log, rng.randrange(10**6), rng.sample(leafs, rng.randint(0, len(leafs)))) for i in range(rng.randint(0, 2))]
    top = leafs + mids
    root = Probe("root", log, rng.randrange(10**6), rng.sample(top, rng.randint(1, len(top))))
    return root, [root, *mids, *leafs]


def hooks(modules):
    return [(dict(m._forward_hooks), dict(m._forward_pre_hooks), dict(m._forward_hooks_with_kwargs), dict(m._forward_pre_hooks_with_kwargs)) for m in modules]


@section(quick=600, thorough=15000, requires=("recorded", "boom", "in-place", "repeated", "uncalled"))
def record(ctx):
    """Recorders hold the last completed call of their module, whatever happens to the data."""
    rng = ctx.rng
    ctx.torch_seed()
    log, tlog = Log(), Log()
    net_seed = rng.randrange(10**9)
    root, probes = build(net_seed, log)
    twin, tprobes = build(net_seed, tlog)
    chosen = rng.sample(probes, rng.randint(1, len(probes)))
    # a third party's hooks stay
    foreign = [p.register_forward_hook(lambda m, a, o: None) for p in probes if rng.random() < 0.3]
    before = hooks(probes)
    recorders = [ModuleIORecorder(p, p.name) for p in chosen]
    shapes = []
    for round_ in range(rng.randint(1, 3)):
        log.done.clear()
        log.n = 0
        log.fail_at = tlog.fail_at = rng.choice([None, None, rng.randint(1, 6)])
        tlog.n = 0
        for r in recorders:
            r.attach()
        ctx.raises(RuntimeError, recorders[0].attach, "attach-twice", "attaching an attached recorder")
        for _ in range(rng.randint(1, 2)):
            data_seed = rng.randrange(10**9)

            def data():
                import random

                r = random.Random(data_seed)
                g = torch.Generator().manual_seed(data_seed)
                pool = [torch.randn(r.choice([(2, 3), (4,), (1, 2, 2)]), generator=g) for _ in range(3)]
                pool += [quantized(r, t) for t in pool[:2]]
                a = [random_tree(r, pool) for _ in range(r.randint(0, 3))]
                k = {n: random_tree(r, pool) for n in r.sample(["u", "v", "a", "input"], r.randint(0, 3))}
                return [v for v, _ in a], {n: v for n, (v, _) in k.items()}, (tuple(s for _, s in a), tuple((n, s) for n, (_, s) in k.items()))

            results = []
            for net in (root, twin):
                a, k, shape = data()
                try:
                    out = net(*a, **k)
                    results.append((snap(out), snap(a), snap(k)))
                except Boom as e:
                    results.append((("v", str(e), None), snap(a), snap(k)))
                    ctx.event("boom")
                if net is root:
                    after = tensors(a) + tensors(k) + (tensors(out) if results[0][0][0] != "v" else [])
            shapes.append(shape)
            for i, what in enumerate(("result", "arguments", "keyword arguments")):
                check_same(ctx, results[0][i], results[1][i], "unchanged", what)
            # the caller goes on changing data
            with torch.no_grad():
                for t in after:
                    if not isinstance(t, ff.QuantizedTensor):
                        t.zero_()
                        ctx.event("in-place")
        for r in recorders:
            r.detach()
        ctx.equal(hooks(probes), before, "hooks", "hooks left or lost")
        if rng.random() < 0.5:  # what happens after detaching is not recorded
            a, k, _ = data()
            keep = dict(log.done)
            log.fail_at = tlog.fail_at = None
            root(*a, **k)
            twin(*data()[0], **data()[1])
            log.done.clear()
            log.done.update(keep)
        for r in recorders:
            want = log.done.get(r.module_name)
            if want is None:
                ctx.event("uncalled")
                continue
            ctx.event("recorded")
            if any(p.calls > 1 for p in chosen):
                ctx.event("repeated")
            check_tree(ctx, r.input, r.input_quantizer_settings, want[0], "input", module=r.module_name)
            check_tree(ctx, r.kwargs, r.kwargs_quantizer_settings, want[1], "kwargs", module=r.module_name)
            flat = leaves(want[2])
            ctx.equal((type(r.output), len(r.output), len(r.output_quantizer_settings)), (tuple, len(flat), len(flat)), "output")
            for g, s, w in zip(r.output, r.output_quantizer_settings, flat):
                check_leaf(ctx, g, w, "output", module=r.module_name)
                check_params(ctx, s, w[2], "output-settings", module=r.module_name)
            if round_ == 0 and rng.random() < 0.1:
                path = ctx.scratch() / "io.pickle"
                r.store_io_as_dict(path)
                with open(path, "rb") as fp:
                    stored = pickle.load(fp)
                ctx.equal(set(stored), {"input", "output", "kwargs"}, "stored")
                check_tree(ctx, stored["input"], False, want[0], "stored")
                check_tree(ctx, stored["kwargs"], False, want[1], "stored")
                for g, w in zip(stored["output"], flat):
                    check_leaf(ctx, g, w, "stored")
    ctx.equal(sum(p.calls for p in probes), sum(p.calls for p in tprobes), "unchanged", "number of calls")
    ctx.state(str(shapes), tuple(r.module_name for r in recorders))
    for h in foreign:
        h.remove()


def check_same(ctx, a, b, key, what):
    ctx.check((a[0], type(a[1])) == (b[0], type(b[1])), key, what)
    if a[0] in ("q", "t"):
        ctx.same(a[1], b[1], key, what, dtype=True)
        if a[0] == "q":
            for x, y in zip(a[2], b[2]):
                if isinstance(x, torch.Tensor):
                    ctx.same(x, y, key, what)
                else:
                    ctx.equal(x, y, key, what)
    elif a[0] == "v":
        ctx.equal(a[1], b[1], key, what)
    else:
        ctx.equal(a[1], b[1], key, what)
        for x, y in zip(a[2], b[2]):
            check_same(ctx, x, y, key, what)


# --------------------------------------------------------------------------- exports


class Part(torch.nn.Module):
    """A module of random signature: a weighted sum of its tensors per output."""

    SHAPE = (3, 4)

    def __init__(self, rng, name, log):
        super().__init__()
        self.name, self.log = name, log
        self.struct = [rng.choice(["t", "t", "list", "dict", "tuple", "n", "none", "opt"]) for _ in range(rng.randint(1, 4))]
        if not any(s in ("t", "list", "dict", "tuple") for s in self.struct):
            self.struct[0] = "t"
        self.names = rng.sample(["x", "other", "input", "alpha", "mask", "b"], len(self.struct))
        n_kw = rng.randint(0, len(self.struct))
        self.n_pos = len(self.struct) - n_kw
        self.out_kind = [rng.choice(["plain", "plain", "quant", "pass", "half"]) for _ in range(rng.randint(1, 3))]
        self.out_struct = rng.choice(["one", "tuple", "list", "dict", "nested"])
        self.own = ff.nn.LinearQuantizer(8, symmetric=rng.random() < 0.5)
        self.own.quantization_range = (torch.tensor(-70.0), torch.tensor(80.0))
        self.weight = torch.nn.Parameter(torch.randn(4))

    def make(self, rng, supply):
        def t():
            return supply()

        a = []
        for s in self.struct:
            if s == "t":
                a.append(t())
            elif s == "list":
                a.append([t() for _ in range(rng.randint(1, 2))])
            elif s == "tuple":
                a.append((t(), 2))
            elif s == "dict":
                a.append({k: t() for k in rng.sample(["z", "c", "k", "a"], rng.randint(1, 3))})
            elif s == "n":
                a.append(rng.choice([2, 0.5]))
            elif s == "none":
                a.append(None)
            else:
                a.append(rng.choice([None, t()]))
        kw = list(range(self.n_pos, len(a)))
        rng.shuffle(kw)
        return a[: self.n_pos], {self.names[i]: a[i] for i in kw}

    def compute(self, args):
        ts = tensors(args)
        nums = [x for x in args if isinstance(x, (int, float)) and not isinstance(x, bool)]
        acc = 0.0
        for i, t in enumerate(ts):
            t = t.dequantize() if isinstance(t, ff.QuantizedTensor) else t
            acc = acc + t * (1.0 + 0.25 * i)
        for n in nums:
            acc = acc * n
        acc = acc + self.weight
        outs = []
        for i, k in enumerate(self.out_kind):
            v = acc * (i + 1) + 30.0 * i
            if k == "quant":
                v = self.own(v)
            elif k == "half":
                v = v * 0.5
            elif k == "pass":
                v = ts[-1]
            outs.append(v)
        s = self.out_struct
        if s == "one" or (s == "nested" and len(outs) == 1):
            return outs[0]
        if s == "tuple":
            return tuple(outs)
        if s == "list":
            return outs
        if s == "dict":
            return dict(zip(["z", "k", "b"], outs))
        return (outs[0], {"m": outs[1:]}, None)


# Signatures have to be real for torch.export: the class of each part is generated.
def part(rng, name, log):
    p = Part(rng, name, log)
    params = ", ".join(p.names)
    src = f"""
def forward(self, {params}):
    args = [{params}]
    if self.log.active:
        self.log.n += 1
        if self.log.n == self.log.fail_at:
            raise Boom(self.name)
        self.entry = snap(args)
    out = self.compute(args)
    if self.log.active:
        self.log.done[self.name] = (self.entry, snap(out))
        self.log.runs.append(self.name)
    return out
"""
    env = {"torch": torch, "Boom": Boom, "snap": snap}
    exec(src, env)  # noqa: S102
    p.__class__ = type("Part_" + name, (Part,), {"forward": env["forward"]})
    return p


class Net(torch.nn.Module):
    def __init__(self, rng, log):
        super().__init__()
        self.log = log
        self.parts = torch.nn.ModuleList(part(rng, f"p{i}", log) for i in range(rng.randint(1, 3)))
        self.quants = torch.nn.ModuleList()
        for _ in range(rng.randint(2, 4)):
            kind = rng.choice(["tensor", "tensor", "tensor", "channel"])
            gr = ff.PerTensor() if kind == "tensor" else ff.PerChannel(0)
            q = ff.nn.LinearQuantizer(rng.choice([4, 8]), symmetric=rng.random() < 0.5, granularity=gr)
            n = 1 if kind == "tensor" else Part.SHAPE[0]
            q.quantization_range = (-torch.rand(n) * 3 - 1, torch.rand(n) * 3 + 1)
            self.quants.append(q)
        self.seed = rng.randrange(10**9)
        self.calls = rng.choice([1, 1, 2])
        self.boundary = {}

    def forward(self, x, shift=None):
        self.log.active = True  # exports run parts on their own as well
        try:
            return self.run(x, shift)
        finally:
            self.log.active = False

    def run(self, x, shift):
        import random

        rng = random.Random(self.seed)
        if shift is not None:
            x = x + shift
        base = x
        for _ in range(self.calls):
            for p in self.parts:

                def supply():
                    t = base * rng.choice([0.5, 1.0, -1.5]) + rng.random()
                    r = rng.random()
                    return t if r < 0.35 else rng.choice(list(self.quants))(t)

                a, k = p.make(rng, supply)
                self.boundary[p.name] = (a, k)
                out = p(*a, **k)
                for t in tensors(out)[:1]:
                    t = t.dequantize() if isinstance(t, ff.QuantizedTensor) else t
                    base = torch.tanh(t)
                for t in tensors(out):
                    if not isinstance(t, ff.QuantizedTensor) and not any(t is i for i in tensors((a, k))):
                        t.mul_(0.0)  # results are reused by the caller
        return base


def flat_names(sig_names, args):
    """Graph input names of the tensors in the arguments, as torch.export names them."""
    out = {}

    def walk(prefix, s):
        if s[0] in ("q", "t"):
            out[prefix] = s
        elif s[0] == "v":
            return
        elif issubclass(s[0], dict):
            for k, c in zip(s[1], s[2]):
                walk(f"{prefix}_{k}", c)
        else:
            for i, c in enumerate(s[2]):
                walk(f"{prefix}_{i}", c)

    for n, s in zip(sig_names, args):
        walk(n, s)
    return out


def decode(schema, d):
    out = {}

    def put(name, *v):
        assert name not in out, f"two encodings for {name}"
        out[name] = v

    if schema == "legacy":
        for group in ("activation_encodings", "param_encodings"):
            for name, entries in d[group].items():
                put(name, entries[0]["bitwidth"], [e["scale"] for e in entries], [e["offset"] for e in entries])
    else:
        for group in ("activation_encodings", "param_encodings"):
            for e in d[group]:
                put(e["name"], e["bw"], list(e["scale"]), list(e["offset"]))
    return out


def check_encoding(ctx, enc, want, name):
    scale, off, bits, _, _ = want
    ctx.check(enc is not None, "encoding", f"no encoding for the quantized {name}")
    n = scale.numel()
    o = torch.round(off).flatten().tolist() if off is not None else [0.0] * n
    ctx.equal(enc[0], bits, "encoding", f"bits of {name}")
    ctx.equal(len(enc[1]), n, "encoding", f"number of scales of {name}")
    for gs, ws, go, wo in zip(enc[1], scale.flatten().tolist(), enc[2], o):
        ctx.close(gs, ws, "encoding", f"scale of {name}", rtol=1e-6, atol=0.0)
        ctx.equal(int(go), int(wo) - 2 ** (int(bits) - 1), "encoding", f"offset of {name}")


def clip(v, params):
    scale, off, bits, shape, tile = params
    if tuple(v.shape) != shape:
        return v

    def expand(p):
        p = p.flatten().reshape([n // t for n, t in zip(shape, tile)])
        for d, t in enumerate(tile):
            p = p.repeat_interleave(t, d)
        return p

    scale = expand(scale)
    off = torch.zeros_like(scale) if off is None else torch.round(expand(off))
    half = 2 ** (int(bits) - 1)
    return torch.maximum(torch.minimum(v, (half - 1 + off) * scale), (off - half) * scale)


def setup(ctx):
    rng = ctx.rng
    ctx.torch_seed()
    log = Log()
    log.runs = []
    net = Net(rng, log)
    x = torch.randn(Part.SHAPE)
    kwargs = {"shift": torch.randn(Part.SHAPE)} if rng.random() < 0.3 else {}
    return rng, log, net, x, kwargs


def run_plain(net, x, kwargs):
    """Log of a run without recorders."""
    net.log.done.clear()
    with torch.no_grad(), ff.strict_quantization(False):
        net(x, **kwargs)
    return dict(net.log.done)


def state_of(net):
    return {k: v.detach().clone() for k, v in net.state_dict().items()}


@section(quick=40, thorough=1200, requires=("exports", "input-quantized", "input-plain", "output-quantized", "nested-input", "non-tensor"))
def modules(ctx):
    """Files of exported modules: recorded runs, graph and encodings of the same boundary."""
    rng, log, net, x, kwargs = setup(ctx)
    want_q = run_plain(net, x, kwargs)
    with ff.disable_quantization(net):
        want_f = run_plain(net, x, kwargs)
    state = state_of(net)
    schema = rng.choice(["v1", "v1", "legacy"]) if all(isinstance(q.granularity, ff.PerTensor) for q in net.quants) else "v1"
    handler = schemas.LegacySchemaHandler() if schema == "legacy" else schemas.V1SchemaHandler()
    which = rng.sample([p.name for p in net.parts], rng.randint(1, len(net.parts)))
    collection = ff.mpath.search("parts/[re:" + "|".join(sorted(n[1:] for n in which)) + "]", net) if rng.random() < 0.7 else None
    if collection is None or len(collection) != len(which):
        which = [rng.choice(list(net.parts)).name]
        collection = net.parts[int(which[0][1:])]
        dirs = {which[0]: "m"}
    else:
        dirs = {n: f"parts.{n[1:]}" for n in which}
    before = hooks(net.modules())
    ctx.note(sigs=[(p.names, p.struct, p.n_pos) for p in net.parts])
    out_dir = ctx.scratch()
    with torch.no_grad(), ff.strict_quantization(False), quiet():
        extra = {} if rng.random() < 0.3 and schema == "v1" else {"encoding_schema_handler": handler}
        paths = export_modules(net, (x,), collection, "m", out_dir, kwargs=kwargs, **extra)
    log_after = dict(log.done)
    ctx.equal(set(paths), set(dirs.values()), "paths")
    ctx.equal(hooks(net.modules()), before, "hooks", "hooks left or lost")
    for k, v in state_of(net).items():
        ctx.same(v, state[k], "unchanged", k)
    for n, want in want_q.items():  # recording did not influence the run
        check_same(ctx, log_after[n][1], want[1], "unchanged", f"result of {n}")
    ctx.check(not decode(schema, handler.build_encodings_dictionary()), "handler", "encodings left in the handler")
    for p in net.parts:
        if p.name not in dirs:
            continue
        name = dirs[p.name]
        path = paths[name]
        for suffix, want in (("_input_output", want_q), ("_nonquantized_input_output", want_f)):
            with open(path / f"{name}{suffix}.pickle", "rb") as fp:
                stored = pickle.load(fp)
            entry, result = want[p.name]
            by_name = dict(zip(p.names, entry[2]))
            ctx.check(type(stored["input"]) is tuple and len(stored["input"]) == p.n_pos, "stored-input", "positional arguments")
            for got, nm in zip(stored["input"], p.names):
                check_tree(ctx, got, False, by_name[nm], "stored-input", argument=nm, file=suffix)
            ctx.equal(sorted(stored["kwargs"]), sorted(p.names[p.n_pos :]), "stored-kwargs", "names")
            for nm, got in stored["kwargs"].items():
                check_tree(ctx, got, False, by_name[nm], "stored-kwargs", argument=nm, file=suffix)
            flat = leaves(result)
            ctx.equal(len(stored["output"]), len(flat), "stored-output", "number")
            for got, w in zip(stored["output"], flat):
                check_leaf(ctx, got, w, "stored-output", file=suffix)
        entry, result = want_q[p.name]
        inputs = flat_names(p.names, entry[2])
        session = onnxruntime.InferenceSession(path / f"{name}.onnx", providers=["CPUExecutionProvider"])
        names = {i.name: i.name[:-5] if i.name.endswith("_orig") else i.name for i in session.get_inputs()}
        ctx.equal(sorted(names.values()), sorted(inputs), "graph-inputs")
        with open(path / f"{name}.encodings") as fp:
            enc = decode(schema, json.load(fp))
        for onnx_name, nm in names.items():
            s = inputs[nm]
            if s[0] == "q":
                ctx.event("input-quantized")
                check_encoding(ctx, enc.get(onnx_name), s[2], f"input {nm}")
            else:
                ctx.event("input-plain")
                ctx.check(onnx_name not in enc, "encoding", f"an encoding for the unquantized input {nm}", got=enc.get(onnx_name))
        if len(inputs) != len([n for n in p.names if n in inputs]):
            ctx.event("nested-input")
        if any(s in ("n", "none", "tuple") for s in p.struct):
            ctx.event("non-tensor")
        # outputs are identified by their values
        values = session.run(None, {o: inputs[nm][1].numpy() for o, nm in names.items()})
        flat = [s for s in leaves(result) if s[0] != "v"]
        ctx.equal(len(values), len(flat), "graph-outputs", "number")
        for o, v, s in zip(session.get_outputs(), values, flat):
            step = 0.0 if s[0] == "t" else float(s[2][0].max())
            v = torch.from_numpy(v)
            if s[0] == "q":  # the graph has no quantizers that clip
                v = clip(v, s[2])
            ctx.close(v, s[1], "graph-outputs", f"values of {o.name}", rtol=0.0, atol=0.6 * step + 1e-4 * (1 + float(s[1].abs().max())), struct=p.struct)
            if s[0] == "q":
                ctx.event("output-quantized")
                check_encoding(ctx, enc.get(o.name), s[2], f"output {o.name}")
        ctx.event("exports")
        ctx.state(tuple(p.struct), p.n_pos, tuple(p.out_kind), p.out_struct, schema)


@section(quick=24, thorough=400, requires=("fault:run", "fault:export", "fault:late"))
def faults(ctx):
    """A failing run or export leaves model, hooks and handler as before; the next export is right."""
    rng, log, net, x, kwargs = setup(ctx)
    state = state_of(net)
    before = hooks(net.modules())
    per_run = net.calls * len(net.parts)
    collection = ff.mpath.search("parts/*", net)
    handler = schemas.V1SchemaHandler()
    given = {} if rng.random() < 0.5 else {"encoding_schema_handler": handler}
    kind = rng.choice(["run", "run", "export", "late"])
    with torch.no_grad(), ff.strict_quantization(False), quiet():
        if kind == "run":
            log.fail_at = rng.randint(1, 2 * per_run)
            log.n = 0
            ctx.raises(Boom, lambda: export_modules(net, (x,), collection, "m", ctx.scratch(), kwargs=kwargs, **given), "fault", "failing run")
            log.fail_at = None
        else:
            # fail in the export of one of the modules, either before or after encodings were collected
            victim = rng.choice(list(net.parts))
            target = ctx.scratch()
            spot = target / "m" / f"parts.{victim.name[1:]}"
            spot.mkdir(parents=True)
            bad = spot / f"parts.{victim.name[1:]}{'.encodings' if kind == 'export' else '_input_output.pickle'}"
            bad.mkdir()
            ctx.raises(Exception, lambda: export_modules(net, (x,), collection, "m", target, kwargs=kwargs, **given), "fault", "failing export")
        ctx.event("fault:" + kind)
        ctx.equal(hooks(net.modules()), before, "fault-hooks", "hooks left or lost", kind=kind)
        ctx.check(not decode("v1", handler.build_encodings_dictionary()), "fault-handler", "encodings left in the handler", kind=kind)
        for k, v in state_of(net).items():
            ctx.same(v, state[k], "fault-unchanged", k)
        for q in net.modules():
            if isinstance(q, ff.nn.Quantizer):
                ctx.equal(len(list(q.overrides)), 0, "fault-unchanged", "overrides left on a quantizer", kind=kind)
        # the same arguments (and hence the same default handler) again, against a fresh handler
        only = net.parts[0]
        got = export_modules(net, (x,), only, "n", ctx.scratch(), kwargs=kwargs, **given)["n"]
        fresh = export_modules(net, (x,), only, "n", ctx.scratch(), kwargs=kwargs, encoding_schema_handler=schemas.V1SchemaHandler())["n"]
    a, b = (json.load(open(p / "n.encodings")) for p in (got, fresh))
    ctx.equal(a, b, "fault-next", "encodings of the next export", kind=kind)
    ctx.state(kind, len(net.parts), net.calls, bool(given), log.fail_at)
