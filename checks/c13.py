"""C13: copies, moves and pickles of quantized tensors and modules are faithful."""

import copy
import io
import pickle

import torch

import fastforward as ff

from ffmon import gen, peek
from ffmon.core import section

META = {
    "technique": "runtime monitoring: alias/ownership model checked online over random histories of copies, moves, pickles and in-place mutations",
    "level_note": "A pool of quantized tensors evolves by random copy operations and in-place mutations of raw data and parameters; a shadow model keeps the ownership each operation promises and after every step every tensor in the pool must still dequantize to its shadow. Quantizers and quantized models (tied, lazy, converted, cast) are copied by deepcopy, pickle, torch.save and casting; one side is then mutated, re-parametrised, overridden or loaded and the other must not change.",
    "rule": "distinct operation histories (copy kinds, mutations, sharing structure)",
}


def save_load(o):
    b = io.BytesIO()
    torch.save(o, b)
    b.seek(0)
    return torch.load(b, weights_only=False)


def repickle(rng):
    p = rng.choice([2, 3, 4, 5])
    return lambda o: pickle.loads(pickle.dumps(o, protocol=p))


class Cell:
    """Storage in the shadow model."""

    def __init__(self, t):
        self.t = t.detach().clone()


class Entry:
    def __init__(self, q, raw, scale, offset):
        self.q, self.raw, self.scale, self.offset = q, raw, scale, offset


@section(quick=1500, thorough=60000, requires=("mut:raw", "mut:scale", "mut:offset", "op:clone", "op:detach", "op:deepcopy", "op:pickle", "op:save", "op:copy", "op:to", "op:contiguous", "op:cast", "requires-grad"))
def tensors(ctx):
    rng = ctx.rng
    shape = gen.shape(rng, 1, 3, 100)
    qdt = rng.choice([None, torch.int8, torch.int32, torch.float64])
    q, grid, desc = gen.linear_quantizer(rng, shape, quantized_dtype=qdt)
    x = gen.noncontiguous(rng, gen.dyadic_data(rng, grid))
    grad = rng.random() < 0.3
    if grad:
        ctx.event("requires-grad")
        z = q(x)
    else:
        with torch.no_grad():
            z = q(x)
    p = z.quant_args()
    perm = grid.tiles

    def fresh(t):
        return None if t is None else Cell(t)

    pool = [Entry(z, Cell(z.raw_data), Cell(p.scale), fresh(p.offset))]
    # the quantizer owns the parameters of the first tensor
    hist = []
    ctx.note(desc=desc, shape=shape, history=hist, grad=grad)

    def expect(e):
        g = gen.Grid(perm, e.scale.t.clone(), None if e.offset is None else e.offset.t.clone(), q.num_bits)
        return g.dequant(e.raw.t)

    def audit(what):
        for i, e in enumerate(pool):
            ctx.check(type(e.q) is ff.QuantizedTensor, "type", f"{what}: #{i} is {type(e.q)}")
            ctx.same(e.q.raw_data, e.raw.t, "raw-data", f"{what}: #{i}", dtype=True)
            ctx.same(e.q.int_repr(), e.raw.t, "int-repr", f"{what}: #{i}")
            a = e.q.quant_args()
            ctx.same(a.scale, e.scale.t, "scale", f"{what}: #{i}", dtype=True)
            ctx.check((a.offset is None) == (e.offset is None), "offset", f"{what}: #{i}")
            if e.offset is not None:
                ctx.same(a.offset, e.offset.t, "offset", f"{what}: #{i}", dtype=True)
            ctx.equal((a.granularity, a.num_bits, a.quantized_dtype), (p.granularity, p.num_bits, p.quantized_dtype), "settings", f"{what}: #{i}")
            ctx.same(e.q.dequantize(), expect(e), "values", f"{what}: #{i}")

    audit("start")
    for _ in range(rng.randint(2, 9)):
        if rng.random() < 0.4 and len(pool) > 1:
            i = rng.randrange(len(pool))
            e = pool[i]
            what = rng.choice(["raw", "scale", "offset"])
            with torch.no_grad():
                if what == "raw":
                    d = rng.choice([-1, 1])
                    e.q.raw_data.data.add_(d)
                    e.raw.t.add_(d)
                elif what == "scale":
                    e.q.quant_args().scale.mul_(2)
                    e.scale.t.mul_(2)
                elif e.offset is not None:
                    e.q.quant_args().offset.add_(1)
                    e.offset.t.add_(1)
                else:
                    continue
            ctx.event("mut:" + what)
            hist.append((what, i))
            audit(f"mutated {what} of #{i}")
            continue
        i = rng.randrange(len(pool))
        e = pool[i]
        op = rng.choice(["clone", "clone-mf", "detach", "deepcopy", "pickle", "save", "copy", "to", "cpu", "contiguous", "cast", "deepcopy-list", "torch.detach"])
        hist.append((op, i))
        args = e.q.quant_args()
        before = gen.fingerprint(e.q)
        leaf = e.q.is_leaf and all(not isinstance(v, torch.Tensor) or v.is_leaf for v in (args.scale, args.offset))
        shares = False
        if op == "clone":
            r = e.q.clone()
        elif op == "clone-mf":
            r = e.q.clone(memory_format=torch.contiguous_format)
            ctx.check(r.is_contiguous(), "clone-contiguous", "")
        elif op == "detach":
            r = e.q.detach()
            shares = True
            ctx.check(not r.requires_grad and r.grad_fn is None, "detached", "")
            ctx.check(not any(isinstance(v, torch.Tensor) and v.requires_grad for v in (r.quant_args().scale, r.quant_args().offset)), "detached", "parameters")
        elif op == "torch.detach":
            with ff.strict_quantization(False):
                r = torch.detach(e.q)
            shares = True
            if type(r) is torch.Tensor:
                ctx.same(r, expect(e), "values", "torch.detach")
                continue
        elif op in ("deepcopy", "deepcopy-list"):
            if not leaf:
                try:
                    r = copy.deepcopy(e.q)
                except RuntimeError:
                    ctx.event("deepcopy-refused")
                    continue
            elif op == "deepcopy":
                r = copy.deepcopy(e.q)
            else:
                l = copy.deepcopy([e.q, {"again": e.q}])
                r = l[0]
                ctx.check(l[1]["again"] is r, "deepcopy-identity", "one tensor copied to two")
            ctx.event("op:deepcopy")
        elif op == "pickle":
            r = repickle(rng)(e.q)
        elif op == "save":
            r = save_load(e.q)
        elif op == "copy":
            r = copy.copy(e.q)
            shares = True
        elif op in ("to", "cpu"):
            r = e.q.to(rng.choice(["cpu", torch.device("cpu")])) if op == "to" else e.q.cpu()
            m = e.q.to("meta")
            ctx.check(m.device.type == "meta" and m.quant_args().scale.device.type == "meta", "moved-device", "")
            ctx.check(m.quant_args().offset is None or m.quant_args().offset.device.type == "meta", "moved-device", "offset")
            ctx.equal((tuple(m.shape), m.dtype), (tuple(e.q.shape), e.q.dtype), "moved-shape", "")
            ctx.event("op:to")
            shares = None
        elif op == "contiguous":
            r = e.q.contiguous()
            ctx.check(r.is_contiguous(), "contiguous", "")
            shares = None
        else:
            dt = rng.choice([torch.float64, torch.float16, torch.float32, torch.bfloat16, torch.int32])
            m = rng.randrange(3)
            r = e.q.to(dt) if m == 0 else e.q.to("cpu", dt) if m == 1 else e.q.to(dtype=dt)
            if m == 2 and dt in (torch.float64, torch.float16, torch.float32):
                r = {torch.float64: e.q.double, torch.float16: e.q.half, torch.float32: e.q.float}[dt]()
            ctx.check(type(r) is torch.Tensor, "cast-type", f"{type(r)}")
            ctx.same(r, e.q.dequantize().to(dt), "cast-values", f"{dt}", dtype=True)
            with torch.no_grad():
                r.add_(1)
            ctx.event("op:cast")
            audit("after cast")
            continue
        ctx.event("op:" + op)
        ctx.equal(gen.fingerprint(e.q), before, "operand-unchanged", op)
        a = r.quant_args()

        def cell(kind, mine, theirs, cell_):
            if mine is None:
                return None
            same_mem = mine.data_ptr() == theirs.data_ptr() and mine.numel() > 0
            if shares is False:
                ctx.check(not same_mem, "copy-shares-storage", f"{op}: {kind}")
                return Cell(cell_.t)
            if shares is True:
                ctx.check(same_mem, "alias-lost", f"{op}: {kind}")
                return cell_
            return cell_ if same_mem else Cell(cell_.t)

        pool.append(
            Entry(
                r,
                cell("raw", r.raw_data, e.q.raw_data, e.raw),
                cell("scale", a.scale, args.scale, e.scale),
                cell("offset", a.offset, args.offset, e.offset) if e.offset is not None else None,
            )
        )
        audit(f"after {op} of #{i}")
    ctx.state(tuple(hist), desc.split()[0], grad)


def tensors_of(m):
    return {
        n: ("lazy", str(t.dtype)) if torch.nn.parameter.is_lazy(t) else gen.fingerprint(t)
        for n, t in list(m.named_parameters(remove_duplicate=False)) + list(m.named_buffers(remove_duplicate=False))
    }


def config_of(m):
    out = {}
    for n, x in m.named_modules(remove_duplicate=False):
        if isinstance(x, ff.nn.Quantizer):
            out[n] = (
                type(x),
                {k: repr(v) for k, v in vars(x).items() if not k.startswith("_") and k != "quant_metadata"},
                None if x.quant_metadata is None else (frozenset(map(str, peek.tags(x.quant_metadata))), x.quant_metadata.shape),
                len(list(x.overrides)),
            )
        else:
            out[n] = (type(x), x.training)
    return out


def sharing_of(m):
    """Partition of names by identity of modules and of tensors."""
    groups = {}
    for n, x in m.named_modules(remove_duplicate=False):
        groups.setdefault(id(x), []).append(n)
    for n, t in list(m.named_parameters(remove_duplicate=False)) + list(m.named_buffers(remove_duplicate=False)):
        groups.setdefault(id(t), []).append("p:" + n)
    return sorted(sorted(g) for g in groups.values())


def add_one(ctx, fn, args, kwargs):
    return fn(*args, **kwargs)


class Tail(torch.nn.Module):
    def __init__(self, n):
        super().__init__()
        self.w = torch.nn.Parameter(torch.randn(n, n))

    def forward(self, x):
        return ff.nn.functional.linear(x, self.w_quantizer(self.w), None, output_quantizer=self.out_quantizer)


class QTail(ff.nn.QuantizedModule, Tail):
    def __init_quantization__(self):
        super().__init_quantization__()
        self.w_quantizer = ff.nn.QuantizerStub(weight_quantizer=True, shape=self.w.shape)
        self.out_quantizer = ff.nn.QuantizerStub(output_quantizer=True)


def make_model(ctx, lazy):
    rng = ctx.rng
    n = rng.choice([2, 4])
    layers = [torch.nn.Linear(n, n, bias=rng.random() < 0.5) for _ in range(rng.randint(1, 3))] + [Tail(n)]
    if rng.random() < 0.3:
        layers.append(layers[0])
    if rng.random() < 0.3 and isinstance(layers[1], torch.nn.Linear):
        layers[1].weight = layers[0].weight
    m = torch.nn.Sequential(*layers)
    ff.quantize_model(m)
    shared = None
    kinds = []
    for name, mod in list(m.named_modules()):
        for attr, st in list(mod.named_children()):
            if not isinstance(st, ff.nn.QuantizerStub) or rng.random() < 0.4:
                continue
            shp = tuple(mod.weight.shape) if attr == "weight_quantizer" else tuple(mod.w.shape) if attr == "w_quantizer" else (3, n)
            c = rng.random()
            if c < 0.15 and shared is not None:
                q, k = shared, "shared"
            elif c < 0.3:
                q, k = ff.nn.DynamicLinearQuantizer(rng.choice([4, 8])), "dynamic"
            elif c < 0.5 and lazy:
                q, k = ff.nn.LinearQuantizer(4, symmetric=rng.random() < 0.5, allow_one_sided=rng.random() < 0.5), "lazy"
            else:
                q, _, _ = gen.linear_quantizer(rng, shp, kinds=("tensor",), dyadic=False)
                k = "static"
                shared = shared or q
            setattr(mod, attr, q)
            kinds.append((attr, k))
    if rng.random() < 0.3:
        m.eval()
    return m, n, kinds


COPIES = ["deepcopy", "deepcopy", "pickle", "save", "deepcopy-container"]
MUTATIONS = ["param", "weight", "attribute", "replace", "override", "range", "load", "cast", "train", "metadata", "initialise"]


@section(quick=900, thorough=40000, requires=tuple("copy:" + c for c in set(COPIES)) + tuple("mutate:" + c for c in MUTATIONS) + ("lazy-model", "outputs-compared"))
def modules(ctx):
    rng = ctx.rng
    lazy = rng.random() < 0.35
    m, n, kinds = make_model(ctx, lazy)
    is_lazy = any(torch.nn.parameter.is_lazy(t) for t in list(m.parameters()) + list(m.buffers()))
    x = torch.randn(3, n)
    ctx.note(kinds=kinds, lazy=is_lazy)

    def run(model):
        with ff.strict_quantization(False), torch.no_grad():
            return gen.fingerprint(model(x))

    ref = None if is_lazy else run(m)
    t0, c0, s0 = tensors_of(m), config_of(m), sharing_of(m)
    how = rng.choice(COPIES)
    ctx.event("copy:" + how)
    if is_lazy:
        ctx.event("lazy-model")
    if how == "deepcopy":
        c = copy.deepcopy(m)
    elif how == "pickle":
        c = repickle(rng)(m)
    elif how == "save":
        c = save_load(m)
    else:
        l = copy.deepcopy({"m": m, "q": list(ff.nn.quantized_module.named_quantizers(m, skip_stubs=False))})
        c = l["m"]
        for nm, q in l["q"]:
            ctx.check(dict(c.named_modules())[nm] is q, "container-identity", nm)

    def intact(model, what):
        ctx.equal(tensors_of(model), t0, "tensors", what)
        ctx.equal(config_of(model), c0, "configuration", what)
        ctx.equal(sharing_of(model), s0, "sharing", what)
        if ref is not None:
            ctx.event("outputs-compared")
            ctx.equal(run(model), ref, "outputs", what)

    intact(m, f"original after {how}")
    intact(c, f"copy by {how}")
    own = {id(t) for t in list(m.parameters()) + list(m.buffers())}
    ctx.check(not any(id(t) in own for t in list(c.parameters()) + list(c.buffers())), "tensor-shared", how)
    ctx.check(not ({id(a) for a in m.modules()} & {id(a) for a in c.modules()}), "module-shared", how)
    victim, other = (m, c) if rng.random() < 0.5 else (c, m)
    done = []
    for _ in range(rng.randint(1, 4)):
        qs = [q for _, q in ff.nn.quantized_module.named_quantizers(victim)]
        lin = [q for q in qs if isinstance(q, ff.nn.LinearQuantizer)]
        mut = rng.choice(MUTATIONS)
        with torch.no_grad():
            if mut == "param":
                ps = [p for q in lin for p in list(q.parameters()) + list(q.buffers()) if not torch.nn.parameter.is_lazy(p)]
                if not ps:
                    continue
                rng.choice(ps).mul_(3).add_(1)
            elif mut == "weight":
                w = [p for nm, p in victim.named_parameters() if "quantizer" not in nm]
                rng.choice(w).add_(1)
            elif mut == "attribute":
                if not qs:
                    continue
                q = rng.choice(qs)
                q.num_bits = 2
                q.quantized_dtype = torch.int32
                q.newattr = 1
            elif mut == "replace":
                a = rng.choice([a for a in victim.modules() if any(isinstance(b, ff.nn.Quantizer) for b in a.children())])
                nm = rng.choice([k for k, b in a.named_children() if isinstance(b, ff.nn.Quantizer)])
                setattr(a, nm, ff.nn.QuantizerStub("custom/tag"))
            elif mut == "override":
                if not qs:
                    continue
                overridden = rng.choice(qs)
                handle = overridden.register_override(add_one)
                for what in (overridden, victim):
                    ctx.raises(RuntimeError, lambda: pickle.dumps(what), "pickle-override", "a quantizer with an override was serialized")
                if rng.random() < 0.5:
                    handle.remove()
                    if not list(overridden.overrides):
                        pickle.dumps(overridden)
            elif mut == "range":
                if not lin:
                    continue
                q = rng.choice(lin)
                k = 1 if q.has_uninitialized_params else q.scale.numel()
                q.quantization_range = (torch.full((k,), -9.0), torch.full((k,), 7.0))
            elif mut == "load":
                sd = {k: torch.ones(2) if torch.nn.parameter.is_lazy(v) else torch.ones_like(v) for k, v in victim.state_dict(keep_vars=True).items()}
                victim.load_state_dict(sd)
                for q in lin:
                    ctx.check(not q.has_uninitialized_params, "load-initialises", "load_state_dict on a copy")
                    ctx.check(bool((q.scale == 1).all()), "load-applies", "load_state_dict on a copy")
            elif mut == "cast":
                victim.to(rng.choice([torch.float64, torch.float16]))
            elif mut == "train":
                victim.train(not victim.training)
            elif mut == "metadata":
                q = [b for b in victim.modules() if isinstance(b, ff.nn.Quantizer) and b.quant_metadata is not None]
                if not q:
                    continue
                rng.choice(q).quant_metadata.add_tag("later/added")
            else:
                with ff.strict_quantization(False):
                    try:
                        with ff.range_setting.estimate_ranges(victim, ff.range_setting.running_minmax):
                            victim(x.to(next(victim.parameters()).dtype))
                    except (RuntimeError, ValueError, TypeError):  # e.g. dynamic quantizers have no range
                        pass
        done.append(mut)
        ctx.event("mutate:" + mut)
        intact(other, f"{'copy' if victim is m else 'original'} after {mut} on the other ({how})")
    ctx.state(how, tuple(done), tuple(sorted(k for _, k in kinds)), is_lazy)


@section(quick=1200, thorough=50000, requires=("lazy-cast", "device"))
def casts(ctx):
    """Casting or moving a quantizer casts its parameters and nothing else."""
    rng = ctx.rng
    shape = gen.shape(rng, 1, 3, 100)
    q, grid, desc = gen.linear_quantizer(rng, shape, dyadic=rng.random() < 0.5)
    dt = rng.choice([torch.float64, torch.float16, torch.bfloat16, torch.float32])
    sc, off = q.scale.detach().clone(), None if q.offset is None else q.offset.detach().clone()
    kind = {k: type(v) for k, v in list(q._parameters.items()) + list(q._buffers.items())}
    attrs = {k: repr(v) for k, v in vars(q).items() if not k.startswith("_")}
    m = rng.randrange(4)
    holder = torch.nn.Sequential(q)
    if m == 0:
        r = q.to(dt)
    elif m == 1:
        r = holder.to(dt)[0]
    elif m == 2:
        r = holder.type(dt)[0]
    else:
        r = {torch.float64: holder.double, torch.float16: holder.half, torch.bfloat16: holder.bfloat16, torch.float32: holder.float}[dt]()[0]
    ctx.check(r is q, "cast-in-place", "")
    ctx.same(q.scale, sc.to(dt), "cast-scale", desc, dtype=True)
    if off is not None:
        ctx.same(q.offset, off.to(dt), "cast-offset", desc, dtype=True)
    ctx.equal({k: type(v) for k, v in list(q._parameters.items()) + list(q._buffers.items())}, kind, "cast-kind", "")
    ctx.equal({k: repr(v) for k, v in vars(q).items() if not k.startswith("_")}, attrs, "cast-attributes", "")
    x = torch.randn(shape, dtype=dt)
    twin = ff.nn.LinearQuantizer(q.num_bits, symmetric=q.symmetric, allow_one_sided=off is not None if q.symmetric else q.allow_one_sided, granularity=q.granularity, param_dtype=dt)
    twin.quantization_range = (torch.full((sc.numel(),), -1.0), torch.full((sc.numel(),), 1.0))
    with torch.no_grad():
        twin.scale.copy_(sc)
        if off is not None:
            twin.offset.copy_(off)
    ctx.equal(gen.fingerprint(q(x)), gen.fingerprint(twin(x)), "cast-results", desc)
    lz = ff.nn.LinearQuantizer(4, symmetric=rng.random() < 0.5, allow_one_sided=rng.random() < 0.5)
    lz.to(dt)
    ctx.event("lazy-cast")
    lz.quantization_range = (-1.0, 1.0)
    ctx.equal(lz.scale.dtype, dt, "lazy-cast-dtype", "")
    if lz.offset is not None:
        ctx.equal(lz.offset.dtype, dt, "lazy-cast-dtype", "offset")
    moved = copy.deepcopy(q).to("meta")
    ctx.event("device")
    ctx.check(all(t.device.type == "meta" for t in list(moved.parameters()) + list(moved.buffers())), "device", "")
    ctx.equal((moved.num_bits, moved.granularity), (q.num_bits, q.granularity), "device", "")
    ctx.state(desc, str(dt), m)
