"""C07: operations on quantized tensors equal the operation on their values."""

import torch

import fastforward as ff

from ffmon import gen
from ffmon.core import section

META = {
    "technique": "runtime monitoring: twin-execution oracle (every operation is mirrored on the dequantized value) over operation programs",
    "level_note": "Programs of 1-6 tensor operations run on the quantized tensor and, step by step, on a plain tensor that started as its dequantized value; both must agree after each step (bit-exact: parameters are dyadic), inputs must be untouched. A refusal (NotImplementedError, QuantizationError, TypeError, ValueError) is accepted and counted.",
    "rule": "distinct (operation, granularity kind, offset kind, storage, result kind) signatures",
}
A = ff.quantization.affine
REFUSE = (NotImplementedError, ff.exceptions.QuantizationError, TypeError, ValueError)


def _qt(ctx, shp=None, kinds=("tensor", "tensor", "channel", "channel", "tile", "block"), max_dim=4):
    rng = ctx.rng
    shp = shp or gen.shape(rng, 1, max_dim, 300)
    gr, tile, desc = gen.granularity(rng, shp, kinds)
    n = gen.n_tiles(shp, tile)
    bits = rng.choice([3, 4, 8])
    single = n > 1 and rng.random() < 0.08
    sc, off = gen.dyadic_params(rng, 1 if single else n, bits, negative=rng.random() < 0.4)
    grid = gen.Grid(gen.tile_index(shp, tile), sc, off, bits)
    x = gen.dyadic_data(rng, grid)
    qdt = rng.choice([None, None, torch.int8, torch.int32])
    if rng.random() < 0.15 and type(gr).__name__ == "PerTensor":
        q = A.quantize_per_tensor(x, float(sc[0]), None if off is None else float(off[0]), bits, qdt)
    else:
        q = A.quantize_per_granularity(x, sc, off, gr, bits, qdt)
    return q, f"{desc}{'/1p' if single else ''}", off is not None, qdt


def _rand_index(rng, n):
    m = rng.random()
    if m < 0.25:
        return rng.randrange(-n, n)
    if m < 0.5:
        a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
        if b == a:
            b = min(n, a + 1)
            a = b - 1
        st = rng.choice([None, None, 1, 2, 3])
        return slice(rng.choice([a, a - n if a else None]), rng.choice([b, None]), st)
    if m < 0.65:
        return slice(None)
    if m < 0.75:
        return slice(None, None, rng.choice([2, 3]))
    if m < 0.85:
        return torch.tensor([rng.randrange(n) for _ in range(rng.randint(1, 4))])
    if m < 0.92:
        return [rng.randrange(n) for _ in range(rng.randint(1, 3))]
    return torch.tensor([rng.random() < 0.6 for _ in range(n)])


def _index(rng, shp):
    """A random index expression; returns (index, flavour)."""
    nd = len(shp)
    m = rng.random()
    if m < 0.08:
        return torch.rand(shp) < 0.5, "mask"
    if m < 0.12 and nd > 1:
        return torch.rand(shp[:2]) < 0.5, "mask2"
    if m < 0.2:
        return torch.randint(0, shp[0], (rng.randint(1, 3), rng.randint(1, 3))), "long2d"
    if m < 0.4:
        i = _rand_index(rng, shp[0])
        return i, f"one-{type(i).__name__}"
    if m < 0.45:
        return rng.choice([None, Ellipsis]), "none/ellipsis"
    k = rng.randint(1, nd)
    out = [_rand_index(rng, shp[d]) for d in range(k)]
    if rng.random() < 0.3:
        # Ellipsis somewhere: entries after it index trailing dims
        p = rng.randint(0, k)
        out = [_rand_index(rng, shp[d]) for d in range(p)] + [Ellipsis] + [_rand_index(rng, shp[nd - (k - p) + j]) for j in range(k - p)]
    if rng.random() < 0.3:
        out.insert(rng.randint(0, len(out)), None)
    return tuple(out), "tuple-" + "".join(sorted({type(o).__name__[0] for o in out}))


def _ops(ctx, shp):
    """(name, fn) applicable to tensors of this shape."""
    rng = ctx.rng
    nd = len(shp)
    numel = 1
    for s in shp:
        numel *= s
    ds = range(-nd, nd) if nd else [0]
    d = rng.choice(list(ds))
    d2 = rng.choice(list(ds))
    n = shp[d] if nd else 1
    perm = list(range(nd))
    rng.shuffle(perm)
    ops = []

    def add(name, fn, w=1):
        ops.extend([(name, fn)] * w)

    if nd:
        i, fl = _index(rng, shp)
        add("getitem:" + fl, lambda t: t[i], 8)
    u = rng.randint(-nd - 1, nd)
    add("unsqueeze", rng.choice([lambda t: t.unsqueeze(u), lambda t: torch.unsqueeze(t, u), lambda t: t.unsqueeze(dim=u)]), 4)
    add("squeeze", lambda t: t.squeeze())
    add("contiguous", lambda t: t.contiguous())
    if nd == 4:
        add("contiguous-last", lambda t: t.contiguous(memory_format=torch.channels_last))
    add("clone", lambda t: t.clone())
    add("detach", lambda t: t.detach())
    divs = gen.divisors(numel) if numel else [1]
    a = rng.choice(divs)
    tgt = rng.choice([(-1,), (a, -1), (numel // a, a), (1, *shp), tuple(shp)])
    add("reshape", rng.choice([lambda t: t.reshape(*tgt), lambda t: t.reshape(tgt), lambda t: torch.reshape(t, tgt)]), 3)
    add("view", rng.choice([lambda t: t.contiguous().view(*tgt), lambda t: t.contiguous().view(tgt), lambda t: t.contiguous().view(list(tgt)), lambda t: t.contiguous().view(torch.Size(t.shape))]), 2)
    ref = torch.zeros(tgt if -1 not in tgt else shp)
    add("view_as", lambda t: t.contiguous().view_as(ref))
    if nd:
        add("transpose", rng.choice([lambda t: t.transpose(d, d2), lambda t: torch.transpose(t, d, d2), lambda t: t.transpose(dim0=d, dim1=d2)]), 4)
        add("permute", lambda t: t.permute(*perm))
        ex = tuple(rng.choice([2, 3]) if s == 1 else rng.choice([s, -1]) for s in shp)
        pre = tuple(rng.choice([1, 2]) for _ in range(rng.choice([0, 0, 1])))
        if numel <= 600:
            add("expand", rng.choice([lambda t: t.expand(*pre, *ex), lambda t: t.expand((*pre, *ex))]), 3)
            add("cat-self", lambda t: torch.cat([t, t], d), 1)
            add("stack", lambda t: torch.stack([t, t], d))
        idx = torch.randint(0, max(n, 1), shp)
        if numel and n:
            add("take_along_dim", rng.choice([lambda t: torch.take_along_dim(t, idx, d), lambda t: t.take_along_dim(idx, dim=d)]), 2)
            flat = torch.randint(0, numel, (5,))
            add("take_along_flat", lambda t: torch.take_along_dim(t, flat))
            add("index_select", lambda t: t.index_select(d, torch.tensor([0, n - 1])))
            add("gather", lambda t: torch.gather(t, d, idx))
            add("narrow", lambda t: t.narrow(d, 0, n))
            add("select", lambda t: t.select(d, n - 1))
            add("split", lambda t: t.split(max(1, n // 2), d)[0])
            add("chunk", lambda t: t.chunk(2, d)[-1])
            add("flip", lambda t: t.flip(d))
            add("unbind", lambda t: t.unbind(d)[0])
            add("iter", lambda t: [r for r in t][-1])
            k = rng.randint(1, n)
            lg, so = rng.random() < 0.5, rng.random() < 0.7
            add("topk", rng.choice([lambda t: t.topk(k, d, lg, so), lambda t: torch.topk(t, k, dim=d, largest=lg, sorted=so)]), 3)
        add("flatten", lambda t: t.flatten())
        add("T", lambda t: t.mT if t.ndim >= 2 else t.flip(0))
    c = rng.choice([2, -2, 0.5, -0.25, 1, 0, 4.0, True, -1])
    add("mul-scalar", rng.choice([lambda t: t * c, lambda t: c * t, lambda t: torch.mul(t, c), lambda t: t.mul(c), lambda t: t.mul(other=c), lambda t: torch.mul(input=t, other=c), lambda t: torch.multiply(t, c)]), 5)
    add("div-scalar", lambda t: t / 2)
    add("neg", lambda t: -t)
    add("add-scalar", lambda t: t + 1)
    return ops


def _agree(ctx, got, want, key):
    if isinstance(got, ff.QuantizedTensor):
        p = got.quant_args()
        ctx.equal(tuple(got.shape), tuple(want.shape), key + "-shape")
        ctx.same(got.dequantize(), want, key)
        # int_repr together with the carried parameters must describe the same values
        tile = p.granularity.tile_size(torch.Size(got.shape))
        tile = tuple(got.shape) if tile == "data_shape" else tuple(tile)
        if got.numel():
            g = gen.Grid(gen.tile_index(tuple(got.shape), tile), torch.as_tensor(p.scale), None if p.offset is None else torch.as_tensor(p.offset), p.num_bits)
            n = gen.n_tiles(tuple(got.shape), tile)
            ctx.check(g.scale.numel() in (1, n), key + "-params", f"{g.scale.numel()} scales for {n} tiles")
            ctx.same(g.dequant(got.int_repr()), want, key + "-int-repr")
        return "q"
    ctx.same(got, want, key)
    return "f"


@section(quick=12000, thorough=400000, requires=("quantized-results",))
def programs(ctx):
    rng = ctx.rng
    t, desc, has_off, qdt = _qt(ctx)
    twin = t.dequantize().detach().clone()
    ctx.note(shape=tuple(t.shape), gran=desc, offset=has_off, storage=str(qdt))
    steps = []
    strict = rng.random() < 0.3
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        name, fn = rng.choice(_ops(ctx, tuple(t.shape)))
        steps.append(name)
        ctx.note(steps=list(steps), cur_shape=tuple(t.shape), cur=repr(t.quant_args()) if isinstance(t, ff.QuantizedTensor) else "float")
        was_q = isinstance(t, ff.QuantizedTensor)
        before = gen.fingerprint(t)
        try:
            want = fn(twin)
        except Exception:  # noqa: BLE001  - not a valid operation on any tensor
            ctx.event("invalid-op")
            continue
        with ff.strict_quantization(strict):
            try:
                got = fn(t)
            except REFUSE as e:
                ctx.event("refused:" + name.split(":")[0])
                ctx.check(was_q, "float-op-raised", f"{name} raised {e!r} on a plain tensor")
                ctx.equal(gen.fingerprint(t), before, "input-after-refusal")
                ctx.state(name, desc.split("(")[0], "refused")
                return
            except RuntimeError as e:
                if "view size is not compatible" in str(e):  # memory layout is not part of the property
                    return
                raise
        ctx.equal(gen.fingerprint(t), before, "input-unchanged")
        if name == "topk":
            dim_vals = got.values
            kind = _agree(ctx, dim_vals, want.values, "topk-values")
            nd = t.ndim
            # the returned indices must select the returned values
            dim = next(d for d in range(nd) if True) if nd == 1 else None
            ctx.equal(tuple(got.indices.shape), tuple(want.indices.shape), "topk-indices-shape")
            for d in range(nd) if dim is None else [dim]:
                if got.indices.shape[d] <= twin.shape[d] and all(got.indices.shape[e] == twin.shape[e] for e in range(nd) if e != d) and int(got.indices.max()) < twin.shape[d]:
                    if torch.equal(torch.gather(twin, d, want.indices), want.values):
                        ctx.same(torch.gather(twin, d, got.indices), want.values, "topk-indices")
            got, want = got.values, want.values
        else:
            kind = _agree(ctx, got, want, "value:" + name.split(":")[0])
        if name.startswith("contiguous"):
            raw = got.raw_data if kind == "q" else got
            ctx.check(raw.is_contiguous(memory_format=torch.channels_last if "last" in name else torch.contiguous_format), "layout:" + name, f"strides {raw.stride()} of {tuple(raw.shape)}")
        if was_q and kind == "q":
            ctx.event("quantized-results")
        if was_q and kind == "f" and strict:
            # handled by C09; here only counted
            ctx.event("strict-float")
        ctx.event("op:" + name.split(":")[0])
        ctx.state(name, desc.split("(")[0], has_off, str(qdt), kind, was_q)
        t, twin = got, want
        if not isinstance(t, torch.Tensor) or t.numel() == 0 or t.numel() > 3000 or t.ndim > 6:
            return


@section(quick=3000, thorough=100000, requires=("quantized-results",))
def joining(ctx):
    """Concatenation of several quantized/float tensors, equal and unequal parameters."""
    rng = ctx.rng
    shp = list(gen.shape(rng, 1, 3, 100))
    d = rng.randrange(len(shp))
    k = rng.randint(1, 4)
    base_s = 2.0 ** rng.randint(-3, 2)
    base_o = rng.choice([None, 0.0, 3.0, -2.0])
    ts = []
    for _ in range(k):
        s = list(shp)
        s[d] = rng.randint(1, 4)
        sc = base_s if rng.random() < 0.85 else base_s * 2
        of = base_o if rng.random() < 0.7 else rng.choice([None, 0.0, 3.0, -2.0])
        bits = 4 if rng.random() < 0.8 else 8
        x = torch.randint(-20, 20, tuple(s)).float() * base_s
        asfloat = rng.random() < 0.3
        S = sc if asfloat else torch.tensor([sc])
        O = of if asfloat or of is None else torch.tensor([of])
        if rng.random() < 0.1:
            gr = ff.PerChannel(d)
            S = torch.full((s[d],), sc)
            O = None if of is None else torch.full((s[d],), of)
        else:
            gr = ff.PerTensor()
        q = A.quantize_per_granularity(x, S, O, gr, bits, rng.choice([None, torch.int16]))
        ts.append(q if rng.random() < 0.93 else q.dequantize())
    dim = d if rng.random() < 0.5 else d - len(shp)
    call = rng.choice([
        lambda l: torch.cat(l, dim), lambda l: torch.cat(l, dim=dim), lambda l: torch.cat(tuple(l), dim=dim), lambda l: torch.cat(tensors=l, dim=dim),
        lambda l: torch.concat(l, dim), lambda l: torch.cat(l) if dim % len(shp) == 0 else torch.cat(l, dim),
        lambda l: ff.nn.functional.cat(l, dim, strict_quantization=False) if any(isinstance(t, ff.QuantizedTensor) for t in l) else torch.cat(l, dim),
    ])
    ctx.note(params=[(repr(t.quant_args()) if isinstance(t, ff.QuantizedTensor) else "float") for t in ts], dim=dim)
    before = [gen.fingerprint(t) for t in ts]
    with ff.strict_quantization(False):
        got = call(list(ts))
    want = torch.cat([t.dequantize() if isinstance(t, ff.QuantizedTensor) else t for t in ts], dim)
    kind = _agree(ctx, got, want, "cat")
    ctx.equal([gen.fingerprint(t) for t in ts], before, "inputs-unchanged")
    ctx.state(k, kind, len({repr(t.quant_args()) if isinstance(t, ff.QuantizedTensor) else "f" for t in ts}))
    if kind == "q":
        ctx.event("quantized-results")


@section(quick=1500, thorough=40000)
def gradients(ctx):
    """Back-propagation through an operation on a quantized tensor equals the plain one."""
    rng = ctx.rng
    shp = gen.shape(rng, 1, 3, 100)
    x0 = torch.randn(shp)
    gr, tile, desc = gen.granularity(rng, shp, ("tensor", "tensor", "channel", "tile"))
    n = gen.n_tiles(shp, tile)
    sc, off = gen.dyadic_params(rng, n, 4)
    ops = [o for o in _ops(ctx, shp) if o[0] != "detach"]
    name, fn = rng.choice(ops)
    ctx.note(op=name, gran=desc, shape=shp)
    try:
        fn(x0)
    except Exception:  # noqa: BLE001
        return
    out = []
    w = None
    for side in range(2):
        x = x0.clone().requires_grad_()
        s = sc.clone().requires_grad_()
        o = None if off is None else off.clone().requires_grad_()
        q = A.quantize_per_granularity(x, s, o, gr, 4)
        try:
            with ff.strict_quantization(False):
                y = fn(q) if side == 0 else fn(q.dequantize())
        except REFUSE:
            ctx.event("refused")
            return
        except RuntimeError as e:
            if "view size is not compatible" in str(e):
                return
            raise
        if name == "topk":
            # ties make the selected element ambiguous
            return
        y = y.dequantize() if isinstance(y, ff.QuantizedTensor) else y
        if not y.requires_grad:
            ctx.fail("no-gradient", f"side {side} of {name} lost its gradient")
        if w is None:
            w = torch.randn(y.shape)
        (y * w).sum().backward()
        out.append((x.grad, s.grad, None if o is None else o.grad))
    for i, part in enumerate(("x", "scale", "offset")):
        a, b = out[0][i], out[1][i]
        ctx.equal(a is None, b is None, "grad-presence:" + part)
        if a is not None:
            ctx.close(a, b, "grad:" + part, rtol=1e-4, atol=1e-4)
    ctx.state(name, type(gr).__name__)
