"""C14: converting a model to quantized modules preserves the model."""

import copy
import sys
import types

import torch

import fastforward as ff

from fastforward.exceptions import QuantizationError
from fastforward.nn.quantized_module import SKIP_QUANTIZATION, QuantizedModule, filter_quantized_module_map, named_quantizers, quantized_module_map, surrogate_quantized_modules

from ffmon import gen, peek
from ffmon.core import section

META = {
    "technique": "runtime monitoring: identity snapshots of every module's state are diffed against a reference conversion model, and outputs compared before/after",
    "level_note": "Random module trees (nesting, containers, shared modules, tied parameters, hooks, mixed training mode and dtype, pre-converted parts, plain namespaces) are converted with random options. A snapshot of every attribute of every module (by identity) before and after is diffed; a separate traversal says which modules must have which type afterwards or that the conversion must be refused, in which case nothing at all may have changed.",
    "rule": "distinct (tree shape, options) pairs",
}


class Residual(torch.nn.Module):
    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def forward(self, x):
        return x + self.inner(x)


class Branches(torch.nn.Module):
    def __init__(self, items):
        super().__init__()
        self.items_ = torch.nn.ModuleList(items)
        self.gains = torch.nn.ParameterList([torch.nn.Parameter(torch.randn(())) for _ in items])
        self.register_buffer("shift", torch.randn(()))
        self.register_buffer("temp", torch.randn(()), persistent=False)

    def forward(self, x):
        return sum((g * m(x) for g, m in zip(self.gains, self.items_)), x * 0) + self.shift + self.temp


class Routes(torch.nn.Module):
    def __init__(self, items):
        super().__init__()
        self.table = torch.nn.ModuleDict({f"r{i}": m for i, m in enumerate(items)})
        self.coef = torch.nn.ParameterDict({f"r{i}": torch.nn.Parameter(torch.randn(())) for i in range(len(items))})
        self.order = sorted(self.table)
        self.missing = None

    def forward(self, x):
        for k in self.order:
            x = self.table[k](x) * self.coef[k]
        return x


class ConvBlock(torch.nn.Module):
    """uses a Conv1d over the feature axis"""

    def __init__(self, conv):
        super().__init__()
        self.conv = conv

    def forward(self, x):
        return self.conv(x.unsqueeze(-2)).squeeze(-2)


class Namespaced(torch.nn.Module):
    """children live in a plain torch.nn.Module, as many model zoos do"""

    def __init__(self, inner):
        super().__init__()
        self.ns = torch.nn.Module()
        self.ns.block = inner

    def forward(self, x):
        return self.ns.block(x)


class Unknown(torch.nn.Module):
    def forward(self, x):
        return torch.tanh(x)


class Special(torch.nn.Module):
    """has a counterpart only through extra_conversion"""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def forward(self, x):
        return self.inner(x) * 2


class Twice(torch.nn.Module):
    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def forward(self, x):
        return self.inner(self.inner(x))


class MyLinear(torch.nn.Linear):
    """subclass of a supported type: not itself supported"""


class QResidual(QuantizedModule, Residual):
    def __init_quantization__(self):
        super().__init_quantization__()
        self.output_quantizer = ff.nn.QuantizerStub(output_quantizer=True)

    def forward(self, x):
        return self.output_quantizer(super().forward(x))


class QBranches(QuantizedModule, Branches):
    pass


class QRoutes(Routes, QuantizedModule):
    pass


class QConvBlock(QuantizedModule, ConvBlock):
    pass


class QNamespaced(QuantizedModule, Namespaced):
    pass


class QSpecial(QuantizedModule, Special, include_in_module_map=False):
    def __init_quantization__(self):
        super().__init_quantization__()
        self.input_quantizer = ff.nn.QuantizerStub(input_quantizer=True)

    def forward(self, x):
        return super().forward(self.input_quantizer(x))


class QPlain(QuantizedModule, include_in_module_map=False):
    pass


class AltLinear(ff.nn.QuantizedLinear, include_in_module_map=False):
    pass


def _module(name):
    m = types.ModuleType(name)
    sys.modules[name] = m
    return m


MODS = {n: _module(n) for n in ("ffmon_lib", "ffmon_lib.sub", "ffmon_library")}
# registration order matters: the last one created wins among the allowed ones
TWICE = [(n, type("QTwice", (QuantizedModule, Twice), {"__module__": n})) for n in ("ffmon_lib", "ffmon_lib.sub", "ffmon_library")]
TWICE_OWN = type("QTwiceOwn", (QuantizedModule, Twice), {"__module__": __name__})

BASE = {
    torch.nn.Linear: ff.nn.QuantizedLinear,
    torch.nn.LayerNorm: ff.nn.QuantizedLayerNorm,
    torch.nn.ReLU: ff.nn.QuantizedRelu,
    torch.nn.SiLU: ff.nn.QuantizedSilu,
    torch.nn.Conv1d: ff.nn.QuantizedConv1d,
    torch.nn.Conv2d: ff.nn.QuantizedConv2d,
    torch.nn.Embedding: ff.nn.QuantizedEmbedding,
    torch.nn.Sequential: ff.nn.QuantizedSequential,
    torch.nn.ModuleList: ff.nn.QuantizedModuleList,
    torch.nn.ModuleDict: ff.nn.QuantizedModuleDict,
    torch.nn.ParameterList: ff.nn.QuantizedParameterList,
    torch.nn.ParameterDict: ff.nn.QuantizedParameterDict,
}
OWN = {Residual: QResidual, Branches: QBranches, Routes: QRoutes, ConvBlock: QConvBlock, Namespaced: QNamespaced}
D = 4
ROLES = {"weight_quantizer": "parameter/weight", "bias_quantizer": "parameter/bias", "input_quantizer": "activation/input", "output_quantizer": "activation/output"}


def tree(ctx, depth, pool, hostile):
    rng = ctx.rng
    if pool and rng.random() < 0.2:
        ctx.event("shared")
        return rng.choice(pool)
    leaf = depth == 0 or rng.random() < 0.25
    if leaf:
        k = rng.randrange(8)
        if k <= 2:
            m = torch.nn.Linear(D, D, bias=rng.random() < 0.7)
            lins = [p for p in pool if type(p) is torch.nn.Linear]
            if lins and rng.random() < 0.3:
                m.weight = rng.choice(lins).weight
                ctx.event("tied")
        elif k == 3:
            m = torch.nn.LayerNorm(D, elementwise_affine=rng.random() < 0.7, bias=rng.random() < 0.7)
        elif k == 4:
            m = torch.nn.SiLU()
        elif k == 5:
            m = torch.nn.Sequential(torch.nn.Linear(D, D), torch.nn.ReLU(inplace=rng.random() < 0.5))
        elif k == 6:
            m = ConvBlock(torch.nn.Conv1d(1, 1, 3, padding=1, padding_mode=rng.choice(["zeros", "circular", "reflect"])))
        else:
            m = torch.nn.ReLU()
        if hostile and rng.random() < 0.15:
            m = rng.choice([Unknown(), MyLinear(D, D), torch.nn.Tanh(), torch.nn.Dropout(0.0)])
            ctx.event("unsupported")
    else:
        k = rng.randrange(8)
        sub = [tree(ctx, depth - 1, pool, hostile) for _ in range(rng.randint(1, 3))]
        if k <= 1:
            m = torch.nn.Sequential(*sub)
        elif k == 2:
            m = Residual(sub[0])
        elif k == 3:
            m = Branches(sub)
        elif k == 4:
            m = Routes(sub)
        elif k == 5:
            m = Special(sub[0])
        elif k == 6:
            m = Twice(sub[0])
        else:
            m = Namespaced(sub[0]) if hostile or rng.random() < 0.5 else torch.nn.Sequential(*sub)
    pool.append(m)
    return m


def hook(_m, _a, out):
    return out + 1


def pre_hook(_m, args, kwargs):
    return (args[0] * 0.5 if args[0].is_floating_point() else args[0],), kwargs


def decorate(ctx, model):
    rng = ctx.rng
    for m in model.modules():
        if isinstance(m, torch.nn.ParameterList | torch.nn.ParameterDict | torch.nn.ModuleList | torch.nn.ModuleDict):
            continue
        m.training = rng.random() < 0.5
        r = rng.random()
        if r < 0.1:
            m.register_forward_hook(hook)
            ctx.event("hook")
        elif r < 0.15:
            m.register_forward_pre_hook(pre_hook, with_kwargs=True)
            ctx.event("hook")
        elif r < 0.2:
            m.tag_ = object()
            m.names_ = ["a", 1]
        elif r < 0.23:
            m.register_buffer("extra_", torch.randn(2), persistent=False)
        elif r < 0.26:
            m.register_buffer("nothing_", None)
        for p in m.parameters(recurse=False):
            if rng.random() < 0.2:
                p.requires_grad_(False)


def snap(model):
    """Everything reachable, by identity."""
    out = {}
    for name, m in model.named_modules(remove_duplicate=False):
        d = {}
        for k, v in vars(m).items():
            if isinstance(v, dict):
                d[k] = (type(v), [(a, id(b)) for a, b in v.items()])
            elif isinstance(v, set | list):
                d[k] = (type(v), id(v), sorted(map(repr, v)))
            elif isinstance(v, bool | int | float | str | tuple | type(None)):
                d[k] = v
            else:
                d[k] = id(v)
        out[name] = (id(m), d)
    return out


def pin(model):
    """Keep everything alive so identities stay meaningful."""
    return [dict(vars(m)) for m in model.modules()] + [list(v.values()) for m in model.modules() for v in vars(m).values() if isinstance(v, dict)]


def types_of(model):
    return {n: type(m) for n, m in model.named_modules(remove_duplicate=False)}


def oracle(model, mapping, skip_quantized, recursive):
    """Expected type by module id, or None if the conversion has to be refused."""
    for m in model.modules():
        t = type(m)
        if t in mapping or isinstance(m, ff.nn.Quantizer) or (skip_quantized and isinstance(m, QuantizedModule)):
            continue
        return None
    want = {}

    def visit(m):
        if id(m) in want or isinstance(m, ff.nn.Quantizer):
            return
        if skip_quantized and isinstance(m, QuantizedModule):
            target = type(m)
        else:
            target = mapping[type(m)]
            if target is SKIP_QUANTIZATION:
                return
        want[id(m)] = target
        if recursive:
            for c in m.children():
                visit(c)

    visit(model)
    return want


SLOTS = {
    ff.nn.QuantizedRelu: {"input_quantizer", "output_quantizer"},
    ff.nn.QuantizedSilu: {"input_quantizer", "output_quantizer"},
    ff.nn.QuantizedEmbedding: {"weight_quantizer", "output_quantizer"},
    QResidual: {"output_quantizer"},
    QSpecial: {"input_quantizer"},
}


def slots(m, t):
    if t in SLOTS:
        return SLOTS[t]
    if t in (ff.nn.QuantizedLinear, AltLinear, ff.nn.QuantizedConv1d, ff.nn.QuantizedConv2d, ff.nn.QuantizedLayerNorm):
        return {"input_quantizer", "output_quantizer"} | {f"{k}_quantizer" for k in ("weight", "bias") if getattr(m, k, None) is not None}
    return set()


def run(model, x):
    with ff.strict_quantization(False):
        a = x.clone()
        named = [(n, p) for n, p in model.named_parameters() if p.requires_grad]
        leaves = [p for _, p in named]
        if a.is_floating_point():
            leaves.append(a.requires_grad_())
        y = model(a)
        grads = torch.autograd.grad(y.sum(), leaves, allow_unused=True) if y.requires_grad else []
        return [gen.fingerprint(y.detach()), [n for n, _ in named], [g if g is None else gen.fingerprint(g) for g in grads]]


def compare(ctx, before, after, want, model, desc):
    mods = dict(model.named_modules(remove_duplicate=False))
    for name, (ident, d0) in before.items():
        ctx.check(name in after, "module-lost", f"{name} {desc}")
        ident1, d1 = after[name]
        ctx.check(ident1 == ident, "module-replaced", f"{name} {desc}")
        m = mods[name]
        converted = ident in want
        for k, v in d0.items():
            if k not in d1:
                ctx.fail("attribute-lost", f"{name}.{k} {desc}")
            if d1[k] == v:
                continue
            if converted and k == "_modules":
                old, new = v[1], d1[k][1]
                ctx.equal(new[: len(old)], old, "children", f"{name} {desc}")
                added = {n: getattr(m, n) for n, _ in new[len(old) :]}
                ctx.check(all(q is None or isinstance(q, ff.nn.QuantizerStub) for q in added.values()), "children-added", f"{name} {desc}")
                continue
            if converted and k == "inplace":
                continue
            ctx.fail("attribute-changed", f"{name}.{k}: {v!r} -> {d1[k]!r} {desc}")
        extra = set(d1) - set(d0) - ({"_quantizer_metadata"} if converted else set())
        ctx.check(not extra, "attribute-added", f"{name} {extra} {desc}")


@section(
    quick=9000,
    thorough=100000,
    requires=("shared", "tied", "hook", "refused", "converted", "skip-type", "skip-quantized", "extra", "ignore-global", "not-recursive", "filter", "preconverted", "surrogates", "again"),
)
def conversions(ctx):
    rng = ctx.rng
    hostile = rng.random() < 0.3
    pool = []
    model = tree(ctx, rng.randint(0, 3), pool, hostile)
    if rng.random() < 0.15:
        model = torch.nn.Sequential(torch.nn.Embedding(5, D, padding_idx=rng.choice([None, 0])), model)
    decorate(ctx, model)
    x = torch.randint(0, 5, (3,)) if isinstance(model, torch.nn.Sequential) and len(model) and type(model[0]) is torch.nn.Embedding else torch.randn(2, D)
    if x.is_floating_point() and rng.random() < 0.2:
        model.double()
        x = x.double()
    mapping = {**BASE, **OWN, Twice: TWICE_OWN}
    skip_quantized = False
    if rng.random() < 0.25:
        ctx.event("preconverted")
        part = rng.choice([m for m in pool])
        ff.quantize_model(part, extra_conversion={Special: QSpecial, **surrogate_quantized_modules(part, extra_conversion={Special: QSpecial})})
        skip_quantized = rng.random() < 0.8
    elif rng.random() < 0.15:
        skip_quantized = True
    if skip_quantized:
        ctx.event("skip-quantized")
    extra = {}
    if rng.random() < 0.8:
        extra[Special] = QSpecial
        ctx.event("extra")
    if rng.random() < 0.15:
        extra[torch.nn.Linear] = AltLinear
    if rng.random() < 0.3:
        t = rng.choice([Residual, torch.nn.Sequential, torch.nn.Linear, torch.nn.LayerNorm, Twice, Special, Branches])
        extra[t] = SKIP_QUANTIZATION
        ctx.event("skip-type")
    allowed = None
    ignore = rng.random() < 0.15
    if ignore:
        ctx.event("ignore-global")
        p_keep = rng.choice([0.7, 1.0])
        keep = {k: v for k, v in mapping.items() if rng.random() < p_keep}
        extra = {**keep, **extra}
        mapping = {}
    elif rng.random() < 0.25:
        ctx.event("filter")
        names = rng.sample(["ffmon_lib", "ffmon_library", "ffmon_lib.sub", "fastforward", "self"], rng.randint(1, 3))
        allowed = [sys.modules[__name__] if n == "self" else sys.modules[n] for n in names]
        mapping = {}
        if "fastforward" in names:
            mapping.update(BASE)
        if "self" in names:
            mapping.update(OWN)
            mapping[Twice] = TWICE_OWN
        else:
            for n, c in TWICE:
                if any(n == a or n.startswith(a + ".") for a in names):
                    mapping[Twice] = c
    if rng.random() < 0.2 and not ignore:
        ctx.event("surrogates")
        known = {**mapping, **extra}
        reg = None
        with_filter = filter_quantized_module_map(*allowed) if allowed is not None else None
        if with_filter:
            with_filter.__enter__()
        reg = quantized_module_map()
        sur = surrogate_quantized_modules(model, extra_conversion=dict(extra))
        ctx.equal(quantized_module_map(), reg, "surrogates-registered", "")
        if with_filter:
            with_filter.__exit__(None, None, None)
        missing = {type(m) for m in model.modules() if type(m) not in known and not isinstance(m, ff.nn.Quantizer | QuantizedModule)}
        ctx.equal(set(sur), missing, "surrogates", "")
        for k, v in sur.items():
            ctx.check(issubclass(v, QuantizedModule) and issubclass(v, k), "surrogates", k.__name__)
        extra.update(sur)
    recursive = rng.random() < 0.9
    mapping = {**mapping, **extra}
    want = oracle(model, mapping, skip_quantized, recursive)
    desc = f"{model.__class__.__name__} n={len(list(model.modules()))} extra={[k.__name__ for k in extra]} skipq={skip_quantized} recursive={recursive} ignore={ignore} filter={allowed and [a.__name__ for a in allowed]}"
    ctx.note(desc=desc, tree=repr(model)[:1500])
    hold = pin(model)
    before, tbefore = snap(model), types_of(model)
    ref = run(model, x)
    ctx.equal(snap(model), before, "harness", "running must not modify the model")
    keys = list(model.state_dict())

    def convert():
        kw = dict(extra_conversion=extra or None, skip_quantized_modules=skip_quantized, ignore_global_module_map=ignore)
        ecopy = dict(extra)
        try:
            if allowed is not None:
                with filter_quantized_module_map(*allowed):
                    return ff.quantize_model(model, recursive, **kw)
            return ff.quantize_model(model, recursive, **kw)
        finally:
            ctx.equal(extra, ecopy, "conversion-map-modified", desc)

    if want is None:
        ctx.event("refused")
        ctx.raises((QuantizationError,), convert, "unsupported-accepted", desc)
        ctx.equal(types_of(model), tbefore, "refused-but-converted", desc)
        ctx.equal(snap(model), before, "refused-but-changed", desc)
        ctx.equal(run(model, x), ref, "outputs-after-refusal", desc)
        ctx.state("refused", desc)
        return
    out = convert()
    ctx.event("converted")
    if not recursive:
        ctx.event("not-recursive")
    ctx.check(out is model, "not-in-place", desc)
    after = snap(model)
    compare(ctx, before, after, want, model, desc)
    mods = {id(m): m for m in model.modules()}
    fresh = {}
    for name, t in types_of(model).items():
        if name in tbefore:
            ident = before[name][0]
            expect = want.get(ident, tbefore[name])
            ctx.check(t is expect, "type", f"{name}: {t.__name__} instead of {expect.__name__} {desc}")
            if ident in want and tbefore[name] is not expect:
                ctx.equal({n for n, q in mods[ident].named_children() if isinstance(q, ff.nn.Quantizer)}, slots(mods[ident], t), "slots", f"{name} {desc}")
                for n, q in mods[ident].named_children():
                    if isinstance(q, ff.nn.Quantizer):
                        ctx.check(fresh.setdefault(id(q), (ident, n)) == (ident, n), "slot-shared", f"{name}.{n} {desc}")
    ctx.equal(list(model.state_dict()), keys, "state-dict", desc)
    ctx.equal(run(model, x), ref, "outputs", desc)
    # every slot of a library module carries the role it is named after
    for n, m in model.named_modules():
        if type(m) in BASE.values() or type(m) is AltLinear:
            for slot, role in ROLES.items():
                q = getattr(m, slot, None)
                if q is not None:
                    ctx.equal({repr(t) for t in peek.tags(q.quant_metadata)}, {role, role.split("/")[0]}, "slot-role", f"{n}.{slot}")
    # converting the converted model again, when quantized modules are skipped, changes nothing
    if rng.random() < 0.5 and recursive:
        ctx.event("again")
        for n, q in list(named_quantizers(model, skip_stubs=False)):
            if rng.random() < 0.3 and n:
                parent = model.get_submodule(n.rpartition(".")[0])
                setattr(parent, n.rpartition(".")[2], ff.nn.LinearQuantizer(rng.choice([3, 8])))
        hold += pin(model)
        s1, t1 = snap(model), types_of(model)
        full = {**BASE, **OWN, Twice: TWICE_OWN, **extra}
        if oracle(model, full, True, True) is not None:
            again = {k: v for k, v in extra.items()}
            want2 = oracle(model, full, True, True)
            if all(want2.get(i, t1[n]) is t1[n] for n, (i, _) in s1.items()):
                ff.quantize_model(model, extra_conversion={**full, **again}, skip_quantized_modules=True)
                ctx.equal(snap(model), s1, "again", desc)
                ctx.equal(types_of(model), t1, "again", desc)
    ctx.state(tuple(sorted(t.__name__ for t in tbefore.values())), skip_quantized, recursive, tuple(sorted(k.__name__ for k in extra)))
    del hold


@section(quick=2500, thorough=30000, requires=("recurse", "flat", "shared-quantizer"))
def enumeration(ctx):
    """Every quantizer is enumerated once, under its true name, and the quantizer state is theirs."""
    rng = ctx.rng
    pool = []
    model = tree(ctx, rng.randint(1, 3), pool, False)
    ff.quantize_model(model, extra_conversion=surrogate_quantized_modules(model))
    shared = None
    every = [(m, n) for m in model.modules() for n, q in m.named_children() if isinstance(q, ff.nn.Quantizer)]
    for m, n in every:
        if rng.random() < 0.5:
            if shared is not None and rng.random() < 0.3:
                setattr(m, n, shared)
                ctx.event("shared-quantizer")
            else:
                q = ff.nn.LinearQuantizer(rng.choice([2, 4]), symmetric=rng.random() < 0.5)
                if rng.random() < 0.7:
                    q.quantization_range = (-1.0, rng.choice([1.0, 2.0]))
                shared = q
                setattr(m, n, q)
    truth = []
    seen = set()

    def walk(m, prefix):
        if id(m) in seen:
            return
        seen.add(id(m))
        if isinstance(m, ff.nn.Quantizer):
            truth.append((prefix, m))
        for n, c in m.named_children():
            walk(c, f"{prefix}.{n}" if prefix else n)

    # named_children deduplicates within a module only, which walk() handles through `seen`
    walk(model, "")
    stubs = rng.random() < 0.5
    pre = rng.choice(["", "p", "a.b"])
    ctx.event("recurse")
    got = list(named_quantizers(model, prefix=pre, skip_stubs=stubs))
    want = [((pre + "." if pre else "") + n, q) for n, q in truth if not (stubs and q.is_stub())]
    ctx.equal([(n, id(q)) for n, q in got], [(n, id(q)) for n, q in want], "enumeration", "")
    if isinstance(model, QuantizedModule):
        ctx.equal([id(q) for q in model.quantizers(skip_stubs=stubs)], [id(q) for _, q in want], "enumeration", "quantizers()")
    m = rng.choice([m for m in model.modules() if not isinstance(m, ff.nn.Quantizer)])
    ctx.event("flat")
    ctx.equal([(n, id(q)) for n, q in named_quantizers(m, recurse=False, skip_stubs=stubs)], [(n, id(q)) for n, q in m.named_children() if isinstance(q, ff.nn.Quantizer) and not (stubs and q.is_stub())], "enumeration-flat", "")
    # every alias, when asked for
    alias = {(n, id(q)) for n, q in named_quantizers(model, remove_duplicate=False, skip_stubs=False)}
    ctx.equal(alias, {(n, id(q)) for n, q in model.named_modules(remove_duplicate=False) if isinstance(q, ff.nn.Quantizer)}, "enumeration-aliases", "")
    sd = ff.nn.quantized_module.quantizer_state_dict(model)
    full = model.state_dict(keep_vars=True)
    ready = {n for n, q in truth if not any(torch.nn.parameter.is_lazy(t) for t in [*q.parameters(), *q.buffers()])}
    expect = {k for k in full if k.rpartition(".")[0] in ready}
    ctx.equal(set(sd), expect, "quantizer-state", "")
    for k in sd:
        ctx.same(sd[k], full[k], "quantizer-state", k)
    summ = ff.nn.quantized_module.summarize_quantizers(model)
    locs = sorted(loc for s in summ.summaries for loc in s.locations)
    ctx.equal(locs, sorted(n for n, q in truth if not q.is_stub()), "summary", "")
    by = dict(truth)
    for s in summ.summaries:
        ctx.equal({repr(by[loc]) for loc in s.locations}, {s.quantizer_repr}, "summary", "")
        ctx.equal(s.count, len(s.locations), "summary", "")
    ctx.state(len(truth), len(got))
