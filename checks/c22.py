"""C22: layer-wise execution delivers the right activations, in order, and frees them on time."""

import collections
import contextlib
import copy
import functools
import warnings
import weakref

import torch

import fastforward as ff

from fastforward import orchestration as orch
from fastforward._orchestration import data_flow, instruction_engine as ie, registry, scheduler
from fastforward._orchestration import graph_module as gm
from torch.utils import _pytree as pytree
from torch.utils._pytree import tree_leaves, tree_map_only

from checks.c21 import fresh_inputs, random_regions, region_cycle, shape_of, unused_inputs
from ffmon import graphs as G
from ffmon import peek
from ffmon.core import section

META = {
    "technique": "runtime monitoring: recorders in the optimiser, in every node and on every produced tensor observe layer-wise runs; bundles, order, final weights, liveness and device placement are compared with an independent lazy interpreter of the same program",
    "level_note": "Random module programs (fan-out/fan-in, nested blocks, structured outputs, constants) with random target regions (leaves, blocks, spans, groups), batch counts, execution contexts and off-loading settings (emulated devices on which mixed-device operations fail) are optimised by a recording optimiser that changes the weights as a function of what it is given. An interpreter that evaluates the program on demand on a copy says what each call must receive and what the weights must become. Tensors are watched through weak references at each later step. Traced networks are compared with optimising layer by layer by re-running the model; target selection with a direct search.",
    "rule": "distinct (program shape, regions, contexts, batches, off-loading) combinations",
}


class Dev(torch.Tensor):
    """A CPU tensor that claims to be on another device and refuses to meet tensors of a third."""

    @staticmethod
    def __new__(cls, elem, device, requires_grad=False):
        return torch.Tensor._make_wrapper_subclass(cls, elem.shape, strides=elem.stride(), storage_offset=elem.storage_offset(), dtype=elem.dtype, device=device, requires_grad=requires_grad)

    def __init__(self, elem, device, requires_grad=False):
        self.elem = elem

    def __repr__(self, **_):
        return f"Dev({self.elem}, {self.device})"

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        devs = {t.device for t in tree_leaves((args, kwargs)) if isinstance(t, torch.Tensor) and t.dim() > 0}
        target = kwargs.pop("device", None)
        if func is not torch.ops.aten._to_copy.default and len(devs) > 1:
            raise RuntimeError(f"{func}: tensors on different devices {devs}")
        first = next((t for t in tree_leaves((args, kwargs)) if isinstance(t, torch.Tensor)), None)
        dev = torch.device(target) if target is not None else devs.pop() if devs else first.device
        un = lambda t: t.elem if isinstance(t, Dev) else t  # noqa: E731
        out = func(*tree_map_only(torch.Tensor, un, args), **tree_map_only(torch.Tensor, un, kwargs))
        if func._schema.is_mutable:
            return args[0]
        return tree_map_only(torch.Tensor, lambda t: Dev(t, dev), out)


COMPUTE, STORAGE, OTHER = (torch.device(f"lazy:{i}") for i in range(3))


def plain(tree):
    """Copies of all tensors, off any emulated device."""
    return tree_map_only(torch.Tensor, lambda t: (t.elem if isinstance(t, Dev) else t).detach().clone(), tree)


class Shift:
    """An execution context that changes what leaves compute."""

    def __init__(self, value):
        self.value = value
        self.saved = []

    def __enter__(self):
        self.saved.append(G.SHIFT[0])
        G.SHIFT[0] = self.value

    def __exit__(self, *_):
        G.SHIFT[0] = self.saved.pop()


def leaves_of(block):
    return [m for m in block.modules() if isinstance(m, G.Leaf)]


def tensors(tree):
    return [t for t in tree_leaves(tree) if isinstance(t, torch.Tensor)]


def digest(seen):
    """A number that depends on all that a leaf was given: [(args, kwargs) per call]."""
    acc = 0.0
    for i, (a, k) in enumerate(seen):
        for j, t in enumerate(tensors((a, dict(sorted(k.items()))))):
            acc += float((t * (1.0 + 0.1 * j)).sum()) * (1.0 + 0.37 * i)
    return acc


class Optimiser:
    """Records what it is given, runs the region on it, and changes the weights accordingly."""

    def __init__(self, i, leaves, log, hold=False):
        self.i, self.leaves, self.log, self.hold = i, leaves, log, hold

    def __call__(self, module, *bundles):
        entry = {"i": self.i, "module": module, "bundles": [], "inner": []}
        self.log.append(("opt", entry))
        inner = collections.defaultdict(list)
        seen = lambda node, a, k, r: inner[id(node)].append(plain((a, k)))  # noqa: E731
        for bundle in bundles:
            batches = []
            for args, kwargs in bundle:
                batches.append(plain((tuple(args), dict(kwargs))))
                entry.setdefault("devices", set()).update(t.device for t in tensors((args, kwargs)))
                G.HOOKS.append(seen)
                try:
                    module(*args, **kwargs)
                finally:
                    G.HOOKS.remove(seen)
            entry["bundles"].append(batches)
        entry["inner"] = [inner[id(m)] for m in self.leaves]
        entry["weight-devices"] = {p.device for m in self.leaves for p in m.parameters()}
        with torch.no_grad():
            for j, m in enumerate(self.leaves):
                d = digest(inner[id(m)])
                m.weight.mul_(1 + 0.2 * torch.sin(torch.tensor(d + j)).item())
                m.bias.add_(0.1 * torch.cos(torch.tensor(d - j)).item())
        self.log.append(("end", entry))


class Reference:
    """Evaluates the program on demand; a region is optimised when a value of it is first needed."""

    def __init__(self, block, chosen, contexts, inputs, nb):
        # `inputs`: name -> list of values (length 1 or nb)
        self.folds = {}
        self.calls, self.outs = G.flat(block, self.folds)
        self.chosen, self.contexts, self.inputs, self.nb = chosen, contexts, inputs, nb
        self.owner = {k: i for i, (_, _, keys) in enumerate(chosen) for k in keys}
        self.done = {}
        self.memo = {}
        self.order = []
        self.static = {}

    def length(self, ref):
        """The number of batches of a value."""
        if ref[0] == "const":
            return 1
        if ref[0] == "in":
            return len(self.inputs[ref[1]])
        if ref[1] not in self.static:
            c = self.calls[ref[1]]
            self.static[ref[1]] = max([self.length(r) for r in [*c["args"], *c["kwargs"].values()]], default=1)
        return self.static[ref[1]]

    def value(self, ref, ctx, b):
        if ref[0] == "const":
            return ref[1]
        if ref[0] == "in":
            return G.fetch(self.inputs[ref[1]][b if len(self.inputs[ref[1]]) > 1 else 0], ref[2])
        return G.fetch(self.call(ref[1], ctx, b if self.length(ref) > 1 else 0), ref[2])

    def arguments(self, call, ctx, b):
        return tuple(self.value(a, ctx, b) for a in call["args"]), {k: self.value(a, ctx, b) for k, a in call["kwargs"].items()}

    def context(self, ctx):
        return ctx if ctx is not None else contextlib.nullcontext()

    def call(self, key, ctx, b):
        if key in self.owner:
            self.optimise(self.owner[key])
        if (key, ctx, b) not in self.memo:
            args, kwargs = self.arguments(self.calls[key], ctx, b)
            with self.context(ctx):
                self.memo[key, ctx, b] = self.calls[key]["target"](*args, **kwargs)
        return self.memo[key, ctx, b]

    def region_inputs(self, i):
        """References of outside values that the region consumes."""
        keys = self.chosen[i][2]
        return [r for k in sorted(keys) for r in [*self.calls[k]["args"], *self.calls[k]["kwargs"].values()] if not (r[0] == "call" and r[1] in keys)]

    def region_call(self, i):
        kind, region, keys = self.chosen[i]
        if kind == "leaf":
            return self.calls[min(keys)]
        if kind == "fold":
            prefix = next(f for f in self.folds if self.folds[f]["target"] is region)
            return self.folds[prefix]
        return None

    def batches(self, i):
        call = self.region_call(i)
        refs = [*call["args"], *call["kwargs"].values()] if call is not None else [r for r in self.region_inputs(i) if r[0] != "const"]
        return max([self.length(r) for r in refs], default=0)

    def optimise(self, i):
        """Compute what the optimiser of region `i` must be given, and optimise."""
        if i in self.done:
            return
        self.done[i] = None
        kind, region, keys = self.chosen[i]
        call = self.region_call(i)
        nb = self.batches(i)
        bundles, inner = [], collections.defaultdict(list)
        for ctx in self.contexts[i]:
            given = [self.arguments(call, ctx, b) if call is not None else None for b in range(nb)]
            bundles.append(plain(given))
            for b in range(nb):
                local = {}
                for k in sorted(self.live(i)):
                    args, kwargs = self.inner_arguments(k, keys, ctx, b, local)
                    inner[id(self.calls[k]["target"])].append((args, kwargs))
                    local[k] = self.calls[k]["target"](*args, **kwargs)
        leaves = [self.calls[k]["target"] for k in sorted(keys) if isinstance(self.calls[k]["target"], G.Leaf)]
        with torch.no_grad():
            for j, m in enumerate(leaves):
                d = digest(inner[id(m)])
                m.weight.mul_(1 + 0.2 * torch.sin(torch.tensor(d + j)).item())
                m.bias.add_(0.1 * torch.cos(torch.tensor(d - j)).item())
        self.done[i] = {"bundles": bundles, "inner": [plain(inner[id(m)]) for m in leaves], "nb": nb}
        self.order.append(i)

    def live(self, i):
        """The calls of a region that run when it is called: an extracted region runs what its outputs need."""
        kind, region, keys = self.chosen[i]
        if kind in ("leaf", "fold"):
            return keys
        outside = {d for k in self.calls if k not in keys for d in G.deps(self.calls[k])} | {o[1] for o in self.outs if o[0] == "call"}
        return G.closure({k: {"args": [a for a in self.calls[k]["args"] if a[0] != "call" or a[1] in keys], "kwargs": {n: a for n, a in self.calls[k]["kwargs"].items() if a[0] != "call" or a[1] in keys}} for k in keys}, outside & keys)

    def inner_arguments(self, k, keys, ctx, b, local):
        def val(r):
            if r[0] == "call" and r[1] in keys:
                return G.fetch(local[r[1]], r[2])
            return self.value(r, ctx, b)

        c = self.calls[k]
        return tuple(val(a) for a in c["args"]), {n: val(a) for n, a in c["kwargs"].items()}


class Picked(registry.Selector):
    def __init__(self, regions):
        self.regions = regions

    def resolve(self, model):
        return list(self.regions)


def close(a, b):
    return G.same(a, b, 1e-9)


def setup(ctx, rng, kinds, depth, offload=False, structured=True):
    b = G.generate(rng, depth, share=False, structured=structured)
    g, calls, folds = G.build(b, gm)
    cs, outs = G.flat(b)
    if unused_inputs(b):
        kinds = [k for k in kinds if k in ("leaf", "fold")]
    chosen = [c for c in random_regions(rng, g, cs, folds, kinds) if any(isinstance(cs[k]["target"], G.Leaf) for k in c[2])]
    return b, g, cs, outs, chosen


def refused(ctx, b, g, cs, folds, chosen):
    """Are the regions refused as they must be?"""
    specs = [gm.SubgraphSpec(region=r, fn=lambda *_: None, flows=()) for _, r, _ in chosen]
    if region_cycle(cs, folds, chosen):
        ctx.raises(ValueError, lambda: gm.reduce_resolution(g, specs), "mutual-accepted", "regions that depend on each other cannot both be optimised as a whole")
        return True
    try:
        gm.reduce_resolution(g, specs)
    except ValueError as e:
        ctx.check("depend on each other" in str(e) and unused_inputs(b), "regions-refused", f"{e!r}")
        return True
    return False


def twin(b, chosen, cs):
    """A copy of the program with the same regions."""
    b2 = copy.deepcopy(b)
    cs2, _ = G.flat(b2)
    pos = {id(m): n for n, m in b.named_modules()}
    mods = dict(b2.named_modules())
    res = []
    for kind, region, keys in chosen:
        if kind in ("leaf", "fold"):
            region = mods[pos[id(region)]]
        res.append((kind, region, keys))
    return b2, res


def columns(b, nb, single):
    xs = fresh_inputs(b, nb)
    return {n: v[:1] if n in single else v for n, v in xs.items()}


@section(quick=900, thorough=26000, requires=("leaf", "fold", "span", "group", "batches", "one batch", "broadcast", "contexts", "two targets", "grad", "no inputs", "program with outputs"))
def sequential(ctx):
    """The optimiser is called once per target with what the partially optimised model produces there."""
    rng = ctx.rng
    b, g, cs, outs, chosen = setup(ctx, rng, ["leaf", "leaf", "leaf", "fold", "span", "group"], rng.choice([0, 0, 1, 2]))
    folds = {k for k in {c[:i] for c in cs for i in range(1, len(c))}}
    ctx.note(program=repr(shape_of(b))[:600], regions=[(k, sorted(keys)) for k, _, keys in chosen])
    if not chosen or refused(ctx, b, g, cs, folds, chosen):
        return
    public = rng.random() < 0.5
    pool = [Shift(v) for v in (0.2, -0.4, 1.0)]
    contexts = [[None] if public or rng.random() < 0.4 else rng.sample([None, *pool], rng.randint(1, 3)) for _ in chosen]
    nb = rng.choice([1, 1, 2, 3])
    single = {n for n in b.inputs if rng.random() < 0.25} if nb > 1 and len(b.inputs) > 1 else set()
    xs = columns(b, nb, single)
    if nb > 1 and (folds or any(k in ("span", "group") for k, _, _ in chosen)):
        # A part that is executed as a whole may have several batches of a value that is the same in all.
        probe = Reference(b, chosen, contexts, xs, nb)
        if any(probe.length(("call", k, ())) == 1 for k in cs):
            nb, single = 1, set()
            xs = columns(b, nb, single)
    b2, chosen2 = twin(b, chosen, cs)
    ref = Reference(b2, chosen2, contexts, xs, nb)
    log = []
    hook = lambda node, a, k, r: log.append(("call", (node, plain((a, k)), G.SHIFT[0])))  # noqa: E731
    opts = [Optimiser(i, [cs[k]["target"] for k in sorted(keys) if isinstance(cs[k]["target"], G.Leaf)], log) for i, (_, _, keys) in enumerate(chosen)]
    grad = rng.random() < 0.3
    order = list(range(len(chosen)))
    rng.shuffle(order)
    whole = not public and rng.random() < 0.3
    result = None
    G.HOOKS.append(hook)
    try:
        with torch.set_grad_enabled(grad):
            if public:
                specs = [orch.AlgorithmSpec(fn=opts[i], selector=Picked([chosen[i][1]]), flows=()) for i in order]
                # Batches are given as a list of named inputs, or as one batch.
                if nb == 1 and len(b.inputs) == 1 and rng.random() < 0.5:
                    arg = next(iter(xs.values()))[0]
                elif not single:
                    arg = [{n: v[i] for n, v in xs.items()} for i in range(nb)]
                else:
                    arg = [{n: v[i if len(v) > 1 else 0] for n, v in xs.items()} for i in range(nb)]
                    ref.inputs = {n: v if len(v) > 1 else v * nb for n, v in xs.items()}
                orch.layerwise_optimize(b, arg, specs if len(specs) > 1 or rng.random() < 0.5 else specs[0], graph=g)
            else:
                cms = lambda cx: [gm.DEFAULT_CONTEXT if c is None else c for c in cx]  # noqa: E731
                specs = [gm.SubgraphSpec(region=chosen[i][1], fn=opts[i], flows=(), contexts=None if contexts[i] == [None] and rng.random() < 0.5 else cms(contexts[i])) for i in order]
                reduced, _ = gm.reduce_resolution(g, specs)
                program = orch.InstructionScheduler().schedule(reduced)
                passes = [ie.lifetime_management_pass] if rng.random() < 0.6 else []
                if not whole:
                    passes.insert(0, ie.optimization_only_pass)
                else:
                    ctx.event("program with outputs")
                with orch._ExecutionContext(reduced, program, passes=passes):
                    lengths = {ref.length(o) for o in outs}
                    if nb > 1 and (folds or len(lengths) > 1):
                        # Outputs that depend on no batch may have another number of batches.
                        with contextlib.suppress(ValueError):
                            result = reduced(**xs)
                    else:
                        result = reduced(**xs)
    finally:
        G.HOOKS.remove(hook)
    ctx.event("grad", grad)
    ctx.event("broadcast", bool(single) and not public)
    ctx.event("contexts", any(len(c) > 1 for c in contexts))
    ctx.event("batches", nb > 1)
    ctx.event("one batch", nb == 1)
    ctx.event("two targets", len(chosen) > 1)
    with torch.no_grad():
        for i in range(len(chosen)):
            ref.optimise(i)
    seen = [e["i"] for t, e in log if t == "opt"]
    ctx.equal(sorted(seen), list(range(len(chosen))), "calls-of-the-optimiser")
    # In dependency order.
    up = [G.closure(cs, set(keys)) for _, _, keys in chosen]
    pos = {i: p for p, i in enumerate(seen)}
    for i, (_, _, ki) in enumerate(chosen):
        for j, (_, _, kj) in enumerate(chosen):
            if i != j and ki & (up[j] - kj):
                ctx.check(pos[i] < pos[j], "order", f"{chosen[j]} was optimised before {chosen[i]}")
    for t, e in log:
        if t != "opt":
            continue
        i = e["i"]
        kind, region, keys = chosen[i]
        want = ref.done[i]
        ctx.event(kind)
        ctx.event("no inputs", want["nb"] == 0)
        if kind in ("leaf", "fold"):
            ctx.check(e["module"] is region, "target", f"the optimiser got {type(e['module'])}")
        ctx.equal(len(e["bundles"]), len(contexts[i]), "bundles")
        for got, exp in zip(e["bundles"], want["bundles"]):
            ctx.equal(len(got), want["nb"], "batches", f"{kind}")
            if kind in ("leaf", "fold"):
                ctx.check(close([list(x) for x in got], [list(x) for x in exp]), "bundle", f"{kind} region got {got} for {exp}")
        ctx.check(len(e["inner"]) == len(want["inner"]) and all(close([list(x) for x in a], [list(x) for x in w]) for a, w in zip(e["inner"], want["inner"])), "inner", f"{kind}: leaves of the region see {e['inner']} for {want['inner']}")
    # Everything that was run outside the optimiser was run on values of the sequential model, once.
    inside = 0
    count = collections.Counter()
    for t, e in log:
        if t == "opt":
            inside += 1
        elif t == "end":
            inside -= 1
        elif not inside:
            count[id(e[0]), e[2]] += 1
    used = {id(cs[k]["target"]): k for k in cs}
    for (node, shift), n in count.items():
        key = used[node]
        ctx.check(n <= max(len(v) for v in ref.inputs.values()), "repeated", f"{cs[key]['target']} ran {n} times in one context")
    # Final weights.
    for (n, p), (n2, q) in zip(b.named_parameters(), b2.named_parameters()):
        ctx.check(torch.allclose(p, q, rtol=1e-9, atol=1e-9), "weights", f"{n}: {p} for {q}")
    if result is not None:
        got = result[gm.DEFAULT_CONTEXT] if isinstance(result, dict) and gm.DEFAULT_CONTEXT in result else [result]
        n = min(len(got), max(ref.length(o) for o in outs))
        with torch.no_grad():
            for i in range(n):
                want = tuple(ref.value(o, None, i) for o in outs)
                ctx.check(close(got[i], want[0] if len(outs) == 1 else want), "result", f"batch {i}: {got[i]} for {want}")
    ctx.state("seq", shape_of(b), tuple((k, tuple(sorted(keys))) for k, _, keys in chosen), nb, public)


@section(quick=900, thorough=26000, requires=("released", "fan-out", "part", "contexts", "batches"))
def lifetime(ctx):
    """A value is gone when the last step that uses it is over."""
    rng = ctx.rng
    b, g, cs, outs, chosen = setup(ctx, rng, ["leaf"], 0)
    if not chosen or refused(ctx, b, g, cs, set(), chosen):
        return
    pool = [Shift(v) for v in (0.2, -0.4)]
    contexts = [rng.sample([gm.DEFAULT_CONTEXT, *pool], rng.choice([1, 1, 2])) for _ in chosen]
    nb = rng.choice([1, 2, 3])
    key_of = {id(cs[k]["target"]): k for k in cs}
    alive = {}  # key -> weak references
    events = []  # (step, alive keys)
    current = []

    def observe(step):
        live = {k for k, refs in alive.items() if any(r() is not None for r in refs)}
        events.append((step, live))

    def pre(node, args, kwargs, res):
        if current:  # inside the optimiser
            return
        k = key_of[id(node)]
        observe(("call", k))
        alive.setdefault(k, []).extend(weakref.ref(t) for t in tensors(res))

    def make(i):
        k = next(iter(chosen[i][2]))

        def alg(module, *bundles):
            current.append(k)
            observe(("opt", k))
            n = sum(1 for bundle in bundles for _ in bundle)
            current.pop()
            return None if n >= 0 else n

        return alg

    specs = [gm.SubgraphSpec(region=chosen[i][1], fn=make(i), flows=(), contexts=contexts[i]) for i in range(len(chosen))]
    reduced, _ = gm.reduce_resolution(g, specs)
    public = all(c == [gm.DEFAULT_CONTEXT] for c in contexts)
    G.HOOKS.append(pre)
    G.LOG.clear()
    try:
        with torch.no_grad():
            if public:
                xs = fresh_inputs(b, nb)
                orch.layerwise_optimize(b, [{n: v[i] for n, v in xs.items()} for i in range(nb)], [orch.AlgorithmSpec(fn=s.fn, selector=Picked([s.region]), flows=()) for s in specs], graph=g)
            else:
                program = orch.InstructionScheduler().schedule(reduced)
                with orch._ExecutionContext(reduced, program, passes=[ie.optimization_only_pass, ie.lifetime_management_pass]):
                    reduced(**fresh_inputs(b, nb))
    finally:
        G.HOOKS.remove(pre)
        G.LOG.clear()
    observe(("end", None))
    steps = [s for s, _ in events]
    last = {}
    for p, (kind, k) in enumerate(steps):
        if kind == "end":
            continue
        last[k] = max(last.get(k, 0), p) if kind == "call" else last.get(k, 0)
        for d in G.deps(cs[k]):
            last[d] = p
    for p, (step, live) in enumerate(events):
        for k in live:
            # Its own calls (several batches) and those of its users may still see it.
            ctx.check(p <= last[k], "retained", f"the output of {cs[k]['target'].style} node {k} exists at step {p} ({step}) though its last use was at {last[k]}: {steps}")
    ctx.check(not events[-1][1], "leak", f"activations of {events[-1][1]} exist after the run")
    users = collections.Counter(d for k in cs for d in G.deps(cs[k]))
    ctx.event("released", len(alive) > 1)
    ctx.event("fan-out", any(users[k] > 1 for k in alive))
    ctx.event("part", any(r[0] == "call" and r[2] for k in alive for r in cs[k]["args"]))
    ctx.event("contexts", not public)
    ctx.event("batches", nb > 1)
    ctx.state("life", shape_of(b), tuple(sorted(next(iter(c[2])) for c in chosen)), nb, public)


def place(b, rng, devices):
    """Put each parameter on a device of its own."""
    home = {}
    for m in leaves_of(b):
        for n, p in list(m.named_parameters(recurse=False)):
            d = rng.choice(devices)
            setattr(m, n, torch.nn.Parameter(Dev(p.detach().clone(), d)))
    for m in b.modules():
        for n, p in m.named_parameters(recurse=False):
            home[m, n] = p.device
    return home


@section(quick=900, thorough=20000, requires=("offloaded", "restored", "function", "tied", "span", "fold", "one node", "buffers", "outputs"))
def offloading(ctx):
    """Off-loading moves placement only: each call finds its weights and inputs on the compute device."""
    rng = ctx.rng
    b, g, cs, outs, chosen = setup(ctx, rng, ["leaf", "leaf", "fold", "span", "group"], rng.choice([0, 0, 1, 2]))
    folds = {k for k in {c[:i] for c in cs for i in range(1, len(c))}}
    whole = rng.random() < 0.4
    if (not chosen and not whole) or refused(ctx, b, g, cs, folds, chosen):
        return
    ctx.note(program=repr(shape_of(b))[:600], regions=[(k, sorted(keys)) for k, _, keys in chosen])
    leaves = leaves_of(b)
    targets = {id(cs[k]["target"]) for _, _, keys in chosen for k in keys}
    b2 = copy.deepcopy(b)
    twins = dict(zip(leaves, leaves_of(b2)))
    devices = rng.choice([[COMPUTE], [STORAGE], [COMPUTE, STORAGE, OTHER], [OTHER]])
    home = place(b, rng, devices)
    # Weights that are tied or are joined by a buffer.
    free = [m for m in leaves if id(m) not in targets]
    if len(free) > 1 and rng.random() < 0.5:
        ctx.event("tied")
        u, v = rng.sample(free, 2)
        v.weight = u.weight
        twins[v].weight = twins[u].weight
        home[v, "weight"] = home[u, "weight"]
    for m in leaves:
        if rng.random() < 0.2:
            ctx.event("buffers")
            m.register_buffer("extra", Dev(torch.ones(2), rng.choice(devices)))
            home[m, "extra"] = m.extra.device
    g, calls, folds_ = G.build(b, gm)
    g2, _, _ = G.build(b2, gm)
    pos = {id(m): n for n, m in b.named_modules()}
    mods = dict(b2.named_modules())
    map2 = lambda r: gm.Span(*(mods[pos[id(m)]] for m in (r.start, r.end))) if isinstance(r, gm.Span) else gm.Group(tuple(mods[pos[id(m)]] for m in r.modules)) if isinstance(r, gm.Group) else mods[pos[id(r)]]  # noqa: E731
    nb = 1 if whole else rng.choice([1, 2])
    xs = fresh_inputs(b, nb)
    d_in = rng.choice([COMPUTE, STORAGE, OTHER])
    wrong = []

    def check_devices(node, args, kwargs, res):
        if isinstance(node, torch.nn.Module):
            devs = {t.device for t in [*tensors((args, kwargs)), *node.parameters(), *node.buffers()]}
            if devs - {COMPUTE}:
                wrong.append((node, devs))
        else:
            ctx.event("function")

    def execute(model, graph, regions, inputs, off):
        log = []
        lv = leaves_of(model)
        at = dict(zip(leaves, lv))
        opts = [Optimiser(i, [at[cs[k]["target"]] for k in sorted(keys) if isinstance(cs[k]["target"], G.Leaf)], log) for i, (_, _, keys) in enumerate(chosen)]
        specs = [gm.SubgraphSpec(region=r, fn=o, flows=()) for r, o in zip(regions, opts)]
        strategy = ie.OffloadEverything(COMPUTE, STORAGE) if off else None
        with torch.no_grad():
            if whole:
                reduced, _ = gm.reduce_resolution(graph, specs)
                program = orch.InstructionScheduler().schedule(reduced)
                passes = [ie.lifetime_management_pass] if life else []
                with orch._ExecutionContext(reduced, program, passes=passes, offloading=strategy):
                    return log, reduced(**inputs)
            batches = [{n: v[i] for n, v in inputs.items()} for i in range(nb)]
            algs = [orch.AlgorithmSpec(fn=o, selector=Picked([r]), flows=()) for r, o in zip(regions, opts)]
            return log, orch.layerwise_optimize(model, batches, algs, graph=graph, offloading=strategy)

    life = rng.random() < 0.7
    want_log, want = execute(b2, g2, [map2(r) for _, r, _ in chosen], xs, False)
    moved = {n: [Dev(t.clone(), d_in) for t in v] for n, v in xs.items()}
    G.HOOKS.append(check_devices)
    # A node without inputs may produce its value anywhere; modules care for what they make themselves.
    G.FRESH[0] = lambda t: Dev(t, COMPUTE if folds else OTHER)
    try:
        log, got = execute(b, g, [r for _, r, _ in chosen], moved, True)
    finally:
        G.HOOKS.remove(check_devices)
        G.FRESH[0] = lambda t: t
        G.LOG.clear()
    ctx.check(not wrong, "placement", f"called with weights or inputs on {wrong[:2]} instead of {COMPUTE}")
    ctx.event("offloaded")
    ctx.event("outputs", whole)
    for kind, _, _ in chosen:
        ctx.event(kind)
    got_o = [e for t, e in log if t == "end"]
    want_o = [e for t, e in want_log if t == "end"]
    ctx.equal([e["i"] for e in got_o], [e["i"] for e in want_o], "optimised")
    for e, w in zip(got_o, want_o):
        ctx.check(close(pytree.tree_leaves(e["bundles"]), pytree.tree_leaves(w["bundles"])), "bundle-value", f"{e['bundles']} for {w['bundles']}")
        devs = e["weight-devices"] | e.get("devices", set())
        ctx.check(not devs - {COMPUTE}, "optimiser-placement", f"the optimiser finds weights or activations on {devs}")
    if whole:
        ctx.check(close(plain(pytree.tree_leaves(got)), plain(pytree.tree_leaves(want))), "result-value", f"{got} for {want}")
        fa, fb = pytree.tree_flatten(got)[1], pytree.tree_flatten(want)[1]
        ctx.check(fa == fb, "result-structure", f"{fa} for {fb}")
    for (m, n), d in home.items():
        t = dict(m.named_parameters(recurse=False)) | dict(m.named_buffers(recurse=False))
        ctx.check(t[n].device == d, "restored", f"{n} is on {t[n].device} after the run, it was on {d}")
    ctx.event("restored", len(devices) > 1)
    for m, m2 in twins.items():
        for (n, p), (_, q) in zip(m.named_parameters(), m2.named_parameters()):
            ctx.check(torch.allclose(plain(p), plain(q), rtol=1e-12, atol=1e-12), "weights-value", f"{n}: {plain(p)} for {q}")
    ctx.event("one node", len(gm.reduce_resolution(g, [gm.SubgraphSpec(region=r, fn=print, flows=()) for _, r, _ in chosen])[0].topo_order) == 1)
    ctx.state("off", shape_of(b), tuple((k, tuple(sorted(keys))) for k, _, keys in chosen), nb, tuple(devices), d_in, whole)


# --- Target selection --------------------------------------------------------------------------


class Sub(torch.nn.Linear):
    pass


def tree(rng, depth, names=("a", "b", "c", "d")):
    kids = collections.OrderedDict()
    for n in rng.sample(names, rng.randint(1, 3)):
        k = rng.random()
        if depth and k < 0.45:
            kids[n] = tree(rng, depth - 1)
        else:
            kids[n] = rng.choice([lambda: torch.nn.Linear(2, 2), lambda: Sub(2, 2), torch.nn.ReLU, lambda: torch.nn.LayerNorm(2)])()
    return torch.nn.Sequential(kids)


@section(quick=500, thorough=12000, requires=("type", "instance", "query", "sequence", "override", "none", "partial", "unregistered", "duplicate"))
def selection(ctx):
    """An algorithm targets exactly the modules that its registration (or override) describes."""
    rng = ctx.rng
    model = tree(rng, rng.randint(0, 3))
    mods = list(model.modules())
    named = dict(model.named_modules())

    def one():
        kind = rng.choice(["type", "instance", "query"])
        ctx.event(kind)
        if kind == "type":
            t = rng.choice([torch.nn.Linear, Sub, torch.nn.ReLU, torch.nn.LayerNorm, torch.nn.Conv2d, torch.nn.Sequential])
            return t, [m for m in mods if isinstance(m, t)]
        if kind == "instance":
            m = rng.choice(mods)
            return m, [m]
        n = rng.choice(["a", "b", "c"])
        if rng.random() < 0.5:
            return ff.mpath.query(f"**/{n}"), [m for name, m in named.items() if name.split(".")[-1] == n and name]
        return ff.mpath.query(f"{n}"), [m for name, m in named.items() if name == n]

    def target():
        if rng.random() < 0.5:
            return one()
        ctx.event("sequence")
        parts = [one() for _ in range(rng.randint(1, 3))]
        ids, res = set(), []
        for _, p in parts:
            for m in p:
                if id(m) not in ids:
                    ids.add(id(m))
                    res.append(m)
        ctx.event("duplicate", sum(len(p) for _, p in parts) > len(res))
        return rng.choice([list, tuple, iter])([t for t, _ in parts]), res

    def alg(module, bundle, k=0):
        raise AssertionError

    def other(module, bundle):
        raise AssertionError

    spec, want = target()
    saved = contextlib.ExitStack()
    saved.enter_context(peek.restored(registry, *peek.registries(registry)))
    try:
        wrapped = functools.partial(alg, k=3)
        given = rng.choice([alg, wrapped])
        flows = [data_flow.InputActivations("original")]
        orch.register(alg, spec, flows)

        def check(algorithm, exp, key, f):
            ids = lambda ms: sorted(id(m) for m in ms)  # noqa: E731
            if not exp:
                ctx.event("none")
                ctx.raises(registry.NoTargetsFound, lambda: orch.resolve(model, algorithm=algorithm), key + "-none", "nothing is targeted but it was not reported")
                return
            got = orch.resolve(model, algorithm=algorithm)
            ctx.check(ids(s.region for s in got) == ids(exp), key, f"targets {[type(s.region).__name__ for s in got]} for {[type(m).__name__ for m in exp]}")
            ctx.check(all(s.fn is f and list(s.flows) == flows for s in got), key + "-fn", f"{[s.fn for s in got]} for {f}")

        check(given, want, "registered", given)
        ctx.event("partial", given is wrapped)
        spec2, want2 = target()
        ctx.event("override")
        try:
            with registry.override(given, spec2):
                check(given, want2, "overridden", given)
                if rng.random() < 0.3:
                    with registry.override(given, None):
                        check(given, want2, "override-none", given)
                if rng.random() < 0.3:
                    raise ZeroDivisionError
        except ZeroDivisionError:
            pass
        if not (isinstance(spec, type(iter([])))):
            check(given, want, "restored", given)
        ctx.event("unregistered")
        ctx.raises(registry.NoTargetsFound, lambda: orch.resolve(model, algorithm=other), "unregistered", "an algorithm without targets was resolved")

        def over():
            with registry.override(other, spec2):
                pass

        ctx.raises(ValueError, over, "unregistered-override", "an unregistered algorithm was retargeted")
        ctx.raises(TypeError, lambda: orch.layerwise_optimize(model, [torch.ones(1, 2)], orch.AlgorithmSpec(fn=alg, selector=Picked([model]), flows=()), targets=torch.nn.Linear, graph=gm.GraphModule()), "spec-and-targets", "explicit specs were combined with targets")
        stranger = torch.nn.Linear(2, 2)
        orch.register(alg, [stranger] if rng.random() < 0.5 else stranger, flows)
        ctx.raises(ValueError, lambda: orch.resolve(model, algorithm=alg), "stranger", "a module that is not part of the model was targeted")
    finally:
        saved.close()
    ctx.state("select", tuple(named), type(spec).__name__, len(want))


@section(quick=300, thorough=8000, requires=("inputs", "outputs", "no work"))
def flows(ctx):
    """A bound data flow lists the nodes that must have run, in order, and where to read the data."""
    rng = ctx.rng
    b = G.generate(rng, rng.randint(0, 2), share=False)
    g, calls, _ = G.build(b, gm)
    cs, _ = G.flat(b)
    names = {}
    for m, k in ((cs[k]["target"], k) for k in cs):
        names[id(m)] = k
    nodes = {id(g.node(r).target): r for r in g.topo_order}
    for _ in range(3):
        k = rng.choice(list(cs))
        ref = nodes[id(cs[k]["target"])]
        kinds = [rng.choice([data_flow.InputActivations, data_flow.OutputActivations])(rng.choice(["original", "quantized", "any"]), rng.random() < 0.5) for _ in range(rng.randint(1, 3))]
        plans = scheduler.bind_flows(g, ref, kinds)
        ctx.equal(len(plans), len(kinds), "plans")
        for plan, flow in zip(plans, kinds):
            outputs = isinstance(flow, data_flow.OutputActivations)
            ctx.event("outputs" if outputs else "inputs")
            got = [names[id(g.node(r).target)] for r in plan.nodes if id(g.node(r).target) in names]
            want = G.closure(cs, {k}) - (set() if outputs else {k})
            ctx.event("no work", not want)
            ctx.check(len(got) == len(set(got)) and set(got) == want, "plan-nodes", f"{got} for {want}")
            ctx.check(all(got.index(d) < i for i, n in enumerate(got) for d in G.deps(cs[n])), "plan-order", f"{got}")
            node = g.node(ref)
            ctx.check(list(plan.reads) == ([ref] if outputs else list(node.args)), "plan-reads", f"{plan.reads}")
            ctx.check(dict(plan.read_kwargs) == ({} if outputs else dict(node.kwargs)), "plan-kwargs", f"{plan.read_kwargs}")
            ctx.check(plan.generator is flow.generator and plan.cache == flow.cache, "plan-flow", f"{plan}")
    ctx.state("flow", shape_of(b))


@section(quick=200, thorough=4000, requires=("by key", "by generator", "by context manager", "unknown", "original", "plain"))
def generators(ctx):
    """A data flow resolves its generator by key, by object or from a context manager; the built-in ones set the model's state."""
    rng = ctx.rng
    Flow = rng.choice([data_flow.InputActivations, data_flow.OutputActivations])
    saved = contextlib.ExitStack()
    saved.enter_context(peek.restored(data_flow))
    try:
        entered = []
        known = {"original": data_flow.ORIGINAL, "quantized": data_flow.QUANTIZED, "any": data_flow.ANY}
        for i in range(rng.randint(1, 6)):
            how = rng.choice(["key", "key", "generator", "register", "cm", "unknown"])
            cache = rng.random() < 0.5
            if how == "key":
                k = rng.choice(list(known))
                flow = Flow(k, cache)
                ctx.event("by key")
                ctx.check(flow.generator is known[k], "by-key", k)
            elif how in ("generator", "register"):
                k = rng.choice(["original", "mine", "other"])
                g = data_flow.FlowGenerator(k, lambda m, i=i: contextlib.nullcontext(i), rng.randint(-3, 20))
                if how == "register":
                    ctx.check(data_flow.register_generator(g) is g, "register-returns", "")
                    known[k] = g
                flow = Flow(g, cache)
                ctx.event("by generator")
                ctx.check(flow.generator is g, "by-generator", k)
            elif how == "cm":
                class Manager:
                    def __enter__(self):
                        entered.append((id(self), "in"))

                    def __exit__(self, *exc):
                        entered.append((id(self), "out"))

                Manager.__qualname__ = f"Manager{i}"
                cm = Manager()
                flow = Flow(cm, cache)
                ctx.event("by context manager")
                entered.clear()
                with flow.generator.context(torch.nn.Identity()):
                    ctx.equal(entered, [(id(cm), "in")], "context-entered", "")
                ctx.equal(entered, [(id(cm), "in"), (id(cm), "out")], "context-left", "")
                ctx.check(Flow(Manager(), cache).generator is flow.generator, "context-manager-again", "the same kind of context manager has two generators")
                known[flow.generator.key] = flow.generator
            else:
                ctx.event("unknown")
                ctx.raises(KeyError, lambda: Flow("nowhere", cache), "unknown-generator", "")
                continue
            ctx.check(flow.cache is cache, "cache", "")
        ctx.check(data_flow.ORIGINAL.order < data_flow.QUANTIZED.order < data_flow.ANY.order, "generator-order", "")
        net = Net(rng, True)
        qs = []
        for m in net.modules():
            if isinstance(m, ff.nn.QuantizedLinear):
                for slot in ("input_quantizer", "weight_quantizer", "output_quantizer"):
                    if rng.random() < 0.6:
                        q = ff.nn.LinearQuantizer(rng.randint(2, 6))
                        q.quantization_range = (-1.0, 1.0)
                        setattr(m, slot, q)
                        qs.append(q)
        x = torch.randn(3)
        outside = [isinstance(q(x), ff.QuantizedTensor) for q in qs]
        for g in (data_flow.ORIGINAL, data_flow.QUANTIZED, data_flow.ANY):
            plain = g is data_flow.ORIGINAL
            ctx.event("original" if plain else "plain")
            with g.context(net):
                ctx.equal([isinstance(q(x), ff.QuantizedTensor) for q in qs], [not plain for q in qs], "generator-context", g.key)
            ctx.equal([isinstance(q(x), ff.QuantizedTensor) for q in qs], outside, "generator-restores", g.key)
    finally:
        saved.close()
    ctx.state("generators", len(qs), tuple(sorted(k for k in known)))


# --- Traced networks ---------------------------------------------------------------------------

D = 4


class Net(torch.nn.Module):
    """A residual network with a shared layer."""

    def __init__(self, rng, quantized):
        super().__init__()
        lin = (lambda: ff.nn.QuantizedLinear(D, D)) if quantized else lambda: torch.nn.Linear(D, D)
        n = rng.randint(2, 4)
        self.layers = torch.nn.ModuleList([lin() for _ in range(n)])
        self.wires = [(rng.randrange(i + 1), rng.randrange(i + 1), rng.choice(["relu", "add", "mul", "cat"])) for i in range(n)]
        self.order = list(range(n))
        if rng.random() < 0.4:
            # The second call depends on the first.
            self.order.append(n - 1)
            self.wires.append((n, rng.randrange(n + 1), "add"))
        self.bias = torch.nn.Parameter(torch.randn(D))

    def forward(self, x):
        vals = [x]
        for i, (u, v, op) in zip(self.order, self.wires):
            a, c = vals[u], vals[v]
            h = {"relu": lambda: torch.relu(a) - c, "add": lambda: a + c * self.bias, "mul": lambda: torch.tanh(a) * c, "cat": lambda: torch.cat([a, c], -1)[..., 2 : 2 + D]}[op]()
            vals.append(self.layers[i](h))
        return vals[-1] + vals[-2]


def simple(module, bundle, rate=0.1):
    with torch.no_grad():
        for j, (args, kwargs) in enumerate(bundle):
            y = module(*args, **kwargs)
            module.weight.sub_(rate / (j + 1) * (y.reshape(-1, D).T @ args[0].reshape(-1, D)) / 10)


def first_inputs(model, target, batches, skip):
    res = []
    for x in batches:
        seen = []
        h = target.register_forward_pre_hook(lambda m, a, k: seen.append((a, k)), with_kwargs=True)
        try:
            with torch.no_grad():
                model(x)
        finally:
            h.remove()
        res.append(seen[skip])
    return res


@section(quick=110, thorough=2400, requires=("gptq", "simple", "shared", "batches", "targets", "partial", "offloaded"))
def traced(ctx):
    """Layer-wise optimisation of a network equals optimising its layers one after another."""
    rng = ctx.rng
    gptq = rng.random() < 0.5
    net = Net(rng, gptq)
    if gptq:
        for m in net.layers:
            m.weight_quantizer = ff.nn.LinearQuantizer(num_bits=rng.choice([3, 4]), granularity=rng.choice([ff.PerTensor(), ff.PerChannel(0)]))
            lo, hi = (m.weight.detach().amin(1), m.weight.detach().amax(1)) if m.weight_quantizer.granularity != ff.PerTensor() else (m.weight.detach().min(), m.weight.detach().max())
            m.weight_quantizer.quantization_range = (lo, hi)
    nb = rng.choice([1, 2, 3])
    batches = [torch.randn(3, D) for _ in range(nb)]
    twin_ = copy.deepcopy(net)
    # Layers whose value the output depends on are the ones that are captured.
    need = {len(net.order), len(net.order) - 1}
    for p in range(len(net.order), 0, -1):
        if p in need:
            need |= set(net.wires[p - 1][:2])
    reach = [net.order[p - 1] for p in sorted(need) if p > 0]
    ctx.event("shared", len(reach) != len(set(reach)))
    algorithm = functools.partial(ff.quantization.gptq, block_size=2) if gptq else simple
    saved = contextlib.ExitStack()
    saved.enter_context(peek.restored(registry, *peek.registries(registry)))
    kw = {}
    chosen = list(dict.fromkeys(reach))
    try:
        ctx.event("gptq" if gptq else "simple")
        mode = rng.choice(["registered", "targets", "spec"])
        if not gptq:
            if rng.random() < 0.5:
                algorithm = functools.partial(simple, rate=0.4)
                ctx.event("partial")
            if mode != "spec":
                orch.register(simple, torch.nn.Linear, [data_flow.InputActivations("original")])
        if mode in ("targets", "spec"):
            chosen = sorted(rng.sample(chosen, rng.randint(1, len(chosen))), key=chosen.index)
            kw["targets"] = [net.layers[i] for i in chosen]
            ctx.event("targets")
        what = algorithm
        if mode == "spec":
            what = orch.AlgorithmSpec(fn=algorithm, selector=registry.normalize(kw.pop("targets")), flows=())
        if rng.random() < 0.3:
            # All on the CPU: nothing to move, but all instructions are executed.
            kw["offloading"] = ie.OffloadEverything(torch.device("cpu"), torch.device("cpu"))
            ctx.event("offloaded")
        if mode == "registered" and set(chosen) != set(range(len(net.layers))):
            # A registered type also selects layers that are not part of the computation.
            ctx.raises(ValueError, lambda: run(net, batches, what, kw, gptq), "dead-target", "a layer that is not executed was accepted as target")
            return
        run(net, batches, what, kw, gptq)
    finally:
        saved.close()
    done = set()
    for i in [j for j in reach]:
        if i in done or i not in chosen:
            continue
        done.add(i)
        target = twin_.layers[i]
        with ff.strict_quantization(False), torch.no_grad():
            # Only calls that contribute to the output are captured.
            first = min(p for p in need if p > 0 and net.order[p - 1] == i)
            given = first_inputs(twin_, target, batches, net.order[: first - 1].count(i))
            algorithm(target, list(given))
    ctx.note(wires=str(net.wires), order=net.order, mode=mode, chosen=chosen, nb=nb)
    for i, (m, t) in enumerate(zip(net.layers, twin_.layers)):
        for (n, p), (_, q) in zip(m.named_parameters(), t.named_parameters()):
            ok = p.shape == q.shape and torch.allclose(p, q, rtol=1e-4, atol=1e-5)
            ctx.check(ok, "weights", f"layer {i} {n}: {p.detach()} for {q.detach()}")
    ctx.event("batches", nb > 1)
    ctx.state("traced", tuple(net.order), tuple(net.wires), gptq, mode, nb)


def run(net, batches, what, kw, quantized):
    with warnings.catch_warnings(), ff.strict_quantization(False), torch.no_grad():
        warnings.simplefilter("ignore")
        orch.layerwise_optimize(net, batches, what, **kw)
