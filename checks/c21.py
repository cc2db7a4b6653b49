"""C21: module graphs execute like the model they were captured from or assembled for."""

import collections
import copy
import warnings

import torch

from fastforward._orchestration import graph_module as gm
from fastforward._orchestration.trace import trace
from torch.utils import _pytree as pytree

from ffmon import graphs as G
from ffmon.core import section

META = {
    "technique": "runtime monitoring: recorders inside every node of generated graphs and models observe each call; outputs, call counts and structure are compared with the directly executed modules and an independent interpreter",
    "level_note": "Random module trees (shared modules, keyword arguments, multiple and nested outputs, dead inputs, buffers, fan-out/fan-in) are traced and executed for inputs other than the traced ones; random hand-assembled graphs (nested sub-graphs with and without folds, nested attribute references, constants, function nodes, name clashes between inputs and nodes) are executed on single and batched inputs, cut at arbitrary node sets, re-inlined, and reduced to random target regions. Every outcome is compared with direct execution of the same modules. Structural queries are compared with a reference; malformed graphs must be refused and leave the graph usable.",
    "rule": "distinct (program shape, input form, cut/region) combinations",
}

D = 4


class Pick(torch.nn.Module):
    def forward(self, x):
        return x * 2, x + 1


class Two(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.randn(D))

    def forward(self, x, y=None, *, bias=None):
        r = x * self.w
        if y is not None:
            r = r - y
        if bias is not None:
            r = r + 3 * bias
        return r


class Cast(torch.nn.Module):
    """Returns its input, after a cast that has no effect."""

    def __init__(self, kind):
        super().__init__()
        self.kind = kind

    def forward(self, x):
        if self.kind == "to":
            return x.to(torch.float32)
        if self.kind == "float":
            return x.float()
        if self.kind == "twice":
            return x.float().to(x.dtype)
        return x.contiguous()


class Wrap(torch.nn.Module):
    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def forward(self, x):
        return self.inner(x)


class Body(torch.nn.Module):
    """Runs a random program over its children, buffers and parameters."""

    def __init__(self, rng, depth, n_in):
        super().__init__()
        self.n_in = n_in
        self.register_buffer("buf", torch.randn(D))
        self.par = torch.nn.Parameter(torch.randn(D))
        self.kids = torch.nn.ModuleList()
        self.prog = []
        self.repeats = 0
        n = n_in
        pick = lambda: rng.randrange(n)  # noqa: E731
        for _ in range(rng.randint(1, 5)):
            if rng.random() < 0.5:
                kinds = ["linear", "relu", "ln", "two", "pick", "shared", "cast", "wrap"] + (["body", "body"] if depth else [])
                kind = rng.choice(kinds)
                if kind == "shared" and len(self.kids):
                    ci = rng.randrange(len(self.kids))
                    self.repeats += 1
                else:
                    make = {
                        "cast": lambda: Cast(rng.choice(["to", "float", "twice", "contiguous"])),
                        "wrap": lambda: Wrap(rng.choice([torch.nn.Identity, torch.nn.Dropout, lambda: Cast(rng.choice(["to", "float"])), lambda: Wrap(Cast("to")), lambda: torch.nn.Linear(D, D)])()),
                        "linear": lambda: torch.nn.Linear(D, D), "shared": lambda: torch.nn.Linear(D, D), "relu": torch.nn.ReLU, "ln": lambda: torch.nn.LayerNorm(D), "two": Two, "pick": Pick, "body": lambda: Body(rng, depth - 1, rng.randint(1, 3))}
                    self.kids.append(make[kind]())
                    ci = len(self.kids) - 1
                m = self.kids[ci]
                if isinstance(m, Body):
                    args = [pick() for _ in range(m.n_in)]
                    nk = rng.randint(0, m.n_in - 1) if rng.random() < 0.4 else 0
                    kw = {f"in{i}": args[i] for i in range(m.n_in - nk, m.n_in)}
                    args = args[: m.n_in - nk]
                    n_new = len(m.outs)
                elif isinstance(m, Two):
                    args, kw, n_new = [pick()], {}, 1
                    if rng.random() < 0.5:
                        args.append(pick())
                    if rng.random() < 0.5:
                        kw["bias"] = pick()
                else:
                    args, kw, n_new = [pick()], {}, 2 if isinstance(m, Pick) else 1
                self.prog.append(("call", ci, args, kw))
                n += n_new
            else:
                op = rng.choice(["add", "mul", "cat", "chunk", "buf", "par", "scalar", "relu", "max", "index", "const", "method", "slice"])
                self.prog.append((op, pick(), pick(), rng.randint(1, 3)))
                n += 2 if op == "chunk" else 1
        rest = [i for i in range(n) if rng.random() < 0.6]
        self.prog.append(("all", rest, 0, 0))
        n += 1
        self.outs = [n - 1] + [rng.randrange(n) for _ in range(rng.choice([1, 1, 1, 2, 3]) - 1)]

    def forward(self, in0, in1=None, in2=None):
        env = [in0, in1, in2][: self.n_in]
        for st in self.prog:
            if st[0] == "call":
                r = self.kids[st[1]](*[env[i] for i in st[2]], **{k: env[i] for k, i in st[3].items()})
                env.extend(r if isinstance(r, (tuple, list)) else [r])
                continue
            op, i, j, c = st
            if op == "all":
                t = env[-1] * 0.5
                for q in i:
                    t = t + env[q]
                env.append(t)
                continue
            a, b = env[i], env[j]
            if op == "chunk":
                env.extend(torch.chunk(torch.cat((a, b), -1), 2, -1))
                continue
            env.append(
                {
                    "add": lambda: a + b,
                    "mul": lambda: a * b,
                    "cat": lambda: torch.cat([a, b], -1)[:, :D] if c == 1 else torch.stack((a, b), 0)[c % 2],
                    "buf": lambda: a + self.buf,
                    "par": lambda: self.par * b,
                    "scalar": lambda: a * c + 0.5,
                    "relu": lambda: torch.relu(a),
                    "max": lambda: a - a.max(-1, keepdim=True).values,
                    "index": lambda: a[:, torch.tensor([1, 0, 3, 2])],
                    "const": lambda: a + torch.ones(D) * c,
                    "method": lambda: a.float().clamp(-c, c).view(2, D),
                    "slice": lambda: torch.cat([a[:, c:], b[:, :c]], dim=1),
                }[op]()
            )
        outs = [env[i] for i in self.outs]
        return outs[0] if len(outs) == 1 else tuple(outs)


class Root(torch.nn.Module):
    def __init__(self, rng, depth):
        super().__init__()
        self.n_in = rng.randint(1, 3)
        self.body = Body(rng, depth, self.n_in)
        self.style = rng.choice(["plain", "dict", "nested", "list", "through"])

    def forward(self, a, b=None, c=None):
        r = self.body(*[a, b, c][: self.n_in])
        if self.style == "dict":
            return {"z": r, "y": a * 2}
        if self.style == "nested":
            return (r, {"k": [r, a + 1], "n": None})
        if self.style == "list":
            return [r, a - 1] if isinstance(r, torch.Tensor) else list(r)
        if self.style == "through":
            return r, a
        return r


def matches(ctx, got, want, key):
    fg, sg = pytree.tree_flatten(got)
    fw, sw = pytree.tree_flatten(want)
    ctx.check(sg == sw, key + "-structure", f"returned structure {sg}, the model returns {sw}")
    for g, w in zip(fg, fw):
        if isinstance(w, torch.Tensor):
            ctx.check(isinstance(g, torch.Tensor) and g.shape == w.shape and g.dtype == w.dtype and torch.allclose(g, w, rtol=1e-5, atol=1e-6, equal_nan=True), key + "-value", f"graph returned {g}, the model {w}")
        else:
            ctx.check(g == w, key + "-value", f"graph returned {g}, the model {w}")


@section(quick=240, thorough=6000, requires=("traced", "shared", "keyword", "multi-output", "retraced"))
def programs(ctx):
    rng = ctx.rng
    warnings.filterwarnings("ignore")
    m = Root(rng, rng.randint(0, 2)).eval()
    # Kids that are called with different signatures, and repeats, are part of the programs.
    repeats = sum(b.repeats for b in m.modules() if isinstance(b, Body))
    nk = rng.randint(0, m.n_in - 1)
    fresh = lambda: ([torch.randn(2, D) for _ in range(m.n_in - nk)], {n: torch.randn(2, D) for n in "abc"[m.n_in - nk: m.n_in]})  # noqa: E731
    args, kwargs = fresh()
    ctx.note(program=repr([(type(b).__name__, b.prog, b.outs) for b in m.modules() if isinstance(b, Body)])[:900], style=m.style, kwargs=list(kwargs))
    before = {n: id(x) for n, x in m.named_modules(remove_duplicate=False)}
    state = {k: v.clone() for k, v in m.state_dict().items()}
    try:
        g = trace(m, *args, **kwargs)
    except Exception as e:  # noqa: BLE001
        # torch.export cannot unflatten some programs that call a module repeatedly.
        try:
            torch.export.unflatten(torch.export.export(m, tuple(args), kwargs))(*args, **kwargs)
        except Exception:  # noqa: BLE001
            ctx.event("refused by torch.export")
            return
        ctx.fail("trace-raises", f"{e!r}")
    ctx.event("traced")
    ctx.event("shared", repeats > 0)
    ctx.event("keyword", nk > 0 or any(st[0] == "call" and st[3] for b in m.modules() if isinstance(b, Body) for st in b.prog))
    ctx.event("multi-output", len(m.body.outs) > 1)
    ctx.check({n: id(x) for n, x in m.named_modules(remove_duplicate=False)} == before, "model-mutated", "tracing replaced modules of the model")
    after = m.state_dict()
    ctx.check(list(after) == list(state) and all(torch.equal(after[k], state[k]) for k in state), "model-state", "tracing changed the state of the model")
    ctx.check(not m.training and not any(x.training for x in m.modules()), "model-mode", "tracing changed the mode of the model")
    calls = collections.Counter()
    hooks = [x.register_forward_hook(lambda x, *_: calls.update([id(x)])) for x in m.modules() if not isinstance(x, (Body, Root, torch.nn.ModuleList))]
    with torch.no_grad():
        for r in range(3):
            calls.clear()
            want = m(*args, **kwargs)
            eager = calls.copy()
            calls.clear()
            matches(ctx, g(*args, **kwargs), want, "traced")
            ctx.check(all(calls[k] <= eager[k] for k in calls), "traced-calls", f"a module is called more often by the graph ({calls}) than by the model ({eager})")
            if r == 1:
                # The graph uses the parameters of the model itself.
                for p in m.parameters():
                    p.mul_(0.9).add_(0.01)
                for b in m.buffers():
                    b.add_(0.1)
            args, kwargs = fresh()
        n_batches = rng.randint(2, 3)
        batches = [fresh() for _ in range(n_batches)]
        many = {n: [dict(zip("abc", a), **k)[n] for a, k in batches] for n in g.input_names}
        if m.n_in == 1 and rng.random() < 0.5 and nk == 0:
            got = g(many["a"])
        else:
            got = g(**many)
        ctx.check(isinstance(got, dict) and len(got) == 1, "traced-batches-form", f"{type(got)}")
        got = next(iter(got.values()))
        ctx.equal(len(got), n_batches, "traced-batches-count")
        for o, (a, k) in zip(got, batches):
            matches(ctx, o, m(*a, **k), "traced-batch")
    for h in hooks:
        h.remove()
    if rng.random() < 0.4:
        # A changed model is captured anew, an unchanged one may be reused.
        body = m.body
        change = rng.choice(["replace", "mode", "keyword", "shape"])
        if change == "replace":
            lin = [(p, n) for p in m.modules() for n, x in p.named_children() if isinstance(x, torch.nn.Linear)]
            for p, n in lin:
                setattr(p, n, torch.nn.Linear(D, D))
        elif change == "mode":
            body.kids.append(torch.nn.Dropout(0.5).eval())
            body.prog.append(("call", len(body.kids) - 1, [0], {}))
            m.train()
            m.eval()
        args, kwargs = fresh()
        if change == "keyword" and args:
            kwargs = dict(zip("abc", args), **kwargs)
            args = []
        if change == "shape":
            style = any(st[0] in ("method",) for b in m.modules() if isinstance(b, Body) for st in b.prog)
            if not style:
                args, kwargs = [torch.randn(3, D) for _ in args], {k: torch.randn(3, D) for k in kwargs}
        try:
            g2 = trace(m, *args, **kwargs)
        except AttributeError as e:
            ctx.check(repeats > 0 and "InterpreterModule" in str(e), "retrace-raises", f"{e!r}")
            return
        with torch.no_grad():
            matches(ctx, g2(*args, **kwargs), m(*args, **kwargs), "retraced-" + change)
        ctx.event("retraced")
    ctx.state("prog", m.n_in, nk, m.style, tuple(st[0] for st in m.body.prog), repeats)


def fresh_inputs(block, n=None):
    one = lambda: torch.randn(2, 3, dtype=torch.float64)  # noqa: E731
    return {k: one() if n is None else [one() for _ in range(n)] for k in block.inputs}


def shape_of(block):
    return tuple((type(s.target).__name__ if not isinstance(s.target, G.Block) else shape_of(s.target), len(s.args), len(s.kwargs), s.keep_fold) for s in block.body)


def targets_of(log):
    return collections.Counter(id(t) for t, _ in log)


@section(quick=500, thorough=20000, requires=("batched", "broadcast", "shared", "dict-batches", "tuple-batches", "generator", "clash"))
def graphs(ctx):
    rng = ctx.rng
    b = G.generate(rng, rng.randint(0, 2), share=rng.random() < 0.5)
    g, calls, folds = G.build(b, gm)
    cs, outs = G.flat(b)
    ctx.note(inputs=b.inputs, program=repr(shape_of(b))[:900])
    ctx.event("shared", len({id(c["target"]) for c in cs.values()}) < len(cs))
    ctx.event("clash", any(s.name in b.inputs for s in b.body))
    live = G.closure(cs, {o[1] for o in outs})
    with torch.no_grad():
        for _ in range(2):
            x = fresh_inputs(b)
            want = b(**x)
            G.LOG.clear()
            form = rng.choice(["kwargs", "args", "mixed", "one-batch"])
            k = rng.randint(0, len(b.inputs))
            if form == "kwargs":
                got = g(**x)
            elif form == "args":
                got = g(*x.values())
            elif form == "mixed":
                got = g(*list(x.values())[:k], **dict(list(x.items())[k:]))
            else:
                got = g(**{n: [v] for n, v in x.items()})
            ctx.check(G.same(got, want, 1e-12), "value", f"inputs as {form}: graph {got}, modules {want}")
            n, w = targets_of(G.LOG), collections.Counter(id(cs[k]["target"]) for k in live)
            ctx.check(n == w, "calls", f"calls of the nodes {sorted(n.values())}, expected {sorted(w.values())}")
        # Several batches, some of the inputs shared by all of them.
        nb = rng.randint(2, 4)
        single = {n for n in b.inputs if rng.random() < 0.3} if len(b.inputs) > 1 else set()
        if len(single) == len(b.inputs):
            single = set()
        xs = fresh_inputs(b, nb)
        for n in single:
            xs[n] = [xs[n][0]] * nb
        batches = [{n: v[i] for n, v in xs.items()} for i in range(nb)]
        G.LOG.clear()
        forms = ["columns"] if single else ["columns", "dicts", "tuples", "generator", "objects"]
        form = rng.choice(forms)
        ctx.event("broadcast", bool(single))
        # A stream exists per batch for nodes that depend on a batched input.
        many = {}
        for key in cs:
            refs = [*cs[key]["args"], *cs[key]["kwargs"].values()]
            many[key] = any((r[0] == "in" and r[1] not in single) or (r[0] == "call" and many[r[1]]) for r in refs)
        lengths = {many[o[1]] for o in outs}
        arg, kw = (), {}
        if form == "columns":
            kw = {n: (v[0] if n in single and rng.random() < 0.5 else v[:1] if n in single else v) for n, v in xs.items()}
        elif form == "dicts":
            ctx.event("dict-batches")
            arg = (batches,)
        elif form == "objects":
            arg = ([type("Batch", (), dict(d))() for d in batches],)
        elif form == "tuples":
            ctx.event("tuple-batches")
            arg = ([tuple(d.values()) for d in batches],)
        else:
            ctx.event("generator")
            arg = (iter([dict(d) for d in batches]),)
        if len(lengths) > 1:
            ctx.raises(ValueError, lambda: g(*arg, **kw), "merge-lengths", "outputs with different numbers of batches were combined")
            return
        got = g(*arg, **kw)
        want = [b(**d) for d in batches]
        if lengths == {True}:
            ctx.event("batched")
            ctx.check(isinstance(got, dict) and list(got) == [gm.DEFAULT_CONTEXT], "batched-form", f"{form}: returned {type(got)}")
            got = list(got[gm.DEFAULT_CONTEXT])
            ctx.equal(len(got), nb, "batched-count")
        else:
            got, want = [got], want[:1]
        ctx.check(all(G.same(a, w, 1e-12) for a, w in zip(got, want)), "batched-value", f"{form}: {got} for {want}")
        n = targets_of(G.LOG[: len(G.LOG) - sum(len(cs) for _ in want) * 0])
        w = collections.Counter()
        for k in live:
            w[id(cs[k]["target"])] += nb if many[k] else 1
        for _ in range(nb):  # the reference ran after the graph
            for k in cs:
                w[id(cs[k]["target"])] += 1
        ctx.check(n == w, "batched-calls", f"{form}: calls of the nodes {sorted(n.values())}, expected {sorted(w.values())}")
    ctx.state("graph", tuple(b.inputs), shape_of(b), form)


@section(quick=300, thorough=8000, requires=("cyclic", "acyclic", "reached", "unreached"))
def structure(ctx):
    rng = ctx.rng
    b = G.generate(rng, rng.randint(0, 2))
    g, calls, folds = G.build(b, gm)
    cs, outs = G.flat(b)
    key = {r.id: k for k, r in calls.items()}
    order = gm.topological_sort(g)
    ctx.equal(sorted(key[r.id] for r in order), sorted(cs), "topological-nodes")
    at = {key[r.id]: i for i, r in enumerate(order)}
    ctx.check(all(at[d] < at[k] for k in cs for d in G.deps(cs[k])), "topological-order", f"{[r.name for r in order]}")
    ctx.equal([r.id for r in g.topo_order], [r.id for r in order], "topological-cached")
    ctx.equal(g.input_names, b.inputs, "input-names")
    k = rng.choice(list(cs))
    ref = calls[k]
    ctx.equal({key[r.id] for r in g.node_inputs(ref)}, G.deps(cs[k]), "node-inputs")
    ctx.equal(sorted(key[r.id] for r in g.node_outputs(ref)), sorted(j for j in cs if k in G.deps(cs[j])), "node-outputs")
    up, reached = gm.ancestors(g, ref)
    ctx.check(reached, "ancestors-reached", "no stop was given")
    ctx.equal({key[r.id] for r in up}, G.closure(cs, {k}), "ancestors")
    sub = gm.topological_sort(g, closure=up)
    ctx.equal([key[r.id] for r in sub], [key[r.id] for r in order if key[r.id] in G.closure(cs, {k})], "topological-closure")
    s = rng.choice(list(cs))
    path, reached = gm.ancestors(g, ref, stop=calls[s], strict=True)
    want = {j for j in G.closure(cs, {k}) if s in G.closure(cs, {j})}
    ctx.equal(reached, bool(want), "path-reached")
    ctx.event("reached" if want else "unreached")
    ctx.equal({key[r.id] for r in path}, want, "path")
    n = rng.randint(1, 7)
    nodes = [g.add_node(f"free{i}", torch.nn.Identity(), []) for i in range(n)]
    edges = {a: {c for c in nodes if rng.random() < 0.25} for a in nodes}
    cyc = gm.find_cycle(edges)
    state = {}

    def cyclic(v):
        state[v] = 1
        for c in edges[v]:
            if state.get(c) == 1 or (c not in state and cyclic(c)):
                return True
        state[v] = 2
        return False

    has = any(v not in state and cyclic(v) for v in nodes)
    ctx.event("cyclic" if has else "acyclic")
    ctx.equal(cyc is not None, has, "cycle-found")
    if cyc is not None:
        ctx.check(len(cyc) >= 2 and cyc[0] == cyc[-1] and all(y in edges[x] for x, y in zip(cyc, cyc[1:])), "cycle-path", f"{cyc} in {edges}")
        ctx.check(len(set(cyc[:-1])) == len(cyc) - 1, "cycle-simple", f"{cyc}")
    ctx.state("structure", shape_of(b), n, has)


def parse_name(name):
    base, *attrs = name.replace("]", "").split("[")
    return base, tuple(int(a) if a.lstrip("-").isdigit() else a for a in attrs)


@section(quick=300, thorough=8000, requires=("cut", "attribute input", "no output", "multi"))
def cuts(ctx):
    """An extracted sub-graph computes the same values from the values at the cut."""
    rng = ctx.rng
    b = G.generate(rng, rng.randint(0, 2), inputs=rng.sample(["x", "y", "z"], rng.randint(1, 3)))
    g, calls, folds = G.build(b, gm)
    cs, outs = G.flat(b)
    key = {r.id: k for k, r in calls.items()}
    byname = {g.node(r).name: k for k, r in calls.items()}
    ks = list(cs)
    if rng.random() < 0.5:
        e = rng.choice(ks)
        s = rng.choice(sorted(G.closure(cs, {e})))
        chosen = {j for j in G.closure(cs, {e}) if s in G.closure(cs, {j})}
    else:
        chosen = set(rng.sample(ks, rng.randint(1, len(ks))))
    ctx.note(program=repr(shape_of(b))[:700], chosen=sorted(calls[k].name for k in chosen))
    sub = gm.create_subgraph(g, {calls[k] for k in chosen})
    ctx.equal(sorted(key[r.id] for r in sub.topo_order), sorted(chosen), "cut-nodes")
    x = fresh_inputs(b)
    with torch.no_grad():
        env = G.evaluate(cs, x)
        values = {}
        for name in sub.input_names:
            base, path = parse_name(name)
            ctx.event("attribute input", bool(path))
            values[name] = G.fetch(x[base] if base in x else env[byname[base]], path)
        needed = {o[1] for o in outs if o[1] in chosen} | {d for k in cs if k not in chosen for d in G.deps(cs[k]) if d in chosen}
        parent = gm.GraphModule()
        refs = [parent.add_input(f"v{i}") for i in range(len(values))]
        if not needed:
            ctx.event("no output")
            return
        ctx.event("multi", len(needed) > 1)
        got_refs = parent.add_subgraph("inner", sub, refs)
        produced = {key[r.unwrap_ref().id] for r in got_refs}
        # A fold may be called with values that it ignores.
        ctx.check(needed <= produced, "cut-outputs", f"values of {needed} are used elsewhere, the sub-graph returns {produced}")
        want = []
        for r in got_refs:
            path = []
            q = r
            while isinstance(q, gm.AttributeRef):
                path.insert(0, q.attribute)
                q = q.reference
            want.append(G.fetch(env[key[q.id]], tuple(path)))
        parent.add_output(*got_refs)
        wrapped = {f"v{i}": [v] for i, v in enumerate(values.values())}
        for graph, inputs in ((parent, wrapped), (sub, {n: [v] for n, v in values.items()})):
            G.LOG.clear()
            got = graph(**inputs)
            ctx.check(G.same((got,) if len(want) == 1 else got, tuple(want), 1e-12), "cut-value", f"{got} for {want}")
            live = G.closure({k: {**cs[k], "args": [a for a in cs[k]["args"] if a[0] != "call" or a[1] in chosen], "kwargs": {n: a for n, a in cs[k]["kwargs"].items() if a[0] != "call" or a[1] in chosen}} for k in chosen}, produced)
            ctx.equal(targets_of(G.LOG), collections.Counter(id(cs[k]["target"]) for k in live), "cut-calls")
        # The original is still whole.
        ctx.check(G.same(g(**x), b(**x), 1e-12), "cut-original", "extraction changed the graph")
    ctx.event("cut")
    ctx.state("cut", shape_of(b), tuple(sorted(chosen)))


def random_regions(rng, g, cs, folds, kinds, most=4):
    """Disjoint regions with the calls that they cover: [(kind, Region, keys)]."""
    res = []
    used = set()
    modules = [k for k in cs if isinstance(cs[k]["target"], torch.nn.Module)]
    for _ in range(rng.randint(0, most)):
        kind = rng.choice(kinds)
        if kind == "leaf" and modules:
            keys = {rng.choice(modules)}
            region = cs[min(keys)]["target"]
        elif kind == "fold" and folds:
            f = rng.choice(sorted(folds))
            keys = {k for k in cs if k[: len(f)] == f}
            region = folds[f]
        elif kind == "span" and modules:
            e = rng.choice(modules)
            s = rng.choice(sorted(k for k in G.closure(cs, {e}) if k in modules))
            keys = {k for k in G.closure(cs, {e}) if s in G.closure(cs, {k})}
            region = gm.Span(cs[s]["target"], cs[e]["target"])
        elif kind == "group" and modules:
            users = {k: frozenset(j for j in cs if k in G.deps(cs[j])) for k in cs}
            by = collections.defaultdict(list)
            for k in modules:
                by[(frozenset(G.deps(cs[k])), users[k])].append(k)
            several = [v for v in by.values() if len(v) > 1]
            if not several:
                continue
            v = rng.choice(several)
            v = rng.sample(v, rng.randint(2, len(v)))
            keys = set(v)
            region = gm.Group(tuple(cs[k]["target"] for k in v))
        else:
            continue
        if keys & used:
            continue
        used |= keys
        res.append((kind, region, keys))
    return res


def region_cycle(cs, folds, regions):
    """Do the regions depend on each other?  (True, False, or None if it depends on unused inputs.)"""
    owner = {}
    for i, (_, _, keys) in enumerate(regions):
        for k in keys:
            owner[k] = ("r", i)
    for k in cs:
        owner.setdefault(k, ("k", k))
    edges = collections.defaultdict(set)
    for k in cs:
        for d in G.deps(cs[k]):
            if owner[d] != owner[k]:
                edges[owner[k]].add(owner[d])
    state = {}

    def cyclic(v):
        state[v] = 1
        for c in edges[v]:
            if state.get(c) == 1 or (c not in state and cyclic(c)):
                return True
        state[v] = 2
        return False

    return any(v not in state and cyclic(v) for v in list(edges))


def unused_inputs(block):
    """Does any sub-block ignore one of its inputs?"""
    for st in block.body:
        if isinstance(st.target, G.Block):
            sub = st.target
            seen = {r[1] for s in sub.body for r in [*s.args, *s.kwargs.values()] if r[0] == "in"}
            if seen != set(sub.inputs) or unused_inputs(sub):
                return True
    return False


@section(quick=500, thorough=16000, requires=("leaf", "fold", "span", "group", "batched"))
def regions(ctx):
    """A graph reduced to the resolution of target regions still computes the same outputs."""
    rng = ctx.rng
    b = G.generate(rng, rng.randint(0, 2), share=False)
    g, calls, folds = G.build(b, gm)
    cs, outs = G.flat(b)
    chosen = random_regions(rng, g, cs, folds, ["leaf", "leaf", "fold", "span", "span", "group"])
    ctx.note(program=repr(shape_of(b))[:700], regions=[(k, sorted(calls[c].name for c in keys)) for k, _, keys in chosen])
    seen = []
    specs = [gm.SubgraphSpec(region=r, fn=lambda m, *_, i=i: seen.append((i, m)), flows=()) for i, (_, r, _) in enumerate(chosen)]
    cycle = region_cycle(cs, folds, chosen)
    spans = sum(k in ("span", "group") for k, _, _ in chosen)
    if cycle:
        ctx.event("mutually dependent")
        ctx.raises(ValueError, lambda: gm.reduce_resolution(g, specs), "mutual-accepted", "regions that depend on each other cannot both be executed as a whole")
        return
    try:
        reduced, new_specs = gm.reduce_resolution(g, specs)
    except ValueError as e:
        # A kept module is called with all its arguments, also those that it ignores.
        ctx.check(spans > 0 and "depend on each other" in str(e) and unused_inputs(b), "regions-refused", f"{e!r}")
        return
    ctx.equal(len(new_specs), len(specs), "specs-count")
    for (kind, region, _), spec, old in zip(chosen, new_specs, specs):
        ctx.event(kind)
        ctx.check(spec.fn is old.fn, "spec-fn", "the function of a spec changed")
        if kind in ("leaf", "fold"):
            ctx.check(spec.region is region, "spec-region", f"{kind}: {spec.region}")
    with torch.no_grad():
        x = fresh_inputs(b)
        want = b(**x)
        for graph, key in ((reduced, "reduced"), (g, "original")):
            seen.clear()
            G.LOG.clear()
            got = graph(**x)
            ctx.check(G.same(got, want, 1e-12), key + "-value", f"{got} for {want}")
            if graph is reduced:
                ctx.equal(sorted(i for i, _ in seen), list(range(len(chosen))), "reduced-delegates")
                n = targets_of(G.LOG)
                ctx.check(all(n[id(c["target"])] <= 1 for c in cs.values()), "reduced-calls", f"{n}")
                for i, m in seen:
                    ctx.check(m is new_specs[i].region, "reduced-target", f"{m}")
                # Optimised in dependency order.
                pos = {i: p for p, (i, _) in enumerate(seen)}
                up = [G.closure(cs, set(keys)) for _, _, keys in chosen]
                for i, (_, _, ki) in enumerate(chosen):
                    for j, (_, _, kj) in enumerate(chosen):
                        if i != j and ki & (up[j] - kj):
                            ctx.check(pos[i] < pos[j], "reduced-order", f"{chosen[j]} was optimised before {chosen[i]}")
            else:
                ctx.check(not seen, "original-delegates", "the given graph was changed")
        nb = rng.randint(2, 3)
        batches = [fresh_inputs(b) for _ in range(nb)]
        depends = {o[1]: any(r[0] == "in" for k in G.closure(cs, {o[1]}) for r in [*cs[k]["args"], *cs[k]["kwargs"].values()]) for o in outs}
        if all(depends.values()):
            ctx.event("batched")
            got = reduced(batches)[gm.DEFAULT_CONTEXT]
            want = [b(**d) for d in batches]
            ctx.check(len(got) == nb and all(G.same(a, w, 1e-12) for a, w in zip(got, want)), "reduced-batches", f"{got} for {want}")
    ctx.state("regions", shape_of(b), tuple((k, tuple(sorted(keys))) for k, _, keys in chosen))


@section(quick=200, thorough=3000, requires=("input", "node-id", "output", "subgraph", "cycle", "foreign", "call", "overlap", "nested", "span", "group", "batches"))
def invalid(ctx):
    rng = ctx.rng
    b = G.generate(rng, 1, share=False)
    g, calls, folds = G.build(b, gm)
    cs, outs = G.flat(b)
    x = fresh_inputs(b)
    with torch.no_grad():
        want = b(**x)
    kind = rng.choice(["input", "node-id", "output", "subgraph", "cycle", "foreign", "call", "overlap", "nested", "span", "group", "batches"])
    ctx.note(kind=kind, program=repr(shape_of(b))[:500])
    usable = True
    other, other_calls, _ = G.build(G.generate(rng, 0), gm)
    alien = rng.choice(list(other_calls.values()))
    some = rng.choice(list(calls.values()))
    if kind == "input":
        ctx.raises(ValueError, lambda: g.add_input(rng.choice(b.inputs)), "duplicate-input", "accepted")
    elif kind == "node-id":
        ctx.raises(ValueError, lambda: g.add_node("new", torch.nn.Identity(), [some], node_id=some.id), "duplicate-id", "accepted")
    elif kind == "output":
        ctx.raises(ValueError, lambda: g.add_output(alien if rng.random() < 0.5 else alien[0]), "unknown-output", "accepted")
        ref = g.add_input("fresh-input")
        ctx.raises(ValueError, lambda: g.add_output(ref if rng.random() < 0.5 else ref[0]), "input-output", "accepted")
        usable = False
    elif kind == "subgraph":
        n = len(other.input_names)
        args = [some] * n
        names = other.input_names
        how = rng.choice(["few", "many", "unknown", "twice", "no-output", "again"])
        ctx.state("bad-subgraph", how)
        if how == "few":
            ctx.raises(ValueError, lambda: g.add_subgraph("s", other, args[:-1]), "subgraph-few", "accepted")
        elif how == "many":
            ctx.raises(ValueError, lambda: g.add_subgraph("s", other, args + [some]), "subgraph-many", "accepted")
        elif how == "unknown":
            ctx.raises(ValueError, lambda: g.add_subgraph("s", other, args[:-1], {"nope": some}), "subgraph-unknown", "accepted")
        elif how == "twice" and n > 1:
            ctx.raises(ValueError, lambda: g.add_subgraph("s", other, args[:-1], {names[0]: some}), "subgraph-twice", "accepted")
        elif how == "no-output":
            empty = gm.GraphModule()
            empty.add_input("a")
            ctx.raises(ValueError, lambda: g.add_subgraph("s", empty, [some]), "subgraph-empty", "accepted")
        else:
            # Only outputs of a sub-graph can be used outside of it if it is kept as a whole.
            args = [next(v for d in vars(g).values() if isinstance(d, dict) for v in d.values() if isinstance(v, gm.InputRef))] * n
            g.add_subgraph("s", other, args)
            ctx.raises(ValueError, lambda: g.add_subgraph("t", other, args, original_module=torch.nn.Identity()), "subgraph-again", "accepted")
            with torch.no_grad():
                reduced, _ = gm.reduce_resolution(g, [])
                ctx.check(G.same(reduced(**x), want, 1e-12), "subgraph-again-value", "a refused sub-graph is executed")
    elif kind == "cycle":
        usable = False
        length = rng.randint(1, 4)
        import uuid

        ids = [uuid.uuid4() for _ in range(length)]
        for i in range(length):
            g.add_node(f"c{i}", torch.nn.Identity(), [gm.NodeRef(ids[(i + 1) % length], f"c{(i + 1) % length}")] + ([some] if rng.random() < 0.3 else []), node_id=ids[i])
        ctx.raises(ValueError, lambda: gm.topological_sort(g), "cycle-sorted", "a cyclic graph was ordered")
        ctx.raises(ValueError, lambda: g(**x), "cycle-executed", "a cyclic graph was executed")
    elif kind == "foreign":
        usable = False
        ref = g.add_node("bad", torch.nn.Identity(), [alien])
        g.add_output(ref)
        ctx.raises((ValueError, KeyError), lambda: g(**x), "foreign-executed", "a reference to another graph was accepted")
    elif kind == "call":
        how = rng.choice(["missing", "many", "unknown", "twice"])
        if how == "missing":
            y = dict(x)
            y.pop(rng.choice(b.inputs))
            ctx.raises(TypeError, lambda: g(**y), "call-missing", "accepted")
        elif how == "many":
            ctx.raises(TypeError, lambda: g(*x.values(), torch.zeros(1)), "call-many", "accepted")
        elif how == "unknown":
            ctx.raises(TypeError, lambda: g(**x, nope=torch.zeros(1)), "call-unknown", "accepted")
        else:
            ctx.raises(TypeError, lambda: g(*x.values(), **{b.inputs[0]: torch.zeros(1)}), "call-twice", "accepted")
    else:
        spec = lambda r: gm.SubgraphSpec(region=r, fn=lambda *_: None, flows=())  # noqa: E731
        modules = [k for k in cs if isinstance(cs[k]["target"], torch.nn.Module)]
        if not modules:
            return
        if kind == "overlap":
            m = cs[rng.choice(modules)]["target"]
            ctx.raises(ValueError, lambda: gm.reduce_resolution(g, [spec(m), spec(rng.choice([m, gm.Span(m, m)]))]), "overlap", "the same node in two regions was accepted")
        elif kind == "nested":
            pairs = [(f, k) for f in folds for k in modules if k[: len(f)] == f]
            if not pairs:
                return
            f, k = rng.choice(pairs)
            two = [spec(folds[f]), spec(cs[k]["target"])]
            rng.shuffle(two)
            ctx.raises(ValueError, lambda: gm.reduce_resolution(g, two), "nested", "a module and its parent were accepted as separate regions")
        elif kind == "span":
            pairs = [(s, e) for s in modules for e in modules if s not in G.closure(cs, {e})]
            if not pairs:
                return
            s, e = rng.choice(pairs)
            ctx.raises(ValueError, lambda: gm.reduce_resolution(g, [spec(gm.Span(cs[s]["target"], cs[e]["target"]))]), "span-unreachable", "a span whose end is not reachable was accepted")
        elif kind == "group":
            users = {k: frozenset(j for j in cs if k in G.deps(cs[j])) for k in cs}
            pairs = [(s, e) for s in modules for e in modules if s != e and (G.deps(cs[s]) != G.deps(cs[e]) or users[s] != users[e])]
            if not pairs:
                return
            s, e = rng.choice(pairs)
            ctx.raises(ValueError, lambda: gm.reduce_resolution(g, [spec(gm.Group((cs[s]["target"], cs[e]["target"])))]), "group-siblings", "a group of nodes that are not siblings was accepted")
        elif kind == "batches":
            used = {r[1] for k in G.closure(cs, {o[1] for o in outs}) for r in [*cs[k]["args"], *cs[k]["kwargs"].values()] if r[0] == "in"}
            meet = [k for k in G.closure(cs, {o[1] for o in outs}) if len({r[1] for r in [*cs[k]["args"], *cs[k]["kwargs"].values()] if r[0] == "in"}) > 1]
            if not meet:
                return
            a, c = sorted({r[1] for r in [*cs[meet[0]]["args"], *cs[meet[0]]["kwargs"].values()] if r[0] == "in"})[:2]
            y = {n: [v] for n, v in x.items()}
            y[a], y[c] = y[a] * 2, y[c] * 3
            ctx.check(used, "used", "")
            ctx.raises(ValueError, lambda: g(**y), "batch-lengths", "inputs with 2 and 3 batches were combined")
    ctx.event(kind)
    if usable:
        with torch.no_grad():
            ctx.check(G.same(g(**x), want, 1e-12), "usable", f"the graph changed after a refused {kind}")
