"""Random module graphs with a reference interpreter, for the orchestration checks.

A `Block` is a module that runs a small program over leaves (`Leaf`, functions) and other
blocks.  It is at the same time the reference (ordinary nested Python calls) and the source
from which a `GraphModule` is assembled with the public building methods.  Every leaf call is
reported to `LOG`.
"""

from __future__ import annotations

import collections

from typing import Any

import torch

from torch.utils import _pytree as pytree

LOG: list[tuple[Any, list[torch.Tensor]]] = []

# Added to the output of every leaf; execution contexts change it.
SHIFT = [0.0]
# Called with (node, args, kwargs, result) for every call of a leaf or function.
HOOKS: list[Any] = []
# Applied to tensors that are made by a node without tensor inputs.
FRESH: list[Any] = [lambda t: t]

Point = collections.namedtuple("Point", ["u", "v"])


def _mix(weights, args, kwargs):
    leaves = pytree.tree_flatten((args, kwargs))[0]
    like = next((t for t in [*leaves, weights] if isinstance(t, torch.Tensor)), None)
    acc = FRESH[0](torch.zeros(2, 3, dtype=torch.float64)) if like is None else like.new_zeros((2, 3))
    i = 0
    for a in list(args) + [kwargs[k] for k in sorted(kwargs)]:
        for leaf in pytree.tree_flatten(a)[0]:
            if leaf is None or isinstance(leaf, str):
                continue
            acc = acc + weights[i % len(weights)] * leaf
            i += 1
    return acc


def _shape(y, style):
    if style == "one":
        return y
    if style == "tuple":
        return (y, y * 0.5 - 0.1)
    if style == "dict":
        return {"k": y - 0.3, "m": (y * 0.7, y + 0.2)}
    if style == "point":
        return Point(y * 0.9, y - 0.05)
    raise AssertionError(style)


PATHS: dict[str, list[tuple[Any, ...]]] = {
    "one": [()],
    "tuple": [(), (0,), (1,), (-1,)],
    "dict": [("k",), ("m", 0), ("m", 1), ("m",), ()],
    "point": [("u",), ("v",), (0,), ()],
}


class Leaf(torch.nn.Module):
    """Mixes everything it is given with its own weights; reports each call."""

    def __init__(self, style: str, gen: torch.Generator, quiet: bool = False) -> None:
        super().__init__()
        self.weight = torch.nn.Parameter(torch.randn(7, generator=gen, dtype=torch.float64))
        self.bias = torch.nn.Parameter(torch.randn(3, generator=gen, dtype=torch.float64))
        self.style = style

    def forward(self, *args: Any, **kwargs: Any) -> Any:
        tensors = [t for t in pytree.tree_flatten((args, dict(sorted(kwargs.items()))))[0] if isinstance(t, torch.Tensor)]
        LOG.append((self, [t.detach().clone() for t in tensors]))
        res = _shape(torch.tanh(_mix(self.weight, args, kwargs) + self.bias) + SHIFT[0], self.style)
        for hook in HOOKS:
            hook(self, args, kwargs, res)
        return res


class Func:
    """A plain function node."""

    def __init__(self, style: str, gen: torch.Generator) -> None:
        self.weight = torch.randn(7, generator=gen, dtype=torch.float64).tolist()
        self.style = style
        self.__name__ = "func"

    def __call__(self, *args: Any, **kwargs: Any) -> Any:
        tensors = [t for t in pytree.tree_flatten((args, dict(sorted(kwargs.items()))))[0] if isinstance(t, torch.Tensor)]
        LOG.append((self, [t.detach().clone() for t in tensors]))
        res = _shape(torch.sin(_mix(self.weight, args, kwargs)), self.style)
        for hook in HOOKS:
            hook(self, args, kwargs, res)
        return res


def fetch(value: Any, path: tuple[Any, ...]) -> Any:
    for p in path:
        if isinstance(p, str) and not isinstance(value, dict):
            value = getattr(value, p)
        else:
            value = value[p]
    return value


class Stmt:
    """One call: `target(*args, **kwargs)`; args are ("in", name, path), ("stmt", i, path) or ("const", v)."""

    def __init__(self, name, target, args, kwargs, keep_fold=True):
        self.name, self.target, self.args, self.kwargs, self.keep_fold = name, target, args, kwargs, keep_fold


class Block(torch.nn.Module):
    def __init__(self, inputs: list[str]) -> None:
        super().__init__()
        self.inputs = inputs
        self.body: list[Stmt] = []
        self.outs: list[tuple[Any, ...]] = []

    def add(self, stmt: Stmt) -> None:
        self.body.append(stmt)
        if isinstance(stmt.target, torch.nn.Module):
            self.add_module("m_" + stmt.name, stmt.target)

    def forward(self, *args: Any, **kwargs: Any) -> Any:
        bound = dict(zip(self.inputs, args)) | kwargs
        env: list[Any] = []

        def val(ref):
            if ref[0] == "const":
                return ref[1]
            return fetch(bound[ref[1]] if ref[0] == "in" else env[ref[1]], ref[2])

        for st in self.body:
            env.append(st.target(*[val(a) for a in st.args], **{k: val(a) for k, a in st.kwargs.items()}))
        res = tuple(val(o) for o in self.outs)
        return res[0] if len(res) == 1 else res

    def n_out(self) -> int:
        return len(self.outs)


def generate(rng, depth: int, *, inputs: list[str] | None = None, share: bool = True, gen: torch.Generator | None = None, pool: list | None = None, size: int = 7, consts: bool = True, structured: bool = True) -> Block:
    gen = gen or torch.Generator().manual_seed(rng.randrange(2**31))
    pool = pool if pool is not None else []
    inputs = inputs or rng.sample(["x", "y", "mask", "n0", "n1"], rng.randint(1, 3))
    b = Block(inputs)
    names = [f"n{i}" for i in range(size + 2)]
    rng.shuffle(names)
    avail: list[tuple[Any, ...]] = [("in", n, ()) for n in inputs]

    def pick(recent=False):
        if consts and rng.random() < 0.08:
            return ("const", rng.choice([0.5, -1.25, 2, None, (0.5, 0.25)]))
        return rng.choice(avail[-4:] if recent or rng.random() < 0.6 else avail)

    for _ in range(rng.randint(1, size)):
        i = len(b.body)
        name = names[i]
        k = rng.random()
        styles = ["one", "one", "one", "tuple", "dict", "point"] if structured else ["one"]
        if k < 0.25 and depth > 0:
            sub = generate(rng, depth - 1, inputs=[f"a{j}" for j in range(rng.randint(1, 3))] if rng.random() < 0.7 else None, share=share, gen=gen, pool=pool, size=max(2, size - 2), consts=consts, structured=structured)
            n_kw = rng.randint(0, len(sub.inputs)) if rng.random() < 0.4 else 0
            # The last inputs may be passed by keyword.
            pos = sub.inputs[: len(sub.inputs) - n_kw]
            st = Stmt(name, sub, [pick() for _ in pos], {n: pick() for n in sub.inputs[len(pos):]}, keep_fold=rng.random() < 0.75)
            b.add(st)
            avail += [("stmt", i, ())] if sub.n_out() == 1 else [("stmt", i, (j,)) for j in range(sub.n_out())]
        else:
            if share and pool and k > 0.93:
                target = rng.choice(pool)
            elif k > 0.75:
                target = Func(rng.choice(styles), gen)
            else:
                target = Leaf(rng.choice(styles), gen)
                pool.append(target)
            n_args = rng.choice([0, 1, 1, 2, 2, 3]) if rng.random() < 0.3 else rng.choice([1, 1, 2])
            st = Stmt(name, target, [pick() for _ in range(n_args)], {kk: pick() for kk in rng.sample(["p", "q", "r"], rng.choice([0, 0, 0, 1, 2]))})
            b.add(st)
            avail += [("stmt", i, p) for p in PATHS[target.style]]
    cand = [a for a in avail if a[0] == "stmt"]
    cand = [a for a in cand if not isinstance(b.body[a[1]].target, Block)] or cand
    n_out = rng.choice([1, 1, 1, 2, 3])
    last = [a for a in avail if a[0] == "stmt"][-3:]
    b.outs = [rng.choice(last)] + [rng.choice([a for a in avail if a[0] == "stmt"]) for _ in range(n_out - 1)]
    return b


def build(block: Block, ff_graph) -> tuple[Any, dict[tuple[int, ...], Any]]:
    """Assemble the GraphModule of `block`.  Returns it with the refs of all leaf calls.

    Calls are identified by the path of statement indices that leads to them.
    """
    g = ff_graph.GraphModule()
    ins = {n: g.add_input(n) for n in block.inputs}
    env: list[Any] = []
    calls: dict[tuple[int, ...], Any] = {}
    folds: dict[tuple[int, ...], Any] = {}

    def val(ref):
        if ref[0] == "const":
            return ff_graph.Const(ref[1])
        if ref[0] == "in":
            base, path = ins[ref[1]], ref[2]
        else:
            base, path = env[ref[1]], ref[2]
            if isinstance(base, tuple):
                base, path = (base[0], path) if len(base) == 1 else (base[path[0]], path[1:])
        for p in path:
            base = base[p]
        return base

    for i, st in enumerate(block.body):
        args = [val(a) for a in st.args]
        kwargs = {k: val(a) for k, a in st.kwargs.items()}
        if isinstance(st.target, Block):
            sub, sub_calls, sub_folds = build(st.target, ff_graph)
            env.append(g.add_subgraph(st.name, sub, args, kwargs, original_module=st.target if st.keep_fold else None))
            calls |= {(i, *k): v for k, v in sub_calls.items()}
            folds |= {(i, *k): v for k, v in sub_folds.items()}
            if st.keep_fold:
                folds[(i,)] = st.target
        else:
            op = ff_graph.Op.torch_module if isinstance(st.target, torch.nn.Module) else ff_graph.Op.call_function
            ref = g.add_node(st.name, st.target, args, kwargs, op=op)
            env.append(ref)
            calls[(i,)] = ref
    g.add_output(*[val(o) for o in block.outs])
    return g, calls, folds


def flat(block: Block, folds: dict[Any, Any] | None = None) -> tuple[dict[tuple[int, ...], dict[str, Any]], list[Any]]:
    """The leaf calls of `block` with their producers: key -> {target, args, kwargs}; and the outputs.

    The calls of blocks are added to `folds` in the same form.

    References are ("in", name, path) | ("call", key, path) | ("const", v).
    """
    calls: dict[tuple[int, ...], dict[str, Any]] = {}

    def extend(ref, path):
        if not path:
            return ref
        if ref[0] == "const":
            return ("const", fetch(ref[1], path))
        return (ref[0], ref[1], ref[2] + tuple(path))

    def walk(b: Block, bound: dict[str, Any], prefix: tuple[int, ...]):
        env: list[Any] = []

        def val(ref):
            if ref[0] == "const":
                return ref
            if ref[0] == "in":
                return extend(bound[ref[1]], ref[2])
            base, path = env[ref[1]], ref[2]
            if isinstance(base, list):
                base, path = (base[0], path) if len(base) == 1 else (base[path[0]], path[1:])
            return extend(base, path)

        for i, st in enumerate(b.body):
            args = [val(a) for a in st.args]
            kwargs = {k: val(a) for k, a in st.kwargs.items()}
            key = (*prefix, i)
            if isinstance(st.target, Block):
                if folds is not None:
                    folds[key] = {"target": st.target, "args": args, "kwargs": kwargs}
                sub = dict(zip(st.target.inputs, args)) | kwargs
                env.append(walk(st.target, sub, key))
            else:
                calls[key] = {"target": st.target, "args": args, "kwargs": kwargs}
                env.append(("call", key, ()))
        return [val(o) for o in b.outs]

    outs = walk(block, {n: ("in", n, ()) for n in block.inputs}, ())
    return calls, outs


def evaluate(calls: dict[Any, dict[str, Any]], bound: dict[str, Any], order: list[Any] | None = None) -> dict[Any, Any]:
    """Value of every leaf call for the given inputs (keys are in execution order)."""
    env: dict[Any, Any] = {}

    def val(ref):
        if ref[0] == "const":
            return ref[1]
        return fetch(bound[ref[1]] if ref[0] == "in" else env[ref[1]], ref[2])

    for key in order or calls:
        c = calls[key]
        env[key] = c["target"](*[val(a) for a in c["args"]], **{k: val(a) for k, a in c["kwargs"].items()})
    return env


def deps(call: dict[str, Any]) -> set[Any]:
    return {r[1] for r in [*call["args"], *call["kwargs"].values()] if r[0] == "call"}


def closure(calls: dict[Any, dict[str, Any]], roots: set[Any]) -> set[Any]:
    seen: set[Any] = set()
    todo = list(roots)
    while todo:
        k = todo.pop()
        if k not in seen:
            seen.add(k)
            todo.extend(deps(calls[k]))
    return seen


def same(a: Any, b: Any, tol: float = 0.0) -> bool:
    fa, sa = pytree.tree_flatten(a)
    fb, sb = pytree.tree_flatten(b)
    if sa != sb:
        return False
    for x, y in zip(fa, fb):
        if isinstance(x, torch.Tensor) != isinstance(y, torch.Tensor):
            return False
        if isinstance(x, torch.Tensor):
            if x.shape != y.shape or not torch.allclose(x, y, rtol=tol, atol=tol):
                return False
        elif x != y:
            return False
    return True
