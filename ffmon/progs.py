"""Random source code of torch modules, all of whose tensors have the shape (4, 4)."""

from __future__ import annotations

import random

from typing import Any

HEADER = '''import torch
import torch.nn.functional as F

from torch import nn
from {pkg} import lib
from {pkg}.lib import shared as imported_shared
'''

LIB = '''import torch
import torch.nn.functional as F

GAIN = 0.5


def shared(x, y=None):
    """A helper with a default."""
    if y is None:
        return torch.relu(x) * GAIN
    return helper(x) + y


def helper(x):
    return torch.sigmoid(x) * 2.0


class Base(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.scale = torch.nn.Parameter(torch.rand(4, 4) + 0.5)

    def pre(self, x):
        return x * self.scale

    def forward(self, x):
        return self.pre(x) + helper(x)


class Block(torch.nn.Module):
    def __init__(self, act=None):
        super().__init__()
        self.weight = torch.nn.Parameter(torch.randn(4, 4) / 2)
        self.act = act

    def forward(self, x):
        y = F.linear(x, self.weight)
        return F.silu(y) if self.act is None else y * 0.5
'''


class Prog:
    """Generates one module. `arith`: Python arithmetic (only converted correctly with types)."""

    def __init__(self, rng: random.Random, *, size: int = 8, typed: bool = False, arith: bool = False, avoid: frozenset[str] = frozenset()) -> None:
        self.rng, self.typed, self.arith, self.avoid = rng, typed, arith, avoid
        self.lines: list[str] = []
        self.n = 0
        self.used: set[str] = set()
        self.helpers: list[tuple[str, int]] = []
        self.size = size
        self.in_method = True
        self.methods: list[tuple[str, str, int]] = []
        self.loop = 0
        self.can_return = True
        self.closure = False

    # -- utilities
    def feature(self, name: str) -> bool:
        """Whether a feature may be used; remembers that it is."""
        if name in self.avoid:
            return False
        self.used.add(name)
        return True

    def fresh(self, hint: str = "v") -> str:
        self.n += 1
        name = f"{hint}{self.n}"
        r = self.rng.random()
        if r > 0.98 and self.feature("suffixed-names"):
            name = f"{self.rng.choice('xy')}_{self.n % 4 + 1}"
        if r < 0.04 and self.feature("odd-names"):
            name = self.rng.choice([f"_tmp_{self.n % 5 + 1}", f"self_w{self.n}", f"__ff{self.n % 3}", f"x_T{self.n}"])
        return name

    def pick(self, env: dict[str, list[str]], kind: str) -> str | None:
        return self.rng.choice(env[kind]) if env[kind] else None

    # -- expressions
    def tensor(self, env: dict[str, list[str]], d: int = 2) -> str:
        rng = self.rng
        if d <= 0 or rng.random() < 0.2:
            r = rng.random()
            if self.in_method and r < 0.15:
                return rng.choice(["self.w", "self.w", "self.b", "self.inner.weight"])
            if r < 0.25 and env["list"] and self.feature("list-index"):
                return f"{self.pick(env, 'list')}[{rng.choice(['0', '-1'])}]"
            if r < 0.33 and env["dict"] and self.feature("dict-index"):
                return f'{self.pick(env, "dict")}["a"]'
            return rng.choice(env["tensor"])
        e = lambda k=1: self.tensor(env, d - k)  # noqa: E731
        kind = rng.choice(["binary"] * 4 + ["torch"] * 5 + ["method"] * 3 + ["module"] * 2 + ["helper"] * 3 + ["plain", "ifexp", "comp", "unary", "scalar", "walrus", "star", "paren", "lambda", "index"])
        if kind == "binary":
            op = rng.choice(["+", "-", "*", "@", "+", "*"])
            return f"({e()} {op} {e()})" if rng.random() < 0.6 or op == "@" else f"{e(2)} {op} {e(2)}" if False else f"({e()} {op} {e()})"
        if kind == "torch":
            a, b = e(), e()
            return rng.choice(
                [
                    f"torch.add({a}, {b}, alpha=2)",
                    f"torch.sub({a}, {b})",
                    f"torch.mul({a}, other={b})",
                    f"torch.div({a}, {b}.abs() + 1.5)",
                    f"torch.matmul({a}, {b})",
                    f"torch.mm({a}, {b})",
                    f"F.relu({a})",
                    f"torch.relu({a})",
                    f"F.linear({a}, {b})",
                    f"F.linear({a}, {b}, self.b)" if self.in_method else f"F.linear({a}, {b}, bias=None)",
                    f"F.softmax({a}, dim=-1)",
                    f"torch.softmax({a}, 0)",
                    f"torch.sigmoid({a})",
                    f"F.layer_norm({a}, (4,))",
                    f"nn.functional.gelu({a})",
                    f"torch.cumsum({a}, dim=1)",
                    f"torch.permute({a}, (1, 0))",
                    f"torch.cat([{a}, {b}], dim=0)[:4]",
                    f"torch.cat(({a}, {b}), 1)[:, :4]",
                    f"torch.sin({a})",
                    f"torch.exp(-torch.abs({a}))",
                    f"torch.full_like({a}, 0.5)",
                    f"torch.pow({a}, 2)",
                    f"F.dropout({a}, p=0.5, training=False)",
                    f"F.pad({a}, (1, 0))[:, :4]",
                ]
            )
        if kind == "method":
            return rng.choice([f"{e()}.T", f"{e()}.abs()", f"{e()}.clamp(-1.0, 1.0)", f"{e()}.transpose(0, 1)", f"{e()}.reshape(4, 4)", f"{e()}.t()", f"{e()}.add({e()})", f"{e()}.sum(dim=0, keepdim=True).expand(4, 4)", f"{e()}.tanh()"])
        if kind == "module" and self.in_method:
            return rng.choice([f"self.lin({e()})", f"self.inner({e()})", f"self.blocks[{rng.choice([0, 1])}]({e()})", f"self.base({e()})", f"self.seq({e()})"])
        if kind == "helper" and not (self.closure and "closure-helper" in self.avoid):
            opts = []
            for name, n in self.helpers:
                args = ", ".join(e() for _ in range(n))
                opts.append(f"{name}({args})")
            if self.in_method:
                for name, how, n in self.methods:
                    args = ", ".join(e() for _ in range(n))
                    opts.append(f"{how}.{name}({args})")
            opts += [f"lib.shared({e()})", f"imported_shared({e()}, y={e()})", f"lib.helper({e()})"]
            return rng.choice(opts)
        if kind == "plain":
            return rng.choice([f"torch.tanh({e()})", f"torch.where({e()} > 0, {e()}, {e()})", f"torch.maximum({e()}, {e()})", f"torch.stack([{e()}, {e()}]).sum(0)", f"({e()}).clone()"])
        if kind == "ifexp" and self.feature("ifexp"):
            return f"({e()} if {self.cond(env)} else {e()})"
        if kind == "comp" and self.feature("comprehension"):
            v = self.fresh("c")
            inner = {**env, "tensor": [*env["tensor"][-2:], v, v], "nowalrus": ["1"]}
            src = self.pick(env, "list") or f"({self.tensor({**env, 'nowalrus': ['1']}, d - 1)}, {self.tensor({**env, 'nowalrus': ['1']}, d - 1)})"
            body = self.tensor(inner, d - 1)
            tail = f" if {v}.sum() > {rng.choice(['-100', '0'])}" if rng.random() < 0.3 else ""
            form = rng.choice(["list", "gen", "nested", "dict", "set"])
            if form == "list":
                return f"sum([{body} for {v} in {src}{tail}], {e(2)})"
            if form == "gen":
                return f"sum(({body} for {v} in {src}{tail}), start={e(2)})"
            if form == "dict":
                k = self.fresh("k")
                return f"sum({{{k}: {body} for {k}, {v} in enumerate({src}){tail}}}.values(), {e(2)})"
            v2 = self.fresh("c")
            inner["tensor"] = [v, v2]
            return f"sum([{self.tensor(inner, d - 1)} for {v} in {src} for {v2} in ({v}, {e(2)}){tail}], {e(2)})"
        if kind == "unary":
            return f"(-{e()})" if rng.random() < 0.8 else f"(+{e()})"
        if kind == "scalar":
            s = rng.choice(["2.0", "0.5", "3", "-1.0"])
            op = rng.choice(["*", "+", "-", "/"])
            if self.arith and env["int"] and rng.random() < 0.5:
                s = self.integer(env)
                op = rng.choice(["*", "+", "-"])
            if rng.random() < 0.5 and op != "/":
                return f"({s} {op} {e()})"
            return f"({e()} {op} {s})" if op != "/" else f"({e()} / 2.0)"
        if kind == "walrus" and self.feature("walrus") and env.get("nowalrus") is None and not self.typed:
            v = self.fresh("wal")
            return f"({v} := {e()})"
        if kind == "star" and env["list"] and self.feature("star"):
            return f"torch.add(*{self.pick(env, 'list')}[:2])"
        if kind == "paren":
            return f"(\n{{I}}    {e()}  # a comment\n{{I}}    + {e()}\n{{I}})"
        if kind == "lambda" and self.feature("lambda"):
            v = self.fresh("p")
            outer, self.closure = self.closure, True
            body = self.tensor({**env, "tensor": [v, *env["tensor"][-1:]], "nowalrus": ["1"]}, d - 1)
            self.closure = outer
            return f"(lambda {v}: {body})({e()})"
        if kind == "index":
            return f"{e()}[[1, 0, 3, 2]]"
        return f"torch.relu({e()})"

    def integer(self, env: dict[str, list[str]], d: int = 1) -> str:
        rng = self.rng
        if not self.arith or d <= 0 or rng.random() < 0.4:
            return rng.choice([*env["int"], *env["int"], "1", "2", "self.k" if self.in_method else "3"])
        return f"({self.integer(env, d - 1)} {rng.choice(['+', '-', '*', '%', '//'])} {rng.choice(['2', '3'])})"

    def cond(self, env: dict[str, list[str]]) -> str:
        rng = self.rng
        c = rng.choice(["flag", "int", "tensor", "and", "or", "not", "in", "none"])
        if c == "flag":
            return rng.choice(["self.training is False", "self.flag"]) if self.in_method else f"{rng.choice(env['tensor'])} is not None"
        if c == "int":
            return f"{self.integer(env)} {rng.choice(['>', '<', '==', '!='])} {rng.choice(['1', '2', '3'])}"
        if c == "tensor":
            return f"{self.tensor(env, 1)}.sum() {rng.choice(['>', '<='])} 0"
        if c in ("and", "or") and self.feature("bool-ops"):
            v = rng.choice(env["tensor"])
            return rng.choice([f"{self.integer(env)} > 1 {c} {self.tensor(env, 2)}.mean() > 0", f"{v} is {'not ' if c == 'and' else ''}None {c} torch.relu({v}).sum() > 1"])
        if c == "not":
            return f"not {self.tensor(env, 1)}.sum() > 0"
        if c == "in":
            return f"{self.integer(env)} in (1, 2)"
        return f"{rng.choice(env['tensor'])} is None"

    # -- statements
    def block(self, env: dict[str, list[str]], indent: int, n: int, depth: int) -> None:
        """Statements; names defined in the block are visible to later ones of the block."""
        env = {k: list(v) for k, v in env.items()}
        start = len(self.lines)
        for _ in range(n):
            self.statement(env, indent, depth)
        if len(self.lines) == start:
            self.put(indent, "pass")

    def put(self, indent: int, text: str) -> None:
        pad = "    " * indent
        self.lines.append(pad + text.replace("{I}", pad))

    def statement(self, env: dict[str, list[str]], indent: int, depth: int) -> None:
        rng = self.rng
        kinds = ["assign"] * 6 + ["aug", "aug", "multi", "tuple", "star-target", "ann", "list", "append", "dict", "reassign", "reassign", "semicolon", "expr", "with", "assert", "del", "item-aug", "swap"]
        if depth > 0:
            kinds += ["if", "if", "if", "for", "for", "for", "while", "try", "nested-def", "match"]
        if self.loop and depth < 3:
            kinds += ["break", "continue"]
        if self.can_return and indent > 2:
            kinds += ["return"]
        if self.arith:
            kinds += ["int", "int"]
        k = rng.choice(kinds)
        t = env["tensor"]
        if k == "assign":
            v = self.fresh()
            self.put(indent, f"{v} = {self.tensor(env)}")
            t.append(v)
        elif k == "reassign":
            v = rng.choice(t)
            self.put(indent, f"{v} = {self.tensor(env)}")
        elif k == "aug" and self.feature("aug"):
            v = self.fresh("g")
            self.put(indent, f"{v} = {self.tensor(env, 1)} + 0.0")
            self.put(indent, f"{v} {rng.choice(['+=', '-=', '*='])} {self.tensor(env, 1)}")
            t.append(v)
        elif k == "multi":
            a, b = self.fresh(), self.fresh()
            self.put(indent, f"{a} = {b} = {self.tensor(env)}")
            t += [a, b]
        elif k == "tuple":
            a, b = self.fresh(), self.fresh()
            if a != b:
                self.put(indent, f"{a}, {b} = {self.tensor(env)}, {self.tensor(env)}")
                t += [a, b]
        elif k == "swap" and len(t) > 1 and self.feature("swap"):
            a, b = rng.sample(t, 2)
            if a != b:
                self.put(indent, f"{a}, {b} = {b}, {a}")
        elif k == "star-target" and self.feature("star-target"):
            a, b = self.fresh(), self.fresh("l")
            if a != b:
                self.put(indent, f"{a}, *{b} = {self.tensor(env, 1)}, {self.tensor(env, 1)}, {self.tensor(env, 1)}")
                t.append(a)
                env["list"].append(b)
        elif k == "ann":
            v = self.fresh()
            self.put(indent, f"{v}: torch.Tensor = {self.tensor(env)}")
            t.append(v)
        elif k == "list":
            v = self.fresh("l")
            if rng.random() < 0.6:
                self.put(indent, f"{v} = [{self.tensor(env, 1)}, {self.tensor(env, 1)}]")
            else:
                c = self.fresh("c")
                self.put(indent, f"{v} = [{self.tensor({**env, 'tensor': [c, *t[-2:]], 'nowalrus': ['1']}, 2)} for {c} in ({self.tensor(env, 1)}, {self.tensor(env, 1)})]")
            env["list"].append(v)
        elif k == "append" and env["list"] and not self.loop:
            self.put(indent, f"{self.pick(env, 'list')}{rng.choice(['.append({})', '.insert(0, {})', '[0] = {}']) if self.feature('list-mutation') else '.append({})'}".replace("{}", self.tensor(env)))
        elif k == "item-aug" and env["list"] and self.feature("item-aug"):
            self.put(indent, f"{self.pick(env, 'list')}[0] {rng.choice(['*=', '-='])} {self.tensor(env, 1)}" if False else f"{self.pick(env, 'list')}[0] = {self.tensor(env, 1)} * 2.0")
        elif k == "dict":
            v = self.fresh("d")
            self.put(indent, f'{v} = {{"a": {self.tensor(env)}, "b": {self.tensor(env, 1)}}}' if rng.random() < 0.7 else f"{v} = dict(a={self.tensor(env)})")
            env["dict"].append(v)
        elif k == "semicolon":
            a, b = self.fresh(), self.fresh()
            if a != b:
                self.put(indent, f"{a} = {self.tensor(env, 1)}; {b} = {self.tensor({**env, 'tensor': [*t, a]}, 1)}".replace("\n", " ") if False else f"{a} = {self.flat(env)}; {b} = {self.flat(env)}")
                t += [a, b]
        elif k == "expr":
            self.put(indent, rng.choice(['"""text"""', "pass", f"self.log({self.tensor(env, 1)})" if self.in_method else "pass"]))
        elif k == "with":
            self.put(indent, "with torch.no_grad():")
            v = self.fresh()
            self.put(indent + 1, f"{v} = {self.tensor(env)}")
            t.append(v)
        elif k == "assert" and self.feature("assert"):
            self.put(indent, f"assert {self.tensor(env, 1)}.shape == (4, 4), f'{{torch.relu(None)}}'")
        elif k == "del":
            v = self.fresh()
            self.put(indent, f"{v} = {self.tensor(env, 1)}")
            self.put(indent, f"del {v}")
        elif k == "int":
            v = self.fresh("n")
            self.put(indent, f"{v}{': int' if self.typed else ''} = {self.integer(env, 2)}")
            env["int"].append(v)
        elif k == "if":
            self.put(indent, f"if {self.cond(env)}:")
            v = self.fresh("m")
            self.block(env, indent + 1, rng.randint(0, 2), depth - 1)
            self.put(indent + 1, f"{v} = {self.tensor(env)}")
            if rng.random() < 0.4:
                self.put(indent, f"elif {self.cond(env)}:")
                self.block(env, indent + 1, rng.randint(0, 2), depth - 1)
                self.put(indent + 1, f"{v} = {self.tensor(env)}")
            self.put(indent, "else:")
            self.block(env, indent + 1, rng.randint(0, 1), depth - 1)
            self.put(indent + 1, f"{v} = {self.tensor(env)}")
            t.append(v)
        elif k == "for":
            acc = self.fresh("acc")
            self.put(indent, f"{acc} = {self.tensor(env, 1)}")
            v = self.fresh("i")
            form = rng.choice(["range", "tensors", "enumerate", "zip", "rows", "modules", "dict"])
            inner = {k2: list(v2) for k2, v2 in env.items()}
            inner["tensor"].append(acc)
            if form == "range":
                self.put(indent, f"for {v} in range({self.integer(env)}):")
                inner["int"].append(v)
                item = self.tensor(inner)
            elif form == "tensors":
                self.put(indent, f"for {v} in {self.pick(env, 'list') or f'({self.tensor(env, 1)}, {self.tensor(env, 1)})'}:")
                inner["tensor"] += [v, v]
                item = v
            elif form == "enumerate":
                self.put(indent, f"for {v}, e{v} in enumerate([{self.tensor(env, 1)}, {self.tensor(env, 1)}]):")
                inner["int"].append(v)
                inner["tensor"] += [f"e{v}", f"e{v}"]
                item = f"e{v}"
            elif form == "zip":
                self.put(indent, f"for {v}, e{v} in zip(({self.tensor(env, 1)}, {self.tensor(env, 1)}), [{self.tensor(env, 1)}, {self.tensor(env, 1)}]):")
                inner["tensor"] += [v, f"e{v}"]
                item = f"{v} * e{v}"
            elif form == "rows":
                self.put(indent, f"for {v} in {self.tensor(env, 1)}:")
                item = f"{v} * 2.0"
            elif form == "modules" and self.in_method:
                self.put(indent, f"for {v} in self.blocks:")
                item = f"{v}({acc})"
            else:
                self.put(indent, f'for {v}, e{v} in {{"p": {self.tensor(env, 1)}, "q": {self.tensor(env, 1)}}}.items():')
                inner["tensor"].append(f"e{v}")
                item = f"e{v}"
            self.loop += 1
            self.put(indent + 1, f"{acc} = {acc} + {item}" if rng.random() < 0.7 else f"{acc} = torch.tanh({acc} - {item})")
            self.block(inner, indent + 1, rng.randint(0, 2), depth - 1)
            if rng.random() < 0.3:
                self.put(indent + 1, f"if {self.cond(inner)}:")
                self.put(indent + 2, rng.choice(["break", "continue"]))
                self.put(indent + 1, f"{acc} = {acc} * 0.5")
            self.loop -= 1
            t.append(acc)
        elif k == "while" and self.feature("while"):
            v, c = self.fresh("acc"), self.fresh("cnt")
            self.put(indent, f"{v} = {self.tensor(env, 1)}")
            self.put(indent, f"{c} = [0, 1, 2]")
            self.put(indent, f"while {c} and {v}.abs().sum() < 1e9:" if rng.random() < 0.5 else f"while {c}:")
            self.put(indent + 1, f"{c}.pop()")
            self.put(indent + 1, f"{v} = {v} + {self.tensor({**env, 'tensor': [*t, v]}, 1)}")
            self.loop += 1
            self.block({**env, "tensor": [*t, v]}, indent + 1, rng.randint(0, 1), depth - 1)
            self.loop -= 1
            t.append(v)
        elif k == "try" and self.feature("try"):
            v = self.fresh("y")
            self.put(indent, "try:")
            self.put(indent + 1, f"{v} = {self.tensor(env, 1)}")
            if rng.random() < 0.5:
                self.put(indent + 1, f"if {self.cond(env)}:")
                self.put(indent + 2, "raise ValueError('x')")
            self.put(indent + 1, f"{v} = {self.tensor({**env, 'tensor': [*t, v]})}")
            self.put(indent, "except ValueError:")
            self.put(indent + 1, f"{v} = {self.tensor(env)}")
            if rng.random() < 0.4:
                f = self.fresh()
                self.put(indent, "finally:")
                self.put(indent + 1, f"{f} = {self.tensor(env, 1)}")
                t.append(f)
            t.append(v)
        elif k == "nested-def" and self.feature("nested-def"):
            f, a = self.fresh("fn"), self.fresh("a")
            v = self.fresh()
            self.put(indent, f"def {f}({a}):")
            outer, self.closure = self.closure, True
            self.put(indent + 1, f"return {self.tensor({**env, 'tensor': [a, *t[-1:]], 'nowalrus': ['1']})}")
            self.closure = outer
            self.put(indent, f"{v} = {f}({self.tensor(env, 1)})")
            t.append(v)
        elif k == "match" and self.feature("match"):
            v = self.fresh()
            self.put(indent, f"match {self.integer(env)}:")
            self.put(indent + 1, "case 1 | 2:")
            self.put(indent + 2, f"{v} = {self.tensor(env)}")
            self.put(indent + 1, "case _:")
            self.put(indent + 2, f"{v} = {self.tensor(env)}")
            t.append(v)
        elif k in ("break", "continue"):
            self.put(indent, f"if {self.cond(env)}:")
            self.put(indent + 1, k)
        elif k == "return":
            self.put(indent, f"if {self.cond(env)}:")
            self.put(indent + 1, f"return {self.result(env)}")

    def flat(self, env: dict[str, list[str]]) -> str:
        a, b = self.rng.choice(env["tensor"]), self.rng.choice(env["tensor"])
        return f"torch.relu({a}) + {b}"

    def result(self, env: dict[str, list[str]]) -> str:
        rng = self.rng
        if not self.in_method or getattr(self, "single", False):
            return self.tensor(env)
        return f"{self.tensor(env)}, {rng.choice(env['tensor'])}"

    def function(self, head: str, indent: int, params: list[str], n: int, depth: int, single: bool, ints: tuple[str, ...] = ()) -> None:
        self.single = single
        env: dict[str, Any] = {"tensor": list(params), "list": [], "dict": [], "int": list(ints)}
        self.put(indent, head)
        if self.rng.random() < 0.3:
            self.put(indent + 1, '"""Docstring."""')
        for _ in range(n):
            self.statement(env, indent + 1, depth)
        self.put(indent + 1, f"return {self.result(env)}")

    def build(self, pkg: str) -> str:
        rng = self.rng
        ann = ": torch.Tensor" if self.typed else ""
        ret = " -> torch.Tensor" if self.typed else ""
        self.lines = HEADER.format(pkg=pkg).split("\n")
        self.in_method = False
        for i in range(rng.randint(0, 3)):
            name = rng.choice([f"helper{i}", f"aux{i}", "shared" if i == 0 and self.feature("same-helper-name") else f"fun{i}"])
            n = rng.randint(1, 2)
            kw = rng.random() < 0.3
            params = ["x", "y"][:n]
            head = f"def {name}({', '.join(p + ann for p in params)}{', *, gain=2.0' if kw and not self.typed else ''}){ret}:"
            self.put(0, "")
            self.function(head, 0, params, rng.randint(0, 4), 2, True)
            self.put(0, "")
            self.helpers.append((name, n))
        self.in_method = True
        self.put(0, "")
        self.put(0, "class Net(nn.Module):")
        for line in '''    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.randn(4, 4) / 2)
        self.b = nn.Parameter(torch.randn(4) / 2)
        self.lin = nn.Linear(4, 4)
        self.inner = lib.Block()
        self.base = lib.Base()
        self.seq = nn.Sequential(lib.Block(1), nn.ReLU())
        self.blocks = nn.ModuleList([lib.Block(), lib.Block(2)])
        self.flag = True
        self.k = 2
        self.seen = []

    def log(self, x):
        self.seen.append(float(x.sum()))
'''.split("\n"):
            self.put(0, line)
        names = []
        for i in range(rng.randint(0, 3)):
            kind = rng.choice(["method", "method", "static", "class"])
            n = rng.randint(1, 2)
            params = ["x", "y"][:n]
            name = f"step{i}"
            if kind == "static":
                self.put(1, "@staticmethod")
                self.in_method = False
            elif kind == "class":
                self.put(1, "@classmethod")
                self.in_method = False
            first = {"method": ["self"], "static": [], "class": ["cls"]}[kind]
            self.function(f"def {name}({', '.join(first + [p + ann for p in params])}){ret}:", 1, params, rng.randint(0, 4), 2, True)
            self.in_method = True
            self.put(0, "")
            names.append((name, "self" if kind != "class" or rng.random() < 0.7 else "self", n))
            self.methods = list(names)
        self.function(f"def forward(self, x{ann}, y{ann}, n{': int' if self.typed else ''}=2):", 1, ["x", "y"], self.size, 3, False, ("n",))
        return "\n".join(self.lines) + "\n"


class Flow:
    """Generates a module in which all operands are variables, attributes, subscripts or operators.

    Each operand that is quantized according to the operator table must therefore get a quantizer.
    """

    def __init__(self, rng: random.Random, size: int) -> None:
        self.rng, self.size = rng, size
        self.lines: list[str] = []
        self.n = 0
        self.loop = 0
        self.used: set[str] = set()

    def put(self, indent: int, text: str) -> None:
        self.lines.append("    " * indent + text)

    def fresh(self) -> str:
        self.n += 1
        if self.rng.random() < 0.12 and self.spare:
            # Names that resemble those of several quantizers for one variable or operator.
            return self.spare.pop(self.rng.randrange(len(self.spare)))
        return f"v{self.n}"

    def use(self, names: list[str]) -> str:
        """An operand."""
        r = self.rng.random()
        if self.method and r < 0.1:
            return self.rng.choice(["self.w", "self.inner.w"])
        if r < 0.2:
            return self.operator(names)
        if r < 0.25:
            return f"{self.rng.choice(names)}.T"
        return self.rng.choice(names)

    def operator(self, names: list[str]) -> str:
        a, b = self.use(names), self.use(names)
        opts = [f"torch.relu({a})", f"torch.sigmoid({a})", f"F.relu({a})", f"F.softmax({a}, dim=-1)", f"({a} + {b})", f"({a} * {b})", f"torch.matmul({a}, {b})", f"({a} @ {b})", f"F.linear({a}, {b})", f"F.linear(weight={a}, input={b})", f"torch.sub({a}, other={b})", f"F.silu({a})", f"torch.mm({a}, {b})"]
        if self.helpers:
            opts += [f"{self.rng.choice(self.helpers)}({a}, {b})"] * 2
        return self.rng.choice(opts)

    def value(self, names: list[str]) -> str:
        """Something to assign: an operator, or something that is not quantized."""
        r = self.rng.random()
        a = self.rng.choice(names)
        if r < 0.5:
            return self.operator(names)
        return self.rng.choice([f"torch.tanh({a})", f"{a}.tanh()", a, f"{a}.clamp(-1.0, 1.0)", f"torch.maximum({a}, {self.rng.choice(names)})"])

    def cond(self, ints: list[str]) -> str:
        i = self.rng.choice(ints)
        return self.rng.choice([f"{i} > 1", f"{i} == 2", f"{i} < 2", f"{i} in (0, 2)"])

    def block(self, names: list[str], ints: list[str], indent: int, depth: int, n: int) -> None:
        names = list(names)
        for _ in range(n):
            self.statement(names, ints, indent, depth)

    def statement(self, names: list[str], ints: list[str], indent: int, depth: int) -> None:
        rng = self.rng
        kinds = ["assign", "assign", "reassign", "reassign", "tuple", "swap", "star"]
        if depth > 0:
            kinds += ["if", "if", "for", "while", "with", "try", "match", "nested"]
        if self.loop:
            kinds += ["break", "continue"]
        if indent > 2:
            kinds += ["return"]
        k = rng.choice(kinds)
        self.used.add(k)
        if k == "assign":
            v = self.fresh()
            self.put(indent, f"{v} = {self.value(names)}")
            names.append(v)
        elif k == "reassign":
            self.put(indent, f"{rng.choice(names)} = {self.value(names)}")
        elif k == "tuple":
            a, b = self.fresh(), self.fresh()
            self.put(indent, f"{a}, {b} = {self.value(names)}, {self.value(names)}")
            names += [a, b]
        elif k == "star":
            a, b, c = self.fresh(), self.fresh(), rng.choice(names)
            self.put(indent, f"({a}, {b}), {c} = ({self.value(names)}, {self.value(names)}), {self.value(names)}")
            names += [a, b]
        elif k == "swap" and len(names) > 1:
            a, b = rng.sample(names, 2)
            self.put(indent, f"{a}, {b} = {b}, {a}")
        elif k == "if":
            self.put(indent, f"if {self.cond(ints)}:")
            self.block(names, ints, indent + 1, depth - 1, rng.randint(1, 3))
            if rng.random() < 0.4:
                self.put(indent, f"elif {self.cond(ints)}:")
                self.block(names, ints, indent + 1, depth - 1, rng.randint(1, 3))
            if rng.random() < 0.6:
                self.put(indent, "else:")
                self.block(names, ints, indent + 1, depth - 1, rng.randint(1, 3))
        elif k in ("for", "while"):
            i = self.fresh()
            inner = list(names)
            if k == "while":
                self.put(indent, f"{i} = [0, 1, 2]")
                self.put(indent, f"while {i}:")
                self.put(indent + 1, f"{i}.pop()")
                inner_ints = ints
            elif rng.random() < 0.5:
                self.put(indent, f"for {i} in range({rng.choice(['0', '1', '3', 'n'])}):")
                inner_ints = [*ints, i]
            else:
                e = self.fresh()
                self.put(indent, f"for {i}, {e} in enumerate([{rng.choice(names)}, {rng.choice(names)}]):")
                inner.append(e)
                inner_ints = [*ints, i]
            self.loop += 1
            self.block(inner, inner_ints, indent + 1, depth - 1, rng.randint(1, 4))
            if rng.random() < 0.15:
                self.put(indent + 1, rng.choice(["break", "continue", f"return {self.value(inner)}", "raise ValueError('x')"]))
            self.loop -= 1
        elif k == "with":
            self.put(indent, "with torch.no_grad():")
            for _ in range(rng.randint(1, 2)):
                self.statement(names, ints, indent + 1, 0) if False else self.put(indent + 1, f"{rng.choice(names)} = {self.value(names)}")
        elif k == "try":
            self.put(indent, "try:")
            self.block(names, ints, indent + 1, depth - 1, rng.randint(1, 2))
            if rng.random() < 0.6:
                self.put(indent + 1, f"if {self.cond(ints)}:")
                self.put(indent + 2, "raise ValueError('x')")
                self.block(names, ints, indent + 1, depth - 1, 1)
            self.put(indent, "except ValueError:")
            self.block(names, ints, indent + 1, depth - 1, rng.randint(1, 2))
            if rng.random() < 0.4:
                self.put(indent, "finally:")
                self.block(names, ints, indent + 1, 0, 1)
        elif k == "match":
            self.put(indent, f"match {rng.choice(ints)}:")
            self.put(indent + 1, "case 1:")
            self.block(names, ints, indent + 2, depth - 1, rng.randint(1, 2))
            if rng.random() < 0.6:
                self.put(indent + 1, "case _:")
                self.block(names, ints, indent + 2, depth - 1, rng.randint(1, 2))
        elif k == "nested":
            v = self.fresh()
            xs = f"[{rng.choice(names)}, {rng.choice(names)}]"
            c = self.fresh()
            # Calls of helpers have no quantizers in comprehensions.
            helpers, self.helpers = self.helpers, []
            self.put(indent, f"{v} = sum([{self.operator([c, c, names[-1]])} for {c} in {xs}], {rng.choice(names)})")
            self.helpers = helpers
            names.append(v)
        elif k in ("break", "continue"):
            self.put(indent, f"if {self.cond(ints)}:")
            self.block(names, ints, indent + 1, 0, rng.randint(0, 1))
            self.put(indent + 1, k)
        elif k == "return":
            self.put(indent, f"if {self.cond(ints)}:")
            self.put(indent + 1, f"return {self.value(names)}")
        else:
            self.put(indent, "pass")

    def function(self, head: str, indent: int, n: int, depth: int, names: list[str]) -> None:
        self.put(indent, head)
        names = list(names)
        self.spare = [f"{v}_{i}" for v in ("x", "y", "relu", "add", "mul", "v1") for i in (1, 2, 3)] + ["relu", "self_w", "x_T", "x_1_1", "self_w_1"]
        for _ in range(n):
            self.statement(names, ["n"], indent + 1, depth)
        self.put(indent + 1, f"return {self.operator(names)}")

    def build(self) -> str:
        rng = self.rng
        self.lines = "import torch\nimport torch.nn.functional as F\n\nfrom torch import nn\n\n".split("\n")
        self.method = False
        self.helpers: list[str] = []
        names = []
        for i in range(rng.randint(0, 2)):
            sig = rng.choice(["x, y, n=2", "x, y, *, n=1", "x, y=None, /, n=2"]) if rng.random() < 0.5 else "x, y, n=2"
            self.function(f"def fun{i}({sig}):", 0, rng.randint(0, 4), 2, ["x", "y"])
            self.put(0, "")
            self.put(0, "")
            names.append(f"fun{i}")
            self.helpers = list(names)
        self.put(0, "class Inner(nn.Module):\n    def __init__(self):\n        super().__init__()\n        self.w = nn.Parameter(torch.randn(4, 4) / 2)\n\n    def forward(self, x):\n        return F.linear(x, self.w)\n\n")
        self.put(0, "class Net(nn.Module):\n    def __init__(self):\n        super().__init__()\n        self.w = nn.Parameter(torch.randn(4, 4) / 2)\n        self.inner = Inner()\n")
        self.method = True
        for i in range(rng.randint(0, 2)):
            self.function(f"def step{i}(self, x, y, n=2):", 1, rng.randint(0, 4), 2, ["x", "y"])
            self.put(0, "")
            self.helpers = [*self.helpers, f"self.step{i}"]
        self.function(rng.choice(["def forward(self, x, y, n=2):", "def forward(self, x, y, *, n=2):"]), 1, self.size, 3, ["x", "y"])
        return "\n".join(self.lines) + "\n"


HAZARDS = '''import torch
class A(torch.nn.Module):
    def forward(self, x):
        a = torch.relu(x.T)
        x = a * 2.0
        return torch.relu(x.T)
class B(torch.nn.Module):
    def forward(self, x):
        l = [x, x]
        a = torch.relu(l[0])
        l[0] = a * 2.0
        b = torch.relu(l[0])
        return b
class C(torch.nn.Module):
    def forward(self, x):
        for i in range(3):
            x = torch.relu(x.T) + 1.0
        return x
class D(torch.nn.Module):
    def forward(self, x):
        self.h = torch.relu(x)
        y = torch.sigmoid(self.h)
        self.h = y + 1.0
        return torch.sigmoid(self.h)
class E(torch.nn.Module):
    def forward(self, x):
        l = [x, x + 1.0, x + 2.0]
        i = 0
        y = x
        while i < 3:
            y = torch.relu(l[i]) + y
            i = i + 1
        return y
class F_(torch.nn.Module):
    def forward(self, x):
        i = 0
        l = [x, x + 1.0, x + 2.0]
        a = torch.relu(l[i])
        for i in range(1, 3):
            pass
        return a + torch.relu(l[i])
class G(torch.nn.Module):
    def forward(self, x):
        if x.sum() > 0:
            y = x * 2.0
            z = torch.relu(y.T)
        else:
            y = x * 3.0
            z = torch.sigmoid(y.T)
        return z
class H(torch.nn.Module):
    def forward(self, x, n=None):
        if n is not None:
            return torch.relu(n.weight)
        return torch.relu(x)
class I(torch.nn.Module):
    def forward(self, x, n=None):
        return torch.relu(n.weight) if n is not None else torch.relu(x)
class K(torch.nn.Module):
    def forward(self, x):
        return sum([torch.relu(v) if v.sum() > 0 else torch.sigmoid(v) for v in (x, -x, x * 2.0)])
class L(torch.nn.Module):
    def forward(self, x):
        return sum([torch.relu(v) + w for v in (x, -x, x * 2.0) for w in (v + 1.0, v)])
class M(torch.nn.Module):
    def forward(self, x):
        return sum([(lambda p: torch.relu(p) + v)(v) for v in (x, -x, x * 2.0)])
class N(torch.nn.Module):
    def forward(self, x):
        return sum([torch.relu(v) + v for v in (x, -x) if v.sum() > 100 or torch.relu(v).sum() > 0])
class O(torch.nn.Module):
    def forward(self, x):
        return sum(torch.stack([torch.relu(v) + w for w in (v, v)]).sum(0) + v for v in (x, -x))
'''
