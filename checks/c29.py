"""C29: automatic source conversion preserves the meaning of programs."""

import ast
import collections
import copy
import functools
import hashlib
import importlib
import inspect
import itertools
import logging
import pathlib
import sys
import warnings

import torch

import fastforward as ff
import fastforward.nn.functional as FF

from fastforward._quantops.optable import OperatorTable

from ffmon.core import Skip, section
from ffmon.progs import HAZARDS, LIB, Flow, Prog

META = {
    "technique": "runtime monitoring: random programs are run next to their conversions, with a differential oracle on outputs, exceptions, side effects and executed operators, and tagging probes in place of the quantizers that observe every operand of every quantized operator",
    "level_note": "Programs with nested control flow, loops with break and continue, comprehensions, generators, lambdas, closures, try/finally, match, walrus, augmented and starred assignment, containers, helper functions and methods (static, class, inherited, of other modules), and a set of programs in which values change between uses. Converted without type inference; conversion has to be deterministic and must not touch the source or the model. Operands of converted operators must have passed a quantizer, results must get a quantizer of their own per call site.",
    "rule": "distinct (language features) arrangements",
}

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


AVOID = frozenset({"same-helper-name", "closure-helper"})
CONVERT = {"use_type_inference": False, "auto_import": True}


VIEWS = {"permute", "transpose", "t", "select", "slice", "view", "detach", "alias", "expand", "unsqueeze", "as_strided", "clone", "contiguous", "_unsafe_view", "reshape"}


class Package:
    """A package with generated modules, which can be imported until it is closed."""

    def __init__(self, ctx, **sources):
        self.root = ctx.scratch()
        self.name = "aq" + hashlib.md5(str(self.root).encode(), usedforsecurity=False).hexdigest()[:12]
        (self.root / self.name).mkdir()
        for file, text in {"__init__": "", **sources}.items():
            (self.root / self.name / f"{file}.py").write_text(text.replace("{pkg}", self.name))

    def __enter__(self):
        sys.path.insert(0, str(self.root))
        importlib.invalidate_caches()
        return self

    def __exit__(self, *_):
        sys.path.remove(str(self.root))
        for name in [n for n in sys.modules if n.split(".")[0] == self.name]:
            del sys.modules[name]

    def load(self, name="net"):
        return importlib.import_module(f"{self.name}.{name}")

    def digest(self):
        return {p.name: p.read_bytes() for p in sorted((self.root / self.name).glob("*.py"))}


class Ops(torch.utils._python_dispatch.TorchDispatchMode):
    """Counts the executed operators."""

    def __init__(self):
        super().__init__()
        self.counts = collections.Counter()

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        name = {"rsub": "sub"}.get(name := str(func).split(".")[1].rstrip("_"), name)
        # Views of values that do not change in between may be shared.
        if name not in VIEWS:
            self.counts[name] += 1
        return func(*args, **(kwargs or {}))


def run(module, inputs):
    """(Results or exceptions, executed operators) for all inputs."""
    results = []
    with Ops() as ops:
        for args, kwargs in inputs:
            try:
                results.append(module(*(copy.copy(a) if not isinstance(a, torch.Tensor) else a.clone() for a in args), **kwargs))
            except Exception as e:  # noqa: BLE001
                results.append(e)
    return results, ops.counts


def as_tuple(value):
    if isinstance(value, (tuple, list)):
        return (type(value).__name__, *(leaf for v in value for leaf in as_tuple(v)))
    return (value,)


def same(a, b):
    if not isinstance(a, torch.Tensor):
        return type(a) is type(b) and a == b
    return isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape and torch.equal(a.isnan(), b.isnan()) and torch.equal(torch.nan_to_num(a), torch.nan_to_num(b))


def describe(source, code=""):
    return f"\n--- program\n{source}\n--- conversion\n{code}"


def snapshot(model):
    return {
        "types": [(n, type(m)) for n, m in model.named_modules()],
        "state": {k: v.clone() for k, v in model.state_dict().items()},
        "attrs": sorted(k for k in vars(model) if k != "seen"),
        "methods": {k: v for k, v in vars(type(model)).items()},
    }


def convert(ctx, model, source, key, twice=False):
    """The generated code and a quantized copy of `model`."""
    before = snapshot(model)
    out = ctx.scratch() / "out.py"
    try:
        first = ff.autoquantize(model, output_path=ctx.scratch() / "out.py", use_type_inference=False).code if twice else None
        code = ff.autoquantize(model, output_path=out, **CONVERT).code
    except Exception as e:  # noqa: BLE001
        ctx.fail(f"{key}-converts", f"conversion raised {e!r}{describe(source)}")
        return None, None
    after = snapshot(model)
    ctx.check(all(before[k] == after[k] for k in ("types", "attrs", "methods")) and all(torch.equal(v, after["state"][k]) for k, v in before["state"].items()), f"{key}-model-untouched", f"the model was changed{describe(source)}")
    ctx.equal(out.read_text(), code, f"{key}-written", "the written file is not the returned code")
    try:
        ast.parse(code)
    except SyntaxError as e:
        ctx.fail(f"{key}-valid", f"{e!r}{describe(source, code)}")
        return None, None
    if twice:
        ctx.equal(first, code, f"{key}-deterministic", "two conversions differ")
        ctx.event("converted twice")
    quantized = copy.deepcopy(model)
    if hasattr(quantized, "seen"):
        quantized.seen = []
    ff.quantize_model(quantized)
    if "forward" not in vars(type(quantized)):
        ctx.fail(f"{key}-converts", f"the module was not converted{describe(source, code)}")
        return None, None
    ctx.event("converted programs")
    return code, quantized


def compare(ctx, model, quantized, inputs, source, code, key, ops=True):
    """Runs both models; False if there is nothing to compare."""
    want, want_ops = run(model, inputs)
    if hasattr(model, "seen"):
        log, model.seen = model.seen, []
    got, got_ops = run(quantized, inputs)
    for i, (a, b) in enumerate(zip(want, got)):
        if isinstance(a, Exception):
            ctx.event("raising runs")
            if type(a) is not type(b):
                ctx.fail(f"{key}-exception", f"input {i}: {a!r} became {b!r}{describe(source, code)}")
            continue
        ctx.event("compared outputs")
        if isinstance(b, Exception):
            ctx.fail(f"{key}-output", f"input {i}: raised {b!r}{describe(source, code)}")
        elif len(as_tuple(a)) != len(as_tuple(b)) or not all(map(same, as_tuple(a), as_tuple(b))):
            ctx.fail(f"{key}-output", f"input {i}: different outputs{describe(source, code)}")
    if hasattr(model, "seen"):
        ctx.event("side effects", len(log))
        if len(log) != len(quantized.seen) or any(x != y and not (x != x and y != y) for x, y in zip(log, quantized.seen)):
            ctx.fail(f"{key}-effects", f"side effects differ: {log} / {quantized.seen}{describe(source, code)}")
    if ops and want_ops != got_ops:
        ctx.fail(f"{key}-operators", f"executed operators differ: {dict(want_ops - got_ops)} / {dict(got_ops - want_ops)}{describe(source, code)}")
    ctx.event("executed operators", sum(want_ops.values()))


def inputs_for(ctx, ns, keyword=False):
    items = []
    for n in ns:
        x, y = torch.randn(4, 4), torch.randn(4, 4)
        items.append(((x, y), {"n": n}) if keyword else ((x, y, n), {}))
    return items


@section(quick=110, thorough=1500, requires=("converted programs", "compared outputs", "side effects", "converted twice"))
def programs(ctx):
    """Random programs compute the same as their conversions."""
    rng = ctx.rng
    for _ in range(12):
        prog = Prog(rng, size=rng.choice([2, 4, 8]), avoid=AVOID)
        source = prog.build("{pkg}")
        ctx.torch_seed()
        with Package(ctx, lib=LIB, net=source) as pkg:
            try:
                model = pkg.load().Net().eval()
            except SyntaxError:
                continue
            inputs = inputs_for(ctx, (1, 2, 3))
            want, _ = run(model, inputs)
            # Operands of unsuitable shapes are not of interest.
            if any(isinstance(w, Exception) and not isinstance(w, ValueError) for w in want):
                continue
            model.seen = []
            files = pkg.digest()
            ctx.state(sorted(prog.used), prog.size)
            code, quantized = convert(ctx, model, source, "programs", twice=rng.random() < 0.2)
            if code is None:
                return
            with ff.strict_quantization(False):
                compare(ctx, model, quantized, inputs, source, code, "programs")
            ctx.check(pkg.digest() == files, "programs-source-untouched", "source files were changed")
        return
    raise Skip


class Tag(torch.Tensor):
    """A tensor that comes from a quantizer. Results of operators are not tagged."""

    __torch_function__ = torch._C._disabled_torch_function_impl


class Probe(ff.nn.Quantizer):
    watch = None

    def quantize(self, data):
        frame = inspect.currentframe().f_back
        while frame is not None and frame.f_code.co_filename.startswith((LIBRARY, TORCH)):
            frame = frame.f_back
        if Probe.watch is not None and frame is not None:
            Probe.watch.use(self, frame)
        return data.view_as(data).as_subclass(Tag)

    forward = quantize


LIBRARY, TORCH = (str(pathlib.Path(m.__file__).parent) for m in (ff, torch))


def position(frame):
    """The position of the running call in the source; `finally` blocks exist several times in the code."""
    return next(itertools.islice(frame.f_code.co_positions(), frame.f_lasti // 2, None))


def calls_of(code):
    tree = ast.parse(code)
    return {(n.lineno, n.end_lineno, n.col_offset, n.end_col_offset): n for n in ast.walk(tree) if isinstance(n, ast.Call)}


def inlined(frame, calls):
    """The quantized expression if the running call is that of an input quantizer, and it is not a variable."""
    call = calls.get(position(frame))
    name = "" if call is None else getattr(call.func, "attr", getattr(call.func, "id", ""))
    if name.startswith("quantizer_") and not isinstance(call.args[0], ast.Name):
        return frame.f_code.co_name, ast.unparse(call.args[0])
    return None


class Watch:
    """Observes the operands and output quantizers of all quantized operators."""

    def __init__(self, code):
        self.source = calls_of(code)
        self.missing = []
        self.sites = collections.defaultdict(set)
        self.calls = 0
        self.names = collections.Counter()

    def __enter__(self):
        self.saved = {}
        table = collections.defaultdict(list)
        for op in OperatorTable.from_yaml(alias_extensions=(lambda o: o.metadata.fallback if o.metadata else None,)).operators():
            table[op.identifier].append(op)
        for name, specs in table.items():
            if (func := getattr(FF, name, None)) is not None:
                self.saved[name] = func
                setattr(FF, name, self.wrap(name, func, specs))
        Probe.watch = self
        return self

    def __exit__(self, *_):
        Probe.watch = None
        for name, func in self.saved.items():
            setattr(FF, name, func)

    def wrap(self, name, func, specs):
        @functools.wraps(func)
        def wrapped(*args, **kwargs):
            plain = {k: v for k, v in kwargs.items() if k not in ("output_quantizer", "strict_quantization")}
            spec = next((s for s in specs if s.validate_arguments(args, plain)), specs[0])
            frame = inspect.currentframe().f_back
            line = f"{frame.f_code.co_name}:{frame.f_lineno}"
            for param, value in spec.bind_partial(*args, **plain):
                if param.quantized and isinstance(value, torch.Tensor) and not isinstance(value, Tag):
                    self.missing.append((name, param.name, line))
            self.calls += 1
            self.names[name] += 1
            quantizer = kwargs.get("output_quantizer")
            if quantizer is None:
                self.missing.append((name, "output", line))
            return func(*args, **kwargs)

        return wrapped

    def use(self, quantizer, frame):
        """Record the calls from the method of the module on: helpers get separate quantizers."""
        chain = []
        if quoted := inlined(frame, self.source):
            # Attributes and the like may be quantized at each of their uses.
            chain.append(quoted)
            frame = frame.f_back if "self" not in frame.f_locals else None
        while frame is not None:
            chain.append((frame.f_code.co_name, position(frame)))
            if "self" in frame.f_locals:
                break
            frame = frame.f_back
        self.sites[id(quantizer)].add(tuple(chain))


@section(quick=110, thorough=1500, requires=("converted programs", "compared outputs", "observed operators", "observed quantizers"))
def placement(ctx):
    """All operands of quantized operators are quantized, and each result has its own quantizer."""
    rng = ctx.rng
    prog = Flow(rng, rng.choice([2, 4, 6]))
    source = prog.build()
    ctx.torch_seed()
    with Package(ctx, net=source) as pkg:
        model = pkg.load().Net().eval()
        ctx.state(sorted(prog.used), prog.size)
        code, quantized = convert(ctx, model, source, "placement")
        if code is None:
            return
        inputs = inputs_for(ctx, (0, 1, 2, 3), keyword=True)
        with ff.strict_quantization(False):
            compare(ctx, model, quantized, inputs, source, code, "placement")
            for module in list(quantized.modules()):
                for name, child in list(module.named_children()):
                    if isinstance(child, ff.nn.Quantizer):
                        setattr(module, name, Probe())
            with Watch(code) as watch:
                for args, kwargs in inputs:
                    try:
                        quantized(*args, **kwargs)
                    except ValueError:
                        ctx.event("raising runs")
        ctx.event("observed operators", watch.calls)
        ctx.event("observed quantizers", len(watch.sites))
        if watch.missing:
            ctx.fail("placement-operand", f"not quantized: {sorted(set(watch.missing))[:5]}{describe(source, code)}")
        shared = [sites for sites in watch.sites.values() if len(sites) > 1]
        if shared:
            ctx.fail("placement-shared", f"places share a quantizer: {shared[:2]}{describe(source, code)}")


class Direct:
    """Straight-line methods that apply operators of the table to tensors, and how often they do."""

    BINARY = {"+": "add", "-": "sub", "*": "mul", "/": "div", "//": "floor_divide", "%": "remainder", "**": "pow", "@": "matmul"}
    UNARY = "torch.relu F.relu torch.sigmoid F.sigmoid torch.exp torch.sin torch.cos F.silu F.gelu".split()

    def __init__(self, rng):
        self.rng = rng
        self.names = collections.Counter()
        self.used = set()
        self.vars = ["x", "y"]
        self.times = 1

    def count(self, name, how):
        self.names[name] += self.times
        self.used.add((name, how))

    def leaf(self):
        return self.rng.choice([*self.vars, *self.vars, "self.w"])

    def expr(self, depth=2):
        rng = self.rng
        sub = (lambda: self.expr(depth - 1)) if depth > 0 and rng.random() < 0.5 else self.leaf
        match rng.choice(["binary", "binary", "literal", "literal", "left", "unary", "minus", "call2", "kw", "seq"]):
            case "binary":
                op = rng.choice(list(self.BINARY))
                self.count(self.BINARY[op], "binary")
                return f"({sub()} {op} {sub()})"
            case "literal":
                op = rng.choice(list(self.BINARY)[:-1])
                self.count(self.BINARY[op], "literal")
                return f"({sub()} {op} {rng.choice(['2', '0.5', '3.0', '-2', 'n'])})"
            case "left":
                op = rng.choice("+-*")  # torch computes number / tensor as number * reciprocal
                self.count(self.BINARY[op], "left literal")
                return f"({rng.choice(['2', '0.5', '3.0', '-2'])} {op} {sub()})"
            case "unary":
                f = rng.choice(self.UNARY)
                self.count(f.split(".")[1], f)
                return f"{f}({rng.choice(['', 'input='])}{sub()})"
            case "minus":
                op, name = rng.choice([("-", "negative"), ("+", "positive")])
                self.count(name, op)
                return f"({op}{sub()})"
            case "call2":
                f = rng.choice(["torch.add", "torch.sub", "torch.mul", "torch.div", "torch.matmul", "torch.mm"])
                self.count(f.split(".")[1], f)
                return f"{f}({sub()}, {rng.choice(['', 'mat2=' if f == 'torch.mm' else 'other='])}{sub()})"
            case "kw":
                text, name = rng.choice([("F.softmax({}, dim=-1)", "softmax"), ("torch.softmax({}, -1)", "softmax"), ("torch.cumsum({}, dim=0)", "cumsum"), ("torch.permute({}, (1, 0))", "permute"), ("F.linear({}, self.w)", "linear"), ("torch.zeros_like({})", "zeros_like"), ("F.dropout({}, 0.5, False)", "dropout")])
                self.count(name, text)
                return text.format(sub())
            case _:
                self.count("cat", "list")
                return f"torch.cat([{sub()}, {sub()}], dim=0)[:4]"

    def new(self):
        self.vars.append(f"v{len(self.vars)}")
        return self.vars[-1]

    def statement(self):
        rng = self.rng
        kind = rng.choice("plain plain annotated augmented chain pair loop with try if attribute helper list walrus".split())
        self.used.add(kind)
        match kind:
            case "annotated":
                e = self.expr()
                return [f"{self.new()}: torch.Tensor = {e}"]
            case "augmented":
                op = rng.choice("+-*")
                self.count(self.BINARY[op], "augmented")
                target = rng.choice(self.vars)
                value = rng.choice([self.leaf, lambda: "2", lambda: "0.5", self.expr])()
                return [f"{target} = {target}.clone()", f"{target} {op}= {value}"]
            case "chain":
                e = self.expr()
                return [f"{self.new()} = {self.new()} = {e}"]
            case "pair":
                a, b = self.expr(1), self.expr(1)
                return [f"{self.new()}, {self.new()} = {a}, {b}"]
            case "loop":
                v = self.new()
                self.times, times = rng.choice([1, 2, 3]), self.times
                out = [f"{v} = x", f"for _ in range({self.times}):", f"    {v} = {self.expr()}"]
                self.times = times
                return out
            case "with":
                e = self.expr()
                return ["with torch.enable_grad():", f"    {self.new()} = {e}"]
            case "try":
                e = self.expr()
                return ["try:", f"    {self.new()} = {e}", "finally:", "    pass"]
            case "if":
                e, f = self.expr(1), self.expr(1)
                return [f"if ({e}).dim() == 2:", f"    {self.new()} = {f}", "else:", f"    {self.vars[-1]} = x * 2"]
            case "attribute":
                e = self.expr(1)
                return [f"self.t = {e}", f"{self.new()} = self.t"]
            case "helper":
                e = self.expr(1)
                self.count("mul", "helper")
                return [f"{self.new()} = self.helper({e})"]
            case "list":
                a, b = self.expr(1), self.expr(1)
                return [f"{self.new()} = [{a}, {b}][{rng.choice('01')}]"]
            case "walrus":
                e = self.expr(1)
                v, w = self.new(), self.new()
                self.count("add", "walrus")
                return [f"{w} = ({v} := {e}) + 1"]
        e = self.expr()
        return [f"{self.new()} = {e}"]

    def build(self):
        body = [line for _ in range(self.rng.choice([2, 4, 7])) for line in self.statement()]
        result = f"return {self.expr(1)}, {', '.join(self.vars[2:])}"
        lines = ["def __init__(self):", "    super().__init__()", "    self.w = torch.nn.Parameter(torch.rand(4, 4))", "    self.t = None", "def helper(self, a):", "    return a * 2", "def forward(self, x, y, n=2):", *("    " + b for b in [*body, result])]
        return "import torch\nimport torch.nn.functional as F\n\n\nclass Net(torch.nn.Module):\n" + "\n".join("    " + line for line in lines) + "\n"


@section(quick=60, thorough=1000, requires=("converted programs", "converted operators"))
def direct(ctx):
    """Operators of the table that a method applies to tensors are converted, each of them."""
    rng = ctx.rng
    prog = Direct(rng)
    source = prog.build()
    ctx.torch_seed()
    with Package(ctx, net=source) as pkg:
        model = pkg.load().Net().eval()
        code, quantized = convert(ctx, model, source, "direct")
        if code is None:
            return
        x, y = torch.rand(4, 4), torch.rand(4, 4)
        with ff.strict_quantization(False):
            compare(ctx, model, quantized, [((x, y), {})], source, code, "direct", ops=False)
            with Watch(code) as watch:
                quantized(x, y)
        ctx.event("converted operators", sum(prog.names.values()))
        ctx.state(tuple(sorted(map(str, prog.used)))[:3], len(prog.vars))
        if watch.names != prog.names:
            ctx.fail("direct-converted", f"operators of the program {dict(prog.names)}, converted {dict(watch.names)}{describe(source, code)}")


@section(quick=16, thorough=32, requires=("converted programs", "compared outputs"))
def hazards(ctx):
    """Programs in which hoisting or sharing of an expression changes its value."""
    ctx.torch_seed()
    names = [n for n in HAZARDS.split() if False] or [line.split()[1].split("(")[0] for line in HAZARDS.splitlines() if line.startswith("class ")]
    with Package(ctx, net=HAZARDS) as pkg:
        for name in names[ctx.case % 16 :: 16]:
            model = getattr(pkg.load(), name)().eval()
            source = inspect.getsource(type(model))
            code, quantized = convert(ctx, model, source, f"hazards-{name}")
            if code is None:
                continue
            ctx.state(name)
            with ff.strict_quantization(False):
                compare(ctx, model, quantized, [((torch.randn(4, 4) * s,), {}) for s in (1, -1, 2)], source, code, f"hazards-{name}", ops=False)


@section(quick=12, thorough=120, requires=("refused overwrites", "packages"))
def files(ctx):
    """Output is written where asked, and files are only overwritten on request."""
    rng = ctx.rng
    with Package(ctx, net=Flow(rng, 2).build()) as pkg:
        model = pkg.load().Net().eval()
        root = ctx.scratch()
        name = rng.choice(["gen", "gen_2", "Gen"])
        package = rng.random() < 0.5
        target = root / "sub" / name if package else root / "sub" / f"{name}.py"
        file = target / "__init__.py" if package else target
        ctx.state(package, name)
        other = root / "sub" / "other.py"
        other.parent.mkdir()
        other.write_text("# mine\n")
        result = ff.autoquantize(model, output_path=target, use_type_inference=False, auto_import=False)
        ctx.check(result.pymodule is None, "files-import", "imported without being asked to")
        ctx.equal(file.read_text(), result.code, "files-content", "the file is not the code")
        ctx.equal(result.pymodule_name, name, "files-name", "module name")
        if package:
            ctx.event("packages")
        file.write_text("# precious\n")
        ctx.raises(FileExistsError, lambda: ff.autoquantize(model, output_path=target, use_type_inference=False), "files-refuse", "an existing file is not overwritten")
        ctx.equal(file.read_text(), "# precious\n", "files-refuse", "the existing file changed")
        ctx.event("refused overwrites")
        again = ff.autoquantize(model, output_path=target, force_overwrite=True, **CONVERT)
        ctx.equal(file.read_text(), again.code, "files-force", "the file was not overwritten")
        ctx.equal(again.code, result.code, "files-same", "conversions differ")
        ctx.check(again.pymodule is not None and hasattr(again.pymodule, "QuantizedNet"), "files-import", "the generated module is imported")
        ctx.equal(sorted(str(p.relative_to(root / "sub")) for p in (root / "sub").rglob("*") if "__pycache__" not in str(p)), sorted([*([name] if package else []), str(file.relative_to(root / "sub")), "other.py"]), "files-others", "files were created or removed")
        ctx.equal(other.read_text(), "# mine\n", "files-others", "another file changed")
