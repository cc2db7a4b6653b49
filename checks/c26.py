"""C26: export pipelines run every stage once, after its dependencies, with their results."""

import itertools
import warnings

import numpy as np
import onnx
import torch

import fastforward as ff

from fastforward.export.pipeline import ExportOrchestrator, ExportRequest
from fastforward.export.pipeline.core import Pipeline
from fastforward.export.pipeline.qnn_onnx_pipeline import qnn_onnx_pipeline
from fastforward.export.pipeline.qnn_onnx_qdq_pipeline import qnn_onnx_qdq_pipeline
from fastforward.export.pipeline.registry import PipelineRegistry, build_default_registry

from checks.c23 import quiet
from ffmon.core import section

META = {
    "technique": "runtime monitoring: recording stages log every execution (inputs, context, order) of pipelines that random histories of edits build; an online checker compares the log with an independent model of the graph",
    "level_note": "Histories of registrations, insertions before and after, replacements, added and removed dependencies, dependencies on foreign and removed stages, self-loops and cycles, duplicate and unknown names, and runs in which stages at any position fail. After each operation the exceptions and the graph, and in each run the executions, inputs in declared order, captured outputs and comparisons of evaluation stages must be those of the model; rejected operations must leave everything unchanged. The real export pipelines are edited as well (identity stages inserted after each stage, each stage replaced by a wrapper) and must still write the same files. Registries and orchestrators are monitored with random keys and options.",
    "rule": "distinct (graph, edit history) shapes",
}

warnings.simplefilter("ignore")


class Boom(Exception):
    pass


class Log:
    def __init__(self):
        self.calls = []
        self.fail = None
        self.mutate = None


class MStage:
    """A stage of the model."""

    def __init__(self, name, ref, captured, is_eval):
        self.name, self.ref, self.captured, self.is_eval = name, ref, captured, is_eval
        self.deps = []
        self.tag = None


class Model:
    def __init__(self):
        self.stages = []

    def find(self, name):
        return next((s for s in self.stages if s.name == name), None)

    def reaches(self, src, dst):
        seen, todo = set(), [src]
        while todo:
            s = todo.pop()
            if s is dst:
                return True
            if id(s) not in seen:
                seen.add(id(s))
                todo += s.deps
        return False

    def valid(self):
        return all(d in self.stages for s in self.stages for d in s.deps) and not any(self.reaches(d, s) for s in self.stages for d in s.deps)

    def shape(self):
        return tuple((s.name, tuple(d.name for d in s.deps), s.captured, s.is_eval, s.tag) for s in self.stages)


def stage_fn(log, tag, n_out):
    def fn(modules, sample_inputs, context):
        log.calls.append((tag, modules, sample_inputs, dict(context)))
        if log.mutate == tag:
            context["leak"] = tag
            context["number"] = -1
        if log.fail == tag:
            raise Boom(tag)
        return [torch.full((2, 3), float(tag)) + i for i in range(n_out)]

    return fn


def check_run(ctx, pipe, model, log, kwargs):
    rng = ctx.rng
    module, inputs = torch.nn.Identity(), [((torch.ones(2),), {})]
    log.calls.clear()
    log.fail = rng.choice(model.stages).tag if model.stages and rng.random() < 0.3 else None
    log.mutate = rng.choice(model.stages).tag if model.stages and rng.random() < 0.2 else None
    metric_calls = []

    def metric(a, b):
        metric_calls.append((a.shape, b.shape))
        return (a.double() * 3 - b.double()).sum()

    if not model.valid():
        ctx.raises((ValueError,), lambda: pipe(module, inputs, eval_metric=metric), "invalid", "a graph with a cycle or an unknown stage")
        ctx.equal(len(log.calls), 0, "invalid-ran", "stages of an invalid pipeline were executed")
        ctx.event("invalid-graph")
        return
    failed = log.fail
    by_tag = {s.tag: s for s in model.stages}
    try:
        out, evals = pipe(module, inputs, eval_metric=metric)
        raised = False
    except Boom as e:
        raised = True
        ctx.equal(e.args[0], failed, "error")
    ctx.equal(raised, failed is not None, "failure", "failure of a stage was not reported")
    tags = [c[0] for c in log.calls]
    ctx.equal(len(set(tags)), len(tags), "once", "a stage was executed twice")
    pos = {t: i for i, t in enumerate(tags)}
    if not raised:
        ctx.equal(set(tags), set(by_tag), "all", "stages executed")
    for tag, modules, ins, context in log.calls:
        s = by_tag[tag]
        for d in s.deps:
            ctx.check(pos.get(d.tag, 99) < pos[tag], "order", f"{s.name} ran before {d.name}")
        ctx.check(isinstance(modules, tuple), "inputs", "inputs are a tuple")
        if not s.deps:
            ctx.check(len(modules) == 1 and modules[0] is module, "root-input", f"{s.name} got {modules}")
        else:
            ctx.equal([float(m[0][0, 0]) for m in modules], [float(d.tag) for d in s.deps], "inputs", f"results passed to {s.name}")
        ctx.check(ins is inputs or ins == inputs, "sample-inputs")
        if log.mutate is None:
            ctx.equal(context, kwargs, "context", f"context of {s.name}")
        ctx.event("executions")
    if raised:
        for s in model.stages:
            if s.tag in pos and s.tag != failed:
                ctx.check(not model.reaches(s, by_tag[failed]), "dependents", f"{s.name} ran although a stage that it depends on failed")
        ctx.event("failed-runs")
        return
    ctx.equal({k: [float(t[0, 0]) for t in v] for k, v in out.items()}, {s.name: [s.tag + i for i in range(s.n_out)] for s in model.stages if s.captured}, "captured")
    ev = [s for s in model.stages if s.is_eval]
    want = {}
    for a, b in itertools.combinations(ev, 2):
        vals = [float(((torch.full((6,), float(a.tag)) + i).double() * 3 - (torch.full((6,), float(b.tag)) + i).double()).sum()) for i in range(min(a.n_out, b.n_out))]
        want[(a.name, b.name)] = sum(vals) / len(vals)
    ctx.equal({(a.name, b.name): float(v) for (a, b), v in evals.items()}, want, "evaluation")
    ctx.event("runs")


@section(quick=6000, thorough=300000)
def histories(ctx):
    rng = ctx.rng
    log = Log()
    kwargs = {"number": rng.randrange(9), "list": [1, 2]}
    pipe = Pipeline(dict(kwargs))
    other = Pipeline()
    foreign = other.register_stage(lambda *a, **k: None, "foreign")
    model, removed, tags = Model(), [], itertools.count(10, 10)
    names = [f"s{i}" for i in range(rng.choice([4, 8, 12]))]
    hist = []

    def new(name, capture, is_eval):
        tag, n = next(tags), rng.choice([1, 1, 2])
        ms = MStage(name, None, capture, is_eval)
        ms.tag, ms.n_out = tag, n
        return ms, stage_fn(log, tag, n)

    def attempt(fn, fails, excs, op):
        hist.append(op)
        before = model.shape()
        if fails:
            ctx.raises(excs, fn, "reject", f"{op} on {before}")
            ctx.event("rejected")
            return None
        return fn()

    for _ in range(rng.choice([6, 15, 40])):
        op = rng.choice(["register"] * 4 + ["eval", "before", "before-explicit", "after", "after", "replace", "replace", "add", "add", "add", "remove", "depends", "get", "run", "run"])
        if len(model.stages) >= len(names) and op in ("register", "eval") and rng.random() < 0.7:
            op = "run"
        name = rng.choice(names)
        target = rng.choice(model.stages).name if model.stages and rng.random() < 0.93 else rng.choice([*names, "missing"])
        t, dup = model.find(target), model.find(name) is not None
        cap = rng.random() < 0.4
        if op in ("register", "eval"):
            ms, fn = new(name, cap, op == "eval")
            reg = pipe.register_eval_stage if op == "eval" else pipe.register_stage
            ref = attempt(lambda: reg(fn, name, cap) if rng.random() < 0.5 else reg(fn, name, capture_stage_output=cap), dup, ValueError, (op, name))
            if ref is None:
                continue
            ms.ref = ref
            deps = rng.sample(model.stages, min(len(model.stages), rng.choice([0, 1, 1, 2, 3])))
            ctx.check(ref.depends_on(*[d.ref for d in deps]) is ref, "chain", "depends_on returns the stage")
            ms.deps = deps
            model.stages.append(ms)
        elif op == "before":
            ms, fn = new(name, cap, False)
            bad = t is None or dup
            ref = attempt(lambda: pipe.insert_stage_before(target, fn, name, capture_stage_output=cap), bad, (KeyError,) if t is None else (ValueError,), (op, target, name))
            if ref is None:
                continue
            ms.ref, ms.deps, t.deps = ref, list(t.deps), [ms]
            model.stages.append(ms)
        elif op == "before-explicit":
            ms, fn = new(name, cap, False)
            deps = rng.sample(model.stages, min(len(model.stages), rng.choice([0, 1, 2])))
            dn = [d.name for d in deps] + (["missing"] if rng.random() < 0.15 else [])
            unknown = t is None or "missing" in dn
            it = rng.choice([list, tuple, iter])(dn)
            ref = attempt(lambda: pipe.insert_stage_before(target, fn, name, depends_on=it, capture_stage_output=cap), unknown or dup, (KeyError, ValueError) if unknown and dup else (KeyError,) if unknown else (ValueError,), (op, target, name, dn))
            if ref is None:
                continue
            ms.ref, ms.deps = ref, deps
            model.stages.append(ms)
        elif op == "after":
            ms, fn = new(name, cap, False)
            ref = attempt(lambda: pipe.insert_stage_after(target, fn, name, capture_stage_output=cap), t is None or dup, (KeyError,) if t is None else (ValueError,), (op, target, name))
            if ref is None:
                continue
            ms.ref, ms.deps = ref, [t]
            for s in model.stages:
                s.deps = [ms if d is t else d for d in s.deps]
            model.stages.append(ms)
        elif op == "replace":
            new_name = rng.choice([None, None, target, name])
            capture = rng.choice([None, None, True, False])
            bad = t is None or (new_name is not None and new_name != target and model.find(new_name) is not None)
            ms, fn = new(new_name or target, False, False)
            ref = attempt(lambda: pipe.replace_stage(target, fn, new_name, capture_stage_output=capture), bad, (KeyError,) if t is None else (ValueError,), (op, target, new_name, capture))
            if ref is None:
                continue
            ms.ref, ms.deps, ms.is_eval = ref, list(t.deps), t.is_eval
            ms.captured = t.captured if capture is None else capture
            for s in model.stages:
                s.deps = [ms if d is t else d for d in s.deps]
            model.stages[model.stages.index(t)] = ms
            removed.append(t)
        elif op == "add":
            other_name = rng.choice(model.stages).name if model.stages and rng.random() < 0.95 else "missing"
            d = model.find(other_name)
            cyc = t is not None and d is not None and model.reaches(d, t)
            attempt(lambda: pipe.add_dependency(target, other_name), t is None or d is None or cyc, (KeyError,) if t is None or d is None else (ValueError,), (op, target, other_name))
            if t is not None and d is not None and not cyc and d not in t.deps:
                t.deps.append(d)
        elif op == "remove":
            d = rng.choice(t.deps) if t is not None and t.deps and rng.random() < 0.8 else model.find(rng.choice(names))
            dn = d.name if d is not None else "missing"
            known = model.find(dn) is not None
            bad = t is None or not known or model.find(dn) not in t.deps
            attempt(lambda: pipe.remove_dependency(target, dn), bad, (KeyError,), (op, target, dn))
            if not bad:
                t.deps.remove(model.find(dn))
        elif op == "depends" and t is not None and rng.random() < 0.3:
            # Raw references are not validated before the pipeline is built.
            kind = rng.choice(["ok", "foreign", "removed", "cycle"])
            if kind == "foreign":
                hist.append((op, kind))
                t.ref.depends_on(foreign)
                ctx.raises((ValueError,), lambda: pipe(torch.nn.Identity(), []), "foreign", "dependency on a stage of another pipeline")
                return
            elif kind == "removed" and removed and removed[-1].ref not in t.ref.dependencies:
                t.ref.depends_on(removed[-1].ref)
                ctx.raises((ValueError,), lambda: pipe(torch.nn.Identity(), []), "removed", "dependency on a replaced stage")
                return
            elif kind == "cycle":
                d = rng.choice(model.stages)
                if d not in t.deps:
                    hist.append((op, target, d.name))
                    t.ref.depends_on(d.ref)
                    t.deps.append(d)
                    if not model.valid():
                        check_run(ctx, pipe, model, log, kwargs)
                        pipe.remove_dependency(target, d.name)
                        t.deps.remove(d)
            continue
        elif op == "get":
            if t is None:
                ctx.raises((KeyError,), lambda: pipe.get_stage(target), "get")
            else:
                ctx.check(pipe.get_stage(target) is t.ref, "get", target)
                ctx.equal(str(t.ref), target, "get-name")
        elif op == "run":
            ctx.note(history=hist, graph=model.shape())
            check_run(ctx, pipe, model, log, kwargs)
            continue
        ctx.event("edits")
        for s in model.stages:
            ctx.equal([d.name for d in s.ref.dependencies], [d.name for d in s.deps], "dependencies", f"dependencies of {s.name} after {hist[-1]}")
    ctx.note(history=hist, graph=model.shape())
    for _ in range(2):
        check_run(ctx, pipe, model, log, kwargs)
    ctx.state(len(model.stages), sum(len(s.deps) for s in model.stages), tuple(h[0] for h in hist))


@section(quick=160, thorough=8000)
def registries(ctx):
    rng = ctx.rng
    reg = rng.choice([PipelineRegistry, build_default_registry])()
    have = {} if not reg.has("qnn", "onnx") else {k: reg.get(*k) for k in [("qnn", "onnx"), ("qnn", "onnx_qdq"), ("gguf", "llama_cpp")]}

    def spell(s):
        return rng.choice([s, s.upper(), f" {s}", s.title() + "\t", f"\n{s} "])

    for _ in range(rng.choice([4, 12])):
        key = rng.choice([("qnn", "onnx"), ("a", "b"), ("a", "c"), ("ab", ""), ("", "ab"), ("gguf", "llama_cpp")])
        op = rng.choice(["register", "get", "has", "replace", "export"])
        sp = (spell(key[0]), spell(key[1]))
        if op in ("register", "replace"):
            f = lambda c: Pipeline(c)  # noqa: E731
            if op == "register" and key in have:
                ctx.raises((ValueError,), lambda: reg.register(*sp, f), "duplicate", f"{sp}")
            else:
                reg.register(*sp, f, replace=op == "replace" or rng.random() < 0.5)
                have[key] = f
        elif op == "get":
            if key in have:
                ctx.check(reg.get(*sp) is have[key], "get", f"{sp}")
            else:
                ctx.raises((KeyError,), lambda: reg.get(*sp), "missing", f"{sp}")
        elif op == "has":
            ctx.equal(reg.has(*sp), key in have, "has", f"{sp}")
        else:
            seen = []

            def factory(context):
                seen.append(context)
                p = Pipeline(context)
                a = p.register_stage(lambda m, sample_inputs, context: (m, sample_inputs, context), "a", True)
                p.register_stage(lambda m, sample_inputs, context: "end", "b", rng.random() < 0.5).depends_on(a)
                return p

            direct = rng.random() < 0.4
            if not direct:
                reg.register(*sp, factory, replace=True)
                have[key] = factory
            where = ctx.scratch() / "deep" / "er"
            opts = {f"o{i}": i for i in range(rng.randrange(3))}
            mod, ins = torch.nn.Identity(), [((1,), {})]
            art = ExportOrchestrator(reg).export(ExportRequest(model=mod, sample_inputs=ins, output_dir=str(where) if rng.random() < 0.5 else where, model_name="nm", target=spell(key[0]) if not direct else "none", format=spell(key[1]), pipeline_factory=factory if direct else None, options=opts))
            ctx.equal(len(seen), 1, "factory")
            ctx.equal({k: v for k, v in seen[0].items()}, {"output_dir": where, "model_name": "nm", **opts}, "context")
            ctx.check(where.is_dir(), "output-dir")
            m, s, c = art.stage_outputs["a"]
            ctx.check(m[0] is mod and s is ins, "request")
            ctx.equal(c["model_name"], "nm", "context")
            ctx.event("exports")
    ctx.event("registry-histories")
    ctx.state(len(have))


def small_model(rng):
    torch.manual_seed(rng.randrange(1000))
    lin = ff.nn.QuantizedLinear(4, 3)
    lin.weight_quantizer = ff.nn.LinearQuantizer(8, granularity=ff.PerChannel(0))
    lin.output_quantizer = ff.nn.LinearQuantizer(8, symmetric=False)
    lin.weight_quantizer.quantization_range = (-torch.ones(3), torch.ones(3))
    lin.output_quantizer.quantization_range = (-2.0, 3.0)
    return torch.nn.Sequential(lin, torch.nn.ReLU()).eval(), [((torch.randn(2, 4),), {})]


def files(where):
    out = {}
    for p in sorted(where.iterdir()):
        if p.suffix == ".onnx":
            g = onnx.load(p).graph
            out[p.name] = ([(n.op_type, list(n.input), list(n.output)) for n in g.node], {t.name: np.array(onnx.numpy_helper.to_array(t)).tolist() for t in g.initializer})
        elif p.suffix in (".json", ".encodings"):
            out[p.name] = p.read_text()
        else:
            out[p.name] = None
    return out


def stage_names(build):
    names, orig = [], Pipeline.register_stage

    def register_stage(self, stage_fn, name, *args, **kwargs):
        names.append(name)
        return orig(self, stage_fn, name, *args, **kwargs)

    Pipeline.register_stage = register_stage
    try:
        build({})
    finally:
        Pipeline.register_stage = orig
    return names


@section(quick=32, thorough=500)
def real(ctx):
    """Editing the export pipelines in ways that change nothing must change nothing."""
    rng = ctx.rng
    build = rng.choice([qnn_onnx_pipeline, qnn_onnx_qdq_pipeline])
    names = stage_names(build)
    model, ins = small_model(rng)
    ran = []

    def edited(context):
        pipe = build(context)
        for i in range(rng.choice([1, 2, 4])):
            target = rng.choice(names)
            op = rng.choice(["after", "replace", "replace", "before"])
            ref = pipe.get_stage(target)
            if op == "after":
                pipe.insert_stage_after(target, lambda m, sample_inputs, context, k=f"id{i}": (ran.append(k), m[0])[1], f"id{i}")
            elif op == "replace":
                pipe.replace_stage(target, lambda m, sample_inputs, context, f=ref.stage_fn, k=f"w{i}-{target}": (ran.append(k), f(m, sample_inputs=sample_inputs, context=context))[1])
            elif len(ref.dependencies) == 1 or not ref.dependencies:
                pipe.insert_stage_before(target, lambda m, sample_inputs, context, k=f"b{i}": (ran.append(k), m[0])[1], f"b{i}")
            else:
                continue
            edits.append((op, target))
        return pipe

    edits, got = [], []
    ctx.note(edits=edits, pipeline=build.__name__)
    for factory in (build, edited):
        where = ctx.scratch()
        with quiet():
            art = ExportOrchestrator().export(ExportRequest(model=model, sample_inputs=ins, output_dir=where, model_name="mm", target="", format="", pipeline_factory=factory, options={"verbose": False}))
        got.append((files(where), sorted(art.stage_outputs)))
    ctx.equal(got[1], got[0], "same-files", f"{build.__name__} edited by {edits}")
    ctx.equal(len(set(ran)), len(ran), "once", "an inserted stage ran twice")
    ctx.event("exports")
    ctx.state(build.__name__, tuple(edits))
