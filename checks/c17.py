"""C17: quantizer initialisation follows the configured rules exactly."""

import functools
import warnings

import torch

import fastforward as ff

from fastforward import mpath
from fastforward.exceptions import QuantizationError
from fastforward.mpath import fragments
from fastforward.nn.quantizer import QuantizerMetadata, QuantizerStub, Tag

from checks import c18
from ffmon import gen, peek
from ffmon.core import section

META = {
    "technique": "runtime monitoring: every initialisation of a generated model by a generated rule list is observed through recording factories and compared with an independent evaluation of the rules; policies, repeated runs and failing factories are decided by a monitor of the model's quantizer slots",
    "level_note": "Random module trees (quantized and plain modules, shared parents, empty slots, tagged stubs, initialised quantizers) and rule lists (text and object queries, quantizer classes with arguments, factories, callables, overridden precedence) are initialised under every policy. The oracle enumerates all paths of the tree and evaluates each rule's syntax tree; the monitor requires exactly one factory call per selected quantizer, with its own name and current quantizer, the winning rule's configuration in exactly the selected slots, unchanged identity and parameters elsewhere and a report equal to the model, also after failures.",
    "rule": "distinct (rule shapes, policy, outcome) signatures",
}

TAGS = ["activation", "activation/output", "activation/input", "parameter/weight", "parameter/bias", "x", "x/y"]
SLOTS = ["weight_quantizer", "bias_quantizer", "output_quantizer", "input_quantizer", "q1", "a", "0"]


class Plain(torch.nn.Module):
    pass


class QA(ff.nn.QuantizedModule, Plain):
    pass


class QB(QA):
    pass


class Custom(ff.nn.LinearQuantizer):
    def __init__(self, bits, *, mode="m"):
        super().__init__(bits)
        self.mode = mode


CLASSES = {
    "Plain": Plain, "QA": QA, "QB": QB, "ff.nn.QuantizerStub": ff.nn.QuantizerStub, "ff.nn.LinearQuantizer": ff.nn.LinearQuantizer,
    "ff.nn.Quantizer": ff.nn.Quantizer, "torch.nn.ReLU": torch.nn.ReLU,
}


def make_quantizer(ctx, tags):
    rng = ctx.rng
    k = rng.random()
    if k < 0.65:
        q = QuantizerStub(*[t if rng.random() < 0.5 else Tag(t) for t in tags])
    elif k < 0.8:
        q = ff.nn.LinearQuantizer(rng.choice([3, 5]))
        if rng.random() < 0.6:
            q.quantization_range = (-1.0, rng.random() + 0.1)
    elif k < 0.9:
        q = ff.nn.DynamicLinearQuantizer(4)
    else:
        q = Custom(3)
    if q.quant_metadata is None and (tags or rng.random() < 0.5):
        q.quant_metadata = QuantizerMetadata(*tags)
    return q


def tree(ctx, depth, pool):
    rng = ctx.rng
    cls = rng.choice([QA, QA, QB, Plain, torch.nn.ReLU])
    m = cls()
    if isinstance(m, ff.nn.QuantizedModule):
        m.__init_quantization__()
    slots = {}
    for n in rng.sample(SLOTS, rng.choice([0, 1, 1, 2, 3])):
        if rng.random() < 0.08:
            (m.register_quantizer if isinstance(m, ff.nn.QuantizedModule) else m.register_module)(n, None)
            continue
        tags = rng.sample(TAGS, rng.choice([0, 1, 1, 2]))
        q = make_quantizer(ctx, tags)
        slots[n] = tags
        setattr(m, n, q)
    object.__setattr__(m, "_ffmon_slots", slots)
    if depth:
        for n in rng.sample(["a", "b", "ab", "0", "layer", "q1"], rng.randint(0 if depth < 3 else 1, 3)):
            if n in m._modules:
                continue
            if pool and rng.random() < 0.12:
                m.add_module(n, rng.choice(pool))
            else:
                m.add_module(n, tree(ctx, depth - 1, pool))
    pool.append(m)
    return m


class View:
    """The quantizer slots of a model: (id of the parent, attribute) -> names, tags, current quantizer."""

    def __init__(self, root):
        self.slots = {}
        for pname, parent in root.named_modules(remove_duplicate=False):
            for attr, child in parent._modules.items():
                if isinstance(child, ff.nn.Quantizer):
                    s = self.slots.setdefault((id(parent), attr), {"parent": parent, "attr": attr, "names": set(), "tags": parent._ffmon_slots.get(attr), "q": child})
                    s["names"].add((pname + "." if pname else "") + attr)


def tag_match(want, have):
    return all(any(h == t or h.startswith(t + "/") for h in have) for t in want)


def match_elem(f, name, module, tags):
    if f[0] == "qtag":
        return tags is not None and tag_match(f[1], tags)
    if f[0] == "kls":
        return isinstance(module, CLASSES[f[1]])
    if f[0] == "not":
        return not match_elem(f[1], name, module, tags)
    return c18.matches(f, name, module)


def ends(elems, path, start):
    current = {start}
    for e in elems:
        after = set()
        for j in current:
            if e[0] == "**":
                after |= set(range(j, len(path) + 1))
            elif e[0] == "alt":
                for s in e[1]:
                    after |= ends(s, path, j)
            elif j < len(path) and match_elem(e, *path[j]):
                after.add(j + 1)
        current = after
    return current


def all_paths(m, pre=()):
    for n, c in m._modules.items():
        if c is not None:
            tags = getattr(m, "_ffmon_slots", {}).get(n) if isinstance(c, ff.nn.Quantizer) else None
            p = pre + ((n, c, tags),)
            yield p
            if not isinstance(c, ff.nn.Quantizer):
                yield from all_paths(c, p)


def denoted(paths, q):
    """id(quantizer) -> the names under which the query selects it."""
    out = {}
    for p in paths:
        if isinstance(p[-1][1], ff.nn.Quantizer) and len(p) in ends(q, p, 0):
            out.setdefault(id(p[-1][1]), set()).add(".".join(x[0] for x in p))
    return out


def last(rng):
    k = rng.random()
    if k < 0.35:
        e = ("qtag", rng.sample(TAGS, rng.choice([1, 1, 2])))
    elif k < 0.55:
        e = ("name", rng.choice(SLOTS))
    elif k < 0.65:
        e = ("kls", rng.choice(list(CLASSES)))
    elif k < 0.75:
        e = ("re", rng.choice([".*_quantizer", "[ab].*", "(weight|bias)_quantizer", "q\\d"]), "re")
    elif k < 0.85:
        return ("*",)
    else:
        return ("**",)
    return ("not", e) if rng.random() < 0.2 else e


def query(rng):
    k = rng.random()
    if k < 0.15:
        return [("**",)]
    if k < 0.6:
        return [("**",), last(rng)]
    head = [rng.choice([("**",), ("*",), ("name", rng.choice(["a", "b", "0", "layer"])), ("kls", rng.choice(list(CLASSES))), ("re", "[ab]+", "re")]) for _ in range(rng.randint(0, 2))]
    if rng.random() < 0.3:
        return head + [("alt", [[last(rng)], [("*",), last(rng)]])]
    return head + [last(rng)]


def show(q):
    def one(e):
        if e[0] == "qtag":
            return f"[quantizer:{', '.join(e[1])}]"
        if e[0] == "kls":
            return f"[cls:{e[1]}]"
        if e[0] == "not":
            return "~" + one(e[1])
        if e[0] == "alt":
            return "{" + ", ".join(show(s) for s in e[1]) + "}"
        return c18._show(e, None)

    return "/".join(one(e) for e in q)


class Boom(Exception):
    pass


class Recorder:
    """Rule factories that record what they are asked for."""

    def __init__(self, ctx):
        self.ctx, self.calls, self.made = ctx, [], {}
        self.fail_at = None

    def record(self, rule, name, current, new):
        self.calls.append((rule, name, current, new))
        self.made[id(new)] = rule

    def rule(self, i):
        """(factory, kwargs, verify(quantizer)) of rule i."""
        rng = self.ctx.rng
        k = rng.choice(["class", "class", "callable", "callable", "partial", "object", "factory", "custom"])
        bits = 2 + i

        def check_bits(q):
            return type(q) is ff.nn.LinearQuantizer and q.num_bits == bits

        def fn(name, current, *, kind=k):
            if self.fail_at is not None and len(self.calls) == self.fail_at:
                raise Boom(name)
            q = ff.nn.LinearQuantizer(bits)
            self.record(i, name, current, q)
            return q

        if k == "class":
            sym = rng.random() < 0.5
            gran = rng.choice([ff.PerTensor(), ff.PerChannel(0)])
            self.ctx.event("class-rule")
            return ff.nn.LinearQuantizer, dict(num_bits=bits, symmetric=sym, granularity=gran), lambda q: check_bits(q) and q.symmetric is sym and q.granularity is gran
        if k == "custom":
            return Custom, dict(bits=bits, mode=f"r{i}"), lambda q: type(q) is Custom and q.num_bits == bits and q.mode == f"r{i}"
        if k == "factory":
            return Custom.factory(bits, mode=f"r{i}"), {}, lambda q: type(q) is Custom and q.num_bits == bits and q.mode == f"r{i}"
        self.ctx.event("callable-rule")
        kw = {"num_bits": 9} if rng.random() < 0.2 else {}  # ignored for callables
        if k == "partial":
            return functools.partial(fn, kind="p"), kw, check_bits
        if k == "object":
            class F:
                def __call__(self, name, current):
                    return fn(name, current)
            return F(), kw, check_bits
        return fn, kw, check_bits


class Scored(ff.QuantizationConfig):
    """Precedence that depends on the rule and on the result."""

    def __init__(self, scores):
        super().__init__()
        self.scores = scores

    def precedence_score(self, rule, result):
        return self.scores(peek.position(self, rule), result.module)


def q_state(q):
    ps = tuple((n, "lazy" if torch.nn.parameter.is_lazy(p) else (gen.fingerprint(p), id(p))) for n, p in list(q.named_parameters()) + list(q.named_buffers()))
    return type(q), ps, repr(q), (None if q.quant_metadata is None else frozenset(peek.tags(q.quant_metadata)))


def everything(root):
    return {n: id(m) for n, m in root.named_modules(remove_duplicate=False) if not isinstance(m, ff.nn.Quantizer)}


def new_slot(ctx, s, q, verify, label):
    name = sorted(s["names"])[0]
    ctx.check(q is not s["q"], "initialised", f"{label}: {name} kept its quantizer")
    ctx.check(verify(q), "configuration", f"{label}: {name} is {q!r}")
    if isinstance(s["parent"], ff.nn.QuantizedModule):
        # the slot keeps its role
        ctx.check(q.quant_metadata is not None, "metadata", name)
        for t in TAGS:
            ctx.check((t in q.quant_metadata) == tag_match([t], s["tags"]), "metadata", f"{label}: tag {t} of {name} ({s['tags']})")


POLICIES = ["error", "skip", "overwrite"]


@section(
    quick=6000, thorough=90000,
    requires=("initialised", "untouched", "overlap", "class-rule", "callable-rule", "overwritten", "skipped", "refused", "scored", "illegal-policy", "shared-parent"),
)
def rules(ctx):
    """A rule list against the oracle."""
    rng = ctx.rng
    root = tree(ctx, 3, [])
    rec = Recorder(ctx)
    n_rules = rng.choice([0, 1, 2, 3, 3, 5, 8])
    qs = [query(rng) for _ in range(n_rules)]
    specs = [rec.rule(i) for i in range(n_rules)]
    scores = None
    if rng.random() < 0.3 and n_rules:
        table = {}
        seed = rng.randrange(10**6)
        def scores(i, module):
            return table.setdefault((i, type(module).__name__), (seed * (i + 3) * (len(type(module).__name__) + 1)) % 3)
        config = Scored(scores)
        ctx.event("scored")
    else:
        config = ff.QuantizationConfig()
    for q, (factory, kw, _) in zip(qs, specs):
        text = show(q)
        if rng.random() < 0.3:
            r = config.add_rule(mpath.query(text), factory, **kw)
        else:
            r = config.add_rule(text, factory, **kw)
        ctx.check(r is config, "chaining", "")
    printed = repr(config)
    ctx.check(printed.count("=>") == n_rules, "printed", printed)
    policy = rng.choice(POLICIES + (["nonsense"] if rng.random() < 0.1 else []))
    label = f"{[show(q) for q in qs]} under {policy}"
    ctx.note(rules=[show(q) for q in qs], policy=policy)
    before = View(root)
    paths = list(all_paths(root))
    winner = {}
    for i, q in enumerate(qs):
        for ident, names in denoted(paths, q).items():
            module = next(p[-1][1] for p in paths if id(p[-1][1]) == ident)
            sc = scores(i, module) if scores else 1
            if ident in winner:
                ctx.event("overlap")
            if ident not in winner or sc >= winner[ident][2]:
                winner[ident] = (i, names, sc)
    states = {k: q_state(s["q"]) for k, s in before.slots.items()}
    others = everything(root)
    occupied = [k for k, s in before.slots.items() if id(s["q"]) in winner and not s["q"].is_stub()]
    kw = {} if policy == "error" and rng.random() < 0.5 else {"overwrite_policy": policy}
    if rng.random() < 0.3:
        kw["safe"] = rng.random() < 0.5
    if occupied and policy in ("error", "nonsense"):
        ctx.raises(QuantizationError if policy == "error" else ValueError, lambda: config.initialize(root, **kw), "refused", label)
        ctx.event("refused" if policy == "error" else "illegal-policy")
        for k in occupied:
            s = before.slots[k]
            ctx.check(getattr(s["parent"], s["attr"]) is s["q"] and q_state(s["q"]) == states[k], "refused-changed", f"{label}: {sorted(s['names'])}")
    else:
        config.initialize(root, **kw)
    failed = bool(occupied) and policy in ("error", "nonsense")
    ctx.equal(everything(root), others, "modules", label)
    after = View(root)
    ctx.equal(sorted(after.slots), sorted(before.slots), "slots", label)
    seen = set()
    for k, s in before.slots.items():
        q = after.slots[k]["q"]
        name = sorted(s["names"])
        if len(name) > 1:
            ctx.event("shared-parent")
        ctx.check(id(q) not in seen, "one-object-per-slot", f"{label}: {name}")
        seen.add(id(q))
        w = winner.get(id(s["q"]))
        replaced = w is not None and (s["q"].is_stub() or policy == "overwrite")
        if replaced and failed and q is s["q"]:
            replaced = False  # the run ended before this one
        if replaced:
            new_slot(ctx, s, q, specs[w[0]][2], label)
            ctx.event("initialised")
            ctx.event("overwritten", not s["q"].is_stub())
        else:
            ctx.check(q is s["q"], "untouched", f"{label}: {name} was replaced by {q!r}")
            ctx.equal(q_state(q), states[k], "untouched", f"{label}: {name}")
            ctx.event("skipped" if w is not None and not failed else "untouched")
    # the factories were called once per selected quantizer, for that quantizer
    by_old = {id(s["q"]): s for s in before.slots.values()}
    called = set()
    for i, name, current, new in rec.calls:
        ctx.check(id(current) in by_old, "call-current", f"{label}: {name}")
        s = by_old[id(current)]
        ctx.check(name in s["names"] and name in winner[id(current)][1] and winner[id(current)][0] == i, "call-name", f"{label}: rule {i} called for {name}, slot {sorted(s['names'])}")
        ctx.check(id(current) not in called, "called-twice", f"{label}: {name}")
        called.add(id(current))
        ctx.check(getattr(s["parent"], s["attr"]) is new, "call-result", f"{label}: {name}")
    # once more: nothing is left to do
    if not failed:
        ids = {k: id(s["q"]) for k, s in after.slots.items()}
        calls = len(rec.calls)
        again = Scored(scores) if scores else ff.QuantizationConfig()
        for q, (factory, kwargs, _) in zip(qs, specs):
            again.add_rule(show(q), factory, **kwargs)
        # class conditions may select differently now; a stub that stayed a stub was not selected before
        if not any(("kls" in str(q)) for q in qs):
            again.initialize(root, overwrite_policy="skip")
            ctx.equal({k: id(s["q"]) for k, s in View(root).slots.items()}, ids, "repeated", label)
            ctx.equal(len(rec.calls), calls, "repeated", label)
    ctx.state(len(before.slots), len(winner), policy, failed, bool(scores), [c18.shape_of(q) for q in qs[:2]])


@section(quick=5000, thorough=70000, requires=("initialised", "stale", "boom", "unsafe", "refused", "appended", "algebra"))
def collections(ctx):
    """find_quantizers(...).initialize and the report it leaves."""
    rng = ctx.rng
    root = tree(ctx, 3, [])
    rec = Recorder(ctx)
    q = query(rng)
    text = show(q)
    with ctx.limit(30, "termination", text):
        found = ff.find_quantizers(root, text)
    before = View(root)
    paths = list(all_paths(root))
    want = denoted(paths, q)
    ctx.equal(sorted(id(m) for m in found.modules()), sorted(want), "selection", text)
    for n, m in found.named_modules():
        ctx.check(n in want[id(m)], "name", n)
    label = f"collection {text}"
    if rng.random() < 0.25 and not any(len(s["names"]) > 1 for s in before.slots.values()):
        q2 = query(rng)
        other = ff.find_quantizers(root, show(q2))
        op = rng.choice(["|", "&", "-", "^"])
        a, b = set(want), set(denoted(paths, q2))
        found = {"|": found | other, "&": found & other, "-": found - other, "^": found ^ other}[op]
        ids = {"|": a | b, "&": a & b, "-": a - b, "^": a ^ b}[op]
        label += f" {op} {show(q2)}"
        ctx.check(type(found) is type(other), "type", label)
        ctx.equal(sorted(id(m) for m in found.modules()), sorted(ids), "algebra", label)
        ctx.event("algebra")
    if rng.random() < 0.2:
        # results of quantizers can be added, others can not
        everything_found = mpath.search("**", root)
        for r in everything_found:
            if any(r.module is m for m in found.modules()):
                continue
            if isinstance(r.module, ff.nn.Quantizer):
                if rng.random() < 0.5:
                    found.append(r)
                    ctx.event("appended")
                    ctx.check(found[len(found) - 1] is r, "appended", r.full_name)
            else:
                n = len(found)
                ctx.raises(ValueError, lambda: found.append(r), "append-refused", r.full_name)
                ctx.equal(len(found), n, "append-refused", "")
        label += " + appended"
    factory, kw, verify = rec.rule(1)
    policy = rng.choice(POLICIES)
    order = [(r.full_name, r.module) for r in found]
    states = {k: q_state(s["q"]) for k, s in before.slots.items()}
    slot_of = {id(s["q"]): k for k, s in before.slots.items()}
    stale = None
    fault = rng.choice(["none", "none", "none", "boom", "stale", "unsafe"])
    if fault in ("stale", "unsafe") and order:
        name, old = rng.choice(order)
        s = before.slots[slot_of[id(old)]]
        replacement = Custom(7)
        setattr(s["parent"], s["attr"], replacement)
        stale = id(old)
    todo = [(n, m) for n, m in order if m.is_stub() or policy == "overwrite"]
    if fault == "boom" and todo and rec.ctx is ctx:
        rec.fail_at = rng.randrange(len(todo))
    expect, stop = None, None
    for n, m in order:
        if not m.is_stub() and policy == "error":
            expect, stop = QuantizationError, id(m)
            break
        if not m.is_stub() and policy == "skip":
            continue
        if rec.fail_at is not None and not isinstance(factory, type) and not getattr(factory, "__name__", "").endswith("_factory") and [x for _, x in todo].index(m) == rec.fail_at:
            expect, stop = Boom, id(m)
            ctx.event("boom")
            break
        if id(m) == stale and fault == "stale":
            expect, stop = ValueError, id(m)
            ctx.event("stale")
            break
    ctx.note(query=label, policy=policy, fault=fault)
    kw = dict(kw, overwrite_policy=policy, safe=fault != "unsafe")
    if expect is None:
        found.initialize(factory, **kw)
    else:
        ctx.raises(expect, lambda: found.initialize(factory, **kw), "refused", f"{label} {policy} {fault}")
        ctx.event("refused")
    ctx.equal([r.full_name for r in found], [n for n, _ in order], "report-names", label)
    done = True
    for r, (n, m) in zip(found, order):
        done = done and id(m) != stop
        s = before.slots[slot_of[id(m)]]
        now = getattr(s["parent"], s["attr"])
        if done and (m.is_stub() or policy == "overwrite"):
            new_slot(ctx, s, now, verify, label)
            ctx.check(r.module is now, "report", f"{label}: {n} reported as {r.module!r}, is {now!r}")
            ctx.event("initialised")
            if id(m) == stale:
                ctx.event("unsafe")
        elif id(m) == stale:
            ctx.check(now is replacement, "stale-applied", f"{label}: {n}")
        else:
            ctx.check(now is m and r.module is m, "untouched", f"{label}: {n}")
            ctx.equal(q_state(m), states[slot_of[id(m)]], "untouched", n)
    selected = {id(m) for _, m in order}
    for k, s in before.slots.items():
        if id(s["q"]) not in selected:
            ctx.check(getattr(s["parent"], s["attr"]) is s["q"] and q_state(s["q"]) == states[k], "untouched", str(s["names"]))
    # the report can be used again: continue where the run ended
    if expect in (Boom, QuantizationError) and stale is None:
        rec.fail_at = None
        found.initialize(factory, **dict(kw, overwrite_policy="skip"))
        for r, (n, m) in zip(found, order):
            s = before.slots[slot_of[id(m)]]
            now = getattr(s["parent"], s["attr"])
            ctx.check(now is r.module and not now.is_stub(), "continued", f"{label}: {n}")
    ctx.state(len(order), policy, fault, expect is None)


ROLES = {"weight_quantizer": "parameter/weight", "bias_quantizer": "parameter/bias", "input_quantizer": "activation/input", "output_quantizer": "activation/output"}


@section(quick=1000, thorough=10000, requires=("warned", "extended"))
def metadata(ctx):
    """A slot's role survives replacement; conflicts warn."""
    rng = ctx.rng
    m = QA()
    m.__init_quantization__()
    a = rng.sample(TAGS, rng.randint(0, 3))
    b = rng.sample(TAGS, rng.randint(0, 3))
    if rng.random() < 0.4:
        b = a + b
    attrs_a = {k: rng.choice([1, 2]) for k in rng.sample(["u", "v"], rng.randint(0, 2))}
    attrs_b = {k: rng.choice([1, 2]) for k in rng.sample(["u", "v"], rng.randint(0, 2))}
    shape_a, shape_b = rng.choice([None, (2, 3)]), rng.choice([None, (2, 3), (4,)])
    meta_a = QuantizerMetadata(*a, shape=shape_a, **attrs_a)
    meta_b = QuantizerMetadata(*b, shape=shape_b, **attrs_b)
    expand = lambda ts: {"/".join(t.split("/")[: i + 1]) for t in ts for i in range(len(t.split("/")))}  # noqa: E731
    extension = expand(a) <= expand(b) and all(attrs_b.get(k) == v for k, v in attrs_a.items()) and shape_a in (None, shape_b)
    ctx.equal(meta_a.is_extension(meta_b), extension, "is_extension", f"{meta_a} {meta_b}")
    for t in TAGS + ["y", "activation/"]:
        ctx.equal(t in meta_a, t in expand(a), "contains", f"{t} in {meta_a}")
        ctx.equal(Tag(t) in meta_b, t in expand(b), "contains", f"{t} in {meta_b}")
    for nm, t in (("weight_quantizer", "parameter/weight"), ("parameter_quantizer", "parameter"), ("output_quantizer", "activation/output"), ("activation_quantizer", "activation")):
        ctx.equal(getattr(meta_a, nm), t in expand(a), "role", nm)
    for k, v in attrs_a.items():
        ctx.equal(getattr(meta_a, k), v, "attribute", k)
    roles = {r: t for r, t in ROLES.items() if rng.random() < 0.4}
    flagged = rng.choice([QuantizerMetadata, lambda *ts, **kw: QuantizerStub(*ts, **kw).quant_metadata])(*a, **{r: True for r in roles}, **{r: False for r in ROLES if r not in roles and rng.random() < 0.3})
    held = expand([*a, *roles.values()])
    ctx.equal({repr(t) for t in peek.tags(flagged)}, held, "role-flags", f"{sorted(roles)} + {a}")
    for r, t in (*ROLES.items(), ("parameter_quantizer", "parameter"), ("activation_quantizer", "activation")):
        ctx.equal(getattr(flagged, r), t in held, "role-flags", r)
    stub = QuantizerStub(_metadata=meta_a)
    m.s = stub
    q = ff.nn.LinearQuantizer(4)
    q.quant_metadata = meta_b
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        m.s = q
    ctx.equal(any(issubclass(x.category, RuntimeWarning) for x in w), not extension, "warning", f"{meta_a} {meta_b}")
    ctx.event("extended" if extension else "warned")
    ctx.check(m.s is q and {repr(t) for t in peek.tags(q.quant_metadata)} == expand(a), "slot-role", f"{q.quant_metadata}")
    fresh = ff.nn.LinearQuantizer(4)
    m.s = fresh
    ctx.check({repr(t) for t in peek.tags(fresh.quant_metadata)} == expand(a) and fresh.quant_metadata.shape == shape_a, "slot-role", f"{fresh.quant_metadata}")
    q2 = ff.nn.LinearQuantizer(4)
    m.other = q2
    ctx.check(q2.quant_metadata is not None and not peek.tags(q2.quant_metadata), "no-role", f"{q2.quant_metadata}")
    ctx.state(tuple(sorted(expand(a))), tuple(sorted(expand(b))), extension)
