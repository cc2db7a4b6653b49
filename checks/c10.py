"""C10: dispatch picks the latest matching live registration, else the fallback."""

import inspect

import torch

import fastforward as ff

from fastforward import dispatcher
from fastforward.dispatcher import DispatcherPriority, Predicate, dispatch, register

from checks import c08 as C08
from ffmon.core import section

META = {
    "technique": "runtime monitoring: online checker of register/unregister/call histories against a reference registry",
    "level_note": "Random histories of functional, decorator and scoped registrations (duplicates, overlapping and composed predicates, all priorities, out-of-order and repeated removal, exceptional exits) interleaved with calls; every call's served kernel, the order in which predicates were consulted and the arguments they received are compared with a reference registry. The same histories are driven through torch functions and the functional library on quantized tensors.",
    "rule": "distinct (history prefix signature, served registration) pairs",
}
PRIOS = list(DispatcherPriority)


class Pred:
    """Expression over the leaf predicates, mirrored as plain Python."""

    def __init__(self, ff_pred, fn, text):
        self.p, self.fn, self.text = ff_pred, fn, text


def leaf(rng, trace, i):
    kind = rng.choice(["gt", "kw", "isint", "true", "false", "len"])
    c = rng.randint(0, 4)
    fns = {
        "gt": lambda *a, **k: a[0] > c,
        "kw": lambda *a, **k: k.get("k", 0) >= c,
        "isint": lambda *a, **k: isinstance(a[-1], int),
        "true": lambda *a, **k: True,
        "false": lambda *a, **k: False,
        "len": lambda *a, **k: len(a) + len(k) > c % 3 + 1,
    }
    fn = fns[kind]

    def monitored(*a, **k):
        trace.append((i, a, dict(k)))
        return fn(*a, **k)

    return Pred(Predicate(monitored), fn, f"{kind}{c}")


def compose(rng, pool):
    """Random boolean expression."""
    a = rng.choice(pool)
    op = rng.choice(["not", "and", "or", "id"])
    if op == "id":
        return a
    if op == "not":
        return Pred(~a.p, lambda *x, **k: not a.fn(*x, **k), f"~({a.text})")
    b = rng.choice(pool)
    if op == "and":
        return Pred(a.p & b.p, lambda *x, **k: bool(a.fn(*x, **k) and b.fn(*x, **k)), f"({a.text}&{b.text})")
    return Pred(a.p | b.p, lambda *x, **k: bool(a.fn(*x, **k) or b.fn(*x, **k)), f"({a.text}|{b.text})")


class Boom(Exception):
    pass


class Model:
    """Per operator: live registrations in order of registration."""

    def __init__(self):
        self.live = {}
        self.n = 0

    def add(self, op, pred, kernel, prio):
        self.n += 1
        e = (self.n, pred, kernel, prio)
        self.live.setdefault(op, []).append(e)
        return e

    def remove(self, op, e):
        if e in self.live.get(op, []):
            self.live[op].remove(e)

    def serve(self, op, a, k):
        for prio in PRIOS:
            for e in reversed(self.live.get(op, [])):
                if e[3] == prio and (e[1] is None or e[1].fn(*a, **k)):
                    return e
        return None


@section(quick=2500, thorough=120000, requires=("served", "nothing-served", "removed", "removed-duplicate", "scope-exception", "decorator", "composed"))
def histories(ctx):
    rng = ctx.rng
    ops = [f"__ffmon_{ctx.case}_{i}" for i in range(2)]
    trace = []
    pool = [leaf(rng, trace, i) for i in range(4)]
    for _ in range(4):
        pool.append(compose(rng, pool))
        if pool[-1].text[0] in "~(":
            ctx.event("composed")
    kernels = [(lambda i: lambda *a, **k: ("kernel", i, a, k))(i) for i in range(4)]
    model = Model()
    hooks = []
    hist = []
    ctx.note(history=hist)

    def call():
        op = rng.choice(ops)
        a = tuple(rng.randint(0, 5) for _ in range(rng.randint(1, 3)))
        if rng.random() < 0.2:
            a = (*a, "s")
        k = {"k": rng.randint(0, 5)} if rng.random() < 0.5 else {}
        want = model.serve(op, a, k)
        del trace[:]
        got = dispatch(op, *a, **k)
        hist.append(("call", ops.index(op), a, k))
        ctx.check(all(t[1] == a and t[2] == k for t in trace), "predicate-arguments", "a predicate saw other arguments than the call's", trace=list(trace), call=(a, k))
        if want is None:
            ctx.check(got is None, "nothing-matches", "a kernel was served though no live registration matches")
            ctx.event("nothing-served")
        else:
            ctx.check(got is want[2], "served", f"registration #{want[0]} should be served", live=[(e[0], e[1].text if e[1] else None, kernels.index(e[2]), int(e[3])) for e in model.live.get(op, [])], got=kernels.index(got) if got in kernels else got)
            ctx.equal(got(*a, **k)[2:], (a, k), "kernel-call")
            ctx.event("served")
            ctx.state(tuple(hist[-6:]), want[0])

    def one():
        op = rng.choice(ops)
        pred = rng.choice([*pool, None])
        kernel = rng.choice(kernels)
        prio = rng.choice([PRIOS[0], PRIOS[0], PRIOS[0], PRIOS[1], PRIOS[2]])
        return op, pred, kernel, prio

    def steps(depth):
        for _ in range(rng.randint(3, 12)):
            r = rng.random()
            if r < 0.4:
                call()
            elif r < 0.6:
                op, pred, kernel, prio = one()
                if hooks and rng.random() < 0.35:
                    # exact duplicate of an earlier registration
                    op, e, _ = rng.choice(hooks)
                    pred, kernel, prio = e[1], e[2], e[3]
                h = register(op, pred.p if pred else None, kernel, prio) if rng.random() < 0.7 or prio != PRIOS[0] else register(op, pred.p if pred else None, kernel)
                e = model.add(op, pred, kernel, prio)
                hooks.append((op, e, h))
                hist.append(("register", ops.index(op), pred.text if pred else None, kernels.index(kernel), int(prio)))
            elif r < 0.68:
                op, pred, kernel, prio = one()
                got = register(op, pred.p, priority=prio)(kernel) if pred else register(op, priority=prio)(kernel)
                ctx.check(got is kernel, "decorator-returns-kernel", "")
                model.add(op, pred, kernel, prio)
                ctx.event("decorator")
                hist.append(("decorator", ops.index(op), pred.text if pred else None, kernels.index(kernel), int(prio)))
            elif r < 0.85 and hooks:
                op, e, h = rng.choice(hooks)
                dup = sum(1 for x in model.live[op] if x[1:] == e[1:]) > 1
                h.__exit__(None, None, None)
                if e in model.live[op]:
                    ctx.event("removed-duplicate" if dup else "removed")
                model.remove(op, e)
                hist.append(("remove", e[0]))
            elif depth < 3:
                op, pred, kernel, prio = one()
                boom = rng.random() < 0.3
                e = None
                try:
                    with register(op, pred.p if pred else None, kernel, prio):
                        e = model.add(op, pred, kernel, prio)
                        hist.append(("with", ops.index(op), pred.text if pred else None, kernels.index(kernel), int(prio)))
                        steps(depth + 1)
                        if boom:
                            raise Boom()
                except Boom:
                    ctx.event("scope-exception")
                finally:
                    model.remove(op, e)
                    hist.append(("end", e[0]))
                call()

    try:
        steps(0)
        for _ in range(4):
            call()
    finally:
        for op in ops:
            dispatcher._DISPATCHER.pop(op, None)


@section(quick=400, thorough=20000, requires=("kernel-served", "fallback-served"))
def torch_functions(ctx):
    """Registrations made for torch operations are honoured by torch calls on quantized tensors."""
    rng = ctx.rng
    q = ff.quantization.affine.quantize_per_tensor(torch.tensor([[0.5, -1.0], [1.5, 0.0]]), torch.tensor([0.5]), None, 4)
    forms = {
        "add": [lambda v: torch.add(q, v), lambda v: q.add(v), lambda v: q + v],
        "relu": [lambda v: torch.relu(q), lambda v: q.relu(), lambda v: torch.nn.functional.relu(q)],
        "softmax": [lambda v: torch.softmax(q, 1), lambda v: q.softmax(1), lambda v: torch.nn.functional.softmax(q, 1)],
        "matmul": [lambda v: torch.matmul(q, q), lambda v: q.matmul(q)],
        "linear": [lambda v: torch.nn.functional.linear(q, q)],
        "clamp": [lambda v: torch.clamp(q, -v, v), lambda v: q.clamp(-v, v)],
    }
    model = Model()
    ref = {n: [f(2.0) for f in fs] for n, fs in _dq(forms, q).items()}
    stack = []
    served = []

    def pred(kind):
        fn = {"always": lambda *a, **k: True, "never": lambda *a, **k: False, "grid": lambda *a, **k: isinstance(a[0], ff.QuantizedTensor) and a[0].quant_args().num_bits == 4, "bits8": lambda *a, **k: isinstance(a[0], ff.QuantizedTensor) and a[0].quant_args().num_bits == 8}[kind]
        return Pred(Predicate(fn), fn, kind)

    before = {n: list(dispatcher._DISPATCHER.get(n, [])) for n in forms}

    def verify(strict):
        n = rng.choice(list(forms))
        i = rng.randrange(len(forms[n]))
        want = model.serve(n, (q,), {})
        del served[:]
        with ff.strict_quantization(strict):
            if want is not None:
                r = forms[n][i](2.0)
                ctx.equal(served, [want[0]], "kernel-served", f"{n} form {i}", stack=[(s[0], s[1][0], s[1][1].text) for s in stack])
                ctx.check(r == ("result", want[0]), "kernel-result", n)
                ctx.event("kernel-served")
            elif strict:
                ctx.raises(ff.exceptions.QuantizationError, lambda: forms[n][i](2.0), "strict-fallback", n)
                ctx.event("fallback-served")
            else:
                r = forms[n][i](2.0)
                ctx.equal(served, [], "no-kernel", n)
                ctx.same(r, ref[n][i], "fallback-value", n)
                ctx.event("fallback-served")
        ctx.state(n, i, len(stack), want is not None, strict)

    def go(depth):
        for _ in range(rng.randint(1, 4)):
            verify(rng.random() < 0.5)
            if depth < 4 and rng.random() < 0.7:
                n = rng.choice(list(forms))
                p = pred(rng.choice(["always", "never", "grid", "bits8"]))
                ident = model.n + 1

                def kernel(*a, _i=ident, **k):
                    served.append(_i)
                    return ("result", _i)

                prio = rng.choice([PRIOS[0], PRIOS[0], PRIOS[1], PRIOS[2]])
                e = None
                try:
                    with register(n, p.p, kernel, prio):
                        e = model.add(n, p, kernel, prio)
                        stack.append((n, e))
                        go(depth + 1)
                        if rng.random() < 0.2:
                            raise Boom()
                except Boom:
                    pass
                finally:
                    stack.pop()
                    model.remove(n, e)
                verify(rng.random() < 0.5)

    go(0)
    for n in forms:
        ctx.check(dispatcher._DISPATCHER.get(n, []) == before[n], "registry-restored", n)


def _dq(forms, q):
    """The same forms, evaluated on values (non-strict, nothing registered)."""
    out = {}
    for n, fs in forms.items():
        out[n] = [(lambda f: lambda v: _plain(f, v))(f) for f in fs]
    return out


def _plain(f, v):
    # rebinding the closed-over quantized tensor: evaluate with the dequantized one
    cells = dict(zip(f.__code__.co_freevars, f.__closure__))
    old = cells["q"].cell_contents
    try:
        cells["q"].cell_contents = old.dequantize()
        return f(v)
    finally:
        cells["q"].cell_contents = old


@section(quick=200, thorough=8000, requires=("functional-served",))
def functional_library(ctx):
    """Kernels registered for the functional library see exactly the call's bound arguments."""
    rng = ctx.rng
    A = ff.quantization.affine
    q8 = A.quantize_per_tensor(torch.randn(2, 4), torch.tensor([0.1]), None, 8)
    q4 = A.quantize_per_tensor(torch.randn(2, 4), torch.tensor([0.3]), None, 4)
    oq = ff.nn.LinearQuantizer(4)
    oq.quantization_range = (-2.0, 2.0)
    seen = []
    model = Model()
    for _ in range(rng.randint(1, 4)):
        bits = rng.choice([4, 8, None])
        dim = rng.choice([None, 0, 1])

        def fn(*a, _b=bits, _d=dim, **k):
            x = a[0] if a else k["input"]
            d = a[1] if len(a) > 1 else k["dim"]
            return (_b is None or x.quant_args().num_bits == _b) and (_d is None or d == _d)

        p = Pred(Predicate(fn), fn, f"{bits}/{dim}")
        ident = model.n + 1

        def kernel(*a, _i=ident, **k):
            seen.append((_i, a, k))
            return torch.full((1,), float(_i))

        model.add("softmax", p, kernel, PRIOS[0])
    hooks = [register("softmax", e[1].p, e[2], e[3]) for e in model.live["softmax"]]
    try:
        for _ in range(4):
            x = rng.choice([q4, q8])
            d = rng.choice([0, 1])
            style = rng.random() < 0.5
            del seen[:]
            with ff.strict_quantization(rng.random() < 0.5):
                r = ff.nn.functional.softmax(x, d, output_quantizer=oq) if style else ff.nn.functional.softmax(dim=d, input=x, output_quantizer=oq)
            want = model.serve("softmax", (x, d), {})
            if want is None:
                ctx.equal(len(seen), 0, "no-kernel")
                ctx.same(r.dequantize(), oq(torch.softmax(x.dequantize(), d)).dequantize(), "fallback-value")
            else:
                ctx.equal([s[0] for s in seen], [want[0]], "functional-kernel", live=[e[1].text for e in model.live["softmax"]])
                _, a, k = seen[0]
                xs = a[0] if a else k["input"]
                ctx.check(xs is x and (k.get("output_quantizer") is oq), "functional-arguments", "")
                ctx.equal(float(r[0]), float(want[0]), "functional-result")
                ctx.event("functional-served")
            ctx.state(style, d, want[1].text if want else None)
    finally:
        for h in hooks:
            h.__exit__(None, None, None)
    with ff.strict_quantization(False):
        ctx.same(ff.nn.functional.softmax(q8, 1, output_quantizer=oq).dequantize(), oq(torch.softmax(q8.dequantize(), 1)).dequantize(), "restored-value")


@section(quick=600, thorough=20000, requires=tuple("op:" + n for n in C08.NAMES))
def every_operator(ctx):
    """For each functional operator, predicate and kernel receive everything the call bound."""
    rng = ctx.rng
    name = C08.NAMES[ctx.case % len(C08.NAMES)]
    full, required, _, keep = C08.TABLE[name][1](rng)
    given = {k: v for k, v in full.items() if k in required or k in keep or rng.random() < 0.6}
    fn = getattr(ff.nn.functional, name)
    params = inspect.signature(fn).parameters
    oq = rng.choice([None, ff.nn.LinearQuantizer(4)])
    if oq is not None or rng.random() < 0.5:
        given["output_quantizer"] = oq
    explicit, default = rng.choice([None, True, False]), rng.random() < 0.5
    if explicit is not None:
        given["strict_quantization"] = explicit
    want = {k: given.get(k, p.default) for k, p in params.items()}
    want["strict_quantization"] = default if explicit is None else explicit
    seen, accept = [], rng.random() < 0.7

    def same(kw):
        return set(kw) == set(want) and all(kw[k] is want[k] or (not isinstance(want[k], torch.Tensor) and not isinstance(kw[k], torch.Tensor) and kw[k] == want[k]) for k in want)

    def predicate(*a, **k):
        seen.append(("predicate", dict(zip(params, a), **k)))
        return accept

    token = object()

    def kernel(*a, **k):
        seen.append(("kernel", dict(zip(params, a), **k)))
        return token

    order = list(given)
    rng.shuffle(order)
    ctx.note(op=name, given=order, strict=(explicit, default), accept=accept)
    with ff.strict_quantization(default), register(name, Predicate(predicate), kernel):
        try:
            r = fn(**{k: given[k] for k in order})
        except Exception:  # noqa: BLE001
            if accept:
                raise
            r = None
    mine = [s for s in seen]
    ctx.equal([s[0] for s in mine[:2 if accept else 1]], ["predicate", "kernel"] if accept else ["predicate"], "consulted", f"{name}: {[s[0] for s in mine]}")
    for what, kw in mine:
        ctx.check(same(kw), "bound-arguments", f"{name}: {what} received {sorted(kw)} (values differ or are missing) instead of {sorted(want)}")
    if accept:
        ctx.check(r is token, "kernel-result", f"{name} does not return what the kernel returned")
    else:
        ctx.check(all(s[0] == "predicate" for s in mine) and r is not token, "not-served", name)
    ctx.event("op:" + name)
    ctx.state(name, tuple(sorted(given)), explicit, default, accept)
