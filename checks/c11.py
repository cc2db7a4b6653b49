"""C11: temporary interventions stack correctly and are fully reverted."""

import gc

import torch

import fastforward as ff

from fastforward.overrides import DisableQuantizationOverride
from fastforward.range_setting import min_error
from fastforward.quantization.freeze import freeze_parameters

from ffmon.core import section

META = {
    "technique": "runtime monitoring: call-trace checker for override chains, before/after state monitor around randomly nested scopes with injected exceptions",
    "level_note": "Override chains are driven by random register/remove histories with overrides that log, transform, skip, repeat or fail; the trace and value are compared with plain function composition. Random nestings of disabling, re-enabling, range estimation, freezing, strictness and override scopes, left normally or by an injected exception, are checked inside (which quantizers act) and after (outputs, overrides, quantizer set, flags identical to before).",
    "rule": "distinct (history, trace) signatures for override chains and distinct (scope nesting, exit kind) sequences",
}


class Boom(Exception):
    pass


# ------------------------------------------------------------- override chains


@section(quick=2000, thorough=100000, requires=("out-of-order-removal", "repeated-continuation", "skipped-continuation", "failed-call", "removed-during-call"))
def chains(ctx):
    rng = ctx.rng

    class Q(ff.nn.Quantizer):
        def quantize(self, data):
            trace.append(("base", float(data)))
            return data * 2

    q = Q()
    trace = []
    live = []  # (id, kind, handle, fn) in order of registration
    hist = []
    ctx.note(history=hist)
    n = [0]

    def make(i, kind, c):
        def fn(context, cont, args, kwargs):
            ctx.check(context is q, "context", "override received another context")
            trace.append((i, float(args[0] if args else kwargs["data"])))
            (x,) = args if args else (kwargs["data"],)
            if kind == "pass":
                return cont(*args, **kwargs)
            if kind == "pre":
                return cont(x + c)
            if kind == "post":
                return cont(*args, **kwargs) + c
            if kind == "kw":
                return cont(data=x)
            if kind == "skip":
                return x * c
            if kind == "twice":
                return cont(x) + 10 * cont(x + c)
            if kind == "retry":
                try:
                    return cont(x)
                except Boom:
                    return cont(x - 1) + 0.5
            if kind == "boom":
                raise Boom()
            if kind == "remove":
                for e in list(live):
                    if e[0] == removal.get(i):
                        e[2].remove()
                        removed.append(e)
                return cont(x)

        return fn

    removal = {}
    removed = []

    def expect(chain, x, out):
        """Reference: plain recursion over the registrations, latest first."""
        if not chain:
            out.append(("base", x))
            return x * 2
        i, kind, _, _, c = chain[-1]
        rest = chain[:-1]
        out.append((i, x))
        if kind in ("pass", "kw", "remove"):
            return expect(rest, x, out)
        if kind == "pre":
            return expect(rest, x + c, out)
        if kind == "post":
            return expect(rest, x, out) + c
        if kind == "skip":
            return x * c
        if kind == "twice":
            a = expect(rest, x, out)
            return a + 10 * expect(rest, x + c, out)
        if kind == "retry":
            mark = len(out)
            try:
                return expect(rest, x, out)
            except Boom:
                del mark
                return expect(rest, x - 1, out) + 0.5
        raise Boom()

    def call():
        x = float(rng.randint(-3, 3))
        del trace[:], removed[:]
        out = []
        try:
            want = expect(list(live), x, out)
        except Boom:
            want = Boom
        try:
            t = torch.tensor(x)
            got = float(q(t) if rng.random() < 0.5 else q(data=t))
        except Boom:
            got = Boom
            ctx.event("failed-call")
        for e in removed:
            if e in live:
                live.remove(e)
                ctx.event("removed-during-call")
        hist.append(("call", x))
        ctx.equal(trace, out, "override-order", "sequence of override calls")
        ctx.equal(got, want, "override-value", "")
        kinds = [e[1] for e in live]
        if "twice" in kinds or "retry" in kinds:
            ctx.event("repeated-continuation")
        if "skip" in kinds:
            ctx.event("skipped-continuation")
        ctx.check([f for f in q.overrides] == [e[3] for e in live], "overrides-listed", "")
        ctx.state(tuple(hist[-4:]), tuple(map(tuple, trace)))

    def add():
        n[0] += 1
        kind = rng.choice(["pass", "pre", "post", "kw", "skip", "twice", "retry", "boom", "remove", "pre", "post"])
        c = float(rng.randint(1, 4))
        if kind in ("skip", "boom") and rng.random() < 0.5:
            kind = "post"
        if kind == "remove" and live:
            removal[n[0]] = rng.choice(live)[0]
        fn = make(n[0], kind, c)
        h = q.register_override(fn)
        e = (n[0], kind, h, fn, c)
        live.append(e)
        hist.append(("add", kind, c))
        return e

    def steps(depth):
        for _ in range(rng.randint(2, 8)):
            r = rng.random()
            if len(live) > 5 or (r < 0.3 and live):
                e = rng.choice(live)
                if e is not live[-1]:
                    ctx.event("out-of-order-removal")
                got = e[2].remove()
                ctx.check(got is e[3], "remove-returns-override", "")
                if rng.random() < 0.3:
                    ctx.check(e[2].remove() is None, "second-removal", "removing twice returned an override")
                live.remove(e)
                hist.append(("remove", e[0]))
            elif r < 0.6:
                add()
            elif r < 0.72 and depth < 3:
                e = add()
                boom = rng.random() < 0.4
                try:
                    with e[2] as h:
                        ctx.check(h is e[2], "handle-scope", "")
                        steps(depth + 1)
                        if boom:
                            raise Boom()
                except Boom:
                    pass
                if e in live:
                    live.remove(e)
                hist.append(("exit", e[0]))
            call()

    steps(0)
    for e in list(live):
        e[2].remove()
        live.remove(e)
    call()


@section(quick=60, thorough=1000)
def handles(ctx):
    """Handles do not keep quantizers alive, and do not act on other quantizers."""
    rng = ctx.rng
    qs = [ff.nn.LinearQuantizer(4) for _ in range(3)]
    hs = []
    for _ in range(6):
        q = rng.choice(qs)
        ov = DisableQuantizationOverride()
        hs.append((q, ov, q.register_override(ov)))
    rng.shuffle(hs)
    for k, (q, ov, h) in enumerate(hs):
        before = {id(x): list(x.overrides) for x in qs}
        h.remove()
        for x in qs:
            want = [o for o in before[id(x)] if not (x is q and o is ov)]
            ctx.check(list(x.overrides) == want, "removal-isolated", "")
    q = ff.nn.LinearQuantizer(4)
    h = q.register_override(DisableQuantizationOverride())
    del q
    gc.collect()
    ctx.check(h.remove() is None, "dead-quantizer", "")
    ctx.state(tuple(qs.index(q) for q, _, _ in hs if q in qs))


# -------------------------------------------------------------------- scopes


class Net(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.a = torch.nn.Linear(4, 4)
        self.act = torch.nn.ReLU()
        self.b = torch.nn.Linear(4, 3, bias=False)

    def forward(self, x):
        return self.b(self.act(self.a(x)))


class QuantizedNet(ff.nn.QuantizedModule, Net):
    pass


def build(rng, share=False):
    m = Net()
    ff.quantize_model(m)
    for name, q in list(ff.nn.quantized_module.named_quantizers(m, skip_stubs=False)):
        if rng.random() < 0.75:
            per_channel = "weight" in name and rng.random() < 0.5
            lq = ff.nn.LinearQuantizer(rng.choice([3, 4, 8]), symmetric=rng.random() < 0.5, granularity=ff.PerChannel(0) if per_channel else ff.PerTensor())
            parent, _, leaf = name.rpartition(".")
            setattr(m.get_submodule(parent), leaf, lq)
    if share:
        m.b.input_quantizer = m.a.input_quantizer
    x = torch.randn(6, 4)
    with ff.strict_quantization(False), ff.estimate_ranges(m, ff.range_setting.running_minmax):
        m(x)
    return m, x


def deq(t):
    return t.dequantize() if isinstance(t, ff.QuantizedTensor) else t


def snapshot(m):
    return {
        "state": {k: v.clone() for k, v in m.state_dict().items()},
        "quantizers": {n: (id(q), [id(o) for o in q.overrides]) for n, q in ff.nn.quantized_module.named_quantizers(m, skip_stubs=False)},
        "hooks": [(len(x._forward_hooks), len(x._forward_pre_hooks), x.training) for x in m.modules()],
        "flags": (ff.get_strict_quantization(), ff.get_export_mode()),
    }


def compare(ctx, a, b, where):
    ctx.equal(b["flags"], a["flags"], "flags-restored", where)
    ctx.equal(b["hooks"], a["hooks"], "hooks-restored", where)
    ctx.equal(b["quantizers"], a["quantizers"], "quantizers-restored", where)
    ctx.equal(list(b["state"]), list(a["state"]), "state-keys", where)
    for k in a["state"]:
        ctx.same(b["state"][k], a["state"][k], "state-restored", f"{where} {k}")


class Watch:
    """Override that reports whether the quantizer underneath really acted."""

    def __init__(self, log, name):
        self.log, self.name = log, name

    def __call__(self, quantizer, cont, args, kwargs):
        r = cont(*args, **kwargs)
        self.log[self.name] = r is not (args[0] if args else kwargs["data"])
        return r


@section(quick=700, thorough=20000, requires=("scope:disable", "scope:enable", "scope:estimate", "scope:override", "scope:strict", "scope:strict-module", "exception", "failing-forward", "inside-checked"))
def scopes(ctx):
    rng = ctx.rng
    ff.set_strict_quantization(rng.random() < 0.3)
    m, x = build(rng, share=rng.random() < 0.3)
    ref = Net()
    ref.load_state_dict({k: v for k, v in m.state_dict().items() if "quantizer" not in k})
    quant = {n: q for n, q in ff.nn.quantized_module.named_quantizers(m)}
    active = {n: [] for n in quant}  # stack of [override kind, enabled] per quantizer
    hist = []
    ctx.note(history=hist)

    def forward():
        with ff.strict_quantization(False):
            return deq(m(x)).detach()

    base = forward()

    def inside():
        # every quantizer acts iff none of its disabling overrides is in force
        log = {}
        handles = [q.register_override(Watch(log, n)) for n, q in quant.items()]
        try:
            y = forward()
        finally:
            for h in handles:
                h.remove()
        by_id = {}
        for n, q in quant.items():
            by_id.setdefault(id(q), []).append(n)
        for n in log:
            names = by_id[id(quant[n])]
            dis = [e for k in names for e in active[k] if e[0] == "disable" and not e[1]]
            ctx.equal(log[n], not dis, "acts-iff-enabled", f"quantizer {n}", history=hist)
        if log and not any(log.values()):
            ctx.close(y, ref(x), "disabled-equals-float", rtol=1e-6, atol=1e-6)
        elif all(not e for e in active.values()):
            ctx.same(y, base, "undisturbed", "")
        ctx.event("inside-checked")

    def go(depth):
        for _ in range(rng.randint(1, 2)):
            kind = rng.choice(["disable", "disable", "enable", "estimate", "override", "strict", "strict-module", "sub-disable"])
            before = snapshot(m)
            y0 = forward()
            boom = rng.random() < 0.3
            sub = rng.choice([m, m.a, m.b]) if kind in ("sub-disable", "estimate") else m
            names = [n for n in quant if any(quant[n] is q for _, q in ff.nn.quantized_module.named_quantizers(sub))]
            undo = []
            try:
                hist.append(("enter", kind))
                ctx.event("scope:" + kind.replace("sub-", ""))
                if kind in ("disable", "sub-disable"):
                    cm = ff.disable_quantization(sub)
                elif kind == "enable":
                    cm = ff.enable_quantization(m)
                elif kind == "estimate":
                    # a learned range equal to the present one must not disturb anything: feed nothing
                    est = rng.choice([ff.range_setting.running_minmax, ff.range_setting.smoothed_minmax, min_error.mse_grid])
                    cm = ff.estimate_ranges(sub, est)
                elif kind == "override":
                    q = rng.choice(list(quant.values())) if quant else ff.nn.LinearQuantizer(2)
                    cm = q.register_override(lambda c, f, a, k: f(*a, **k))
                elif kind == "strict":
                    cm = ff.strict_quantization(rng.random() < 0.5)
                else:
                    cm = ff.strict_quantization_for_module(False, m.a)
                with cm:
                    if kind in ("disable", "sub-disable"):
                        ctx.check(ff.get_strict_quantization() is False, "disable-clears-strict", "")
                        for n in names:
                            e = ["disable", False]
                            active[n].append(e)
                            undo.append(lambda n=n, e=e: active[n].remove(e))
                    elif kind == "enable":
                        for n in quant:
                            for e in active[n]:
                                undo.append(lambda e=e, v=e[1]: e.__setitem__(1, v))
                                e[1] = True
                    if kind != "estimate" and not any(h[1] == "estimate" for h in open_scopes):
                        inside()
                    if depth < 4 and kind != "estimate":
                        open_scopes.append((depth, kind))
                        try:
                            go(depth + 1)
                        finally:
                            open_scopes.pop()
                    if boom:
                        if rng.random() < 0.5:
                            ctx.event("failing-forward")
                            with ff.strict_quantization(False):
                                try:
                                    m(torch.randn(2, 5))
                                except RuntimeError:
                                    raise Boom()
                            ctx.fail("harness", "expected a shape error")
                        raise Boom()
            except Boom:
                ctx.event("exception")
            for u in reversed(undo):
                u()
            hist.append(("exit", kind, boom))
            if kind == "estimate" and boom:
                # a failed forward may have fed some quantizers; their ranges are theirs to change
                pass
            after = snapshot(m)
            if kind == "estimate" and boom:
                for s in (before, after):
                    s["state"] = {k: v for k, v in s["state"].items() if "quantizer" not in k}
            compare(ctx, before, after, f"after {kind}")
            if not (kind == "estimate" and boom):
                ctx.same(forward(), y0, "output-restored", f"after {kind}", history=hist)
            else:
                raise StopIteration

    open_scopes = []
    try:
        go(0)
        inside()
        ctx.same(forward(), base, "output-restored-at-end", "", history=hist)
    except StopIteration:
        for _, q in quant.items():
            ctx.equal(len(list(q.overrides)), 0, "overrides-left")
        ctx.event("estimation-aborted")
    ctx.state(tuple(hist))


@section(quick=300, thorough=10000, requires=("prepare-failed", "estimated"))
def estimation_scope(ctx):
    """Range estimation removes its overrides also when preparing, estimating or the caller fails."""
    rng = ctx.rng
    m, x = build(rng)
    est = rng.choice([ff.range_setting.running_minmax, ff.range_setting.smoothed_minmax, min_error.mse_grid])

    class Custom(ff.nn.Quantizer):
        def quantize(self, data):
            return data * 1.0

    bad = rng.random() < 0.5
    if bad:
        setattr(rng.choice([m.a, m.b]), rng.choice(["output_quantizer", "weight_quantizer", "input_quantizer"]), Custom())
    with ff.strict_quantization(False):
        want = deq(m(x)).detach()
    before = snapshot(m)
    mode = rng.choice(["enter", "raise", "run"])
    how = rng.choice(["type", "instance"])
    args = (m, est() if how == "instance" else est)
    if bad:
        ctx.raises(TypeError, lambda: ff.estimate_ranges(*args).__enter__(), "unsupported-quantizer", "")
        ctx.event("prepare-failed")
        after = snapshot(m)
        compare(ctx, before, after, "failed preparation")
        with ff.strict_quantization(False):
            ctx.same(deq(m(x)), want, "output-after-failed-preparation", "")
    else:
        try:
            with ff.strict_quantization(False), ff.estimate_ranges(*args):
                if mode == "run":
                    m(torch.randn(5, 4) * 3)
                if mode == "raise":
                    raise Boom()
        except Boom:
            pass
        after = snapshot(m)
        ctx.equal(after["quantizers"], before["quantizers"], "quantizers-restored", mode)
        if mode != "run":
            compare(ctx, before, after, mode)
        ctx.event("estimated")
        # after the scope nothing is learned any more
        s1 = snapshot(m)
        with ff.strict_quantization(False):
            m(torch.randn(5, 4) * 50)
        compare(ctx, s1, snapshot(m), "forward after the scope")
    ctx.state(bad, mode, est.__name__, how, [len(v[1]) for v in before["quantizers"].values()])


@section(quick=500, thorough=15000, requires=("frozen", "freeze-exception", "kept", "activation-quantizer"))
def freezing(ctx):
    """Freezing leaves what the model computes unchanged and nothing behind."""
    rng = ctx.rng
    m, x = build(rng)
    if rng.random() < 0.4:
        x = torch.randn(3, 4)

    def forward(inp=None):
        with ff.strict_quantization(False):
            return deq(m(x if inp is None else inp)).detach()

    want = forward()
    other = torch.randn(5, 4) * 4
    want_other = forward(other)
    names = {n: q for n, q in ff.nn.quantized_module.named_quantizers(m)}
    weights = {n: p.detach().clone() for n, p in m.named_parameters() if "quantizer" not in n}
    expected = {}
    for n, w in weights.items():
        q = names.get(n + "_quantizer")
        expected[n] = q(w).dequantize().detach() if q is not None else w
    remove = rng.random() < 0.6
    boom = rng.random() < 0.3
    target = rng.choice([m, [m.a, m.b], [m.a]])
    frozen_mods = [m.a] if isinstance(target, list) and len(target) == 1 else [m.a, m.b]
    strict = ff.get_strict_quantization()
    try:
        with freeze_parameters(target, remove_quantizers=remove):
            ctx.check(ff.get_strict_quantization() is False, "freeze-clears-strict", "")
            if boom and rng.random() < 0.5:
                raise Boom()
            y = deq(m(x)).detach()
            ctx.close(y, want, "freezing-forward", "output of the freezing pass", rtol=1e-5, atol=1e-5)
            if rng.random() < 0.3:
                m(x)
            ran = True
            if boom:
                raise Boom()
    except Boom:
        ctx.event("freeze-exception")
        ran = "y" in locals()
    ctx.equal(ff.get_strict_quantization(), strict, "strict-restored")
    after = {n: q for n, q in ff.nn.quantized_module.named_quantizers(m, skip_stubs=False)}
    for n, q in after.items():
        ctx.equal(len(list(q.overrides)), 0, "override-left-behind", f"on {n}")
    for n, w in weights.items():
        now = m.get_parameter(n).detach()
        in_scope = any(n.startswith(p + ".") for p, mod in (("a", m.a), ("b", m.b)) if mod in frozen_mods)
        ctx.same(now, expected[n] if ran and in_scope else w, "frozen-value", n)
        qn = n + "_quantizer"
        if qn in names:
            if ran and in_scope and remove:
                ctx.check(after[qn].is_stub(), "parameter-quantizer-removed", qn)
                ctx.event("frozen")
            else:
                ctx.check(after[qn] is names[qn], "parameter-quantizer-kept", qn)
                ctx.event("kept")
    for n, q in names.items():
        if n.split(".")[-1] in ("input_quantizer", "output_quantizer"):
            ctx.check(after[n] is q, "activation-quantizer-kept", n)
            ctx.event("activation-quantizer")
    ctx.close(forward(), want, "output-after-freezing", "", rtol=1e-5, atol=1e-5)
    ctx.close(forward(other), want_other, "output-after-freezing", "other input", rtol=1e-5, atol=1e-5)
    ctx.state(remove, boom, ran, sorted(names), len(frozen_mods))


@section(quick=500, thorough=20000, requires=("toggled", "detached", "toggle-scope", "attach-collection"))
def toggles(ctx):
    """A disabling override shared by several quantizers, toggled and (de)attached at will."""
    rng = ctx.rng
    qs = []
    for _ in range(3):
        q = ff.nn.LinearQuantizer(rng.choice([2, 4]))
        q.quantization_range = (-1.0, 1.0)
        qs.append(q)
    x = torch.randn(5)
    tree = torch.nn.Module()
    for i, q in enumerate(qs):
        tree.add_module(f"q{i}", q)
    ovs = [DisableQuantizationOverride() for _ in range(2)]
    enabled = [False, False]
    attached = [[], []]  # lists of quantizer indices, one entry per attachment
    extern = []  # (handle, ov index, quantizer index)
    hist = []
    ctx.note(history=hist)

    def observe():
        for i, q in enumerate(qs):
            blocked = any((i in attached[o] or any(e[1] == o and e[2] == i for e in extern)) and not enabled[o] for o in range(2))
            r = q(x)
            ctx.equal(isinstance(r, ff.QuantizedTensor), not blocked, "toggle", f"quantizer {i}")
            if blocked:
                ctx.check(r is x, "disabled-is-identity", "")
        for o in range(2):
            ctx.equal(ovs[o].quantization_enabled, enabled[o], "enabled-property")
        ctx.state(tuple(enabled), tuple(map(tuple, map(sorted, attached))), len(extern))

    def go(depth):
        for _ in range(rng.randint(2, 6)):
            o = rng.randrange(2)
            r = rng.random()
            if r < 0.3:
                k = rng.choice(["one", "list", "gen", "collection"])
                sel = rng.sample(range(3), rng.randint(1, 3))
                if k == "one":
                    sel = sel[:1]
                    ovs[o].attach_to(qs[sel[0]])
                elif k == "collection":
                    ctx.event("attach-collection")
                    ovs[o].attach_to(ff.find_quantizers(tree, "[re:q(" + "|".join(map(str, sel)) + ")]"))
                else:
                    ovs[o].attach_to([qs[i] for i in sel] if k == "list" else (qs[i] for i in sel))
                attached[o].extend(sel)
                hist.append(("attach", o, tuple(sel)))
            elif r < 0.4:
                ovs[o].detach()
                attached[o].clear()
                hist.append(("detach", o))
                ctx.event("detached")
            elif r < 0.5:
                i = rng.randrange(3)
                extern.append((qs[i].register_override(ovs[o]), o, i))
                hist.append(("extern", o, i))
            elif r < 0.58 and extern:
                e = extern.pop(rng.randrange(len(extern)))
                e[0].remove()
                hist.append(("extern-remove",))
            elif r < 0.8:
                v = rng.random() < 0.5
                (ovs[o].enable_quantization(v) if rng.random() < 0.5 else (ovs[o].enable_quantization() if v else ovs[o].disable_quantization()))
                enabled[o] = v
                hist.append(("set", o, v))
                ctx.event("toggled")
            elif depth < 3:
                v = rng.random() < 0.5
                old = enabled[o]
                hist.append(("scope", o, v))
                try:
                    with (ovs[o].enable_quantization() if v else ovs[o].disable_quantization()):
                        enabled[o] = v
                        observe()
                        go(depth + 1)
                        if rng.random() < 0.3:
                            raise Boom()
                except Boom:
                    pass
                enabled[o] = old
                hist.append(("scope-end", o))
                ctx.event("toggle-scope")
            observe()

    go(0)


@section(quick=200, thorough=6000, requires=("flag-scope",))
def flag_scopes(ctx):
    """Every global flag follows stack discipline under nesting, decorators and exceptions."""
    rng = ctx.rng
    F = ff.flags
    names = ["strict_quantization", "export_mode", "compiled_quant_funcs", "sdpa_torch_fallback_allowed"]
    get = {n: getattr(F, "get_" + n) for n in names}
    setr = {n: getattr(F, "set_" + n) for n in names}
    cm = {n: getattr(F, n) for n in names}
    initial = {n: get[n]() for n in names}
    ref = dict(initial)
    hist = []

    def observe():
        ctx.equal({n: get[n]() for n in names}, ref, "flag-value", "", history=hist)

    def go(depth):
        for _ in range(rng.randint(1, 4)):
            n = rng.choice(names)
            v = rng.random() < 0.5
            k = rng.choice(["with", "with-setter", "set", "deco"])
            hist.append((k, n, v))
            if k == "set":
                setr[n](v)
                ref[n] = v
            elif depth < 4:
                old = ref[n]

                def body():
                    ref[n] = v
                    observe()
                    go(depth + 1)
                    if rng.random() < 0.3:
                        raise Boom()

                try:
                    if k == "with":
                        with cm[n](v):
                            body()
                    elif k == "with-setter":
                        with setr[n](v):
                            body()
                    else:
                        F.context(cm[n], v)(body)()
                except Boom:
                    pass
                ref[n] = old
                ctx.event("flag-scope")
            observe()

    try:
        go(0)
    finally:
        for n in names:
            setr[n](initial[n])
    ctx.state(tuple(hist))
