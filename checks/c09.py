"""C09: strict quantization never dequantizes implicitly and its scope is exact."""

import operator
import warnings

import numpy as np
import torch

from torch.overrides import get_overridable_functions, resolve_name

import fastforward as ff

from ffmon import gen
from ffmon.core import Skip, section

META = {
    "technique": "runtime monitoring: strict/non-strict outcome oracle over all overridable torch functions, history checker over scope events",
    "level_note": "Every torch function that torch lets a tensor subclass intercept is driven with many argument shapes under both settings; the strict outcome must be a refusal, a quantized result, an explicit cast or value-independent metadata, the non-strict outcome the same operation on dequantized values. A reference stack machine follows random nestings of global/per-module scopes with exceptions and handle removals and is compared with the flag observed inside every forward and after every scope.",
    "rule": "distinct (function, template, strict outcome, non-strict outcome, granularity) signatures and distinct scope-event histories",
}
QErr = ff.exceptions.QuantizationError
QT = ff.QuantizedTensor

_SKIP = ("__torch_function__", "cuda", "cudnn", "backward_hooks", "xpu", "mps", "hpu", "miopen", "rand", "bernoulli", "multinomial", "dropout", "normal", "poisson", "binomial")
# functions whose result is (an alias of) the storage, an address, or an autograd slot
_IDENTITY = ("data_ptr", "const_data_ptr", "mutable_data_ptr", "storage", "_cdata", "as_subclass", "_base", "_is_view", "grad", "grad_fn", "_grad", "_grad_fn", "_version", "__dir__", "__repr__", "__reduce_ex__", "retain_grad", "_indices", "_values", "indices", "__setstate__", "register_hook", "_backward_hooks", "output_nr", "__cuda_array_interface__", "__dlpack__", "__dlpack_device__", "to_dlpack", "__hash__")
_CASTS = {"double", "float", "half", "bfloat16", "long", "int", "short", "char", "cdouble", "cfloat", "chalf", "bool", "byte", "to", "dequantize", "type"}
_FNS = None


def functions():
    global _FNS
    if _FNS is None:
        fs = {}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for _ns, lst in get_overridable_functions().items():
                for f in lst:
                    n = resolve_name(f)
                    if n and not any(s in n for s in _SKIP) and not n.endswith(".set_"):
                        fs.setdefault(n, f)
        _FNS = sorted(fs.items())
    return _FNS


TEMPLATES = [
    lambda x, m: (x,),
    lambda x, m: (x, x),
    lambda x, m: (x, x, x),
    lambda x, m: (x, 1),
    lambda x, m: (1, x),
    lambda x, m: (x, 2.0),
    lambda x, m: (x, 0, 1),
    lambda x, m: (x, (4, 4)),
    lambda x, m: ([x, x],),
    lambda x, m: ((x, x), 0),
    lambda x, m: (x, 0, torch.tensor([0, 2])),
    lambda x, m: (x, [1, 0]),
    lambda x, m: (x, m),
    lambda x, m: (x, m, x),
    lambda x, m: (m, x, x),
    lambda x, m: (x, 0, torch.zeros(4, 4).long()),
    lambda x, m: (x, torch.tensor([0, 1])),
    lambda x, m: (x, torch.tensor([0, 1, 1, 0])),
    lambda x, m: (torch.ones(4, 4), x),
    lambda x, m: (x, torch.ones(4, 4)),
    lambda x, m: (x, m, 1.0),
    lambda x, m: (m.to_sparse(), x) if False else (x, m.float().to_sparse()),
    lambda x, m: ("ij,jk->ik", x, x),
    lambda x, m: ("ij,jk->ik", torch.ones(4, 4), x),
    lambda x, m: (torch.ones(4, 4), torch.ones(4, 4), x),
    lambda x, m: (torch.tensor([0, 1, 3]), x),
    lambda x, m: (x, 0, torch.tensor([0, 2]), torch.ones(2, 4)),
]


def _vec(rng, scalar):
    return None


def make(rng):
    """4x4 (or single element) quantized tensor on an exact grid with non-trivial parameters."""
    kind = rng.choice(["tensor", "tensor", "channel", "offset"])
    n = 4
    data = torch.tensor([[rng.randint(-6, 6) * 0.5 for _ in range(n)] for _ in range(n)])
    A = ff.quantization.affine
    if kind == "channel":
        q = A.quantize_per_channel(data, torch.tensor([0.5, 0.25, 1.0, 0.5]), torch.tensor([3.0, -2.0, 0.0, 1.0]), 0, 6)
    else:
        q = A.quantize_per_tensor(data, torch.tensor([0.5]), torch.tensor([3.0]) if kind == "offset" else None, 5)
    return kind, q


def _leaves(x, out=None):
    out = [] if out is None else out
    if isinstance(x, (list, tuple)):
        for e in x:
            _leaves(e, out)
    elif isinstance(x, dict):
        for e in x.values():
            _leaves(e, out)
    else:
        out.append(x)
    return out


def _copy(args):
    """Same structure, every quantized tensor cloned independently."""
    if isinstance(args, (list, tuple)):
        return type(args)(_copy(a) for a in args)
    return args.clone() if isinstance(args, QT) else (args.clone() if isinstance(args, torch.Tensor) else args)


def _deq(args):
    if isinstance(args, (list, tuple)):
        return type(args)(_deq(a) for a in args)
    return args.dequantize().clone() if isinstance(args, QT) else (args.clone() if isinstance(args, torch.Tensor) else args)


def _call(f, args, seed):
    torch.manual_seed(seed)
    try:
        return "ret", f(*args)
    except NotImplementedError as e:
        return "notimpl", e
    except QErr as e:
        return "refused", e
    except Exception as e:  # noqa: BLE001
        return "exc", e


def _same(g, w):
    """Equality of two results, quantized results by value."""
    if isinstance(w, torch.Tensor):
        if not isinstance(g, torch.Tensor):
            return False
        if isinstance(g, QT):
            g = g.dequantize()
        if g.shape != w.shape or g.layout != w.layout:
            return False
        if w.layout != torch.strided:
            g, w = g.to_dense(), w.to_dense()
        if w.is_complex() or g.is_complex():
            if not (w.is_complex() and g.is_complex()):
                return False
            g, w = torch.view_as_real(g.resolve_conj()), torch.view_as_real(w.resolve_conj())
        g, w = g.double(), w.double()
        return bool(((g - w).abs() <= 1e-5 + 1e-5 * w.abs()).logical_or((g == w) | (g.isnan() & w.isnan())).all())
    if isinstance(w, (list, tuple)):
        return isinstance(g, (list, tuple)) and len(g) == len(w) and all(_same(a, b) for a, b in zip(g, w))
    if isinstance(w, np.ndarray):
        return isinstance(g, np.ndarray) and np.array_equal(g, w, equal_nan=True)
    if isinstance(w, float) and isinstance(g, float):
        return g == w or (g != g and w != w) or abs(g - w) <= 1e-6 + 1e-6 * abs(w)
    try:
        return bool(g == w) or g is w
    except Exception:  # noqa: BLE001
        return False


_NONDET = ("empty", "new_tensor", "resize", "geqrf", "lstsq", "eig", "svd", "pca_lowrank", "fbgemm", "_lobpcg", "lobpcg", "qr", "orgqr", "householder", "ormqr", "lu", "sparse_resize", "exponential", "cauchy", "geometric", "log_normal", "random", "uniform", "rrelu", "gumbel", "fractional", "scaled_dot_product", "multi_head", "to_mkldnn", "new_empty", "unsafe", "set_", "swap", "choose_qparams", "quantize", "_quantized")


def _short(n):
    n = n.removesuffix(".__get__").removesuffix(".__set__").removesuffix(".__delete__")
    n = n.rsplit(".", 1)[-1]
    return "storage" if "storage" in n else n


def _drive(ctx, name, f, template_i):
    rng = ctx.rng
    ctx.note(function=name, template=template_i)
    kind, q = make(rng)
    short = _short(name)
    m = torch.tensor([[rng.random() < 0.5 for _ in range(4)] for _ in range(4)])
    base = q
    sz = rng.random()
    with ff.strict_quantization(False):
        if sz < 0.15 and kind != "channel":
            base, m = q[:1, :1].reshape(1), m[:1, :1].reshape(1)
        elif sz < 0.25 and kind != "channel":
            base, m = q[0], m[0]
    seed = rng.randint(0, 10**6)
    try:
        args = TEMPLATES[template_i](base, m)
    except Exception:  # noqa: BLE001
        raise Skip()
    ref_args = _deq(args)
    if "__get__" in name and not isinstance(args[0], QT):
        raise Skip()  # the type argument of a descriptor
    st, want = _call(f, ref_args, seed)
    if st != "ret":
        return "inapplicable"
    before = [gen.fingerprint(t) if False else (t.raw_data.clone() if isinstance(t, QT) else t.clone()) for t in _leaves(args) if isinstance(t, torch.Tensor)]

    # strict
    with ff.strict_quantization(True):
        a = _copy(args)
        st_s, got_s = _call(f, a, seed)
        ctx.check(ff.get_strict_quantization(), "setting-kept", name)
    inplace = short.endswith("_") and not short.endswith("__")
    if st_s == "ret":
        leaves = _leaves(got_s)
        quant = [v for v in leaves if isinstance(v, QT)]
        plain = [v for v in leaves if isinstance(v, (torch.Tensor, np.ndarray)) and not isinstance(v, QT)]
        if got_s is NotImplemented:
            out = "deferred"
        elif quant:
            # a quantized implementation may add non-quantized companions (e.g. indices)
            ctx.check(all(not v.is_floating_point() for v in plain), "strict-float-companion", f"{name} returned a float tensor under strict quantization")
            if short not in _IDENTITY:
                ctx.check(_same(got_s, want), "strict-quantized-value", f"{name}: quantized implementation differs from the operation on values", got=got_s, want=want)
            out = "quantized"
        elif plain and short in _CASTS:
            ctx.check(_same(got_s, want), "explicit-cast", name)
            out = "cast"
        elif short in _IDENTITY or name.endswith(".__set__"):
            out = "identity"
        else:
            ctx.check(not plain, "strict-plain-result", f"{name} silently returned an unquantized tensor under strict quantization", got=got_s)
            # metadata must not depend on the data or on quantization parameters
            with ff.strict_quantization(True):
                other = _revalue(args)
                st_o, got_o = _call(f, other, seed)
            ctx.check(st_o == "ret" and _same(got_o, got_s), "strict-value-dependent", f"{name} computed a value-dependent result under strict quantization", got=got_s, other=got_o)
            out = "metadata"
        ctx.event("strict:" + out)
    else:
        ctx.event("strict:" + st_s)
        ctx.check(st_s in ("refused", "notimpl"), "strict-refusal", f"{name} raised {type(got_s).__name__} ({got_s}) instead of refusing")
        out = st_s

    # not strict
    with ff.strict_quantization(False):
        a = _copy(args)
        st_n, got_n = _call(f, a, seed)
        ctx.check(not ff.get_strict_quantization(), "setting-kept", name)
    if st_n == "notimpl":
        # only operations without a dequantizing interpretation may be refused
        ctx.check(inplace or short.startswith("__") or short.startswith("_autocast") or any(isinstance(v, torch.Tensor) and v is r for v in _leaves(want) for r in _leaves(ref_args)) or short in ("to_sparse", "to_mkldnn") or short.startswith("to_sparse"), "non-strict-refused", f"{name}: {got_n}")
        nout = "notimpl"
    elif st_n == "ret":
        nout = "ret"
        if got_n is NotImplemented:
            nout = "deferred"
        elif short in _IDENTITY or any(s in short for s in _NONDET) or short in ("__format__",):
            nout = "identity"
        else:
            ctx.check(_same(got_n, want), "non-strict-value", f"{name} differs from the operation on the dequantized tensor", got=got_n, want=want)
            ctx.event("non-strict-compared")
    else:
        ctx.check(short in _IDENTITY or name.endswith(".__set__") or any(s in short for s in _NONDET), "non-strict-raised", f"{name} raised {type(got_n).__name__}: {got_n}")
        nout = "exc"
    # the originals were never written to
    after = [t.raw_data if isinstance(t, QT) else t for t in _leaves(args) if isinstance(t, torch.Tensor)]
    for b, c in zip(before, after):
        if b.layout == torch.strided:
            ctx.same(c, b, "inputs-unchanged", name)
    ctx.state(name, template_i, out, nout, kind)
    return out


def _revalue(args):
    """Same shapes, different quantized values and parameters."""
    if isinstance(args, (list, tuple)):
        return type(args)(_revalue(a) for a in args)
    if isinstance(args, QT):
        A = ff.quantization.affine
        d = args.dequantize()
        new = torch.where(args.raw_data == 0, torch.ones_like(d), torch.zeros_like(d))
        return A.quantize_per_tensor(new, torch.tensor([1.0]), torch.tensor([-1.0]), 6)
    return args


@section(quick=1300, thorough=20000, requires=("strict:refused", "strict:notimpl", "strict:quantized", "strict:cast", "strict:metadata", "non-strict-compared"))
def operations(ctx):
    fs = functions()
    name, f = fs[ctx.case % len(fs)]
    n = 0
    for t in range(len(TEMPLATES)):
        try:
            if _drive(ctx, name, f, t) != "inapplicable":
                n += 1
        except Skip:
            pass
    if n:
        ctx.event("functions-applied")
    else:
        raise Skip()


_PY = {
    "q+q": lambda q: q + q, "q-2": lambda q: q - 2, "2-q": lambda q: 2 - q, "q*q": lambda q: q * q, "q/q": lambda q: q / 3, "q//2": lambda q: q // 2, "q%2": lambda q: q % 2,
    "q**2": lambda q: q**2, "2**q": lambda q: 2**q, "-q": lambda q: -q, "+q": lambda q: +q, "abs": abs, "q@q": lambda q: q @ q, "q<1": lambda q: q < 1, "q==q": lambda q: q == q, "q!=1": lambda q: q != 1,
    "q>=q": lambda q: q >= q, "iadd": lambda q: operator.iadd(q, 1.0), "imul": lambda q: operator.imul(q, q), "isub": lambda q: operator.isub(q, 1), "itruediv": lambda q: operator.itruediv(q, 2),
    "len": len, "iter": list, "contains": lambda q: 1.5 in q, "np": np.asarray, "tolist": lambda q: q.tolist(), "numpy": lambda q: q.numpy(), "T": lambda q: q.T, "mT": lambda q: q.mT, "data": lambda q: q.data,
    "real": lambda q: q.real, "sum": sum, "max": lambda q: q.max(), "stack": lambda q: torch.stack([q, q]), "kw": lambda q: torch.add(input=q, other=q, alpha=2), "kwlist": lambda q: torch.stack(tensors=(q, q), dim=1),
    "nested": lambda q: torch.block_diag(q, q), "linear": lambda q: torch.nn.functional.linear(input=torch.ones(1, q.shape[-1]), weight=q), "module": lambda q: torch.nn.ReLU()(q), "where": lambda q: torch.where(torch.ones(()) > 0, q, 0.0),
    "einsum": lambda q: torch.einsum("i...->...", q), "out": lambda q: torch.add(q, 1.0, out=torch.zeros(q.shape)), "clamp": lambda q: q.clamp(min=torch.zeros(()), max=1), "tensordot": lambda q: torch.tensordot(q, q, dims=q.ndim),
}
_SCALAR = {"item": lambda q: q.item(), "float": float, "int": int, "bool": bool, "not": lambda q: not q, "if": lambda q: 1 if q else 2, "is_nonzero": lambda q: q.is_nonzero(), "torch.is_nonzero": torch.is_nonzero, "allclose": lambda q: torch.allclose(q, q), "equal": lambda q: torch.equal(q, q), "complex": complex}


@section(quick=300, thorough=4000, requires=("refused", "agreed"))
def python_forms(ctx):
    """Operators and conversions as Python code writes them."""
    rng = ctx.rng
    names = list(_PY) + list(_SCALAR)
    n = names[ctx.case % len(names)]
    f = _PY.get(n) or _SCALAR[n]
    kind, q = make(rng)
    if n in _SCALAR or (n == "tensordot" and False):
        kind = "tensor"
        v = rng.choice([0.0, 0.5, -1.0, 2.0])
        q = ff.quantization.affine.quantize_per_tensor(torch.tensor([v]), torch.tensor([0.5]), torch.tensor([rng.choice([0.0, 3.0, -2.0])]), 5)
    ctx.note(form=n, kind=kind)
    want = f(q.dequantize())
    with ff.strict_quantization(True):
        ctx.raises((QErr, NotImplementedError), lambda: f(q), "strict-form-refused", n)
        ctx.event("refused")
    with ff.strict_quantization(False):
        got = f(q)
    ctx.check(_same(got, want), "non-strict-form", n, got=got, want=want)
    ctx.event("agreed")
    ctx.state(n, kind)


# ---------------------------------------------------------------- scopes


class Node(torch.nn.Module):
    """Runs a script of actions; records the setting it sees before and after each of them."""

    def __init__(self, name):
        super().__init__()
        self.name = name

    def forward(self, run, script):
        return run(script)


class Boom(Exception):
    pass


class Reference:
    """Reference semantics: a value and a stack of what to restore."""

    def __init__(self, v):
        self.v = v


@section(quick=1500, thorough=60000, requires=("exception-exit", "module-scope", "nested-same-module", "removed-handle", "decorated", "recursion"))
def scopes(ctx):
    """Random nestings of strictness scopes against a reference interpreter."""
    rng = ctx.rng
    start = rng.random() < 0.5
    ff.set_strict_quantization(start)
    mods = [Node(str(i)) for i in range(3)]
    # attachments: id -> (handle, strict, [module indices]) in order of attachment
    attached = []
    log = []
    budget = [rng.randint(4, 30)]
    q = ff.quantization.affine.quantize_per_tensor(torch.tensor([0.5]), torch.tensor([0.5]), None, 4)

    def observe(ref, where):
        flag = ff.get_strict_quantization()
        ctx.check(flag == ref.v, "flag", f"at {where}: {flag} instead of {ref.v}", log=log)
        if rng.random() < 0.3:
            try:
                q + 1
                ok = False
            except QErr:
                ok = True
            ctx.check(ok == ref.v, "effect", f"at {where}: operation {'refused' if ok else 'allowed'} while the setting is {ref.v}", log=log)

    def gen_script(depth):
        out = []
        while budget[0] > 0 and rng.random() < (0.85 if depth < 4 else 0.2):
            budget[0] -= 1
            k = rng.choice(["with", "with", "module", "module", "module", "decorator", "set", "attach", "withmod", "boom", "remove", "obs"])
            v = rng.random() < 0.5
            if k == "with" or k == "decorator":
                out.append((k, v, rng.random() < 0.3, gen_script(depth + 1)))
            elif k == "module":
                out.append((k, rng.randrange(3), rng.random() < 0.4, gen_script(depth + 1)))
            elif k == "withmod":
                out.append((k, v, [rng.randrange(3) for _ in range(rng.randint(1, 3))], rng.random() < 0.3, gen_script(depth + 1)))
            elif k == "attach":
                out.append((k, v, [rng.randrange(3) for _ in range(rng.randint(1, 2))]))
            elif k == "boom":
                if rng.random() < 0.4:
                    out.append((k,))
            elif k == "remove":
                out.append((k, rng.random()))
            elif k == "set":
                out.append((k, v))
            else:
                out.append((k,))
        return out

    running = []

    def run(script, ref):
        for act in script:
            k = act[0]
            log.append((k, act[1] if len(act) > 1 and not isinstance(act[1], list) else None))
            observe(ref, f"before {k}")
            if k == "obs":
                ctx.event("observed")
            elif k == "set":
                if not any(r.startswith("m") for r in running):
                    ff.set_strict_quantization(act[1])
                    ref.v = act[1]
                    if running:
                        ctx.event("set inside of a scope")
            elif k == "boom":
                raise Boom()
            elif k in ("with", "decorator"):
                old = ref.v

                def body(s=act[3], v=act[1]):
                    ref.v = v
                    observe(ref, "scope start")
                    run(s, ref)
                    return 17

                try:
                    running.append(k)
                    if k == "with":
                        with rng.choice([ff.strict_quantization, ff.set_strict_quantization])(act[1]):
                            body()
                    else:
                        r = ff.flags.context(ff.strict_quantization, act[1])(body)()
                        ctx.equal(r, 17, "decorator-result")
                        ctx.event("decorated")
                except Boom:
                    ctx.event("exception-exit")
                    ref.v = old
                    observe(ref, f"after {k} (exception)")
                    if not act[2]:
                        raise
                finally:
                    running.pop()
                    ref.v = old
            elif k == "attach":
                h = ff.strict_quantization_for_module(act[1], *[mods[i] for i in act[2]])
                attached.append((h, act[1], list(act[2]), set()))
            elif k == "remove":
                if attached and not any(r.startswith("m") for r in running):
                    i = int(act[1] * len(attached))
                    if attached[i][0] is not None and not attached[i][3]:
                        attached.pop(i)[0].remove()
                        ctx.event("removed-handle")
            elif k == "withmod":
                if any(r.startswith("m") for r in running):
                    continue
                h = ff.strict_quantization_for_module(act[1], *[mods[i] for i in act[2]])
                entry = (h, act[1], list(act[2]), {"scoped"})
                try:
                    with h:
                        attached.append(entry)
                        run(act[4], ref)
                except Boom:
                    ctx.event("exception-exit")
                    if not act[3]:
                        raise
                finally:
                    attached.remove(entry)
            elif k == "module":
                i = act[1]
                old = ref.v
                strict = [s for (_, s, ms, _) in attached for j in ms if j == i]
                if strict:
                    ctx.event("module-scope")
                    if len(strict) > 1:
                        ctx.event("nested-same-module")

                # handles attached while this module runs take effect at its next call
                def inner(s):
                    if strict:
                        ref.v = strict[-1]
                    observe(ref, f"inside module {i}")
                    run(s, ref)
                    return s

                if f"m{i}" in running:
                    ctx.event("recursion")
                running.append(f"m{i}")
                try:
                    # attaching inside of a forward is outside of the documented use
                    mods[i](inner, [a for a in act[3] if a[0] not in ("attach", "withmod", "remove")])
                except Boom:
                    ctx.event("exception-exit")
                    ref.v = old
                    observe(ref, f"after module {i} (exception)")
                    if not act[2]:
                        raise
                finally:
                    running.pop()
                    ref.v = old
            observe(ref, f"after {k}")

    ref = Reference(start)
    script = gen_script(0)
    try:
        run(script, ref)
    except Boom:
        pass
    finally:
        for h, *_ in attached:
            if h is not None:
                h.remove()
    ctx.check(ff.get_strict_quantization() == ref.v, "flag-at-end", "", log=log)
    for m in mods:
        ctx.check(not m._forward_hooks and not m._forward_pre_hooks, "hooks-left", "")
    ctx.state(tuple(log))
