"""Random small networks for the export properties and a float64 interpreter for the exported graphs.

All scales are powers of two and all data are multiples of one, so that float64 evaluation is exact
and the model's outputs can be compared bit by bit (up to transcendental functions).
"""

import functools
import random

from typing import Any

import numpy as np
import onnx
import torch
import torch.nn.functional as F

import fastforward as ff

from onnx import numpy_helper


def set_params(q: Any, scale: torch.Tensor, offset: torch.Tensor | None) -> None:
    q.quantization_range = (torch.full_like(scale, -1.0), torch.full_like(scale, 1.0))
    with torch.no_grad():
        q.scale.copy_(scale)
        if q.offset is not None:
            q.offset.copy_(torch.zeros_like(scale) if offset is None else offset)


class Net(torch.nn.Module):
    """Executes `prog`: a list of (op, argument indices, payload); values are appended in order."""

    def __init__(self, prog: list[tuple[str, tuple[int, ...], Any]], outs: list[int], mods: dict[str, torch.nn.Module], n_inputs: int, kw: list[str]) -> None:
        super().__init__()
        self.prog, self.outs, self.n_inputs, self.kw = prog, outs, n_inputs, kw
        for k, m in mods.items():
            self.add_module(k, m)

    def forward(self, *xs: torch.Tensor, **kws: torch.Tensor) -> Any:
        v: list[Any] = list(xs) + [kws[k] for k in self.kw]
        for op, args, p in self.prog:
            v.append(apply(self, op, [v[i] for i in args], p))
        out = tuple(v[i] for i in self.outs)
        return out[0] if len(out) == 1 else out


@functools.lru_cache(maxsize=None)
def net_class(names: tuple[str, ...], kw: bool) -> type[Net]:
    """A Net with named inputs, of which the last is a keyword argument."""
    pos = names[:-1] if kw else names
    args = ", ".join([*pos, *(["*", "scale_me"] if kw else [])])
    ns: dict[str, Any] = {"Net": Net}
    exec(f"def forward(self, {args}):\n    return Net.forward(self, {', '.join([*pos, *(['scale_me=scale_me'] if kw else [])])})", ns)
    return type(f"Net{len(names)}", (Net,), {"forward": ns["forward"]})


# Names of functions and operations may collide with the names that a tracer gives to nodes.
INPUT_NAMES = ("a", "b", "input", "x", "relu", "mul", "max", "view", "add", "output", "sum", "permute", "linear")


def apply(net: Any, op: str, a: list[Any], p: Any) -> Any:
    match op:
        case "skip":
            return None
        case "mod":
            return getattr(net, p)(*a)
        case "relu":
            return torch.relu(a[0])
        case "add":
            return a[0] + a[1]
        case "sub":
            return a[0] - a[1]
        case "mul":
            return a[0] * a[1]
        case "const":
            return a[0] * p + 1.0
        case "cat":
            return torch.cat(a, p)
        case "matmul":
            return torch.matmul(a[0], a[1].transpose(-1, -2))
        case "reshape":
            return a[0].reshape(p)
        case "permute":
            return a[0].permute(p)
        case "unsqueeze":
            return a[0].unsqueeze(p)
        case "squeeze":
            return a[0].squeeze(p)
        case "flatten":
            return a[0].flatten(p)
        case "slice":
            dim, lo, hi = p
            return a[0].narrow(dim, lo, hi - lo)
        case "select":
            return a[0].select(*p)
        case "expand":
            return a[0].expand(p)
        case "split":
            dim, sizes, i = p
            return torch.split(a[0], sizes, dim)[i]
        case "max":
            return a[0].max(p)[0]
        case "silu":
            return F.silu(a[0])
        case "sigmoid":
            return torch.sigmoid(a[0])
        case "gelu":
            return F.gelu(a[0])
        case "softmax":
            return F.softmax(a[0], p)
        case "mean":
            return a[0].mean(p)
    raise AssertionError(op)


class Retry(Exception):
    """The step would create something that ONNX optimisations merge with something else."""


VIEWS = ("reshape", "permute", "unsqueeze", "squeeze", "flatten", "slice", "select", "expand")
SAME_DATA = ("reshape", "unsqueeze", "squeeze", "flatten")
SMOOTH = ("silu", "sigmoid", "gelu", "softmax", "mean")


class Gen:
    def __init__(
        self,
        rng: random.Random,
        *,
        weight_bits: tuple[int, ...] = (2, 3, 4, 8),
        act_bits: tuple[int, ...] = (3, 4, 8, 16),
        weight_gran: tuple[str, ...] = ("tensor", "channel"),
        act_gran: tuple[str, ...] = ("tensor",),
        smooth: bool = False,
        requant: bool = False,
        split: bool = False,
        size: int = 6,
        partial: float = 0.35,
        frac_offsets: bool = True,
        offset_lim: int | None = None,
        clean: bool = False,
        even_offsets: bool = False,
    ) -> None:
        self.rng = rng
        self.weight_bits, self.act_bits = weight_bits, act_bits
        self.weight_gran, self.act_gran = weight_gran, act_gran
        self.smooth, self.requant, self.split, self.size, self.partial = smooth, requant, split, size, partial
        # Neither duplicates nor views that do nothing: the ONNX exporter removes them and, with
        # them, the tensors that an encoding would belong to.
        self.clean, self.even_offsets = clean, even_offsets
        self.frac_offsets, self.offset_lim = frac_offsets, offset_lim
        self.mods: dict[str, torch.nn.Module] = {}
        self.in_shapes: dict[str, tuple[int, ...]] = {}
        self.prog: list[tuple[str, tuple[int, ...], Any]] = []
        self.shapes: list[tuple[int, ...]] = []
        self.shape_of: list[tuple[int, ...]] = []
        self.usable: list[int] = []
        self.quantized: list[bool] = []
        self.sizes = [2, 3, 4, 6, 8]
        self.tags: list[str] = []

    # -- quantizers
    def quantizer(self, shape: tuple[int, ...], bits: int, gran: str, sym: bool, k: int) -> Any:
        rng = self.rng
        if gran == "channel" and len(shape) >= 1:
            gr: Any = ff.PerChannel(0)
            n = shape[0]
        elif gran == "channel_last" and len(shape) >= 1:
            gr = ff.PerChannel(len(shape) - 1)
            n = shape[-1]
        elif gran == "block" and len(shape) == 2 and shape[1] % 2 == 0 and shape[0] > 1:
            gr = ff.PerBlock(1, 2, 0)
            n = shape[0] * shape[1] // 2
        else:
            gr, n = ff.PerTensor(), 1
        q = ff.nn.LinearQuantizer(bits, symmetric=sym, granularity=gr, allow_one_sided=False)
        scale = torch.tensor([2.0 ** rng.randint(k - 1, k + 1) for _ in range(n)])
        off = None
        if not sym:
            lim = self.offset_lim if self.offset_lim is not None else int(min(2 ** (bits - 1) * 1.5, 200))
            off = torch.tensor([float(rng.randint(-lim, lim)) for _ in range(n)])
            if self.even_offsets:
                off = torch.trunc(off / 2) * 2
            if rng.random() < 0.2:
                off[rng.randrange(n)] = 0.0
            if self.frac_offsets and rng.random() < 0.4:
                off = off + torch.tensor([rng.choice([0.0, 0.25, -0.375]) for _ in range(n)])
        set_params(q, scale, off)
        return q

    def act_quantizer(self, shape: tuple[int, ...], wide: bool = True, flat: bool = False) -> Any:
        bits = self.rng.choice(self.act_bits)
        # The grid spans a few units whatever the bit width.
        k = 3 - bits if wide else 2 - bits
        gran = self.rng.choice(("tensor",) if self.clean and flat else self.act_gran)
        return self.quantizer(shape, bits, gran, self.rng.random() < 0.4, k)

    def weight_quantizer(self, shape: tuple[int, ...]) -> Any:
        bits = self.rng.choice(self.weight_bits)
        return self.quantizer(shape, bits, self.rng.choice(self.weight_gran), self.rng.random() < 0.7, 1 - bits)

    # -- program
    def name(self, kind: str) -> str:
        return f"{kind}{len(self.mods)}"

    def emit(self, op: str, args: tuple[int, ...], p: Any, shape: tuple[int, ...]) -> int:
        if self.clean and ((op, args, p) in self.prog or (op in VIEWS and self.shapes[args[0]] == tuple(shape) and (op != "permute" or list(p) == sorted(p)))):
            raise Retry
        if self.clean and op in ("silu", "sigmoid") and any(o in ("silu", "sigmoid") and a == args for o, a, _ in self.prog):
            raise Retry  # silu is decomposed into a sigmoid and a product
        if self.clean and op == "relu" and self.is_relu(args[0]):
            raise Retry  # relu of relu is one relu
        if self.clean and op in SAME_DATA and any(o in SAME_DATA and a == args and self.shape_of[k] == tuple(shape) for k, (o, a, _) in enumerate(self.prog)):
            raise Retry  # a reshape, whatever it is called
        rows = self.rows_view(op, args, p)
        if self.clean and any(
            a == args and ((o in SAME_DATA and rows == self.shape_of[k]) or (op in SAME_DATA and self.rows_view(o, a, q) == tuple(shape)))
            for k, (o, a, q) in enumerate(self.prog)
        ):
            raise Retry  # linear layers reshape inputs of more dimensions
        self.shape_of.append(tuple(shape))
        self.prog.append((op, args, p))
        self.shapes.append(tuple(shape))
        self.quantized.append(False)
        return len(self.shapes) - 1

    def rows_view(self, op: str, args: tuple[int, ...], p: Any) -> Any:
        """Shape of the view of its input that a linear layer creates."""
        if op != "mod" or not p.startswith("linear") or len(self.shapes[args[0]]) == 2:
            return None
        shp = self.shapes[args[0]]
        return (int(np.prod(shp[:-1])), shp[-1])

    def is_relu(self, i: int) -> bool:
        """Value `i` is a relu, apart from quantizers and views."""
        k = i - (len(self.shapes) - len(self.prog))
        if k < 0:
            return False
        op, args, p = self.prog[k]
        return op == "relu" or ((op in VIEWS or (op == "mod" and p.startswith("q"))) and self.is_relu(args[0]))

    def quant(self, i: int) -> int:
        k = i - (len(self.shapes) - len(self.prog))
        # Views of views are merged and what is in between is lost; see `clean`.
        op, _, p = self.prog[k] if k >= 0 else ("", (), None)
        view = op in VIEWS or (op == "mod" and p.startswith("linear") and len(self.shapes[i]) != 2)
        q = self.act_quantizer(self.shapes[i], flat=view)
        name = self.name("q")
        self.mods[name] = q
        j = self.emit("mod", (i,), name, self.shapes[i])
        self.quantized[j] = True
        return j

    def publish(self, i: int, p: float) -> int:
        """Quantize value `i` (and hide the unquantized one) or make it available as it is."""
        rng = self.rng
        if rng.random() < p:
            j = self.quant(i)
            if self.requant and rng.random() < 0.3:
                self.usable.append(i)
                self.tags.append("unquantized-too")
            if self.requant and rng.random() < 0.3:
                j = self.quant(j)
                self.tags.append("requant")
            i = j
        self.usable.append(i)
        return i

    def dyadic(self, shape: tuple[int, ...], den: int = 16, lim: int = 40) -> torch.Tensor:
        g = torch.Generator().manual_seed(self.rng.getrandbits(40))
        return torch.randint(-lim, lim + 1, shape, generator=g).float() / den

    def layer(self, i: int) -> int | None:
        rng, shp = self.rng, self.shapes[i]
        kinds = []
        if len(shp) >= 2:
            kinds += ["linear"] * 3
        if len(shp) == 3:
            kinds += ["conv1d"] * 2
        if len(shp) == 4:
            kinds += ["conv2d"] * 3
        if not kinds:
            return None
        kind = rng.choice(kinds)
        bias = rng.random() < 0.6
        out = rng.choice(self.sizes)
        name = self.name(kind)
        # Reuse a module with its quantizers for another tensor.
        reuse = [n for n, m in self.mods.items() if n.startswith("linear") and len(shp) >= 2 and m.in_features == shp[-1] and self.fits(n, shp)]
        if reuse and rng.random() < 0.3:
            name = rng.choice(reuse)
            self.tags.append("shared-module")
            return self.finish_layer(i, name, (*shp[:-1], self.mods[name].out_features))
        if kind == "linear":
            m: Any = ff.nn.QuantizedLinear(shp[-1], out, bias=bias)
            oshape = (*shp[:-1], out)
        elif kind == "conv1d":
            kk = rng.choice([1, 2]) if shp[-1] > 1 else 1
            m = ff.nn.QuantizedConv1d(shp[1], out, kk, bias=bias)
            oshape = (shp[0], out, shp[2] - kk + 1)
        else:
            kk = rng.choice([1, 2]) if min(shp[2:]) > 1 else 1
            m = ff.nn.QuantizedConv2d(shp[1], out, kk, bias=bias)
            oshape = (shp[0], out, shp[2] - kk + 1, shp[3] - kk + 1)
        with torch.no_grad():
            m.weight.copy_(self.dyadic(tuple(m.weight.shape), 32))
            if bias:
                m.bias.copy_(self.dyadic((out,), 16))
        if rng.random() < 0.85:
            m.weight_quantizer = self.weight_quantizer(tuple(m.weight.shape))
        if bias and rng.random() < 0.3:
            m.bias_quantizer = self.quantizer((out,), 16, "tensor", True, -6)
            self.tags.append("bias-quantizer")
        if rng.random() < 0.6:
            # Linear layers for other than matrices are exported with views around them.
            m.output_quantizer = self.act_quantizer(oshape, flat=kind == "linear" and len(shp) != 2)
        if self.requant and rng.random() < 0.4:
            m.input_quantizer = self.act_quantizer(shp)
            self.tags.append("input-quantizer")
        self.mods[name] = m
        self.in_shapes[name] = shp
        return self.finish_layer(i, name, oshape)

    def fits(self, name: str, shape: tuple[int, ...]) -> bool:
        """A module with per-channel quantizers for activations fits tensors of one shape only."""
        m = self.mods[name]
        return shape == self.in_shapes[name] or not any(isinstance(getattr(q, "granularity", None), ff.PerChannel) for q in (m.input_quantizer, m.output_quantizer))

    def finish_layer(self, i: int, name: str, oshape: tuple[int, ...]) -> int:
        j = self.emit("mod", (i,), name, oshape)
        m = self.mods[name]
        self.quantized[j] = isinstance(m.output_quantizer, ff.nn.LinearQuantizer)
        if self.quantized[j]:
            self.usable.append(j)
            return j
        return self.publish(j, self.partial)

    def view(self, i: int) -> int | None:
        rng, shp = self.rng, self.shapes[i]
        opts: list[tuple[str, Any, tuple[int, ...]]] = []
        n = int(np.prod(shp))
        if len(shp) >= 2:
            perm = list(range(len(shp)))
            rng.shuffle(perm)
            opts.append(("permute", tuple(perm), tuple(shp[d] for d in perm)))
            opts.append(("flatten", 1 if len(shp) > 2 else 0, (shp[0], n // shp[0]) if len(shp) > 2 else (n,)))
            d = rng.randrange(len(shp))
            if shp[d] > 1:
                lo = rng.randrange(shp[d] - 1)
                hi = rng.randint(lo + 1, shp[d])
                opts.append(("slice", (d, lo, hi), tuple(hi - lo if k == d else s for k, s in enumerate(shp))))
            if len(shp) > 2:
                d = rng.randrange(len(shp))
                opts.append(("select", (d, rng.randrange(shp[d])), tuple(s for k, s in enumerate(shp) if k != d)))
        if len(shp) <= 3:
            d = rng.randint(0, len(shp))
            opts.append(("unsqueeze", d, (*shp[:d], 1, *shp[d:])))
        for d, s in enumerate(shp):
            if s == 1 and len(shp) > 1:
                opts.append(("squeeze", d, (*shp[:d], *shp[d + 1 :])))
                opts.append(("expand", (*shp[:d], 2, *shp[d + 1 :]), (*shp[:d], 2, *shp[d + 1 :])))
        if n % 2 == 0 and n > 2:
            opts.append(("reshape", (2, n // 2), (2, n // 2)))
        if not opts:
            return None
        op, p, oshape = rng.choice(opts)
        j = self.emit(op, (i,), p, oshape)
        self.quantized[j] = self.quantized[i]
        self.tags.append(op)
        # A view of a quantized tensor is on its grid already.
        if self.quantized[i] and not self.requant:
            self.usable.append(j)
            return j
        return self.publish(j, 0.5)

    def step(self) -> None:
        rng = self.rng
        i = rng.choice(self.usable[-3:] if rng.random() < 0.7 else self.usable)
        shp = self.shapes[i]
        kind = rng.choice(["layer"] * 4 + ["view"] * 3 + ["relu", "binary", "binary", "cat", "const", "max", "split"] + (["smooth"] * 3 if self.smooth else []))
        if kind == "layer":
            if self.layer(i) is None:
                kind = "view"
            else:
                return
        if kind == "view":
            if self.view(i) is not None:
                return
            kind = "relu"
        if kind == "binary":
            same = [j for j in self.usable if self.shapes[j] == shp]
            j = rng.choice(same)
            self.publish(self.emit(rng.choice(["add", "sub", "mul"]), (i, j), None, shp), 0.6)
        elif kind == "cat":
            same = [j for j in self.usable if self.shapes[j] == shp]
            j = rng.choice(same)
            d = rng.randrange(len(shp))
            self.publish(self.emit("cat", (i, j), d, tuple(s * 2 if k == d else s for k, s in enumerate(shp))), 0.6)
        elif kind == "const":
            self.publish(self.emit("const", (i,), rng.choice([0.5, -1.0, 2.0]), shp), 0.6)
        elif kind == "max" and len(shp) > 1:
            d = rng.randrange(len(shp))
            self.publish(self.emit("max", (i,), d, tuple(s for k, s in enumerate(shp) if k != d)), 0.6)
        elif kind == "split" and self.split and shp[-1] % 2 == 0:
            h = shp[-1] // 2
            for part in rng.choice([(0,), (1,), (0, 1)]):
                self.publish(self.emit("split", (i,), (len(shp) - 1, h, part), (*shp[:-1], h)), 0.6)
            self.tags.append("split")
        elif kind == "smooth":
            op = rng.choice(SMOOTH)
            if op in ("softmax", "mean"):
                if len(shp) < 2:
                    op, p, oshape = "silu", None, shp
                else:
                    p = len(shp) - 1
                    oshape = shp if op == "softmax" else shp[:-1]
            else:
                p, oshape = None, shp
            self.publish(self.emit(op, (i,), p, oshape), 0.8)
        else:
            self.publish(self.emit("relu", (i,), None, shp), 0.6)

    def build(self) -> tuple[Net, tuple[torch.Tensor, ...], dict[str, torch.Tensor]]:
        rng = self.rng
        n_in = rng.choice([1, 1, 2, 3])
        rank = rng.choice([2, 2, 3, 4])
        dims = tuple(rng.choice([1, 2, 3, 4, 6]) for _ in range(rank))
        if rank == 4:
            dims = (rng.choice([1, 2]), rng.choice([2, 3, 4]), 3, rng.choice([2, 3]))
        for _ in range(n_in):
            self.shapes.append(dims)
            self.quantized.append(False)
        for i in range(n_in):
            self.publish(i, 0.6)
        steps = rng.randint(2, self.size)
        for _ in range(steps):
            for _ in range(20):
                try:
                    self.step()
                    break
                except Retry:
                    continue
        # Every published value that nobody consumes has to be an output, or it would be dead code.
        used = {i for _, args, _ in self.prog for i in args}
        leaves = [i for i in range(n_in, len(self.shapes)) if i not in used]
        if not leaves:
            leaves = [self.publish(self.emit("relu", (self.usable[-1],), None, self.shapes[self.usable[-1]]), 1.0)]
        rng.shuffle(leaves)
        outs = leaves[: rng.randint(1, 3)] if rng.random() < 0.4 else leaves
        if rng.random() < 0.2:
            inner = [i for i in self.usable if i >= n_in and i not in outs]
            if inner:
                outs = [*outs, rng.choice(inner)]
                self.tags.append("inner-output")
        kw = ["scale_me"] if n_in == 3 else []
        names = rng.sample(INPUT_NAMES, n_in) if rng.random() < 0.5 else ["a", "b", "c"][:n_in]
        cls = net_class(tuple(names), n_in == 3)
        net = cls(self.prog, outs, self.mods, n_in, kw)
        net.eval()
        xs = tuple(self.dyadic(dims, 8, 40) for _ in range(n_in))
        if n_in == 3:
            return net, xs[:2], {"scale_me": xs[2]}
        return net, xs, {}


def reference(net: Net, xs: tuple[torch.Tensor, ...], kw: dict[str, torch.Tensor]) -> list[torch.Tensor]:
    """Eager outputs of the quantized model, evaluated in float64."""
    import copy

    m = copy.deepcopy(net).double()
    with torch.no_grad(), ff.strict_quantization(False):
        out = m(*[x.double() for x in xs], **{k: v.double() for k, v in kw.items()})
    out = out if isinstance(out, tuple) else (out,)
    return [o.dequantize() if isinstance(o, ff.QuantizedTensor) else o for o in out]


_INT = {onnx.TensorProto.INT4: (-8, 7), onnx.TensorProto.INT8: (-128, 127), onnx.TensorProto.INT16: (-32768, 32767), onnx.TensorProto.UINT8: (0, 255), onnx.TensorProto.UINT16: (0, 65535), onnx.TensorProto.UINT4: (0, 15)}


class Interp:
    """Evaluates an ONNX graph in float64; `hook(name, tensor)` sees (and may replace) every tensor."""

    def __init__(self, model: Any, hook: Any = None) -> None:
        self.model, self.g, self.hook = model, model.graph, hook
        self.init_types = {t.name: t.data_type for t in self.g.initializer}
        self.ops: list[str] = []

    def put(self, name: str, t: Any) -> None:
        if self.hook is not None and isinstance(t, torch.Tensor) and t.is_floating_point():
            t = self.hook(name, t)
        self.env[name] = t

    def run(self, feeds: dict[str, torch.Tensor]) -> list[torch.Tensor]:
        self.env: dict[str, Any] = {}
        self.types: dict[str, int] = dict(self.init_types)
        for t in self.g.initializer:
            arr = numpy_helper.to_array(t)
            if arr.dtype.kind not in "fiub":  # 4-bit types
                arr = arr.astype(np.int64)
            x = torch.from_numpy(np.array(arr))
            self.put(t.name, x.double() if x.is_floating_point() else x)
        for i in self.g.input:
            if i.name in feeds:
                x = feeds[i.name]
                self.put(i.name, x.double() if x.is_floating_point() else x)
        for n in self.g.node:
            ins = [self.env[i] if i else None for i in n.input]
            at = {a.name: onnx.helper.get_attribute_value(a) for a in n.attribute}
            outs = self.op(n, ins, at)
            self.ops.append(n.op_type)
            for name, o in zip(n.output, outs if isinstance(outs, (tuple, list)) else [outs]):
                if name:
                    self.put(name, o)
        return [self.env[o.name] for o in self.g.output]

    def qparams(self, x: torch.Tensor, s: torch.Tensor, z: torch.Tensor | None, at: dict[str, Any]) -> tuple[torch.Tensor, torch.Tensor]:
        z = torch.zeros_like(s) if z is None else z.double()
        s = s.double()
        if at.get("block_size", 0):
            ax = at["axis"]
            return s.repeat_interleave(at["block_size"], ax), z.repeat_interleave(at["block_size"], ax)
        if s.dim() == 0 or (s.dim() == 1 and s.numel() == 1):
            return s.reshape(()), z.reshape(())
        ax = at.get("axis", 1)
        if s.numel() != x.shape[ax]:
            raise ValueError(f"per-axis scale of {s.numel()} elements on axis {ax} of {tuple(x.shape)}")
        sh = [1] * x.dim()
        sh[ax] = -1
        return s.reshape(sh), z.reshape(sh)

    def op(self, n: Any, a: list[Any], at: dict[str, Any]) -> Any:
        match n.op_type:
            case "Gemm":
                x = a[0].transpose(0, 1) if at.get("transA") else a[0]
                w = a[1].transpose(0, 1) if at.get("transB") else a[1]
                y = at.get("alpha", 1.0) * (x @ w)
                return y if len(a) < 3 or a[2] is None else y + at.get("beta", 1.0) * a[2]
            case "MatMul":
                return a[0] @ a[1]
            case "Conv":
                d = a[0].dim() - 2
                pads = list(at.get("pads", [0] * 2 * d))
                spec: list[int] = []
                for k in reversed(range(d)):
                    spec += [pads[k], pads[k + d]]
                x = F.pad(a[0], spec)
                fn = F.conv1d if d == 1 else F.conv2d
                return fn(x, a[1], a[2] if len(a) > 2 else None, list(at.get("strides", [1] * d)), 0, list(at.get("dilations", [1] * d)), at.get("group", 1))
            case "Relu":
                return torch.relu(a[0])
            case "Add":
                return a[0] + a[1]
            case "Sub":
                return a[0] - a[1]
            case "Mul":
                return a[0] * a[1]
            case "Div":
                return a[0] / a[1]
            case "Neg":
                return -a[0]
            case "Round":
                return torch.round(a[0])
            case "Identity":
                return a[0]
            case "Sigmoid":
                return torch.sigmoid(a[0])
            case "Gelu":
                return F.gelu(a[0], approximate=(at.get("approximate") or b"none").decode())
            case "Erf":
                return torch.erf(a[0])
            case "Softmax":
                return torch.softmax(a[0], at.get("axis", -1))
            case "Swish":
                return a[0] * torch.sigmoid(at.get("alpha", 1.0) * a[0])
            case "ReduceMean" | "ReduceMax":
                axes = a[1].tolist() if len(a) > 1 and a[1] is not None else list(range(a[0].dim()))
                f = torch.mean if n.op_type == "ReduceMean" else torch.amax
                return f(a[0], axes, keepdim=bool(at.get("keepdims", 1)))
            case "TopK":
                return tuple(torch.topk(a[0], int(a[1]), at.get("axis", -1), bool(at.get("largest", 1))))
            case "ArgMax":
                return torch.argmax(a[0], at.get("axis", 0), keepdim=bool(at.get("keepdims", 1)))
            case "Concat":
                return torch.cat(a, at["axis"])
            case "Reshape":
                shp = [a[0].shape[k] if d == 0 and not at.get("allowzero") else d for k, d in enumerate(a[1].tolist())]
                return a[0].reshape(shp)
            case "Transpose":
                return a[0].permute(*at.get("perm", tuple(reversed(range(a[0].dim())))))
            case "Unsqueeze":
                axes = sorted(d if d >= 0 else d + a[0].dim() + a[1].numel() for d in a[1].reshape(-1).tolist())
                x = a[0]
                for d in axes:
                    x = x.unsqueeze(d)
                return x
            case "Squeeze":
                axes = a[1].reshape(-1).tolist() if len(a) > 1 else [d for d, s in enumerate(a[0].shape) if s == 1]
                x = a[0]
                for d in sorted((d if d >= 0 else d + a[0].dim() for d in axes), reverse=True):
                    x = x.squeeze(d)
                return x
            case "Flatten":
                k = at.get("axis", 1)
                return a[0].reshape(int(np.prod(a[0].shape[:k])), -1)
            case "Expand":
                return a[0] * torch.ones(a[1].tolist(), dtype=a[0].dtype)
            case "Slice":
                starts, ends = a[1].reshape(-1).tolist(), a[2].reshape(-1).tolist()
                axes = a[3].reshape(-1).tolist() if len(a) > 3 and a[3] is not None else list(range(len(starts)))
                steps = a[4].reshape(-1).tolist() if len(a) > 4 and a[4] is not None else [1] * len(starts)
                x = a[0]
                for s, e, d, st in zip(starts, ends, axes, steps):
                    lim = x.shape[d]
                    idx = list(range(*slice(s, e, st).indices(lim)))
                    x = x.index_select(d, torch.tensor(idx, dtype=torch.long))
                return x
            case "Gather":
                ax = at.get("axis", 0)
                idx = a[1].long()
                out = a[0].index_select(ax, idx.reshape(-1))
                return out.reshape(*a[0].shape[:ax], *idx.shape, *a[0].shape[ax + 1 :])
            case "Split":
                ax = at.get("axis", 0)
                if len(a) > 1 and a[1] is not None:
                    return torch.split(a[0], a[1].tolist(), ax)
                k = at.get("num_outputs", len(n.output))
                return torch.split(a[0], -(-a[0].shape[ax] // k), ax)
            case "Cast" | "CastLike":
                to = at["to"] if n.op_type == "Cast" else self.types[n.input[1]]
                self.types[n.output[0]] = to
                if to in _INT:
                    lo, hi = _INT[to]
                    return (torch.trunc(a[0].double()).long() - lo) % (hi - lo + 1) + lo
                return a[0].long() if to in (onnx.TensorProto.INT64, onnx.TensorProto.INT32) else a[0].double()
            case "QuantizeLinear":
                s, z = self.qparams(a[0], a[1], a[2] if len(a) > 2 else None, at)
                ty = self.types[n.input[2]] if len(a) > 2 else at.get("output_dtype", onnx.TensorProto.UINT8)
                lo, hi = _INT[ty]
                self.types[n.output[0]] = ty
                return torch.clamp(torch.round(a[0] / s) + z, lo, hi).long()
            case "DequantizeLinear":
                s, z = self.qparams(a[0], a[1], a[2] if len(a) > 2 else None, at)
                return (a[0].double() - z) * s
            case "Constant":
                return torch.from_numpy(np.array(numpy_helper.to_array(at["value"])))
        raise NotImplementedError(n.op_type)


def reference_plain(net: torch.nn.Module, x: torch.Tensor) -> torch.Tensor:
    """Output of a net without quantized tensors in float64."""
    with torch.no_grad():
        out: torch.Tensor = net.double()(x.double())
    return out
