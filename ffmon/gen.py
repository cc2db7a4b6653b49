"""Seeded generators and independent reference models for quantization grids.

Nothing here uses fastforward's tiling code: the tile of each element is computed
with plain index arithmetic.
"""

from __future__ import annotations

import dataclasses
import math
import random

from typing import Any

import numpy as np
import torch

import fastforward as ff

from fastforward.quantization import granularity as G


def divisors(n: int) -> list[int]:
    return [d for d in range(1, n + 1) if n % d == 0]


def shape(rng: random.Random, min_dim: int = 1, max_dim: int = 4, max_numel: int = 600) -> tuple[int, ...]:
    while True:
        nd = rng.randint(min_dim, max_dim)
        s = tuple(rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 12]) for _ in range(nd))
        if math.prod(s) <= max_numel:
            return s


def tile_index(shp: tuple[int, ...], tile: tuple[int, ...]) -> np.ndarray:
    """Row-major tile number of every element (pure index arithmetic)."""
    out = np.zeros(shp, dtype=np.int64)
    mult = 1
    for d in reversed(range(len(shp))):
        idx = np.arange(shp[d]) // tile[d]
        view = [1] * len(shp)
        view[d] = shp[d]
        out += idx.reshape(view) * mult
        mult *= shp[d] // tile[d]
    return out


def n_tiles(shp: tuple[int, ...], tile: tuple[int, ...]) -> int:
    return math.prod(a // b for a, b in zip(shp, tile))


def granularity(rng: random.Random, shp: tuple[int, ...], kinds: tuple[str, ...] = ("tensor", "channel", "block", "tile")) -> tuple[Any, tuple[int, ...], str]:
    """Random granularity compatible with shp; returns (granularity, tile shape, description)."""
    nd = len(shp)
    kind = rng.choice(kinds)
    if kind == "tensor":
        return G.PerTensor(), shp, "PerTensor"
    if kind == "channel":
        k = min(nd, rng.choice([1, 1, 1, 1, 2, 2, 3, 4]))
        dims = rng.sample(range(nd), k)
        tile = tuple(1 if d in dims else n for d, n in enumerate(shp))
        spec = tuple(d - nd if rng.random() < 0.3 else d for d in dims)
        arg: Any = spec[0] if len(spec) == 1 and rng.random() < 0.7 else spec
        return G.PerChannel(arg), tile, f"PerChannel({arg})"
    if kind == "block":
        k = min(nd, rng.choice([1, 1, 1, 2, 2, 3]))
        bd = rng.sample(range(nd), k)
        bs = [rng.choice(divisors(shp[d])) for d in bd]
        rest = [d for d in range(nd) if d not in bd]
        pc = tuple(d for d in rest if rng.random() < 0.5)
        tl = [1 if d in pc else n for d, n in enumerate(shp)]
        for d, b in zip(bd, bs):
            tl[d] = b
        bd = [d - nd if rng.random() < 0.15 else d for d in bd]
        pc = tuple(d - nd if rng.random() < 0.15 else d for d in pc)
        a: Any = bd[0] if k == 1 and rng.random() < 0.5 else tuple(bd)
        b_: Any = bs[0] if not isinstance(a, tuple) else tuple(bs)
        strict = rng.random() < 0.8
        return G.PerBlock(a, b_, pc, strict_blocks=strict), tuple(tl), f"PerBlock({a},{b_},{pc},{strict})"
    tl2 = tuple(rng.choice(divisors(n)) for n in shp)
    return G.PerTile(tl2), tl2, f"PerTile({tl2})"


def noncontiguous(rng: random.Random, t: torch.Tensor) -> torch.Tensor:
    """Same values, different memory layout."""
    m = rng.randrange(4)
    if m == 0 or t.ndim == 0:
        return t
    if m == 1:
        perm = list(range(t.ndim))
        rng.shuffle(perm)
        inv = [perm.index(i) for i in range(t.ndim)]
        return t.permute(perm).contiguous().permute(inv)
    if m == 2:
        big = torch.zeros(tuple(s * 2 for s in t.shape), dtype=t.dtype)
        sl = tuple(slice(None, None, 2) for _ in t.shape)
        big[sl] = t
        return big[sl]
    pad = torch.zeros((t.shape[0] + 2, *t.shape[1:]), dtype=t.dtype)
    pad[1:-1] = t
    return pad[1:-1]


@dataclasses.dataclass
class Grid:
    """Elementwise expanded quantization parameters (float64)."""

    tiles: np.ndarray
    scale: torch.Tensor  # per tile, user dtype
    offset: torch.Tensor | None
    bits: float

    def s(self) -> torch.Tensor:
        sc = self.scale.detach().double().reshape(-1)
        if sc.numel() == 1:
            return sc.expand(self.tiles.size).reshape(self.tiles.shape)
        return sc[torch.from_numpy(self.tiles)]

    def o(self) -> torch.Tensor:
        if self.offset is None:
            return torch.zeros(self.tiles.shape, dtype=torch.float64)
        of = torch.round(self.offset.detach().double().reshape(-1))
        if of.numel() == 1:
            return of.expand(self.tiles.size).reshape(self.tiles.shape)
        return of[torch.from_numpy(self.tiles)]

    @property
    def lo(self) -> float:
        return -(2.0 ** (self.bits - 1))

    @property
    def hi(self) -> float:
        return 2.0 ** (self.bits - 1) - 1

    def pre(self, x: torch.Tensor) -> torch.Tensor:
        return x.detach().double() / self.s() - self.o()

    def quant(self, x: torch.Tensor) -> torch.Tensor:
        return torch.clamp(torch.round(self.pre(x)), self.lo, self.hi)

    def dequant(self, q: torch.Tensor) -> torch.Tensor:
        return (q.detach().double() + self.o()) * self.s()

    def qdq(self, x: torch.Tensor) -> torch.Tensor:
        return self.dequant(self.quant(x))


def dyadic_params(rng: random.Random, n: int, bits: float, *, negative: bool = False, with_offset: bool | None = None, dtype: torch.dtype = torch.float32) -> tuple[torch.Tensor, torch.Tensor | None]:
    """Scales that are powers of two and integer offsets: all arithmetic is exact."""
    sc = torch.tensor([2.0 ** rng.randint(-4, 3) for _ in range(n)], dtype=dtype)
    if negative:
        sc = sc * torch.tensor([rng.choice([1.0, -1.0]) for _ in range(n)], dtype=dtype)
    if with_offset is None:
        with_offset = rng.random() < 0.6
    off = None
    if with_offset:
        lim = int(min(2 ** (bits - 1), 100))
        off = torch.tensor([float(rng.randint(-lim, lim)) for _ in range(n)], dtype=dtype)
    return sc, off


def dyadic_data(rng: random.Random, grid: Grid, dtype: torch.dtype = torch.float32, spread: float = 1.6) -> torch.Tensor:
    """Values on half steps of each tile's grid (ties!), in- and out-of-range, exact in float32."""
    shp = grid.tiles.shape
    g = torch.Generator().manual_seed(rng.getrandbits(40))
    span = grid.hi - grid.lo
    k = torch.randint(int(-spread * span) - 2, int(spread * span) + 2, shp, generator=g).double()
    k = k * 0.5 + 0.25 * torch.randint(0, 2, shp, generator=g).double() * (1 if rng.random() < 0.5 else 0)
    x = (k + grid.o()) * grid.s()
    return x.to(dtype)


def linear_quantizer(rng: random.Random, shp: tuple[int, ...], bits: int | None = None, *, kinds: tuple[str, ...] = ("tensor", "channel", "block", "tile"), dyadic: bool = True, symmetric: bool | None = None, one_sided: bool | None = None, quantized_dtype: torch.dtype | None = None) -> tuple[Any, Grid, str]:
    bits = bits or rng.choice([2, 3, 4, 5, 6, 8])
    gr, tile, desc = granularity(rng, shp, kinds)
    n = n_tiles(shp, tile)
    symmetric = rng.random() < 0.5 if symmetric is None else symmetric
    one_sided = rng.random() < 0.5 if one_sided is None else one_sided
    q = ff.nn.LinearQuantizer(bits, symmetric=symmetric, allow_one_sided=one_sided, granularity=gr, quantized_dtype=quantized_dtype)
    q.quantization_range = (torch.full((n,), -1.0), torch.full((n,), 1.0))
    sc, off = dyadic_params(rng, n, bits, with_offset=q.offset is not None)
    if not dyadic:
        sc = sc * (1 + torch.tensor([rng.random() for _ in range(n)]))
    with torch.no_grad():
        q.scale.copy_(sc)
        if q.offset is not None:
            q.offset.copy_(off)
        else:
            off = None
    grid = Grid(tile_index(shp, tile), sc, off, bits)
    return q, grid, f"{desc} bits={bits} sym={symmetric} os={one_sided}"


def fingerprint(t: torch.Tensor) -> tuple[Any, ...]:
    """Value identity of a (quantized) tensor, to detect mutation."""
    raw = t.raw_data if isinstance(t, ff.QuantizedTensor) else t
    raw = raw.detach()
    extra: tuple[Any, ...] = ()
    if isinstance(t, ff.QuantizedTensor):
        p = t.quantization_context.quantization_params
        for name in ("scale", "offset"):
            v = getattr(p, name, None)
            if isinstance(v, torch.Tensor):
                v = tuple(v.detach().flatten().tolist())
            extra += (v,)
    return (tuple(raw.shape), str(raw.dtype), tuple(raw.double().flatten().tolist()) if not raw.is_complex() else tuple(raw.flatten().tolist()), extra)
