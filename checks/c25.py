"""C25: GGUF files decode to the model's quantized weights."""

import dataclasses
import pathlib
import re
import warnings

from types import SimpleNamespace

import gguf
import numpy as np
import torch

import fastforward as ff

from fastforward.exceptions import ExportError
from fastforward.export.pipeline import ExportRequest, GgufLlamaCppOptions, export_with_pipeline
from fastforward.export.stages.gguf import GGUF_Q4_0, GGUF_Q8_0, LLAMA_ADAPTER, QWEN2_ADAPTER, QWEN3_ADAPTER, ArchAdapter

from ffmon.core import section

META = {
    "technique": "runtime monitoring: random models are exported to GGUF files that the reference reader of the gguf package decodes; an independent oracle compares names, shapes, types, metadata and values with the model",
    "level_note": "Random llama, qwen2, qwen3 and custom module trees with quantized and unquantized weights, embeddings and biases, both built-in block formats, extreme scales, weights on rounding ties, float types with overrides, tied output layers, several quantizer constructions. Values must equal code times half-precision scale exactly, with rows permuted as llama.cpp requires; other tensors must be bit-identical (or rounded to the requested float type). The files' vocabulary and metadata are compared as well; unsupported quantizers must be refused; the model must be unchanged.",
    "rule": "distinct (architecture, format, options, shapes) combinations",
}

warnings.simplefilter("ignore")
FORMATS = {4: GGUF_Q4_0, 8: GGUF_Q8_0}
BLOCK = 32


class Linear(torch.nn.Linear):
    pass


class Norm(torch.nn.Module):
    def __init__(self, n):
        super().__init__()
        self.weight = torch.nn.Parameter(torch.randn(n))


class Box(torch.nn.Module):
    def __init__(self, **mods):
        super().__init__()
        for k, m in mods.items():
            self.add_module(k, m)


def codes_scales(q, w):
    """The quantizer's codes and scales by the documented formula, in float32 as the kernel computes."""
    rows, cols = w.shape
    s = q.scale.detach().float().reshape(rows, cols // BLOCK, 1)
    c = torch.round(w.detach().float().reshape(rows, -1, BLOCK) / s)
    c = torch.clamp(c, -(2 ** (q.num_bits - 1)), 2 ** (q.num_bits - 1) - 1)
    return c, s


def decoded(q, w):
    c, s = codes_scales(q, w)
    if q.num_bits == 8:
        c = c.clamp(min=-127)  # the format's code -128 is not used
    return (c * s.half().float()).reshape(w.shape)


def llama_permute(w, n_head):
    """As convert_hf_to_gguf.py does it."""
    a = w.numpy()
    return torch.from_numpy(a.reshape(n_head, 2, a.shape[0] // n_head // 2, *a.shape[1:]).swapaxes(1, 2).reshape(a.shape).copy())


def quantizer(ctx, w, bits):
    rng = ctx.rng
    gran = ff.PerBlock(1, BLOCK, 0, strict_blocks=rng.random() < 0.8)
    q = ff.nn.LinearQuantizer(bits, granularity=gran, symmetric=True, allow_one_sided=rng.random() < 0.5)
    n = w.numel() // BLOCK
    how = rng.choice(["minmax", "range", "pow2", "extreme"])
    if how == "minmax":
        holder = ff.nn.QuantizedLinear(w.shape[1], w.shape[0])
        holder.weight_quantizer = q
        with ff.estimate_ranges(q, ff.range_setting.running_minmax):
            q(torch.cat([w[:, :-1], -w[:, :1].abs() - 0.01], 1))
        return q, how
    m = {"range": torch.rand(n) * 2 + 0.05, "pow2": torch.tensor([2.0 ** rng.randint(-3, 2) * 2 ** (bits - 1) for _ in range(n)]), "extreme": torch.tensor([10.0 ** rng.uniform(-8, 5) for _ in range(n)])}[how]
    q.quantization_range = (-m, m)
    if how == "pow2":  # exact scales and weights on ties
        with torch.no_grad():
            q.scale.copy_(torch.tensor([2.0 ** rng.randint(-3, 2) for _ in range(n)]))
            w.copy_(torch.randint(-40, 41, w.shape) / 4.0)
    return q, how


def put(ctx, mod, bits, p):
    """Quantize the weight of a module with probability p."""
    if isinstance(mod, torch.nn.Embedding):
        mod.__class__ = ff.nn.QuantizedEmbedding
    else:
        mod.__class__ = ff.nn.QuantizedLinear
    mod.__init_quantization__()
    if ctx.rng.random() < p:
        q, how = quantizer(ctx, mod.weight.data, bits)
        mod.weight_quantizer = q
        ctx.event("quantizer-" + how)
        return True
    if ctx.rng.random() < 0.3:  # not initialised: nothing is quantized
        mod.weight_quantizer = ff.nn.LinearQuantizer(ctx.rng.choice([2, 4, 8]))
    return False


def snapshot(model):
    return {k: v.detach().clone() for k, v in [*model.named_parameters(), *model.named_buffers()] if not isinstance(v, torch.nn.parameter.UninitializedTensorMixin)}


def export(ctx, model, **options):
    where = ctx.scratch()
    before, cls = snapshot(model), [type(m) for m in model.modules()]
    with torch.set_grad_enabled(ctx.rng.random() < 0.5):
        art = export_with_pipeline(ExportRequest(model=model, sample_inputs=[], output_dir=where if ctx.rng.random() < 0.5 else str(where), model_name="mm", target="gguf", format="llama_cpp", options=GgufLlamaCppOptions(**options).to_context()))
    after = snapshot(model)
    ctx.equal(set(after), set(before), "model", "state changed")
    for k in before:
        ctx.check(torch.equal(before[k].view(torch.uint8) if before[k].dim() else before[k], after[k].view(torch.uint8) if after[k].dim() else after[k]), "model", f"{k} changed")
    ctx.equal([type(m) for m in model.modules()], cls, "model", "modules changed")
    path = pathlib.Path(where) / "mm.gguf"
    ctx.equal([p.name for p in pathlib.Path(where).iterdir()], ["mm.gguf"], "files")
    ctx.check(any(pathlib.Path(str(v)) == path for v in art.stage_outputs.values()), "artifact", "the written path is not among the outputs")
    return gguf.GGUFReader(path)


def read(reader):
    out = {}
    for t in reader.tensors:
        assert t.name not in out
        shape = tuple(int(v) for v in reversed(t.shape))
        if t.tensor_type.name == "F64":
            val = torch.from_numpy(np.array(t.data)).reshape(shape)
        else:
            val = torch.from_numpy(np.array(gguf.quants.dequantize(t.data, t.tensor_type))).reshape(shape)
        out[t.name] = (t.tensor_type.name, shape, val)
    return out


CAST = {"F32": lambda x: x.float(), "F16": lambda x: x.half().float(), "BF16": lambda x: x.bfloat16().float(), "F64": lambda x: x.double()}


def compare(ctx, got, want):
    """want: name -> (type, tensor)."""
    ctx.equal(set(got), set(want), "names", "tensors of the file")
    for name, (typ, w) in want.items():
        t, shape, v = got[name]
        ctx.equal(t, typ, "type", name)
        ctx.equal(shape, tuple(w.shape), "shape", name)
        err = (v.double() - w.double()).abs().max().item() if w.numel() else 0.0
        ctx.check(err == 0.0, f"value-{'float' if typ in CAST else 'quantized'}", f"{name} ({typ}) differs by {err:.3g}")
        ctx.event(f"tensor-{typ}")


def field(reader, key):
    f = reader.fields.get(key)
    return None if f is None else f.contents()


class Token:
    def __init__(self, special):
        self.special = special


class Tokenizer:
    name_or_path = ""

    def __init__(self, rng, n):
        ids = rng.sample(range(n + 3), max(1, int(n * 0.8)))
        self.vocab = {f"t{i}·{rng.randrange(99)}": i for i in ids}
        names = list(self.vocab)
        self.added = {k: self.vocab[k] for k in names if rng.random() < 0.2}
        self.added_tokens_decoder = {i: Token(rng.random() < 0.5) for i in self.added.values()}

    def get_vocab(self):
        return dict(self.vocab)

    def get_added_vocab(self):
        return dict(self.added)

    def save_pretrained(self, where):
        pathlib.Path(where).mkdir(exist_ok=True)
        (pathlib.Path(where) / "tokenizer.json").write_text('{"model": {"merges": ["a b", "b c"]}}')
        (pathlib.Path(where) / "tokenizer_config.json").write_text("{}")


@section(quick=260, thorough=9000*6)
def models(ctx):
    rng = ctx.rng
    ctx.torch_seed()
    arch = rng.choice(["llama", "llama", "qwen2", "qwen3", "custom"])
    bits = rng.choice([4, 8])
    kv, groups = rng.choice([1, 2, 3]), rng.choice([1, 2, 4])
    head = rng.choice([2, 4, 8, 16]) if arch != "custom" else 4
    heads = kv * groups
    hidden = 32 * rng.choice([1, 2, 3])
    inter = 32 * rng.choice([1, 2, 5])
    layers, vocab = rng.choice([1, 2, 11]) if rng.random() < 0.2 else rng.choice([1, 2]), rng.choice([5, 40])
    p = rng.choice([0.3, 0.8, 1.0])
    bias = arch == "qwen2" or rng.random() < 0.3

    def lin(i, o, b=False):
        m = Linear(i, o, bias=b)
        m.weight.data = torch.randn(o, i) * rng.choice([0.02, 1.0, 30.0])
        return m

    tree = []
    for _ in range(layers):
        attn = {"q_proj": lin(hidden, heads * head, bias), "k_proj": lin(hidden, kv * head, bias), "v_proj": lin(hidden, kv * head, bias), "o_proj": lin(heads * head if (heads * head) % 32 == 0 else hidden, hidden)}
        if rng.random() < 0.7:
            attn |= {"q_norm": Norm(head), "k_norm": Norm(head)}
        parts = {"input_layernorm": Norm(hidden), "self_attn": Box(**attn), "post_attention_layernorm": Norm(hidden), "mlp": Box(gate_proj=lin(hidden, inter), up_proj=lin(hidden, inter), down_proj=lin(inter, hidden))}
        names = list(parts)
        rng.shuffle(names)
        tree.append(Box(**{k: parts[k] for k in names}))
    inner = Box(embed_tokens=torch.nn.Embedding(vocab, hidden), layers=torch.nn.ModuleList(tree), norm=Norm(hidden), extra=Norm(3))
    model = Box(model=inner, lm_head=lin(hidden, vocab))
    if rng.random() < 0.5:
        model.__class__ = type("QuantizedBox", (ff.nn.QuantizedModule, Box), {})
        model.__init_quantization__()
    quantized = {}
    for n, m in list(model.named_modules()):
        if isinstance(m, (Linear, torch.nn.Embedding)):
            is_q = put(ctx, m, bits, p if not isinstance(m, torch.nn.Embedding) else p * 0.5)
            if is_q:
                quantized[n + ".weight"] = m.weight_quantizer
            if getattr(m, "bias", None) is not None and rng.random() < 0.2:
                m.input_quantizer = ff.nn.LinearQuantizer(8)
    tied = rng.random() < 0.4
    share = tied and rng.random() < 0.5
    if share:
        model.lm_head.weight = inner.embed_tokens.weight
    cfg = SimpleNamespace(hidden_size=hidden, num_attention_heads=heads, num_hidden_layers=layers, intermediate_size=inter, max_position_embeddings=rng.choice([128, 4096]), rms_norm_eps=1e-5, vocab_size=vocab, tie_word_embeddings=tied)
    if kv != heads or rng.random() < 0.5:
        cfg.num_key_value_heads = kv
    if rng.random() < 0.7:
        cfg.rope_theta = rng.choice([10000.0, 5e5])
    if rng.random() < 0.5:
        cfg.head_dim = head

    slots = {"input_layernorm.weight": "attn_norm", "self_attn.q_proj.weight": "attn_q", "self_attn.k_proj.weight": "attn_k", "self_attn.v_proj.weight": "attn_v", "self_attn.o_proj.weight": "attn_output", "post_attention_layernorm.weight": "ffn_norm", "mlp.gate_proj.weight": "ffn_gate", "mlp.up_proj.weight": "ffn_up", "mlp.down_proj.weight": "ffn_down"}
    slots = {k: v + ".weight" for k, v in slots.items()}
    if arch == "qwen3":
        slots |= {"self_attn.q_norm.weight": "attn_q_norm.weight", "self_attn.k_norm.weight": "attn_k_norm.weight"}
    if arch == "qwen2":
        slots |= {f"self_attn.{k}_proj.bias": f"attn_{k}.bias" for k in "qkv"}
    adapter = {"llama": LLAMA_ADAPTER, "qwen2": QWEN2_ADAPTER, "qwen3": QWEN3_ADAPTER, "custom": None}[arch]
    names = {"model.embed_tokens.weight": "token_embd.weight", "model.norm.weight": "output_norm.weight", "lm_head.weight": "output.weight"}
    names |= {f"model.layers.{i}.{k}": f"blk.{i}.{v}" for i in range(layers) for k, v in slots.items()}
    skip = {"lm_head.weight"} if tied else set()
    float_type, over = "F32", {}
    if arch == "custom":
        names = {n: n.replace("model.", "m_") for n, _ in model.named_parameters() if "quantizer" not in n and rng.random() < 0.9}
    if rng.random() < 0.4 or adapter is None:
        float_type = rng.choice(["F32", "F16", "BF16", "F64"])
        over = rng.choice([{}, {r".*norm.*": "F32"}, {r".*norm.*": "BF16", r".*": "F16"}, {"norm": "F16"}])
        base = adapter or ArchAdapter(gguf_arch="mine", name_map=names.get, transforms=[], write_metadata=lambda w, c: w.add_context_length(c.max_position_embeddings), tokenizer_model="gpt2", tokenizer_pre="default")
        adapter = dataclasses.replace(base, float_type=float_type, float_type_overrides=over)
    tokenizer = Tokenizer(rng, vocab) if rng.random() < 0.3 else None

    want = {}
    for n, prm in model.named_parameters():
        if n not in names or n in skip:
            continue
        new = names[n]
        if n in quantized:
            val = decoded(quantized[n], prm.data)
            n_kv = getattr(cfg, "num_key_value_heads", heads)
            if arch == "llama" and "q_proj" in n:
                val = llama_permute(val, heads)
            if arch == "llama" and "k_proj" in n:
                val = llama_permute(val, n_kv)
            want[new] = (FORMATS[bits].name, val)
            c, s = codes_scales(quantized[n], prm.data)
            ctx.event("codes-used", len(torch.unique(c)))
        else:
            ft = next((v for k, v in over.items() if re.fullmatch(k, new)), float_type)
            want[new] = (ft, CAST[ft](prm.data.detach()))
    ctx.note(arch=arch, bits=bits, kv=kv, heads=heads, head=head, hidden=hidden, tied=tied, share=share, float_type=float_type, over=over)
    overflow = any(bool(torch.isinf(q.scale.detach().half()).any()) for n, q in quantized.items() if n in names and n not in skip and n in dict(model.named_parameters()))
    if overflow:
        ctx.raises(ExportError, lambda: export(ctx, model, arch_adapter=adapter, quant_format=FORMATS[bits], model_config=cfg), "refuse-scale", "scale beyond half precision")
        return
    reader = export(ctx, model, arch_adapter=adapter, quant_format=FORMATS[bits], model_config=cfg, tokenizer=tokenizer)
    compare(ctx, read(reader), want)

    ctx.equal(field(reader, "general.architecture"), adapter.gguf_arch, "meta")
    ctx.equal(field(reader, "general.file_type"), {4: 2, 8: 7}[bits], "meta")
    if arch != "custom":
        a = arch
        for key, val in {"context_length": cfg.max_position_embeddings, "embedding_length": hidden, "block_count": layers, "feed_forward_length": inter, "attention.head_count": heads, "attention.head_count_kv": getattr(cfg, "num_key_value_heads", heads), "vocab_size": vocab}.items():
            ctx.equal(field(reader, f"{a}.{key}"), val, "meta", key)
        ctx.check(abs(field(reader, f"{a}.attention.layer_norm_rms_epsilon") - 1e-5) < 1e-9, "meta", "eps")
        ctx.close(field(reader, f"{a}.rope.freq_base"), getattr(cfg, "rope_theta", 1e6), rtol=1e-6, atol=0, key="meta")
        if arch == "qwen3":
            ctx.equal(field(reader, f"{a}.attention.key_length"), getattr(cfg, "head_dim", None), "meta")
    if tokenizer is not None:
        toks, types = field(reader, "tokenizer.ggml.tokens"), field(reader, "tokenizer.ggml.token_type")
        inv = {i: k for k, i in tokenizer.vocab.items()}
        ctx.equal(toks, [inv.get(i, f"[PAD{i}]") for i in range(vocab)], "vocab")
        special = {i for i, t in tokenizer.added_tokens_decoder.items() if t.special}
        ctx.equal(types, [5 if i not in inv else 3 if i in special else 4 if inv[i] in tokenizer.added else 1 for i in range(vocab)], "token-types")
        ctx.equal(field(reader, "tokenizer.ggml.model"), adapter.tokenizer_model, "vocab")
        ctx.equal(field(reader, "tokenizer.ggml.pre"), adapter.tokenizer_pre, "vocab")
        ctx.equal(field(reader, "tokenizer.ggml.merges"), ["a b", "b c"], "merges")
        ctx.event("vocab")
    ctx.event("files")
    ctx.state(arch, bits, heads, kv, head, hidden, inter, float_type, tuple(over), tied, share, tokenizer is not None)


@section(quick=160, thorough=12000*6)
def packing(ctx):
    """The packing functions alone, on all codes and scales over the range of half precision."""
    rng = ctx.rng
    ctx.torch_seed()
    bits = rng.choice([4, 8])
    fmt = FORMATS[bits]
    n = rng.choice([1, 2, 7, 64])
    lim = 2 ** (bits - 1)
    codes = torch.randint(-lim, lim, (n, BLOCK)).to(rng.choice([torch.int8, torch.int8, torch.int16, torch.int32, torch.float32]))
    scales = torch.tensor([10.0 ** rng.uniform(-9, 4.8) if rng.random() < 0.5 else rng.uniform(0.001, 2.0) for _ in range(n)])
    keep = codes.clone(), scales.clone()
    packed = fmt.pack_fn(codes, scales)
    ctx.check(torch.equal(codes, keep[0]) and torch.equal(scales, keep[1]), "inputs", "packing changed its inputs")
    ctx.equal((tuple(packed.shape), packed.dtype), ((n, 2 + BLOCK * bits // 8), torch.uint8), "layout")
    typ = gguf.GGMLQuantizationType[fmt.name]
    val = torch.from_numpy(np.array(gguf.quants.dequantize(packed.numpy(), typ))).reshape(n, BLOCK)
    want = codes.float().clamp(min=-7.0 - (bits == 4) if bits == 4 else -127) * scales.half().float()[:, None]
    ctx.check(torch.equal(val, want), "decode", f"{fmt.name}: decoded blocks differ by {(val - want).abs().max()}")
    # The file's own quantizer would make blocks of the same layout: decoding is the inverse of it.
    big = scales.clone()
    big[rng.randrange(n)] = rng.choice([65536.0, 1e6, float("inf"), float("nan")])
    ctx.raises(ExportError, lambda: fmt.pack_fn(codes, big), "overflow", "scale beyond half precision")
    ctx.event("blocks", n)
    ctx.state(bits, n, str(codes.dtype))


@section(quick=96, thorough=2500*6)
def refusals(ctx):
    rng = ctx.rng
    ctx.torch_seed()
    kind = rng.choice(["asymmetric", "bits", "channel", "tensor", "tile", "block", "dims", "swapped", "nochannel", "onesided", "dynamic", "duplicate", "noformat", "noconfig", "ok"])
    bits = rng.choice([4, 8])
    w = torch.randn(64, 64)
    gran = {"channel": ff.PerChannel(0), "tensor": ff.PerTensor(), "tile": ff.PerTile((1, 32)), "block": ff.PerBlock(1, rng.choice([8, 16, 64]), 0), "dims": ff.PerBlock((0, 1), (32, 32)), "swapped": ff.PerBlock(0, 32, 1), "nochannel": ff.PerBlock(1, 32)}.get(kind, ff.PerBlock(1, 32, 0))
    qbits = {4: rng.choice([2, 3, 5, 8]), 8: rng.choice([4, 7, 16])}[bits] if kind == "bits" else bits
    if kind == "onesided":
        w = w.abs() + 0.1
    q = ff.nn.LinearQuantizer(qbits, granularity=gran, symmetric=kind != "asymmetric")
    if kind == "dynamic":
        q = ff.nn.DynamicLinearQuantizer(qbits, granularity=gran)
    else:
        with ff.estimate_ranges(q, ff.range_setting.running_minmax):
            q(w)
    lin = ff.nn.QuantizedLinear(64, 64, bias=False)
    lin.weight.data, lin.weight_quantizer = w, q
    good = ff.nn.QuantizedLinear(32, 4, bias=False)
    good.weight_quantizer, _ = quantizer(ctx, good.weight.data, bits)
    if bool(torch.isinf(good.weight_quantizer.scale.half()).any()):
        return
    model = Box(a=good, b=lin) if rng.random() < 0.5 else Box(b=lin, a=good)
    name = (lambda n: "w.weight" if n.endswith(".weight") and "quantizer" not in n else None) if kind == "duplicate" else (lambda n: n if "quantizer" not in n else None)
    adapter = ArchAdapter(gguf_arch="x", name_map=name, transforms=[], write_metadata=lambda w_, c: None, tokenizer_model="gpt2", tokenizer_pre="default")
    cfg = SimpleNamespace()
    fmt = FORMATS[bits]
    ctx.state(kind, bits, qbits)
    if kind == "ok":
        got = read(export(ctx, model, arch_adapter=adapter, quant_format=fmt, model_config=cfg))
        compare(ctx, got, {f"{k}.weight": (fmt.name, decoded(m.weight_quantizer, m.weight.data)) for k, m in model.named_children()})
        ctx.event("accepted")
        return
    where = ctx.scratch()
    ctx.raises(ExportError, lambda: export_with_pipeline(ExportRequest(model=model, sample_inputs=[], output_dir=where, model_name="mm", target="gguf", format="llama_cpp", options=GgufLlamaCppOptions(arch_adapter=adapter, quant_format=None if kind == "noformat" else fmt, model_config=None if kind == "noconfig" else cfg).to_context())), "refuse", f"{kind} bits={qbits}")
    ctx.event("refused-" + kind)
