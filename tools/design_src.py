"""Hand-written parts of DESIGN.md; tools/design.py combines them with the checks' own descriptions."""

HEAD = """# Runtime monitoring of fastforward

## Approach

fastforward is a pure-Python library over PyTorch: no native code of its own, no
threads, no shared memory. Address, thread and undefined-behaviour sanitizers therefore
have nothing of its own to watch (what they would see is torch). The framework consists
of *monitors*: oracles that observe executions of the real code in `/repo/src`, driven by
seeded, hostile workloads. What stands in for a sanitizer here is written per property:

* *differential oracles*: the same data through an independent, elementwise model
  (index arithmetic in float64, `ffmon/gen.py`), through torch's own operator, or through
  the same code in another mode;
* *shadow models* maintained online along random histories (ownership of copies, the
  dispatch registry, nested scopes, the pipeline graph, override chains), compared after
  every step;
* *offline checkers* over recorded logs (what each quantizer, node, stage, optimiser or
  recorder received, in which order), e.g. calibrated ranges, GPTQ certificates,
  captured inputs and outputs, operand provenance of converted programs;
* *conservation monitors*: fingerprints of everything that an operation must not touch
  (inputs, other parameters, flags, hooks, files), also after injected failures.

Every hook is installed by the checks from outside (recording subclasses, forward hooks,
registered kernels, weak references). /repo carries no instrumentation and no
environment guard; `hooks` in MANIFEST.json is empty.

## Machinery

`check.py CNN --tier quick|thorough [--seed S] [--section NAME] [--case N] [--replay PATH]`
re-executes itself with a pinned environment (single-threaded torch, fixed hash seed, no
GPU, no network) against `/repo/src` as it is (nothing is built or cached; `FFMON_REPO`
redirects to a scratch copy during development).

`ffmon/core.py`: a check is a set of *sections* (workload + oracle) with a number of cases
for each tier. A case is derived from (seed, property, section, index) only, so a replay
file is a complete witness. Cases are dealt over eight forked workers. Verdicts are
three-valued: 0 held, 1 violated, 2 no verdict. A section in which no oracle evaluation, or
not every *required event* (listed in the section's `requires`), was observed has no
verdict: a workload that silently stops exercising its target is never "held". An
exception that the workload does not expect is a violation. The thorough tier stops
handing out cases after 700 s (`FFMON_BUDGET`); the rest is reported as `late` in the
evidence. Evidence records, per section, cases, oracle evaluations, observed events and
distinct states (what counts as distinct is the `rule` of each check).

`ffmon/gen.py` generators of tensors, tilings, quantizers and the reference grid;
`ffmon/graphs.py` random call graphs with a lazy interpreter; `ffmon/onnxsim.py` random
exportable networks and a float64 interpreter of ONNX graphs; `ffmon/progs.py` random
Python programs for source conversion. `tools/gen.py` writes properties.jsonl and
MANIFEST.json from `tools/properties_src.py` and the checks; `tools/design.py` writes this
file.

Exactness: wherever float rounding would force tolerances that hide defects, parameters
and data are dyadic, so that every intermediate is representable and results must agree
bit for bit; separate sections with realistic continuous data use tolerances derived from
the operation (half steps, ulps). Ties are generated on purpose.

Why this reaches what the tests cannot: the tests of the repository fix one or two
shapes, granularities, dtypes and orders per feature; the properties quantify over all of
them and over histories. Each check runs 10^3 to 10^5 generated cases whose combination
space (shape x granularity x storage x sign x mode x history) the tests do not span; the
defects below were all found in combinations the 1742 passing tests do not contain.
"""

LIMITS = {
    "C01": "Bit-exact for dyadic parameters; for arbitrary ones elements within float rounding of a tie may fall on either neighbour. Non-finite data is outside of the property.",
    "C02": "All elements are tracked; shapes up to a few thousand elements.",
    "C03": "Ranges up to the limits of the type; a range that is not representable (infinite, NaN, min > max) must be refused.",
    "C04": "Storage types of torch up to 64 bit; bit widths 2 to 18.",
    "C05": "First derivatives only (the backward functions are once-differentiable).",
    "C06": "Tracing modes are torch.export and fake tensors; the flag for compiled kernels runs whatever torch.compile builds in this environment.",
    "C07": "Memory layout is not part of the property, except for `contiguous`. Refusing an operation is accepted.",
    "C08": "Operators of the generated library and those re-generated from the specification; multi-output operators as far as the library has them.",
    "C09": "Torch functions that torch does not let a subclass intercept cannot be observed.",
    "C10": "Single-threaded registries: the registry is process-global and documented as such.",
    "C11": "Removal of an override handle during its own chain is not exercised.",
    "C12": "Crash points are emulated by truncated, altered and missing files, not by killing the writer.",
    "C13": "CPU and meta devices only (no accelerator in the sandbox).",
    "C14": "Conversion of a model with unsupported modules has to be refused before anything is changed.",
    "C15": "Convolution kernels choose algorithms by the alignment of their weights, so both sides run on equally aligned storage.",
    "C16": "The error of each candidate is recomputed with a twin quantizer; where two candidates tie up to rounding either may win. How the extent of the search grid depends on its margins is not specified.",
    "C17": "The order in which different quantizers are created is not specified.",
    "C18": "Queries that the grammar does not define (undocumented escapes) are not generated.",
    "C19": "'Beats plain rounding' is statistical: it is required in aggregate over many well-conditioned layers, not for each layer. The per-column certificate is exact. The optimiser has to be called under no_grad.",
    "C20": "The fallback flag with dropout is a known finding.",
    "C21": "torch.export may refuse programs that call a module repeatedly or fuse them; refusals by torch are counted and skipped.",
    "C22": "Off-loading is observed with emulated devices (a tensor subclass on which mixed-device operations fail). If the optimiser raises, off-loaded weights stay where they are. Anonymous context managers share a generator by type name. Flows are resolved and bound, but the repository does not execute them yet.",
    "C23": "The ONNX exporter removes no-op views, fuses views of views (including those a linear layer makes of inputs with more than two dimensions), merges equal expressions and decomposes silu: what is lost then is listed as known finding or is not generated ('clean' programs). Encodings cannot say which consumer of a tensor uses the unquantized value. Ties of x/scale round to even before the zero point is added.",
    "C24": "Deviations are restricted to ties where the runtime rounds before adding the zero point.",
    "C25": "Code -128 of Q8_0 is clipped to -127 by design; float query and key weights are not permuted for llama by design; shared modules and tied parameters are exported once; float64 passes through float32; bias quantizers are not exported.",
    "C26": "Evaluation results of different lengths are compared up to the shorter one; after a failure no further stage runs.",
    "C27": "A quantizer of the module that consumes an input wins over that of the arriving tensor; V1 and legacy encodings per channel are restricted to axis 0; recorders keep the last completed call; integer outputs are not supported by the exporter.",
    "C28": "A quantizer with two roles in one module is replaced by a stub in the first only; offsets beyond 2^20 lose idempotency through float precision.",
    "C29": "Converted operators between a number and a tensor round as torch does for two tensors, so results are compared up to float rounding; section `direct` requires each table operator in straight-line code to be converted, not only the value to agree; no type inference (annotations decide nothing); arithmetic on Python numbers is converted to torch operators; augmented assignment is expanded, so aliases of the target differ from in-place semantics; `quantizer_*` names are reserved; helpers called only inside nested functions of helpers are renamed without quantizers, as are helpers of the same name from different modules (not generated); loops with `else` and operators with several outputs are refused (logged; the module stays unconverted); plain calls, walrus targets and lambda parameters get no quantizer by design; views may be shared and are not counted.",
}

DEFECTS = """## Defects found and repaired

{n} `fix:` commits in /repo repair genuine defects that the checks reported on the original
tree; `known_findings.txt` lists each with its property, commit and what failed (`fixed:`
lines suppress nothing). By property: {by}.

## Known findings (recorded, not repaired)

{known}

Each is identified by the specific construct that fails: its check exercises the construct
in a section (or branch) of its own, prints `KNOWN-FINDING:` when it observes exactly
that failure, and reports any other deviation as a violation.

Observed, but outside of the properties as stated (not reported): `torch.mul(q, 2, out=buf)`
ignores `out`; `torch.cat(..., axis=)` is refused; freezing with a shared quantizer freezes it
for both owners; `JointFragment.must_advance` is a bound method; GPTQ ignores padding modes
other than zeros; an evaluation stage fails for tuple outputs.

## False alarms met and removed

Each came from an oracle or workload that claimed more than the code promises: torch's own
convolution kernels depend on the alignment of weights (C15, C28: align both sides); ONNX
merges equal reshapes, including those hidden in linear layers (C23: not generated in clean
programs);
values near float ties (C16, C24: the tolerance is restricted to those elements); generated
programs that use constructs whose treatment is a documented limit (C29). None is listed as a known finding.
"""

TESTING = """## Testing the machinery

Three sources of planted changes, each written from the property and the code:

1. `seeded/`: {n_seed} changes that keep the 1742 stable tests passing, each with a demonstration;
   all are caught by the quick tier of their own property's check:

{seeds}

2. Batches of manual mutations (several hundred over all properties, applied to scratch copies and
   run against the quick tier): those that were missed and not equivalent led to a stronger
   workload or oracle in the commit that follows.
3. An automatic mutator (negated and dropped conditions, swapped operators, off-by-one
   constants, dropped arguments and statements at random places of each property's anchor
   files). Remaining survivors are equivalent (caches, logging, messages, unreachable
   guards) or belong to another property whose check catches them.

Behaviour-preserving edits of the whole package: (1) 585 private names renamed; (2) every
`for` rewritten as `while` over an iterator, every `if/else` inverted, every returned
expression bound to a variable first; (3) the bodies of 1014 functions extracted to helpers.
The stable tests pass on each of the three trees and all 29 checks stayed quiet: no check
reads source text (C29 converts the source of its own programs) or a private name.

## Cost

Quick: 5 to 60 s per property on 8 cores, about 15 minutes for all. Thorough: up to 13
minutes each. Not used: compiler sanitizers, race detectors, valgrind, Miri (no native or
concurrent code), AFL/libFuzzer/atheris (the input spaces are structured histories and
programs; the generators build them directly).
"""
