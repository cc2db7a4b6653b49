"""C18: module queries select exactly the modules their pattern denotes."""

import re

import torch

import fastforward as ff

from fastforward import mpath
from fastforward.mpath import fragments
from fastforward.mpath._parser import MPathParseError
from fastforward.nn.quantizer import QuantizerMetadata, QuantizerStub, Tag

from ffmon.core import section

META = {
    "technique": "runtime monitoring: every search is observed on generated module trees and compared with an independent evaluator of the query grammar that enumerates all paths of the tree",
    "level_note": "Queries are generated from the documented grammar (names, *, **, regex, class, tag, inversion, nested alternatives, aliases) and run on random module trees with shared modules. The oracle enumerates every path of the tree and matches the query's syntax tree against it by position sets; the monitor requires the selected modules to be exactly the denoted ones, each once, under a name that the query denotes. Termination is watched. The printed form and the result algebra are decided against the same oracle.",
    "rule": "distinct (query shape, tree) combinations",
}

NAMES = ["a", "b", "c", "ab", "0", "1", "a_1", "3x3", "layer"]


class M(torch.nn.Module):
    pass


class N(M):
    pass


class Outer:
    class K(torch.nn.Module):
        pass


CLASSES = {"M": M, "N": N, "Outer.K": Outer.K, "torch.nn.ReLU": torch.nn.ReLU}
REGEX = ["a.*", "[ab]", "[0-9]+", "(a|c)", ".", "[a-c_]+[0-9]?", "(?!a).*", r"\d.*", "[^a]+", "a{1,2}", ".*[13]"]


def tree(rng, depth, pool, root=False):
    m = rng.choice(list(CLASSES.values()) if not root else [M, N])()
    if depth > 0:
        for n in rng.sample(NAMES, rng.randint(1 if root else 0, 4)):
            if pool and rng.random() < 0.12:
                m.add_module(n, rng.choice(pool))
            elif rng.random() < 0.04:
                m.register_module(n, None)
            else:
                m.add_module(n, tree(rng, depth - 1, pool))
    pool.append(m)
    return m


def frag(rng):
    k = rng.random()
    if k < 0.5:
        return ("name", rng.choice(NAMES))
    if k < 0.7:
        return ("re", rng.choice(REGEX), rng.choice(["re", "regex"]))
    if k < 0.85:
        return ("cls", rng.choice(list(CLASSES)), rng.choice(["cls", "class", "cls ", "class "]))
    return ("*",)


def elem(rng, depth):
    k = rng.random()
    if k < 0.25:
        return ("**",)
    if k < 0.35:
        return ("not", frag(rng))
    if k < 0.37:
        return ("not", ("not", frag(rng)))
    if k < 0.52 and depth > 0:
        return ("alt", [pattern(rng, depth - 1, 2) for _ in range(rng.randint(1, 3))])
    return frag(rng)


def pattern(rng, depth=2, maxlen=4):
    return [elem(rng, depth) for _ in range(rng.randint(1, maxlen))]


def show(q, rng=None):
    """Text of a query; with rng random optional whitespace."""
    sp = (lambda: " " if rng is not None and rng.random() < 0.1 else "")
    return (sp() + "/" + sp()).join(_show(e, rng) for e in q)


def _show(e, rng):
    t = e[0]
    if t == "name":
        return e[1]
    if t in ("*", "**"):
        return t
    if t == "re":
        return f"[{e[2]}:" + e[1].replace("[", "\\[").replace("]", "\\]") + "]"
    if t == "cls":
        return f"[{e[2].strip()}:{' ' if e[2].endswith(' ') else ''}{e[1]}]"
    if t == "not":
        return "~" + _show(e[1], rng)
    return "{" + ", ".join(show(s, rng) for s in e[1]) + "}"


def shape_of(q):
    return [(e[0], [shape_of(s) for s in e[1]]) if e[0] == "alt" else e[0] for e in q]


def matches(f, name, module):
    t = f[0]
    if t == "name":
        return f[1] == name
    if t == "*":
        return True
    if t == "re":
        return re.fullmatch(f[1], name) is not None
    if t == "cls":
        return isinstance(module, CLASSES[f[1]])
    if t == "tag":
        return tag_match(f[1], module)
    if t == "pred":
        return f[1](name, module)
    if t == "and":
        return all(matches(g, name, module) for g in f[1])
    return not matches(f[1], name, module)


def ends(elems, path, start):
    """Positions at which a match of elems that starts at position start may end."""
    current = {start}
    for e in elems:
        after = set()
        for j in current:
            if e[0] == "**":
                after |= set(range(j, len(path) + 1))
            elif e[0] == "alt":
                for s in e[1]:
                    after |= ends(s, path, j)
            elif j < len(path) and matches(e, *path[j]):
                after.add(j + 1)
        current = after
    return current


def paths(m, pre=()):
    for n, c in m._modules.items():
        if c is not None:
            p = pre + ((n, c),)
            yield p
            yield from paths(c, p)


def denoted(root, q):
    """id(module) -> the names under which the query selects it."""
    out = {}
    for p in paths(root):
        if len(p) in ends(q, p, 0):
            out.setdefault(id(p[-1][1]), set()).add(".".join(n for n, _ in p))
    return out


def judge(ctx, root, q, result, text):
    want = denoted(root, q)
    got = {}
    for r in result:
        ctx.check(id(r.module) not in got, "twice", f"{text}: {r.full_name} selected more than once")
        got[id(r.module)] = r.full_name
        ctx.check(root.get_submodule(r.full_name) is r.module, "name", f"{text}: {r.full_name} is another module")
        ctx.check(
            getattr(r.parent, r.parent_attribute) is r.module and r.full_name.split(".")[-1] == r.parent_attribute,
            "parent", f"{text}: {r.full_name}",
        )
    names = {i: n for n, m in root.named_modules(remove_duplicate=False) for i in [id(m)]}
    missing = sorted(names[i] for i in set(want) - set(got))
    extra = sorted(got[i] for i in set(got) - set(want))
    ctx.check(not missing and not extra, "selection", f"{text}: missing {missing}, extra {extra}")
    for i, n in got.items():
        ctx.check(n in want[i], "denoted-name", f"{text}: selected as {n}, denoted as {sorted(want[i])}")
    ctx.event("selected", len(got))
    ctx.event("rejected", sum(1 for _ in root.modules()) - 1 - len(got))
    return got


def run(ctx, root, q, query, text, **kw):
    with ctx.limit(30, "termination", text):
        result = mpath.search(query, root, **kw)
    return judge(ctx, root, q, result, text), result


@section(quick=4000, thorough=60000, requires=("selected", "rejected"))
def search(ctx):
    """Text query against the path oracle."""
    rng = ctx.rng
    root = tree(rng, rng.randint(1, 4), [], root=True)
    q = pattern(rng)
    text = rng.choice(["", "", "", "/"]) + show(q, rng) + rng.choice(["", "", "", "/"])
    ctx.note(query=text)
    run(ctx, root, q, text, text)
    ctx.state(shape_of(q))


@section(quick=1500, thorough=15000, requires=("selected",))
def printing(ctx):
    """The printed form of a query is a query with the same meaning."""
    rng = ctx.rng
    q = pattern(rng)
    # a class prints under its own name
    K, ReLU = Outer.K, torch.nn.ReLU  # noqa: F841,N806  (visible to the query's context)
    text = show(q)
    selector = mpath.query(text)
    printed = str(selector)
    again = mpath.query(printed, context=mpath.local_context())
    ctx.note(query=text, printed=printed)
    for _ in range(3):
        root = tree(rng, 3, [], root=True)
        a, _ = run(ctx, root, q, selector, f"{text} (parsed)")
        b, _ = run(ctx, root, q, again, f"{text} printed as {printed}")
        ctx.check(set(a) == set(b), "printed", printed)
    ctx.equal(str(again), printed, "print-stable", text)
    ctx.equal(len(selector), len(list(selector)), "length", text)
    ctx.state(shape_of(q))


def no_aliases(rng):
    """A tree in which every module has one name."""
    return tree_unshared(rng, 3)


def tree_unshared(rng, depth):
    m = rng.choice(list(CLASSES.values()))()
    if depth > 0:
        for n in rng.sample(NAMES, rng.randint(1, 4)):
            m.add_module(n, tree_unshared(rng, depth - 1))
    return m


@section(quick=600, thorough=8000, requires=("selected",))
def algebra(ctx):
    """Set operations on results."""
    rng = ctx.rng
    root = no_aliases(rng)
    qs = [pattern(rng, 1, 3) for _ in range(3)]
    sets, results = [], []
    for q in qs:
        got, r = run(ctx, root, q, show(q), show(q))
        sets.append(set(got.values()))
        results.append(r)
    before = [[x.full_name for x in r] for r in results]

    def names(collection):
        out = [x.full_name for x in collection]
        ctx.check(len(out) == len(set(out)), "duplicates", str(out))
        for n, m in collection.named_modules():
            ctx.check(root.get_submodule(n) is m, "member", n)
        return set(out)

    a, b, c = results
    sa, sb, sc = sets
    for key, got, want in (
        ("union", a | b, sa | sb), ("union", a.union(b), sa | sb), ("union", (a | b) | c, sa | sb | sc),
        ("intersection", a & b, sa & sb), ("intersection", b.intersection(a), sa & sb),
        ("difference", a - b, sa - sb), ("difference", b.difference(a), sb - sa),
        ("symmetric", a ^ b, sa ^ sb), ("symmetric", b.symmetric_difference(a), sa ^ sb),
        ("distribute", a & (b | c), (sa & sb) | (sa & sc)), ("demorgan", c - (a | b), (sc - sa) & (sc - sb)),
        ("nothing", a - a, set()), ("self", a | a, sa), ("self", a & a, sa), ("cancel", (a ^ b) ^ b, sa),
    ):
        ctx.check(names(got) == want, key, f"{got!r} instead of {sorted(want)}")
        ctx.check(type(got) is type(a), "type", key)
    ctx.equal([[x.full_name for x in r] for r in results], before, "operands-changed", "set operation changed its operand")
    other = no_aliases(rng)
    foreign = mpath.search("**", other)
    for op in ("union", "intersection", "difference", "symmetric_difference"):
        ctx.raises(ValueError, lambda: getattr(a, op)(foreign), "foreign-root", op)
    # a collection is a sequence of its results
    ctx.equal(len(a), len(sa), "len", "")
    if len(a) > 1:
        i = rng.randrange(len(a))
        ctx.check(a[i] in a and [x.full_name for x in a[i:]] == before[0][i:], "slice", "")
        ctx.check((a[i] in b) == (a[i].full_name in sb), "contains", "")
        ctx.equal([n for n in a.map(lambda n, m: n)], before[0], "map", "")
        ctx.check(all(p is x.parent and m is x.module for (p, m), x in zip(a.parents(), a)), "parents", "")
    ctx.state(len(sa), len(sb), len(sa & sb))


@section(quick=500, thorough=6000, requires=("selected", "alias"))
def aliases(ctx):
    """An alias means the query it stands for."""
    rng = ctx.rng
    root = tree(rng, 3, [], root=True)
    parts = {f"al{i}": pattern(rng, 1, 2) for i in range(3)}
    definitions = {n: show(q) for n, q in parts.items()}
    if rng.random() < 0.5:
        parts["chain"] = parts["al0"] + parts["al1"]
        definitions["chain"] = "&al0/&al1"
    table = mpath.aliases(**definitions)
    q, text = [], []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.6:
            name = rng.choice(list(parts))
            ctx.event("alias")
            if rng.random() < 0.4:
                other = rng.choice(list(parts))
                q.append(("alt", [parts[name], parts[other] + parts[name]]))
                text.append(f"{{&{name}, &{other}/&{name}}}")
            else:
                q += parts[name]
                text.append("&" + name)
        else:
            e = elem(rng, 1)
            q.append(e)
            text.append(_show(e, None))
    text = "/".join(text)
    ctx.note(query=text, aliases=definitions)
    run(ctx, root, q, text, f"{text} with {definitions}", aliases=table)
    root.aliases = table
    run(ctx, root, q, text, f"{text} with the root's {definitions}")
    ctx.raises(MPathParseError, lambda: mpath.search("&unknown", root), "unknown-alias", "")
    ctx.state(shape_of(q))


def tag_match(tags, module):
    if not isinstance(module, ff.nn.Quantizer):
        return False
    have = module._ffmon_tags
    return all(any(h == t or h.startswith(t + "/") for h in have) for t in tags)


TAGS = ["activation", "activation/output", "activation/input", "parameter/weight", "parameter", "x", "x/y", "x/y/z", "xy"]


@section(quick=600, thorough=6000, requires=("selected", "quantizers"))
def tags(ctx):
    """Tag conditions, and find_quantizers returns only quantizers."""
    rng = ctx.rng
    root = no_aliases(rng)
    for m in list(root.modules()):
        for n in rng.sample(["q1", "q2", "a", "weight_quantizer"], rng.randint(0, 2)):
            if n not in m._modules:
                have = rng.sample(TAGS, rng.randint(0, 2))
                meta = QuantizerMetadata(*[t if rng.random() < 0.5 else Tag(t) for t in have])
                quantizer = QuantizerStub(_metadata=meta) if rng.random() < 0.6 else ff.nn.LinearQuantizer(4)
                quantizer.quant_metadata = meta
                object.__setattr__(quantizer, "_ffmon_tags", have)
                m.add_module(n, quantizer)
    want_tags = rng.sample(TAGS, rng.randint(1, 2))
    head = pattern(rng, 1, 2) if rng.random() < 0.7 else [("**",)]
    tag_text = f"[{rng.choice(['quantizer', 'qtag'])}:{rng.choice([',', ', ', ' , ']).join(want_tags)}]"
    invert = rng.random() < 0.25
    e = ("tag", want_tags)
    q = head + [("not", e) if invert else e]
    text = show(head) + "/" + ("~" if invert else "") + tag_text
    ctx.note(query=text)
    K, ReLU = Outer.K, torch.nn.ReLU  # noqa: F841,N806  (visible to the query's context)
    selector = mpath.query(text)
    run(ctx, root, q, text, text)
    run(ctx, root, q, mpath.query(str(selector)), f"{text} printed as {selector}")
    # only the quantizers among the results
    with ctx.limit(30, "termination", text):
        found = ff.find_quantizers(root, text)
    want = {min(v) for i, v in denoted(root, q).items()}
    want = {n for n in want if isinstance(root.get_submodule(n), ff.nn.Quantizer)}
    ctx.equal(sorted(n for n, _ in found.named_modules()), sorted(want), "find_quantizers", text)
    ctx.event("quantizers", len(want))
    ctx.state(tuple(want_tags), invert, shape_of(head))


@section(quick=500, thorough=6000, requires=("selected",))
def programmatic(ctx):
    """Selectors built from objects: /, |, &, ~ and predicates."""
    rng = ctx.rng
    root = tree(rng, 3, [], root=True)

    def single():
        k = rng.random()
        if k < 0.35:
            f = frag(rng)
            return f, mpath.query(_show(f, None))
        if k < 0.6:
            n = rng.choice(NAMES)
            pred = rng.choice([lambda name, _m: name < n, lambda _n, m: len(m._modules) > 1, lambda name, m: name == n and isinstance(m, M)])
            return ("pred", pred), mpath.Selector(None, fragments.PredicateFragment(pred))
        if k < 0.8:
            (f, s), (g, t) = single(), single()
            return ("and", [f, g]), s & t
        f, s = single()
        return ("not", f), ~s

    def build(depth):
        q, sel = [], None
        for _ in range(rng.randint(1, 3)):
            k = rng.random()
            if k < 0.2:
                e, s = ("**",), mpath.query("**")
            elif k < 0.45 and depth:
                (q1, s1), (q2, s2) = build(depth - 1), build(depth - 1)
                e, s = ("alt", [q1, q2]), s1 | s2
            elif k < 0.6:
                f = frag(rng)
                e, s = f, _show(f, None) if sel is not None else mpath.query(_show(f, None))
            else:
                e, s = single()
            q.append(e)
            sel = s if sel is None else sel / s
        return q, sel

    q, sel = build(1)
    ctx.note(query=str(sel))
    printed = str(sel)
    run(ctx, root, q, sel, printed)
    ctx.equal(str(sel), printed, "selector-changed", "searching changed the selector")
    ctx.check(len(list(sel)) == len(sel), "len", "")
    run(ctx, root, [("**",)] + q, "**" / sel, f"**/{printed}")
    # the & of selectors longer than one fragment has no meaning and is refused
    long = mpath.query("a/b")
    ctx.raises(mpath.selector.MPathQueryError, lambda: long & mpath.query("a"), "joined-long", "")
    ctx.raises(mpath.selector.MPathQueryError, lambda: ~long, "inverted-long", "")
    ctx.state(shape_of(q))


@section(quick=500, thorough=5000, requires=("replaced",))
def apply(ctx):
    """apply / update_module change exactly the selected positions."""
    rng = ctx.rng
    root = no_aliases(rng)
    q = pattern(rng, 1, 3)
    text = show(q)
    got, result = run(ctx, root, q, text, text)
    keep = rng.random() < 0.3
    marks = {}

    def func(name, module):
        ctx.check(root_of(name) is module, "argument", name)
        if keep and rng.random() < 0.5:
            return None
        marks[name] = M()
        return marks[name]

    original = {n: m for n, m in root.named_modules()}
    # nested results are still replaced in their original parent
    root_of = original.__getitem__
    order = [r.full_name for r in result]
    visited = []
    result.apply(lambda name, module: visited.append((name, module)) or M(), update=False)
    ctx.equal([n for n, _ in visited], order, "visited", text)
    ctx.check(all(original[n] is m and root.get_submodule(n) is m for n, m in visited), "not-updated", text)
    result.apply(func)
    ctx.equal([r.full_name for r in result], order, "order", text)
    for r in result:
        want = marks.get(r.full_name, original[r.full_name])
        ctx.check(r.module is want, "result", r.full_name)
        ctx.check(getattr(r.parent, r.parent_attribute) is want, "replaced", r.full_name)
        ctx.event("replaced", r.full_name in marks)
    for n, m in original.items():
        for c, child in m._modules.items():
            full = (n + "." if n else "") + c
            if full not in marks:
                ctx.check(child is original.get(full), "untouched", full)
    # a result that no longer describes the model is not applied silently
    if len(result):
        r = result[rng.randrange(len(result))]
        replacement = M()
        setattr(r.parent, r.parent_attribute, replacement)
        ctx.raises(ValueError, lambda: r.update_module(M()), "stale", r.full_name)
        ctx.check(getattr(r.parent, r.parent_attribute) is replacement, "stale-applied", r.full_name)
        forced = M()
        new = r.update_module(forced, safe=False)
        ctx.check(getattr(r.parent, r.parent_attribute) is forced and new.module is forced, "forced", r.full_name)
    ctx.state(shape_of(q), len(result))


class Sized(fragments.Fragment):
    """Query extension: modules with n children."""

    def __init__(self, n):
        self.n = n

    @classmethod
    def from_raw_string(cls, raw):
        return mpath.Selector(None, cls(int(raw)))

    def match(self, fragment_name, module):
        return len(module._modules) == self.n

    def __str__(self):
        return f"[sized:{self.n}]"


@section(quick=300, thorough=2000, requires=("extension", "malformed", "context"))
def language(ctx):
    """Extensions, name resolution in the caller's scope, malformed queries."""
    rng = ctx.rng
    root = tree(rng, 3, [], root=True)

    # Extensions
    n = rng.randint(0, 3)
    tag = f"sized{ctx.case}"
    mpath.register_mpath_query_extension(tag, Sized)
    ctx.raises(ValueError, lambda: mpath.register_mpath_query_extension(tag, Sized), "registered-twice", tag)
    head = pattern(rng, 1, 2)
    e = ("pred", lambda _name, m: len(m._modules) == n)
    text = f"{show(head)}/[{tag}:{n}]"
    run(ctx, root, head + [e], text, text)
    ctx.event("extension")

    # Names are those of the calling scope
    class Local(M):
        pass

    host = list(root.modules())[rng.randrange(sum(1 for _ in root.modules()))]
    name = rng.choice(NAMES)
    host.add_module(name, Local())
    want = denoted(root, [("**",), ("pred", lambda _n, m: isinstance(m, Local))])
    for how, result in (
        ("search", mpath.search("**/[cls:Local]", root)),
        ("query", mpath.search(mpath.query("**/[cls:Local]"), root)),
        ("context", mpath.search(mpath.query("**/[cls:Local]", context=mpath.local_context()), root)),
        ("extend", mpath.search(mpath.query("**") / "[cls:Local]", root)),
        ("reflected", mpath.search("**" / mpath.query("[cls:Local]"), root)),
        ("aliases", mpath.search("&x", root, aliases=mpath.aliases(x="**/[cls:Local]"))),
    ):
        ctx.equal({id(m) for m in result.modules()}, set(want), "scope", how)
        ctx.event("context")

    class LocalQuantizer(ff.nn.LinearQuantizer):
        pass

    host.add_module("lq", LocalQuantizer(4))
    host.add_module("lq2", QuantizerStub())
    found = ff.find_quantizers(root, "**/[cls:LocalQuantizer]")
    ctx.check([m for m in found.modules()] == [host.lq], "scope", "find_quantizers")
    config = ff.QuantizationConfig()
    config.add_rule("**/[cls:LocalQuantizer]", ff.nn.LinearQuantizer, num_bits=2)
    old = host.lq
    config.initialize(root, overwrite_policy="overwrite")
    ctx.check(host.lq is not old and host.lq.num_bits == 2 and type(host.lq2) is QuantizerStub, "scope", "add_rule")

    # Malformed queries are refused
    good = show(pattern(rng, 1, 2))
    bad = rng.choice([
        good + "//" + good, good + "/{a", good + "/{a, }", good + "}", "[re:a", "[unknown_ext:a]", good + " " + "a", "", "~",
        "&", "{}", "a,b", good + "/[re:(]", "[cls:NoSuchName]", "[cls:torch.nn.NoSuchName]", good + "/***", "[:a]", "[re a]", "/", "~{a, b}",
        good + "/[re:\\[a]", "{a/b", "a~b",
    ])
    with ctx.limit(30, "termination", bad):
        try:
            mpath.search(bad, root)
        except (MPathParseError, mpath.selector.MPathQueryError):
            ctx.event("malformed")
            ctx.evaluations += 1
        else:
            ctx.fail("malformed", f"{bad!r} was accepted")
    ctx.state(bad if len(bad) < 8 else len(bad), n)
