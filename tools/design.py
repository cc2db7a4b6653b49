"""Writes DESIGN.md from tools/design_src.py, the properties, the checks and the findings."""

import collections
import importlib
import json
import pathlib
import sys
import textwrap

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.path.insert(0, str(ROOT / "tools"))
import design_src as D  # noqa: E402

from ffmon import core  # noqa: E402


def wrap(text, indent=""):
    return textwrap.fill(" ".join(text.split()), 98, initial_indent=indent, subsequent_indent=indent, break_long_words=False, break_on_hyphens=False)


def main():
    out = [D.HEAD.strip(), "", "## Properties", ""]
    props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines() if x.strip()]
    for p in props:
        src = importlib.import_module(f"checks.{p['id'].lower()}")
        m = src.META
        del core.SECTIONS[:]
        importlib.reload(src)
        names = "; ".join(f"{s.name} ({s.quick} quick, {s.thorough} thorough)" for s in core.SECTIONS)
        out += [f"### {p['id']} {p['title']}", ""]
        out += [wrap("*Specified:* " + p["statement"]), ""]
        out += [wrap("*Decided by:* " + m["technique"] + ". " + m["level_note"]), ""]
        out += [wrap("*Counts as distinct:* " + m["rule"] + "." + (f" Sections and cases: {names}." if names else "")), ""]
        if p["id"] in D.LIMITS:
            out += [wrap("*Bounds:* " + D.LIMITS[p["id"]]), ""]
    out += ["No property is declared not applicable: each concerns behaviour that executions show.", ""]
    lines = (ROOT / "known_findings.txt").read_text().splitlines()
    fixed = [x for x in lines if x.startswith("fixed:")]
    count = collections.Counter(x.split("property=")[1].split()[0] for x in fixed)
    commits = {x.split("property=")[1].split()[1] for x in fixed}
    known = [json.loads(x) for x in lines if x.startswith("{")]
    out += [D.DEFECTS.strip().format(n=len(commits), by=", ".join(f"{k} {v}" for k, v in sorted(count.items())), known="\n".join(wrap(f"* {k['property']} `{k['finding']}`: {k['what']}", "") for k in known)), ""]
    seeds = []
    for d in sorted((ROOT / "seeded").iterdir()):
        meta = json.loads((d / "meta.json").read_text())
        seeds.append(wrap(f"* `{d.name}` ({meta['property']}): {meta['what_it_breaks']}; needs {meta['needs']}", "   "))
    out += [D.TESTING.strip().format(n_seed=len(seeds), seeds="\n".join(seeds)), ""]
    (ROOT / "DESIGN.md").write_text("\n".join(out))


if __name__ == "__main__":
    main()
