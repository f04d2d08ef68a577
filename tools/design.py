"""Writes DESIGN.md from design/*.md, the catalogue, the modules' rules and the last evidence."""

import ast
import json
import re
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
from mc.catalog import P  # noqa: E402
from mc.known import FINDINGS  # noqa: E402


def consts(pid):
    tree = ast.parse((VERIF / "mc/props" / f"{pid.lower()}.py").read_text())
    out = {"sections": []}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            name = node.targets[0].id
            if name in ("RULE", "ASSUMPTIONS"):
                out[name] = ast.literal_eval(node.value)
            elif name == "SECTIONS":
                out["sections"] = [e.elts[0].value for e in node.value.elts]
    out["doc"] = ast.get_docstring(tree)
    return out


def main():
    metas = [(d.parent.name, json.loads(d.read_text())) for d in sorted((VERIF / "seeded").glob("*/meta.json"))]
    costs = json.loads((VERIF / "design/costs.json").read_text()) if (VERIF / "design/costs.json").exists() else {}
    for f in (VERIF / "evidence").glob("*.json"):
        ev = json.loads(f.read_text())
        if ev.get("tier") == "quick":
            c = ev["coverage"]
            costs[f.stem] = {k: c.get(k) for k in ("states", "transitions", "comparisons", "distinct_outcomes")}
    (VERIF / "design/costs.json").write_text(json.dumps(costs, indent=1, sort_keys=True) + "\n")
    out = ["## The properties, and how each is decided\n"]
    out.append("Counts are those of the quick tier on the unchanged tree; the thorough tier raises the bounds named in each section.\n")
    for p in P:
        c = consts(p["id"])
        k = costs.get(p["id"])
        out.append(f"### {p['id']}: {p['title']}\n")
        out.append(p["statement"] + "\n")
        out.append(f"* *Enumerated*: {c['RULE']}. Sections: {', '.join(c['sections'])}.")
        out.append(f"* *Quantified over*: {p['quant']}.")
        out.append(f"* *Oracle*: {(VERIF / 'design/oracles.md').exists() and oracle(p['id']) or 'a plain-Python restatement of the documented behaviour'}.")
        for a in c.get("ASSUMPTIONS", []):
            out.append(f"* *Assumption*: {a}.")
        out.append(f"* *Bounds*: {p['note']}")
        if k:
            out.append(f"* *Cost (quick)*: {k['states']} states, {k['transitions']} transitions, {k['comparisons']} comparisons, {k['distinct_outcomes']} kinds of outcome.")
        out.append(f"* *Why tests cannot*: {p['why']}")
        mine = [i for i, m in metas if m["property"] == p["id"]]
        if mine:
            out.append(f"* *Planted bugs it catches*: {', '.join(mine)}.")
        out.append(f"* *Code*: {', '.join(p['files'])} ({p['technique'].split(':')[0]}).\n")
    tail = (VERIF / "design/tail.md").read_text()
    tail = tail.replace("FINDINGS_HERE", "\n".join(f"* {f['property']} ({f['section']}, `{f['key']}`): {f['what']}." for f in FINDINGS))
    rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    for i, m in metas:
        rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
    tail = tail.replace("SEEDED_HERE", "\n".join(rows))
    text = (VERIF / "design/head.md").read_text() + "\n".join(out) + "\n" + tail
    (VERIF / "DESIGN.md").write_text(re.sub(r"\n{3,}", "\n\n", text))


def oracle(pid):
    for line in (VERIF / "design/oracles.md").read_text().splitlines():
        if line.startswith(pid + ": "):
            return line[len(pid) + 2 :]
    return None


if __name__ == "__main__":
    main()
