"""Writes DESIGN.md from design_head.md, design_text.py, design_tail.md, properties.jsonl
and the evidence of the last run of each check."""

import json
import pathlib

from design_text import P


V = pathlib.Path(__file__).resolve().parent.parent


def main():
    here = V / "tools"
    out = [(here / "design_head.md").read_text().rstrip(), ""]
    props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
    out += ["## Properties", ""]
    rows = []
    for p in props:
        k = p["id"]
        what, oracle, bounds, reach = P[k]
        out += [f"### {k} {p['title']}", ""]
        out += [f"* Enumerated: {what}", f"* Oracle: {oracle}", f"* Bounds: {bounds}."]
        e = V / "evidence" / f"{k}.json"
        if e.exists():
            e = json.loads(e.read_text())
            c = e["coverage"]
            b = json.dumps(c["bounds"])
            if len(b) < 500:
                out += [f"  Quick tier: `{b}`."]
            if e["assumptions"]:
                out += ["* Not judged / assumed: " + "; ".join(e["assumptions"]) + "."]
            rows.append((k, c["states"], c["transitions"], c["traces_validated_against_impl"], c["jobs"], round(e["wall_s"])))
        out += [f"* Beyond tests: {reach}", ""]
    out += ["## Cost of the quick tier (8 cores)", ""]
    out += ["| property | states | transitions | traces replayed | jobs | wall s |", "|---|---|---|---|---|---|"]
    out += ["| " + " | ".join(str(x) for x in r) + " |" for r in rows]
    out += [f"| sum | | | | | {sum(r[-1] for r in rows)} |", ""]
    tail = (here / "design_tail.md").read_text().rstrip()
    tail = tail.replace("@@MUT", (here / "mutation_results.md").read_text().strip())
    caught = json.loads((here / "seeded_results.json").read_text())
    table = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    for d in sorted((V / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        table.append(f"| {d.name} | {m['property']} | {m['needs']} | {caught.get(d.name, 'not yet run')} |")
    out += [tail.replace("@@SEED", "\n".join(table)), ""]
    (V / "DESIGN.md").write_text("\n".join(out))


if __name__ == "__main__":
    main()
