"""Write MANIFEST.json from the checks present in /verif/checks."""

import json
import pathlib
import re


root = pathlib.Path(__file__).resolve().parent.parent
NOTES = {
    "C01": "every script of solver answers up to the bound, on the real loop, against a direct interpreter of the statement",
}
props = [json.loads(x)["id"] for x in (root / "properties.jsonl").read_text().splitlines()]
checks = []
for path in sorted((root / "checks").glob("c[0-9][0-9]_*.py")):
    pid = path.name[:3].upper()
    assert pid in props, pid
    doc = re.search(r'^"""C\d\d: (.*?)(?:\n\n|""")', path.read_text(), re.S).group(1)
    checks.append(
        dict(
            property=pid,
            quick_cmd=f"VERIF_TIER=quick /opt/venv/bin/python checks/{path.name}",
            thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python checks/{path.name}",
            technique="model checking",
            level="model_checking",
            level_note=" ".join(doc.split()),
            evidence_file=f"evidence/{pid}.json",
        )
    )
have = {c["property"] for c in checks}
manifest = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c 'import jax, equinox, lineax, optax, numpy'",
    hooks=dict(guard="none", enable="", source_commits=[]),
    checks=checks,
    not_applicable=[],
    notes="No instrumentation in the source: everything is observed through the public "
    "solver interface. Every check runs the code in /repo directly, in fresh processes.",
)
old = json.loads((root / "MANIFEST.json").read_text())
for k in ("hooks",):
    manifest[k] = old.get(k, manifest[k])
(root / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print("checks:", sorted(have), "missing:", sorted(set(props) - have))
