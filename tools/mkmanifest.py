"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present in harness/props.py."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(f"{V}/properties.jsonl")]
built = set(re.findall(r"^def (C\d\d)\(", open(f"{V}/harness/props.py").read(), re.M))
TECH = ("TLA+ specification checked with TLC; traces recorded from the real code, driven by histories "
        "generated from the specification and by seeded random inputs, are judged by TLC against the specification")
NOTE = {
    "default": "TLC exhausts the small specification model; the code is bound to it by trace validation, "
               "so the verdict about the code covers the executed inputs and histories only.",
}
NA = {
}
m = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=[dict(property=i, quick_cmd=f"./check.py {i}", thorough_cmd=f"./check.py {i} --tier thorough",
                 technique=TECH, level="model_checking", level_note=NOTE.get(i, NOTE["default"]))
            for i in ids if i in built],
    not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in built],
)
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
