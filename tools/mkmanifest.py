#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {
 "C01": ("property-based testing: random programs against a reference interpreter", "exploration"),
 "C02": ("property-based testing: metamorphic relation over garbage collection schedules", "exploration"),
 "C03": ("stateful property-based testing: object-graph reachability model", "exploration"),
 "C04": ("property-based testing: save/reload at generated instruction boundaries, differential against the uninterrupted run", "exploration"),
 "C05": ("structure-aware mutation fuzzing of VM images under sanitizers", "exploration"),
 "C06": ("fault injection at enumerated allocation indices over generated programs and histories", "fault_enumeration"),
 "C07": ("stateful property-based testing against shadow accounting in the allocator", "exploration"),
 "C08": ("property-based testing: generated runaway programs, measured instruction counts against the limit law", "exploration"),
 "C09": ("property-based testing: threshold law over generated programs and limits", "exploration"),
 "C10": ("grammar-aware and byte-level fuzzing of source text under sanitizers, with ill-formed-by-construction oracle", "exploration"),
 "C11": ("stateful property-based testing against a map model", "exploration"),
 "C12": ("property-based testing: random coroutine programs against a reference interpreter", "exploration"),
 "C13": ("property-based testing: metamorphic relation between literal and variable operands, and layouts", "exploration"),
 "C14": ("stateful property-based testing: handle count and reachability model", "exploration"),
 "C15": ("property-based testing: generated signatures and argument lists against an acceptance model", "exploration"),
 "C16": ("property-based testing: generated programs with a known failing position", "exploration"),
 "C17": ("stateful property-based testing: interactive sessions and failing programs against the reference interpreter", "exploration"),
 "C18": ("property-based testing: metamorphic relation over shrink schedules", "exploration"),
 "C19": ("property-based testing: host-driven calls against the reference interpreter and direct calls", "exploration"),
 "C20": ("property-based testing: value round-trips and a conversion model", "exploration"),
 "C21": ("property-based testing: interleaved VMs against isolated runs", "exploration"),
 "C22": ("property-based testing: split compilation against whole compilation", "exploration"),
 "C23": ("property-based testing: image byte equality and injected writer failures", "exploration"),
 "C24": ("property-based testing: metamorphic relation over slice sequences", "exploration"),
 "C25": ("stateful property-based testing against a registry model with callback logs", "exploration"),
 "C26": ("property-based testing of the built interpreter program against the embedded library", "exploration"),
}
NOTE = "Generated-input search: no violation among the cases described in the evidence file; it does not establish absence."
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "src/props", i + ".cpp")):
        t, l = TECH[i]
        checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="env VERIF_TIER=thorough ./check.sh " + i, technique=t, level=l, level_note=NOTE))
    else:
        na.append(dict(property=i, reason="The technique applies; the check is not built yet."))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1); open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed")
