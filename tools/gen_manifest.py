#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of explorers that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "explicit-state search over edit histories of the real BitVec against a bit-list model",
 "C02": "exhaustive enumeration of packing/split/concatenation cases on the real BitVec against a bit-list model",
 "C03": "exhaustive pairs of reachable BitVec states (equality, hash, order of construction)",
 "C04": "exhaustive enumeration of vector/mask pairs on the real MaskedBitVec against a bit-list model",
 "C05": "exhaustive enumeration of bit vectors, every rank query against a counting model",
 "C06": "exhaustive enumeration of bit vectors, every select query against a position-list model",
 "C07": "exhaustive iterator call programs on the real select iterators against a list model",
 "C08": "exhaustive enumeration of RsVec pairs and round trips against a bit-list model",
 "C09": "exhaustive enumeration of sorted sequences on the real Elias-Fano vector against a list model",
 "C10": "exhaustive enumeration of sorted sequences and query values, predecessor/successor/rank against a list model",
 "C11": "exhaustive enumeration of sparse vectors against a bit-list model",
 "C12": "exhaustive enumeration of arrays and query ranges against a scan model",
 "C13": "exhaustive enumeration of symbol sequences, access/rank/select against a list model",
 "C14": "exhaustive enumeration of symbol sequences and ranges, quantile/min/max/median/neighbours against a sort model",
 "C15": "exhaustive enumeration of symbol sequences through all constructors against a list model",
 "C16": "exhaustive enumeration of parenthesis sequences x block sizes x search arguments against a prefix-sum model",
 "C17": "exhaustive enumeration of ordered trees x block sizes against an explicit tree model",
 "C18": "exhaustive enumeration of ordered trees and unbalanced sequences x block sizes against an explicit tree model",
 "C19": "explicit-state search over builder histories and all trees up to a bound against an explicit tree model",
 "C20": "exhaustive iterator call programs on every collection against a list model",
 "C21": "exhaustive cross product of structures and extreme arguments against models and unchecked variants",
 "C22": "exhaustive differential exploration: the same bounded case space executed in six builds, transcripts compared case by case",
 "C23": "exhaustive enumeration of structures, serialised and reloaded within and across builds, all observations compared",
 "C25": "exhaustive exploration of a size x distribution x query grid on the real code, instructions counted by single-stepping against size-independent or logarithmic limits",
 "C24": "exhaustive enumeration of structures with an instrumented allocator against the documented space formulas",
}
NOTE = ("Stateless bounded model checking of the real crate: every case of every family listed in DESIGN.md is executed in "
        "each listed build configuration (with and without SIMD / large lookup tables / debug assertions) and each answer is "
        "compared with a naive model. Exhaustive within the stated bounds, nothing sampled, no claim beyond them. Trusted: "
        "compiler, standard library, CPU, and the naive models.")
NOTE2 = {"C25": " Asymptotics are decided only within the explored sizes: a limit that grows with the logarithm of the size (or not at all) has to hold at every explored size, which a linear scan exceeds by one to three orders of magnitude.",
         "C22": " The oracle is agreement between builds, not a model.",
         "C24": " Constants in the formulas are looser than what the crate achieves by the slack stated in DESIGN.md."}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "mc", "src", "bin", p.lower() + ".rs")):
        checks.append(dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough",
                           evidence_file=f"evidence/{p}.json", technique=T[p], level="model_checking",
                           level_note=NOTE + NOTE2.get(p, "")))
    else:
        na.append(dict(property=p, reason="not built yet"))
json.dump(dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: all checks use the public API. See DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", [n["property"] for n in na], "not applicable")
