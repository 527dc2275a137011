"""Writes MANIFEST.json from the table below (run from /verif)."""
import json
import os

TECH = "deterministic simulation with fault injection: "
CLAIMED = {
    "C01": ("simulated message delivery schedules vs brute-force reference", ""),
    "C02": ("simulated delivery schedules, joint conserved after every delivery", ""),
    "C03": ("simulated set-iteration orders, structural invariants of the built network", ""),
    "C04": ("simulated process_graph histories vs a scheduling reference model", ""),
    "C05": ("interrupts injected at arbitrary instants of build/process/query, recovery vs reference", ""),
    "C06": ("seeded thread scheduler over real threads with own graphs", ""),
    "C07": ("seeded operation histories with failing calls vs reference models, invariants over all live factors", ""),
    "C08": ("seeded thread scheduler over concurrent readers vs solo results", ""),
    "C09": ("simulated split/query/mutation histories vs one-call reference", ""),
    "C10": ("same model under simulated hash seeds (new interpreters), renamings, permutations vs reference", ""),
    "C11": ("stubbed renderer and disk with injected failures and interleaved renderings", ""),
    "C12": ("simulated snapshot/crash/restart points (same and new process) vs uninterrupted run", ""),
    "C13": ("seeded randomness histories: replay, moments, global-state invariants", ""),
    "C14": ("simulated delivery schedules vs equivalent linear-Gaussian reference", ""),
    "C15": ("seeded histories and thread schedules of template use, then simulated delivery schedules vs exact elimination", ""),
    "C18": ("seeded operation histories over factorised factors with failing and interrupted calls vs the product of their factors", ""),
    "C19": ("seeded operation histories and simulated delivery schedules with interrupts and snapshots vs named reference tables", ""),
}
NA = {
    "C16": "numerical quality of an approximation, a pure function of two mixtures: no schedule, clock, I/O, fault or "
           "interleaving for a simulator to control",
    "C17": "string formatting and plotting of a single factor is a pure function of its input: nothing for a simulator "
           "to schedule or to make fail",
}
have = {f[:-3].upper() for f in os.listdir("sim/props") if f.startswith("c") and f.endswith(".py")}
checks, na = [], [{"property": k, "reason": v} for k, v in NA.items() if k not in have]
for k, (tech, note) in CLAIMED.items():
    if k in have:
        checks.append({
            "property": k,
            "quick_cmd": f"./check {k} --tier quick",
            "thorough_cmd": f"./check {k} --tier thorough",
            "evidence_file": f"evidence/{k}.json",
            "technique": TECH + tech,
            "level": "exploration",
            "level_note": note or "seeded search: every run is repeatable from its seed; a clean batch is evidence, not proof",
        })
    else:
        na.append({"property": k, "reason": "check not built yet"})
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
with open("MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
