"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os
import re

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PURE = ("a property of a pure function of its input: no history, schedule, I/O, randomness, crash or fault that could "
        "change the answer, so a simulator has nothing to control; sampling inputs would be property-based testing")
NOT_APPLICABLE = {
    "C16": "normalisation and support of each density are a " + PURE[2:] + " (C04 compares densities with a reference "
           "inside call histories, which is not a decision over all hyperparameters)",
    "C17": "refusal of inadmissible arguments is " + PURE,
    "C18": "mutual inverse of closed-form conversions is " + PURE,
    "C19": "numerical accuracy in the tails is " + PURE,
    "C20": "admissibility of static prior files is " + PURE,
}
TECHNIQUE = {
    "C01": "deterministic simulation: seeded histories of backend switches over scripted plugin registries with import, "
           "lookup and registry faults; bindings compared with a model",
    "C02": "deterministic simulation: seeded histories of backend switches over scripted plugin registries; bindings and "
           "computed values compared with a reference",
    "C03": "deterministic simulation: seeded operation histories on likelihoods, each result compared with a reference "
           "model",
    "C04": "deterministic simulation: seeded call histories on population models that keep tables, each density compared "
           "with a reference model",
    "C05": "deterministic simulation: seeded evaluation and reconfiguration histories on selection functions compared "
           "with a reference model",
    "C06": "deterministic simulation: seeded sequences of cosmologies compared with a reference model",
    "C07": "deterministic simulation with fault injection: exceptions at seeded lines and bytecodes inside evaluations, "
           "later results compared with a reference model",
    "C08": "deterministic simulation with fault injection: seeded numerical faults in component outputs, verdict compared "
           "with an extended-precision model",
    "C09": "deterministic simulation with fault injection: seeded crash points, snapshots, restores and point deliveries "
           "to simulated workers",
    "C10": "deterministic simulation: seeded line-level thread schedules and object interleavings compared with "
           "sequential execution",
    "C11": "deterministic simulation: row identity under seeded and crafted random generators",
    "C12": "deterministic simulation: repeated seeds, generator-state monitoring and distribution tests over simulated "
           "draws",
    "C13": "deterministic simulation with fault injection: seeded interleavings of compiled, eager and aborted "
           "evaluations",
    "C14": "deterministic simulation: seeded numpyro traces compared with the standard likelihood",
    "C15": "deterministic simulation with fault injection: deep snapshots of inputs over seeded call histories with "
           "failures",
    "C21": "deterministic simulation with fault injection: long seeded histories with failures, size of everything "
           "reachable and weak references checked",
    "C22": "deterministic simulation with fault injection: process-wide settings compared around every call of seeded "
           "histories with failures and callers' own settings",
    "C23": "deterministic simulation with fault injection: seeded interleavings of backend switches and objects of both "
           "backends, each result compared with a reference model",
    "C24": "deterministic simulation with fault injection: seeded sequences of plain, compiled, vectorised, differentiated "
           "and nested evaluations with interrupted traces, each value compared with a reference model",
}


def main():
    checks, missing = [], []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        prop = json.loads(line)
        pid = prop["id"]
        if pid in NOT_APPLICABLE:
            missing.append(dict(property=pid, reason=NOT_APPLICABLE[pid]))
            continue
        path = os.path.join(ROOT, "props", f"{pid}.py")
        if not os.path.exists(path):
            missing.append(dict(property=pid, reason="the check is not built yet"))
            continue
        source = open(path).read()
        level = "fault_enumeration" if re.search(r'level="fault_enumeration"', source) else "exploration"
        note = re.search(r'^LEVEL_NOTE = \(?(.*?)\)?$\n\n', source, re.S | re.M)
        checks.append(dict(
            property=pid,
            quick_cmd=f"/opt/venv/bin/python -B check.py {pid} --tier quick",
            thorough_cmd=f"/opt/venv/bin/python -B check.py {pid} --tier thorough",
            evidence_file=f"evidence/{pid}.json",
            technique=TECHNIQUE[pid],
            level=level,
            level_note=(eval("(" + note.group(1) + ")") if note else
                        "seeded search over the histories, schedules and faults described in DESIGN.md, not a proof; "
                        "trusts the reference model in sim/ and the numerical libraries"),
        ))
    manifest = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -B check.py C03 --spec",
        checks=checks,
        not_applicable=missing,
        notes="No hooks: every seam used (trace functions, import system, numpy's generator, user callbacks) already "
              "exists outside the package. The code is imported from /repo's working tree; nothing has to be built. "
              "Violations are written to evidence/replays/ and replayed with check.py <id> --replay FILE.",
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as ff:
        json.dump(manifest, ff, indent=1)
        ff.write("\n")
    print(len(checks), "checks,", len(missing), "not applicable")


main()
