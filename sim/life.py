"""Runs one scenario in a new interpreter and prints what happened."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

if __name__ == "__main__":
    from sim import core

    core.prepare_sut()
    job = json.load(open(sys.argv[1]))
    prop = core.load_property(job["property"])
    out, sys.stdout = sys.stdout, sys.stderr
    violation, rec = core.run_scenario(prop, job["scenario"])
    sys.stdout = out
    print("RESULT " + json.dumps(dict(
        steps=rec.steps, checks=rec.checks, faults=rec.faults, probes=rec.probes, states=sorted(rec.states),
        digest=rec.digest(), tail=rec.tail[-20:],
        violation=None if violation is None else [violation.cls, violation.message])))
