"""Writes MANIFEST.json from properties.jsonl and the list of finished checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "C01": "property-based testing: random batch splits against a whole-history reference Gramian",
    "C02": "property-based testing: random histories against a whole-history reference of the moments",
    "C03": "property-based testing: reference transform, round trip, purity",
    "C04": "property-based testing: optimality (KKT) oracle on random penalised problems",
    "C05": "property-based testing: grid, KKT and bounds oracle on random paths; start-value metamorphic relation",
    "C06": "model-based testing of fit/update histories against a whole-history reference estimator",
    "C07": "model-based testing of fit/update histories with reference model selection",
    "C08": "property-based testing against the textbook formulas",
    "C09": "property-based testing: round trips, ranges, monotonicity, shift relation",
    "C10": "property-based testing: difference quotients and closed-form derivatives",
    "C11": "property-based testing: independent reference laws and internal coherence",
    "C12": "property-based testing: difference quotients of an independent log-density",
    "C13": "property-based testing: information identity by numerical integration",
    "C14": "property-based testing: distribution tests of generated variates against reference cdfs",
    "C15": "property-based testing against reference expectation and median",
    "C16": "property-based testing: support invariant over generated samples and fitted models",
    "C17": "property-based testing: score equations of the fit under an independent reference law",
    "C18": "model-based testing of update histories: discounted estimating equations",
    "C19": "model-based testing of update histories: path optimality and reference model selection",
    "C20": "property-based testing: predictions against reference products, row independence, purity",
    "C21": "property-based testing: generated invalid calls (faults) with state comparison against a twin",
    "C22": "metamorphic testing: input snapshots, aliasing, sharing, copying, refitting",
    "C23": "metamorphic testing: weights against replicated, removed and rescaled observations",
    "C24": "metamorphic testing: equivalent configurations and input containers",
    "C25": "property-based testing against batch definitions",
    "C26": "metamorphic testing: partial_fit sequences against fit and update",
    "C27": "metamorphic testing: with and without diagnostics; recorded iterations recomputed from each other",
}
NOTE = "Generated-input search, deterministic from VERIF_SEED; bounded by the number of cases and the generator ranges stated in the evidence file."


def main(done):
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py --setup",
        "checks": [{
            "property": i,
            "quick_cmd": f"python3 run.py {i} --tier quick",
            "thorough_cmd": f"python3 run.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH[i],
            "level": "exploration",
            "level_note": NOTE,
        } for i in ids if i in done],
        "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in done],
        "notes": "No hooks in /repo. Defects found were repaired by fix: commits; see known_findings.json and DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main(set(sys.argv[1].split(",")) if len(sys.argv) > 1 else set(TECH))
