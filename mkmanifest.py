"""Regenerates MANIFEST.json from properties.jsonl and the rule modules present."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    None: "static abstract interpretation to a gated value graph (normal forms over symbolic inputs, joins at merges), obligations decided by normal-form comparison",
}
NOTE = ("Every obligation evaluates the functions of /repo's current source over abstract (symbolic) inputs without executing them and compares the resulting normal form, "
        "error paths and effects with the specification. Reports only definite differences; undecided obligations are counted in the evidence and never reported. "
        "Exact arithmetic, modelled numpy/scipy/stdlib, bounded sizes of collections as stated in DESIGN.md.")
NA = {
    "C31": "convergence and loss of orthogonality depend on the spectrum of a run-time matrix; no static argument in reach bounds them",
}
_CP = "static constant propagation through the functions of the current source (abstract interpretation over constant and symbolic arguments), results compared with an independent specification"
_EFF = "static effect analysis: abstract interpretation with the calls of external libraries recorded as effects, recorded effects compared with the specification"
SPECIAL = {
    "C04": ("static heap (points-to) and effect analysis over the abstract store: storage reachable from results, arguments and objects must not be shared or changed", NOTE),
    "C17": ("static name resolution, import resolution and path-sensitive definite-assignment analysis over the syntax tree of every module",
            "Covers every function and path of the package (paths distinguished by the conditions met, loops entered zero or more times, exception edges). Attributes of external libraries are looked up in the installed library's namespace. Nothing of /repo is executed."),
    "C18": (_CP, NOTE), "C19": (_CP, NOTE), "C23": (_CP, NOTE), "C24": (_CP, NOTE), "C26": (_CP, NOTE), "C30": (_CP, NOTE), "C32": (_CP, NOTE),
    "C22": ("static typestate analysis of the environment protocol (streams, thread number, log files) over the abstract interpreter", NOTE),
    "C27": ("static path analysis: abstract interpretation of every public callable over arguments inside and outside its documented domain; every path must raise (or not) before any heap or setting change", NOTE),
    "C34": ("static signature and default-value analysis: constant propagation of the defaults, settings and re-exports of every public callable, compared with the documented ones", NOTE),
    "C29": (_EFF, NOTE), "C33": (_EFF, NOTE),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "rules", i.lower() + ".py")):
            t, n = SPECIAL.get(i, (TECH[None], NOTE))
            checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                           "technique": t, "level": "other", "level_note": n})
        else:
            na.append({"property": i, "reason": NA.get(i, "no sound static rule has been built for it yet")})
    m = {"version": 1, "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 10)\"", "checks": checks, "not_applicable": na,
         "notes": "Pure-Python static analyser in hpa/, specifications in rules/, driver check.py. Nothing of /repo is executed."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
