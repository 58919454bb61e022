"""merge_evidence.py A B: adds B, the evidence of the release build, to A."""
import json, sys

a, b = (json.load(open(p)) for p in sys.argv[1:])
ca, cb = a["coverage"], b["coverage"]
for k in ("evaluations", "distinct_nontrivial", "plan_families", "families", "simulated_seconds", "steps_in_calls", "steps_in_library_code", "threads_started"):
    if k in ca:
        ca[k] += cb[k]
for k in ("fired", "injected_and_observed"):
    for n, v in cb.get(k, {}).items():
        ca[k][n] += v
ca["digest_of_schedules_and_answers"] += "-" + cb["digest_of_schedules_and_answers"]
ca["release_build"] = {k: cb[k] for k in cb if k in ("evaluations", "distinct_nontrivial", "plan_families", "families", "code_sites_reached", "code_sites_total", "code_sites_instrumented")}
ca["builds"] = "the library as built for development and, for the last sixth of the families, as built for release"
a["violations"] += b["violations"]
a["wall_s"] += b["wall_s"]
if cb.get("violation"):
    ca["violation"] = cb["violation"]
json.dump(a, open(sys.argv[1], "w"), indent=1)
