import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def build(PROPS):
    from stages import STAGES
    checks, na = [], []
    for p in PROPS:
        if p["id"] in STAGES:
            checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}",
                thorough_cmd=f"VERIF_TIER=thorough python3 run.py {p['id']}",
                evidence_file=f"evidence/{p['id']}.json", technique=p["tech"], level="exploration", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason="monitor not built yet"))
    m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
             hooks=dict(guard="none", enable="No hooks: the monitors observe the exported API, the gRPC and HTTP boundary, the file system and the sanitizers.", source_commits=[]),
             notes="Every check rebuilds the harness against /repo's working tree with go test -c (plain, -race, -asan) in a scratch directory below /var/tmp that it removes.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
