#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from rzv import registry

NOTES = registry.NOTES
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--grep=rezip_verif"],
                                              capture_output=True, text=True).stdout.splitlines()]
m = dict(
    version=1,
    setup_cmd="python3 check.py --setup",
    hooks=dict(guard="rezip_verif", enable='RUSTFLAGS="--cfg rezip_verif" (rustc cfg flag)', source_commits=hooks),
    checks=[dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p,
                 thorough_cmd="python3 check.py %s --tier thorough" % p,
                 technique=NOTES[p][0], level="model_checking", level_note=NOTES[p][1])
            for p in props if p in registry.CHECKS],
    not_applicable=[dict(property=p, reason=registry.NOT_YET.get(p, "no check yet")) for p in props if p not in registry.CHECKS])
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
