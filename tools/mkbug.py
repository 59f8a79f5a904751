"""tools/mkbug.py ID PROPERTY FILE  < spec(json: old,new[,edits],needs,breaks,demo)  -> seeded/ID"""
import json, os, subprocess, sys
def make(id, prop, edits, needs, breaks, demo):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
    for f, old, new in edits:
        p = "/repo/src/cr/sparse/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write("import jax\njax.config.update('jax_enable_x64', True)\nimport jax.numpy as jnp\nimport numpy as np\n" + demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport HOME=/root JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
