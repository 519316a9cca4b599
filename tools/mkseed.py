import json, os, subprocess, shutil, tempfile
def seed(name, prop, edits, needs, breaks, demo):
    d = "/verif/seeded/" + name; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mk_", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD refextract | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x" % (w, w), shell=True, check=True)
        for f, old, new in edits:
            p = w + "/" + f; s = open(p).read()
            assert s.count(old) == 1, (name, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(w)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository; exit 0 on the unchanged tree\nD=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
