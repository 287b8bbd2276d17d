"""Creates /verif/seeded/<id>/ from edits of /repo's files (developer tool)."""
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def mk(id, prop, edits, needs, what, wats=None, checks=None, demo=None, files=None):
    """edits: [(file, old, new[, nth])]; wats {name: text}; checks [(wat, [calls])]; demo: text instead of checks"""
    assert subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout == ""
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    try:
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(R, f); s = open(p).read()
            n = s.count(old)
            if len(e) > 3:
                i = -1
                for _ in range(e[3]): i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
            else:
                assert n == 1, (id, f, old, n)
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    for f in ("lib.sh", "run.rs"): shutil.copy(os.path.join(V, "tools/demo", f), d)
    for n, t in (wats or {}).items(): open(os.path.join(d, n), "w").write(t)
    for n, t in (files or {}).items(): open(os.path.join(d, n), "w").write(t)
    if demo is None:
        demo = "".join("check %s %s\n" % (w, " ".join('"%s"' % c for c in cs)) for w, cs in checks)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nset -e\n. "$(dirname "$0")/lib.sh"\n' + demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(id, len(diff.splitlines()), "diff lines")
