# mk(id, prop, edits, demo, needs, breaks): writes /verif/seeded/<id> from edits of /repo (left unchanged)
import json, os, shutil, subprocess
def mk(i, prop, edits, demo, needs, breaks):
    d = "/verif/seeded/" + i; os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain", "-uno"])
    try:
        for f, a, b in edits:
            p = "/repo/pillowcore/" + f; s = open(p).read(); assert s.count(a) == 1, (i, f, s.count(a), a); open(p, "w").write(s.replace(a, b))
        diff = subprocess.check_output(["git", "-C", "/repo", "diff"])
    finally: subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "wb").write(diff); open(d + "/demo.cpp", "w").write('#include "demo.h"\n' + demo)
    for f in ("demo.h", "demo.sh"): shutil.copy("/verif/tools/seed/" + f, d)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
