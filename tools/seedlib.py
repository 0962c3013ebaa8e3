"""seed(id, prop, [(file, old, new)...], demo_c, needs, breaks): writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, tempfile


def seed(id, prop, edits, demo, needs, breaks):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "-s", "/repo", t + "/r"])
    for f, a, b in edits:
        p = t + "/r/" + f
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True))
    shutil.rmtree(t)
    open(d + "/demo.c", "w").write(demo.lstrip("\n"))
    shutil.copy("/verif/tools/seeddemo.sh", d + "/demo.sh")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(id)
