"""Plants a bug: python3 tools/mkseed.py ID PROP FILE "needs" "breaks" < edits
edits on stdin: python literal list of (file, old, new).  Demo body comes from
/tmp/seed/ID.py (or demo.sh files already in seeded/ID).  Verifies everything on /repo,
which is restored afterwards."""
import json
import os
import shutil
import subprocess
import sys

V = "/verif"
sid, prop, needs, breaks = sys.argv[1:5]
edits = eval(sys.stdin.read())
R = "/repo"
assert not subprocess.check_output(["git", "-C", R, "status", "--porcelain"]).strip(), "repo dirty"
d = f"{V}/seeded/{sid}"
os.makedirs(d, exist_ok=True)
demo = f"/tmp/seed/{sid}.py"
if os.path.exists(demo):
    shutil.copy(demo, f"{d}/demo.py")
    for f in ("mini.py", "demo.sh"):
        if not os.path.exists(f"{d}/{f}"):
            shutil.copy(f"{V}/tools/seedlib/{f}", f"{d}/{f}")
    if "mini" not in open(demo).read():
        os.remove(f"{d}/mini.py")
cpp = any(e[0].endswith((".cpp", ".hpp", ".h")) for e in edits)


def demo_rc():
    env = {k: v for k, v in os.environ.items()}
    p = subprocess.run(["bash", f"{d}/demo.sh"], cwd=R, capture_output=True, text=True, timeout=300, env=env)
    return p.returncode, (p.stdout + p.stderr)[-1500:]


try:
    rc, out = demo_rc()
    assert rc == 0, "demo fails on the unchanged tree:\n" + out
    own = {}
    for f, old, new in edits:
        p = f"{R}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", R, "diff"], text=True)
    open(f"{d}/patch.diff", "w").write(diff)
    # only original lines may be changed
    for f in {e[0] for e in edits}:
        bl = subprocess.check_output(["git", "-C", R, "blame", "-s", "HEAD", "--", f], text=True).splitlines()
        cur = 0
        for l in subprocess.check_output(["git", "-C", R, "diff", "-U0", "--", f], text=True).splitlines():
            if l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for k in range(st, st + n):
                    if "0948e71" not in bl[k - 1][:12]:
                        print("NOTE: own-commit line:", bl[k - 1])
    rc, out = demo_rc()
    assert rc != 0, "demo passes with the patch"
    print("demo with patch: rc", rc, out[-300:])
    if cpp:
        b = subprocess.run("bash /opt/vp/build.sh", shell=True, capture_output=True, text=True)
        assert b.returncode == 0, b.stdout[-2000:] + b.stderr[-2000:]
        rc, out = demo_rc()
        assert rc != 0
    if os.environ.get("NOTEST") != "1":
        subprocess.run("bash /opt/vp/test.sh /tmp/seed_out.json", shell=True, capture_output=True)
        o = json.load(open("/tmp/seed_out.json"))
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [t for t in st if t not in o["passed"]]
        assert not miss, miss
        print("stable tests pass with the patch")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    if len(sys.argv) > 5:
        for pid in sys.argv[5].split(","):
            p = subprocess.run([f"{V}/check", pid, "quick"], capture_output=True, text=True)
            print("CHECK", pid, "rc", p.returncode, [l for l in p.stdout.splitlines() if "VIOLATION" in l][:2], p.stdout[-300:] if p.returncode not in (0, 1) else "")
finally:
    subprocess.run(["git", "-C", R, "checkout", "--", "."], check=True)
    if cpp:
        subprocess.run("bash /opt/vp/build.sh", shell=True, capture_output=True)
