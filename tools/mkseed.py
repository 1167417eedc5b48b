#!/usr/bin/env python3
"""mkseed.py NAME: seeds/NAME.py-style spec on stdin (python dict):
 {"property","needs","what","edits":[[file,old,new],..],"demo": C source or None,"srcs":[...],"sh":...}
Makes /verif/seeded/NAME after confirming: applies, builds, stable tests pass, demo 0 without / nonzero with."""
import sys, os, json, subprocess, shutil, tempfile, ast
name = sys.argv[1]; spec = ast.literal_eval(sys.stdin.read())
V = "/verif"; d = "%s/seeded/%s" % (V, name)
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
w = tempfile.mkdtemp(prefix="seed-")
subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
R = w + "/repo"
for f, old, new in spec["edits"]:
    t = open(R + "/" + f, errors="surrogateescape").read()
    assert t.count(old) == 1, (f, t.count(old), old)
    open(R + "/" + f, "w", errors="surrogateescape").write(t.replace(old, new))
diff = subprocess.check_output(["git", "-C", R, "diff"])
open(d + "/patch.diff", "wb").write(diff)
if spec.get("demo"):
    open(d + "/demo.c", "w").write(spec["demo"])
    srcs = " ".join(spec["srcs"])
    sh = '''#!/bin/bash
# exit 0: behaves; nonzero: broken.  Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
inc=$(dirname "$(find . -maxdepth 2 -name config.h | head -1)")
[ -d "$inc" ] || inc=.
gcc -w -g -fcommon -DHAVE_CONFIG_H -DNODOWNLOAD -I. -I"$inc" %s -o "$t/demo" "$here/demo.c" %s -lpthread -lm || exit 99
timeout 60 "$t/demo"
''' % (spec.get("cflags", ""), srcs)
else:
    sh = spec["sh"]
open(d + "/demo.sh", "w").write(sh); os.chmod(d + "/demo.sh", 0o755)
for fn, c in spec.get("files", {}).items():
    open(d + "/" + fn, "w").write(c)
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what"]}, open(d + "/meta.json", "w"), indent=1)
ok = True
a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print("demo on clean tree:", a.returncode, a.stdout.decode(errors="replace")[-300:] if a.returncode else "")
ok &= a.returncode == 0
# build + tests with the patch in /repo's place
subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
try:
    b = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print("build:", b.returncode); ok &= b.returncode == 0
    if "--notest" not in sys.argv:
        subprocess.run(["bash", "/opt/vp/test.sh", w + "/out.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        o = json.load(open(w + "/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        txt = json.dumps(o)
        print("tests:", txt[:160].replace("\n", " "))
    c = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print("demo with patch:", c.returncode, c.stdout.decode(errors="replace")[-300:])
    ok &= c.returncode not in (0, 99)
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
    subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
shutil.rmtree(w)
print("OK" if ok else "BAD", name)
