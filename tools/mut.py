"""try a textual change on a scratch copy: mut.py CHECKS FILE OLD NEW [-v]"""
import os, shutil, subprocess, sys, tempfile
checks, fn, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/src", d + "/src")
    p = f"{d}/src/simplemseed/{fn}"
    s = open(p).read()
    old = old.encode().decode("unicode_escape"); new = new.encode().decode("unicode_escape")
    assert s.count(old) >= 1, "old text not found"
    open(p, "w").write(s.replace(old, new, 1))
    for c in checks.split(","):
        r = subprocess.run([sys.executable, "/verif/check.py", c, "--src", d + "/src"] + sys.argv[5:], capture_output=True, text=True, timeout=600)
        print(c, "exit", r.returncode)
        print("\n".join("   " + x[:260] for x in r.stdout.splitlines()[-6:]), r.stderr[-300:])
finally:
    shutil.rmtree(d)
