#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes /verif/seeded/<id>/ from a spec (python file defining ID, PROP, NEEDS, BREAKS,
EDITS=[(file, old, new)], DEMO (rust text), LIB (dir in bin/seedlib of support files list))."""
import sys, os, json, subprocess, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
ROOT = "/verif"
REPO = os.environ.get("REPO", "/repo")
d = f"{ROOT}/seeded/{spec['ID']}"
os.makedirs(d, exist_ok=True)
orig = {}
try:
    for f, old, new in spec["EDITS"]:
        p = f"{REPO}/{f}"
        s = open(p).read()
        orig.setdefault(p, s)
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    patch = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True, check=True).stdout
finally:
    for p, s in orig.items():
        open(p, "w").write(s)
open(f"{d}/patch.diff", "w").write(patch)
json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
open(f"{d}/demo.rs", "w").write(spec["DEMO"])
if "WS" in spec:
    # whole-workspace demo: WS = list of mirrors; TOML = file of bin/seedlib
    spec["LIB"] = []
    shutil.copy(f"{ROOT}/bin/seedlib/demo_ws.sh", f"{d}/demo.sh")
    shutil.copy(f"{ROOT}/bin/seedlib/{spec['TOML']}", f"{d}/demo.toml")
    shutil.rmtree(f"{d}/ws", ignore_errors=True)
    shutil.copytree(f"{ROOT}/shims", f"{d}/ws/shims")
    for m in spec["WS"]:
        shutil.copytree(f"{ROOT}/mirror/{m}", f"{d}/ws/mirror/{m}")
    import glob, re
    if "query" in spec["WS"]:
        for c in glob.glob(f"{d}/ws/mirror/*/Cargo.toml"):
            t = re.sub(r"(?m)^datafusion = .*$", 'datafusion = { version = "39.0.0", default-features = false }', open(c).read())
            open(c, "w").write(t)
    c = f"{d}/ws/mirror/metadata/Cargo.toml"
    if os.path.exists(c) and "query" not in spec["WS"]:
        t = "".join(l for l in open(c) if not l.startswith("datafusion = "))
        open(c, "w").write(t)
    for b in glob.glob(f"{d}/ws/mirror/*/build.rs"):
        if spec.get("HOOKS"):
            continue
        t = "".join(l for l in open(b) if "rustc-cfg=optiprism_verif" not in l)
        open(b, "w").write(t)
for f in spec.get("LIB", ["demo_common.sh", "demo.toml", "arrow2_datatypes.rs"]):
    src = f"{ROOT}/bin/seedlib/{f}"
    name = "demo.sh" if f.startswith("demo_") and f.endswith(".sh") else f
    if os.path.isdir(src):
        shutil.copytree(src, f"{d}/{f}", dirs_exist_ok=True)
    else:
        shutil.copy(src, f"{d}/{name}")
if "TOML_EXTRA" in spec:
    open(f"{d}/demo.toml", "a").write(spec["TOML_EXTRA"])
os.chmod(f"{d}/demo.sh", 0o755)
print(d, len(patch.splitlines()), "patch lines")
