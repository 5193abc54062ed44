#!/usr/bin/env python3
"""development aid: seed.py <id> spec.json  -- makes /verif/seeded/<id> from {property, needs, what_it_breaks, edits:[[file, old, new]...], demo: "ts source"} and confirms it."""
import json, os, subprocess, sys
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
sid, specf = sys.argv[1], sys.argv[2]
spec = json.load(open(specf)) if specf.endswith(".json") else eval(open(specf).read())
d = f"/verif/seeded/{sid}"; os.makedirs(d, exist_ok=True)
assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
ok = True
try:
    for f, a, b in spec["edits"]:
        s = open(f"/repo/{f}").read(); assert s.count(a) >= 1, ("missing", f, a); assert s.count(a) == 1, ("ambiguous", f, a, s.count(a)); open(f"/repo/{f}", "w").write(s.replace(a, b))
    open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    open(f"{d}/demo.ts", "w").write(spec["demo"].lstrip("\n"))
    open(f"{d}/demo.sh", "w").write("""#!/bin/bash
cd /repo || exit 2
export DENO_DIR=/opt/deno/cache DENO_NO_UPDATE_CHECK=1 DENO_NO_PROMPT=1 DENO_NO_PACKAGE_JSON=1 NO_COLOR=1
D="$(cd "$(dirname "$0")" && pwd)"
exec timeout 120 /opt/deno/deno run -A --no-check --cached-only --no-remote --no-npm --config /repo/deno.jsonc --import-map /opt/mtkruto-deps/import_map.json "$D/demo.ts" < /dev/null
""".replace('D="$(cd "$(dirname "$0")" && pwd)"\n', "").replace("cd /repo || exit 2\n", 'D="$(cd "$(dirname "$0")" && pwd)"\ncd /repo || exit 2\n'))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
    r = sh("bash /opt/vp/build.sh"); print("build", r.returncode, r.stderr[-800:] if r.returncode else "")
    ok &= r.returncode == 0
    sh("bash /opt/vp/test.sh /tmp/w/seed_t.json"); t = json.load(open("/tmp/w/seed_t.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("stable") or base.get("passing") or base.get("passed") or base.get("tests") or base
    if isinstance(names, dict): names = [k for k in names]
    passed = t.get("passed") or t.get("passing") or [k for k, v in t.get("tests", {}).items() if v in ("pass", "passed", True)]
    miss = [n for n in names if n not in set(passed)]
    print("tests missing", len(miss), miss[:3]); ok &= not miss
    r = sh(f"bash {d}/demo.sh"); print("demo with patch", r.returncode, (r.stdout + r.stderr)[-600:]); ok &= r.returncode != 0
    r = sh(f"cd /verif && node run.js {spec['property']}"); print("check with patch", r.returncode, r.stdout[:700]); caught = r.returncode == 1
finally:
    sh("git -C /repo checkout -- .")
r = sh(f"bash {d}/demo.sh"); print("demo without", r.returncode, (r.stdout + r.stderr)[-600:] if r.returncode else ""); ok &= r.returncode == 0
print("CONFIRMED" if ok else "NOT CONFIRMED", "caught" if caught else "MISSED")
