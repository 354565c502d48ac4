#!/usr/bin/env python3
"""Builds and validates the planted bugs of /verif/seeded from seeds/*.py.
usage: mkseeds.py [ID...]   Each seeds/X.py defines SEEDS = [dict(id, prop, pkg, edits=[(file, old, new)], demo, needs, breaks)]"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, importlib.util
root = pathlib.Path(__file__).resolve().parent
out = root.parent/"seeded"
seeds = []
for f in sorted((root/"seeds").glob("*.py")):
    spec = importlib.util.spec_from_file_location(f.stem, f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    seeds += m.SEEDS
want = set(sys.argv[1:])
def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, env=env)
base = json.load(open("/opt/vp/BASELINE.json"))
bad = 0
for s in seeds:
    if want and s["id"] not in want: continue
    d = out/s["id"]; shutil.rmtree(d, ignore_errors=True); d.mkdir(parents=True)
    tmp = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    w = tmp+"/repo"
    sh(["cp","-a","/repo",w], "/")
    for f, old, new in s["edits"]:
        p = pathlib.Path(w)/f; t = p.read_text()
        if t.count(old) != 1: print(s["id"], "edit matches", t.count(old), "times:", old); bad += 1
        p.write_text(t.replace(old, new, 1))
    diff = sh(["git","diff"], w).stdout
    (d/"patch.diff").write_text(diff)
    # original lines only
    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    orig = "".join(sh(["git","show","9069464:"+f], w).stdout for f,_,_ in s["edits"])
    if not any(l.strip() and l in orig.splitlines() for l in removed): print(s["id"], "WARNING: changes no original line")
    (d/"demo_test.go").write_text(s["demo"])
    if s.get("builder", True): shutil.copy(root/"seeds/pkgbuild_test.go.txt", d/"pkgbuild_test.go") if s["pkg"]=="." else shutil.copy(root/"seeds/cpiobuild_test.go.txt", d/"cpiobuild_test.go")
    files = sorted(x.name for x in d.glob("*_test.go"))
    ov = ",".join('"%s/{0}/zz_{1}":"%s/{1}"'.format(s["pkg"], x) for x in files)
    args = ov
    rep = "\n".join('printf \'%%s"%%s/%s/zz_%s":"%%s/%s"\' "$sep" "$PWD" "$D" >>"$T/overlay.json"; sep=,' % (s["pkg"], x, x) for x in files)
    (d/"demo.sh").write_text(f"""#!/bin/bash
# demonstrates {s['id']}: passes on the unchanged tree, fails with patch.diff applied. Run in the repository.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'chmod -R u+rwx "$T"; rm -rf "$T"' EXIT
export TMPDIR=$T
sep=
printf '{{"Replace":{{' >"$T/overlay.json"
{rep}
printf '}}}}' >>"$T/overlay.json"
{s.get('pre','')}
timeout 200 go test -overlay "$T/overlay.json" -count=1 -vet=off -run 'TestZZDemo' {s.get('flags','')} ./{s['pkg']}
""")
    os.chmod(d/"demo.sh", 0o755)
    (d/"meta.json").write_text(json.dumps(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), indent=1)+"\n")
    # validate
    r0 = sh([str(d/"demo.sh")], "/repo")
    r1 = sh([str(d/"demo.sh")], w)
    b = sh("go build ./... && GOOS=windows CGO_ENABLED=0 go build ./... && go vet . ./cpio", w, dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off"))
    t = sh("go test -count=1 ./...", w, dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off"))
    ok = r0.returncode==0 and r1.returncode!=0 and b.returncode==0 and t.returncode==0
    noFail = "--- FAIL" in r1.stdout or "panic" in r1.stdout
    print(s["id"], "OK" if ok and noFail else "BAD", "clean", r0.returncode, "patched", r1.returncode, "build", b.returncode, "tests", t.returncode)
    if not (ok and noFail):
        bad += 1
        print(r0.stdout[-1500:], r0.stderr[-800:], "\n--patched:", r1.stdout[-1500:], r1.stderr[-500:], b.stderr[-800:], t.stdout[-800:] if t.returncode else "")
    shutil.rmtree(tmp)
sys.exit(bad>0)
