#!/usr/bin/env python3
"""Applies the behaviour-preserving rewritings of tools/refactors/*.py to a copy of /repo (all at once, or those named) and
runs every quick check, which has to stay quiet.   usage: refactors.py [-p C01,C02] [NAME...]"""
import os, pathlib, shutil, subprocess, sys, tempfile, importlib.util
root = pathlib.Path(__file__).resolve().parent
refs = []
for f in sorted((root/"refactors").glob("*.py")):
    spec = importlib.util.spec_from_file_location(f.stem, f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    refs += m.REFACTORS
args = sys.argv[1:]; props = ["C%02d"%i for i in range(1,22)]
if args[:1] == ["-p"]: props = args[1].split(","); args = args[2:]
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off")
tmp = tempfile.mkdtemp(prefix="refactor", dir="/tmp"); w = tmp+"/repo"
subprocess.run(["cp","-a","/repo",w])
for name, edits in refs:
    if args and name not in args: continue
    for f, old, new in edits:
        p = pathlib.Path(w)/f; t = p.read_text()
        if t.count(old) != 1: sys.exit("%s: edit matches %d times: %s" % (name, t.count(old), old))
        p.write_text(t.replace(old, new, 1))
b = subprocess.run("go build ./... && go vet . ./cpio && go test -count=1 ./...", shell=True, cwd=w, env=env, capture_output=True, text=True)
if b.returncode: sys.exit("FAILS THE TESTS\n"+b.stdout+b.stderr)
bad = 0
for p in props:
    r = subprocess.run([str(root.parent/"check.sh"), p, os.environ.get("TIER","quick")], env=dict(env, VERIF_REPO=w), capture_output=True, text=True)
    if r.returncode:
        bad += 1; print(p, "NOT QUIET: exit", r.returncode, "\n".join((r.stdout+r.stderr).splitlines()[-12:]))
    else: print(p, "quiet")
    sys.stdout.flush()
shutil.rmtree(tmp)
sys.exit(bad > 0)
