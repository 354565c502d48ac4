#!/usr/bin/env python3
"""Applies each mutation of tools/mutants/*.py to a copy of /repo, runs the tests and the property's quick check.
usage: mutants.py [NAME-PREFIX...]   MUTANTS = [(name, prop, [(file, old, new)...])]"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, importlib.util
root = pathlib.Path(__file__).resolve().parent
muts = []
for f in sorted((root/"mutants").glob("*.py")):
    spec = importlib.util.spec_from_file_location(f.stem, f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    muts += m.MUTANTS
want = sys.argv[1:]
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off")
for name, prop, edits in muts:
    if want and not any(name.startswith(w) for w in want): continue
    tmp = tempfile.mkdtemp(prefix="mut", dir="/tmp"); w = tmp+"/repo"
    subprocess.run(["cp","-a","/repo",w])
    bad = False
    for f, old, new in edits:
        p = pathlib.Path(w)/f; t = p.read_text()
        if t.count(old) != 1: print(name, "edit matches", t.count(old), "times:", old); bad = True; break
        p.write_text(t.replace(old, new, 1))
    if not bad:
        b = subprocess.run("go build ./... && go test -count=1 ./...", shell=True, cwd=w, env=env, capture_output=True, text=True)
        if b.returncode:
            print(name, "FAILS THE TESTS", (b.stdout+b.stderr)[-600:]); bad = True
    if not bad:
        r = subprocess.run([str(root.parent/"check.sh"), prop, os.environ.get("TIER","quick")], env=dict(env, VERIF_REPO=w), capture_output=True, text=True)
        ls = r.stdout.splitlines()
        v = [i for i,l in enumerate(ls) if l.startswith("VIOLATION property="+prop)]
        if r.returncode == 1 and v:
            part = [l for l in ls if "choices=[" in l]; why = [l for l in ls if l.strip().startswith("=>")]
            print(name, prop, "caught:", part[0].split()[0] if part else "", why[0].strip()[:200] if why else "")
        else:
            print(name, prop, "MISSED rc", r.returncode, (r.stdout+r.stderr)[-500:] if r.returncode not in (0,) else "")
    sys.stdout.flush()
    shutil.rmtree(tmp)
