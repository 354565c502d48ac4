#!/usr/bin/env python3
"""run.py tests MUTS OUT          which mutations build and pass the tests
run.py checks SURVIVORS OUT    runs the checks that concern the file on each, until one reports it
Works in /dev/shm/automut; resumes an existing OUT. VERIF: the copy of /verif whose checks are run."""
import json, os, shutil, subprocess, sys, threading, queue
mode, src, out = sys.argv[1:4]
W = "/dev/shm/automut"; os.makedirs(W, exist_ok=True)
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off")
muts = [json.loads(l) for l in open(src)]
key = lambda m: (m["file"], m["off"], m["len"], m["new"])
done = set()
if os.path.exists(out): done = {key(json.loads(l)) for l in open(out)}
fo = open(out, "a"); lock = threading.Lock()
q = queue.Queue()
for m in muts:
    if key(m) not in done: q.put(m)
CH = {"header.go": "C01 C04 C03 C02 C06 C07 C08 C17", "fileinfo.go": "C04 C17", "nevra.go": "C05 C04", "payload.go": "C17 C18 C19", "rpmutils.go": "C01 C03 C17 C15 C04 C02 C18 C19",
 "signatures.go": "C07 C11 C10 C06 C09 C19 C02", "uncompress.go": "C18 C19", "uncompress_nocgo.go": "C18 C19", "vercmp.go": "C05", "verify.go": "C08 C09 C03 C07 C02", "verify_digests.go": "C08 C07 C02", "verify_v4.go": "C09 C08 C07",
 "writeheader.go": "C06 C07 C02", "cpio/cpio.go": "C12 C13 C15 C17 C18", "cpio/header.go": "C12 C13 C15", "cpio/reader.go": "C12 C13 C17", "cpio/stream.go": "C12 C13 C15", "cpio/extract.go": "C15 C16 C14 C13 C19", "fileutil/fileutil_unix.go": "C11 C15"}
def run(cmd, cwd, t, e=env):
    p = subprocess.Popen(cmd, cwd=cwd, shell=isinstance(cmd, str), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate(); return 124, "timeout"
def work(i):
    w = f"{W}/w{i}"; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    e2 = dict(env, VERIF_REPO=w, TMPDIR=f"{W}/t{i}"); os.makedirs(f"{W}/t{i}", exist_ok=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        p = f"{w}/{m['file']}"
        orig = open(f"/repo/{m['file']}", "rb").read()
        open(p, "wb").write(orig[:m["off"]] + m["new"].encode() + orig[m["off"]+m["len"]:])
        try:
            if mode == "tests":
                rc, o = run("go build ./... && timeout 60 go test -count=1 ./...", w, 120, e2)
                m["tests"] = "pass" if rc == 0 else "build" if "[build failed]" in o or "FAIL" not in o else "fail"
            else:
                m["caught"] = None; m["odd"] = []
                for c in CH[m["file"]].split():
                    rc, o = run([os.environ.get("VERIF", "/verif") + "/check.sh", c, "quick"], w, 600, e2)
                    if rc == 1 and "VIOLATION property=" in o:
                        m["caught"] = c; m["why"] = [l for l in o.splitlines() if l.strip().startswith("=>")][:1]; break
                    if rc != 0: m["odd"].append([c, rc, o[-300:]])
        finally:
            open(p, "wb").write(orig)
        with lock:
            fo.write(json.dumps(m) + "\n"); fo.flush()
            if mode == "checks" and not m["caught"]: print("MISSED", m["file"], m["line"], m["what"], m["odd"], flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(int(os.environ.get("WORKERS", "6")))]
[t.start() for t in ts]; [t.join() for t in ts]
print("done")
