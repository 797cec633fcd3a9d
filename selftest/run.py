#!/usr/bin/env python3
"""Runs the checker on edited copies of the repository (development aid; no check uses it).

usage: run.py FILE [ID...]   FILE defines a list M of (id, kind, property, file, old, new)
kind: "bug" (must be reported) or "ok" (must stay quiet; property may be "all")
"""
import os, sys, subprocess, shutil, runpy, concurrent.futures as cf
CHK = os.environ.get("CHK", "/tmp/chk")
M = runpy.run_path(sys.argv[1])["M"]
only = set(sys.argv[2:])
env = dict(os.environ, GOSUMDB="off", GOFLAGS="-mod=readonly", GOPROXY="off")
ALL = os.environ.get("PROPS", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C28 C29").split()
MEM = " C17 C18 C19"
REL = {"bls": "C01 C02 C03 C04 C06" + MEM, "hash": "C05 C06 C07 C08" + MEM, "merkletree": "C07 C08" + MEM,
       "mlsag": "C06 C09 C11 C12 C20 C21 C22 C23 C25 C28" + MEM, "ringsig": "C06 C10 C11 C12 C28" + MEM,
       "rangeproof": "C06 C13 C14 C15 C16 C20 C21 C22 C23 C24 C25 C29" + MEM}
def sh(cmd, cwd):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, env=env, capture_output=True, text=True, errors="replace")
def one(m):
    id, kind, prop, edits = m[0], m[1], m[2], m[3:]
    d = "/tmp/mut%s/" % os.getpid() + id
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    es = [edits[i:i+3] for i in range(0, len(edits), 3)]
    for f, a, b in es:
        s = open(d + "/" + f).read()
        if s.count(a) < 1:
            shutil.rmtree(d); return id, "NOT FOUND in " + f + ": " + a[:50]
        s = s.replace(a, b, 1)
        open(d + "/" + f, "w").write(s)
    sh("gofmt -w . ; goimports -w $(git diff --name-only)" if os.environ.get("FMT") else "true", d)
    r = sh("go build ./... && go vet ./...", d)
    if r.returncode and "build" in r.stderr or sh("go build ./...", d).returncode:
        e = sh("go build ./...", d).stderr; shutil.rmtree(d); return id, "DOES NOT BUILD " + e[:300]
    t = sh("go test ./... 2>&1", d)
    tests = "tests pass" if t.returncode == 0 else "TESTS FAIL"
    props = ALL if prop == "all" else prop.split(",")
    if prop == "all" and os.environ.get("AUTO"):
        rel = set()
        for f, _, _ in es:
            rel |= set(REL[f.split("/")[0]].split())
        props = [p for p in ALL if p in rel]
    out = {}
    for p in props:
        r = subprocess.run(["bash", "-c", f". /opt/vp/env.sh; VERIF_REPO={d} VERIF_OUT={d}/.out {CHK} check {p}"], capture_output=True, text=True, errors="replace")
        if "no such property" in r.stderr: continue
        u = sum(1 for l in r.stdout.splitlines() if l.startswith("  undecided"))
        out[p] = ("ALARM" if r.returncode == 1 else "quiet" if r.returncode == 0 else "rc%d" % r.returncode) + (f"({u}u)" if u else "")
        if os.environ.get("SHOW") and r.returncode == 1 or os.environ.get("SHOWU"): print(id, r.stdout[:2500])
    shutil.rmtree(d)
    good = all(v.startswith("ALARM") for v in out.values()) if kind == "bug" else not any(v.startswith("ALARM") or v.startswith("rc") for v in out.values())
    show = out if kind == "bug" else {k: v for k, v in out.items() if v != "quiet"}
    return id, ("ok  " if good else "BAD ") + kind + " " + tests + " " + str(show)
os.makedirs("/tmp/mut%s" % os.getpid(), exist_ok=True)
with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for id, r in ex.map(one, [m for m in M if not only or m[0] in only or any(m[0].startswith(o) for o in only)]):
        print(id, r, flush=True)
