#!/usr/bin/env python3
"""Mutation testing of the checks: run.py OUT.jsonl PATHPREFIX... [--every N] [--offset K] [--budget S] [--again 1]

Applies each change that main.go lists for the sources under the prefixes to a
scratch copy of /repo, keeps those that compile and pass the existing tests and
runs the quick checks of the area until one reports a violation. --again runs
those again that OUT.jsonl lists as not detected (a larger budget is useful)."""
import json, os, queue, shutil, signal, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/repo"
WORK = os.environ.get("MUT_WORK", "/tmp/mut")
LANES = int(os.environ.get("MUT_LANES", "4"))
AREAS = [
    ("driver/", [("driver", "C34 C30 C31 C29 C28 C35 C33 C32 C41".split())]),
    ("file_systems/common/blockcache/", [("blockcache", "C01 C03 C05 C02 C04 C06".split())]),
    ("file_systems/common/basicstream/", [("stream", "C07 C09 C08 C10 C12 C11".split())]),
    ("file_systems/fat8/", [("fat8", "C23 C22 C19 C20 C21".split())]),
    ("file_systems/fat/", [("fat", "C24 C25 C26 C27 C40".split())]),
    ("file_systems/unixv6/", [("misc", ["C39"])]),
    ("utilities/", [("compression", "C18 C13 C14 C15 C16 C17".split())]),
    ("cmd/", [("compression", "C15 C16 C17".split())]),
    ("flags.go", [("misc", ["C37"]), ("stream", ["C09", "C07"]), ("driver", ["C31", "C32"])]),
    ("errors.go", [("misc", ["C36"])]),
    ("api.go", [("misc", ["C37", "C36"]), ("driver", ["C30"])]),
    ("testing/", [("fixtures", ["C42"])]),
    ("disks/", [("misc", ["C38"])]),
]

def env(lane):
    e = dict(os.environ)
    e.update(REPO=lane, GOCACHE=WORK + "/gocache", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")
    return e

def sh(cmd, lane, timeout, **kw):
    p = subprocess.Popen(cmd, shell=True, cwd=lane, env=dict(env(lane), **kw), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return 124, "timeout"

def one(lane, f, m, budget):
    path = os.path.join(lane, f)
    src = open(os.path.join(REPO, f), "rb").read()
    open(path, "wb").write(src[:m["Start"]] + m["New"].encode() + src[m["End"]:])
    try:
        rc, out = sh("go build ./...", lane, 120)
        if rc:
            return "nocompile", ""
        rc, out = sh("go test -vet=off -timeout 30s ./...", lane, 60)
        if rc:
            return "tests", ""
        for prefix, areas in AREAS:
            if not f.startswith(prefix):
                continue
            for area, props in areas:
                binary = lane + ".mc"
                rc, out = sh(f"{VERIF}/check build {area} {binary}", lane, 300)
                if rc:
                    return "checkbuild", out[-500:]
                kw = {}
                if area == "compression":
                    os.makedirs(lane + ".bin", exist_ok=True)
                    sh(f"go build -o {lane}.bin/ ./cmd/zipimage ./cmd/unzipimage", lane, 120)
                    kw["MC_BIN"] = lane + ".bin"
                os.makedirs(lane + ".tmp", exist_ok=True)
                for p in props:
                    rc, out = sh(f"{binary} -property {p} -tier quick -seed 1 -evidence {lane}.ev -replays {lane}.replays "
                                 f"-known {VERIF}/known_findings.txt -procs {max(1, 8 // LANES)} -budget {budget}", lane, 400, TMPDIR=lane + ".tmp", **kw)
                    if rc == 1:
                        part = next((l.split(":")[0] for l in out.splitlines() if "VIOLATION" in l or l.startswith("part ")), "")
                        return "killed", p
                    if rc != 0:
                        return "odd", f"{p} rc={rc} " + out[-300:]
                shutil.rmtree(lane + ".tmp", ignore_errors=True)
        return "SURVIVED", ""
    finally:
        open(path, "wb").write(src)

def main():
    args = sys.argv[1:]
    opts = {"--every": 1, "--offset": 0, "--budget": 20, "--again": 0}
    pos = []
    while args:
        a = args.pop(0)
        if a in opts:
            opts[a] = int(args.pop(0))
        else:
            pos.append(a)
    out, prefixes = pos[0], pos[1:]
    os.makedirs(WORK, exist_ok=True)
    if opts["--again"]:
        keep = [l for l in open(out) if json.loads(l)["result"] in ("killed", "tests", "nocompile")]
        todo = {(r["file"], r["Start"], r["End"], r["New"]) for r in map(json.loads, open(out))} - \
               {(r["file"], r["Start"], r["End"], r["New"]) for r in map(json.loads, keep)}
        open(out, "w").write("".join(keep))
    subprocess.check_call(["go", "build", "-o", WORK + "/mutate", VERIF + "/tools/mutate/main.go"], cwd=VERIF)
    files = subprocess.check_output(["git", "-C", REPO, "ls-files", "*.go"], text=True).split()
    work = queue.Queue()
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["file"], r["Start"], r["End"], r["New"]))
    k = 0
    for f in files:
        if f.endswith("_test.go") or not any(f.startswith(p) for p in prefixes):
            continue
        for l in subprocess.check_output([WORK + "/mutate", os.path.join(REPO, f)], text=True).splitlines():
            m = json.loads(l)
            k += 1
            if opts["--again"] and (f, m["Start"], m["End"], m["New"]) not in todo:
                continue
            if (k - opts["--offset"]) % opts["--every"] == 0 and (f, m["Start"], m["End"], m["New"]) not in done:
                work.put((f, m))
    print(work.qsize(), "changes", flush=True)
    lock = threading.Lock()
    log = open(out, "a")

    def lane(i):
        d = f"{WORK}/lane{i}"
        if not os.path.exists(d):
            subprocess.check_call(["git", "clone", "-q", REPO, d])
        subprocess.check_call(["git", "-C", d, "checkout", "-q", "."])
        while True:
            try:
                f, m = work.get_nowait()
            except queue.Empty:
                return
            res, detail = one(d, f, m, opts["--budget"])
            with lock:
                log.write(json.dumps(dict(m, file=f, result=res, detail=detail)) + "\n")
                log.flush()
    ts = [threading.Thread(target=lane, args=(i,)) for i in range(LANES)]
    for t in ts: t.start()
    for t in ts: t.join()
    print("DONE", flush=True)

main()
