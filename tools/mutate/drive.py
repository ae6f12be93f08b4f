#!/usr/bin/env python3
"""Looks for blind spots: applies small changes (from mutate) to copies of /repo, drops those that do not build or
fail the stable tests, and runs scaled-down checks on the others. Usage: drive.py MUTS.jsonl OUT.jsonl WORKERS SECS"""
import json, os, shutil, subprocess, sys, queue, threading, time
V = os.environ.get("VERIF") or os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
muts = [json.loads(l) for l in open(sys.argv[1])]
out = sys.argv[2]
W = int(sys.argv[3])
SECS = float(sys.argv[4])  # per property
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1", GOWORK="off", GOCACHE="/tmp/gocache-mut", GOMAXPROCS="2")
MAP = [
 ("playback/playlist.go", "P06 P01 P05 P07 P14 P11"), ("playback/streamer.go", "P02 P15 P03 P04 P14"), ("playback/timed_sample_queue.go", "P15 P02 P03"),
 ("playback/playback.go", "P15 P02 P01 P06 P14 P18 P08 P03"), ("schedule/server_state.go", "P01 P08 P11 P07 P14 P19 P09 P16"), ("schedule/server_state_commands.go", "P05 P17 P08 P06"),
 ("schedule/server.go", "P01 P08 P11 P05"), ("schedule/infoer.go", "P16 P04 P02 P18"), ("schedule/player.go", "P02 P18 P04"), ("schedule/schedule.go", "P01 P02 P04 P16"),
 ("comm/package_util.go", "P10 P09 P12 P08"), ("comm/message_sender.go", "P12 P08 P09 P10"), ("comm/conn_handler.go", "P18 P09 P12 P14"), ("comm/package_handler.go", "P10 P12 P08 P02"),
 ("timing/", "P02 P04 P16"), ("cmd/music-sync-infoer", "P16 P18 P08 P20"), ("cmd/music-sync-player", "P15 P18 P02 P20"), ("cmd/music-sync-server", "P18 P13 P01 P17 P20"), ("cmd/", "P20 P18 P02 P16 P13"), ("logging", "P20"),
 ("ssh/", "P17 P13 P05"), ("metadata", "P19 P11"), ("util/file_utils", "P17 P05 P19"), ("util/", "P12 P08 P01"),
]
def props(f):
    for k, v in MAP:
        if f.startswith(k): return v.split()
    return ["P01", "P17", "P16"]
lock = threading.Lock()
q = queue.Queue()
done = set()
if os.path.exists(out):
    for l in open(out):
        done.add(json.loads(l)["id"])
for i, m in enumerate(muts):
    m["id"] = "%s:%d:%d:%s" % (m["File"], m["Off"], m["End"], m["What"])
    if m["id"] not in done: q.put(m)
def run(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return -9, b""
def tests(r):
    rc, o = run(["bash", "-c", "go build ./... || exit 3; go test -json -vet=off -cpu 1 -timeout 60s ./..."], r, 150)
    if rc == 3: return "build"
    ok = set()
    for l in o.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
    return "ok" if stable <= ok else "tests"
def work(k):
    r, b = "/tmp/mut%d/repo" % k, "/tmp/mut%d/b" % k
    shutil.rmtree("/tmp/mut%d" % k, ignore_errors=True)
    os.makedirs(b)
    subprocess.check_call(["cp", "-a", "/repo", r])
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        fn = os.path.join(r, m["File"])
        orig = open(fn, "rb").read()
        s = orig
        if m.get("Off2"):
            s = s[:m["Off2"]] + s[m["End2"]:]
        s = s[:m["Off"]] + m["New"].encode() + s[m["End"]:]
        open(fn, "wb").write(s)
        res = tests(r)
        by, why = "", ""
        if res == "ok":
            sh = "rm -rf {b} && mkdir -p {b} && cd {b} && cp -r {V}/sim/rt {V}/sim/ov {V}/sim/harness . && sed 's#^module.*#module msim#' {r}/go.mod > go.mod && cp {r}/go.sum . && /tmp/rewriter.bin -repo {r} -out . -ov {V}/sim/ov && go build -o sim ./harness".format(b=b, V=V, r=r)
            rc, o = run(["bash", "-c", sh], "/tmp", 200)
            if rc != 0:
                res, why = "simbuild", o[-300:].decode(errors="replace")
            else:
                res = "survived"
                for p in props(m["File"]):
                    rc, o = run([b + "/sim", "worker", "-prop", p, "-to", "100000", "-max", "100000", "-bad", "1", "-wall", "%gs" % SECS], b, SECS + 60)
                    if rc == -9:
                        res, by, why = "caught", p, "hang"
                        break
                    try:
                        a = json.loads(o[o.rindex(b'{"Runs"'):])
                    except Exception:
                        res, by, why = "caught", p, "sim died: " + o[-300:].decode(errors="replace")
                        break
                    if a["Harness"]:
                        res, by, why = "harness", p, a["Harness"][:300]
                        break
                    if a["Bad"]:
                        v = a["Bad"][0]["V"][0]
                        res, by, why = "caught", p, "%s run %d: %s" % (v["class"], a["Bad"][0]["Run"], v["msg"][:160])
                        break
        open(fn, "wb").write(orig)
        with lock:
            with open(out, "a") as f:
                f.write(json.dumps(dict(id=m["id"], File=m["File"], Line=m["Line"], What=m["What"], res=res, by=by, why=why)) + "\n")
ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
for t in ts: t.start()
for t in ts: t.join()
