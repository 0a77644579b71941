#!/usr/bin/env python3
"""Development aid: runs the checks against small mutations of /repo that pass its tests.
mutants.py OUT.jsonl SAMPLE SEED PARALLEL [FILE...]; works in copies under /tmp/mu, each in a network namespace of its own."""
import json, os, random, subprocess, sys, threading, queue, shutil
out, sample, seed, par = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
files = sys.argv[5:]
CH = {
 "datastruct/dict.go": "C22 C24 C27 C43 C44 C09 C08", "datastruct/quicklist.go": "C23 C10 C27 C43 C44", "datastruct/set.go": "C24 C11 C27 C43",
 "datastruct/skiplist.go": "C25 C26 C12 C44 C43", "datastruct/zset.go": "C26 C12 C27 C43 C44", "database/database.go": "C27 C08 C17", "database/dict.go": "C08 C22 C24 C02 C33 C44",
 "ae/ae.go": "C28 C29 C46 C05 C04 C02 C41 C45 C50", "socket/socket.go": "C30 C05 C02 C41", "server/tcp.go": "C30 C05 C41", "config/config.go": "C31 C39 C40",
 "server/aof.go": "C16 C17 C21 C20 C18 C19 C32 C33 C34 C35 C36 C40", "server/client.go": "C01 C04 C05 C03 C02 C37 C39 C41 C42", "server/resp.go": "C01 C03 C02 C04 C20 C37 C42 C49 C50",
 "server/server.go": "C02 C05 C14 C08 C16 C17 C21 C32 C19 C06 C33 C39 C41", "server/command.go": "C13 C03 C06 C16 C02 C08 C35 C37", "server/commandconnection.go": "C06 C07 C03 C13",
 "server/commandhash.go": "C09 C13 C16 C14 C37", "server/commandkey.go": "C08 C14 C13 C21 C16 C32 C37 C38", "server/commandlist.go": "C10 C13 C16 C14 C37", "server/commandserver.go": "C17 C02 C03 C32 C40",
 "server/commandset.go": "C11 C13 C16 C14 C37 C47", "server/commandstring.go": "C08 C14 C13 C16 C21 C18 C37 C47", "server/commandzset.go": "C12 C13 C16 C14 C03 C37",
}
API = {f"C{n}" for n in range(22, 32)} | {"C43", "C44", "C46"}
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOSUMDB="off", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
os.makedirs("/tmp/mu", exist_ok=True)
subprocess.run(["go", "build", "-o", "/tmp/mu/mutate", "./tools/mutate/main.go"], cwd="/verif", env=dict(env, GO111MODULE="off"), check=True)
srcs = files or list(CH)
muts = []
for l in subprocess.run(["/tmp/mu/mutate"] + srcs, cwd="/repo", stdout=subprocess.PIPE, check=True).stdout.splitlines():
    muts.append(json.loads(l))
random.Random(seed).shuffle(muts)
muts = muts[:sample]
print(len(muts), "mutants", flush=True)
subprocess.run(["go", "build", "-o", "/tmp/mu/bb", "./cmd/bb"], cwd="/verif/harness", env=env, check=True)
q = queue.Queue()
for i, m in enumerate(muts): q.put((i, m))
lock = threading.Lock()
def sh(cmd, cwd, timeout, e=env):
    try:
        p = subprocess.run(["unshare", "-n", "sh", "-c", "ip link set lo up; exec timeout -k 5 %d sh -c '%s'" % (timeout, cmd)], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 30)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, ""
def work(w):
    d = f"/tmp/mu/w{w}"
    while True:
        try: i, m = q.get_nowait()
        except queue.Empty: return
        subprocess.run(["rsync", "-a", "--delete", "/repo/", d + "/"]) if shutil.which("rsync") else (shutil.rmtree(d, ignore_errors=True), subprocess.run(["cp", "-a", "/repo", d]))
        f = f"{d}/{m['File']}"
        b = open(f, "rb").read()
        m["Ctx"] = b[:m["Start"]].rsplit(b"\n", 1)[-1].decode() + "<<" + b[m["Start"]:m["End"]].decode() + ">>" + b[m["End"]:].split(b"\n", 1)[0].decode()
        open(f, "wb").write(b[:m["Start"]] + m["New"].encode() + b[m["End"]:])
        res = dict(m)
        rc, o = sh(f"go build -o {d}.metis . && go vet ./... >/dev/null 2>&1; go build -o {d}.metis .", d, 120)
        if rc != 0: res["R"] = "nobuild"
        else:
            rc, o = sh("go test -vet=off -count=1 -timeout 60s ./...", d, 90, dict(env, GODEBUG="randautoseed=0"))
            if rc != 0: res["R"] = "tests"
            else:
                res["R"] = "SURVIVED"; res["odd"] = []
                apib = None
                for c in CH[m["File"]].split():
                    prog = "/tmp/mu/bb"
                    srv = f"{d}.metis"
                    if c in API:
                        if apib is None:
                            gm = open("/verif/harness/go.mod").read().replace("=> /repo", "=> " + d)
                            open(f"{d}.mod", "w").write(gm); shutil.copy("/verif/harness/go.sum", f"{d}.sum")
                            subprocess.run(["go", "build", "-modfile", f"{d}.mod", "-o", f"{d}.api", "./cmd/api"], cwd="/verif/harness", env=env, check=True)
                            apib = f"{d}.api"
                        prog = apib
                    if c == "C33":
                        subprocess.run(["go", "build", "-race", "-o", f"{d}.race", "."], cwd=d, env=env); srv = f"{d}.race"
                    sc = f"{d}.sc"; shutil.rmtree(sc, ignore_errors=True); os.makedirs(sc)
                    rc, o = sh(f"{prog} check -prop {c} -seconds 6 -seed 1 -server {srv} -verif {d}.v -dir {sc}", "/tmp/mu", 200)
                    shutil.rmtree(sc, ignore_errors=True)
                    if rc == 1 and f"VIOLATION property={c}" in o:
                        res["R"] = c; res["msg"] = o[:300]; break
                    if rc != 0: res["odd"].append([c, rc, o[-300:]])
        with lock:
            open(out, "a").write(json.dumps(res) + "\n")
            print(i, res["R"], m["File"], m["Line"], m["What"], flush=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(par)]
[t.start() for t in ts]; [t.join() for t in ts]
