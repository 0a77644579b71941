#!/usr/bin/env python3
"""Development aid: runs the quick check of its property (or the checks given with -p) against planted bugs, in scratch copies.
seedcheck.py [-j N] [-p C01,C02] [-s SEED] [ID...]"""
import json, os, shutil, subprocess, sys, threading, queue
args = sys.argv[1:]; par, props, seed = 3, None, "1"
while args and args[0].startswith("-"):
    o = args.pop(0)
    if o == "-j": par = int(args.pop(0))
    if o == "-p": props = args.pop(0).split(",")
    if o == "-s": seed = args.pop(0)
ids = args or sorted(os.listdir("/verif/seeded"))
top = "/tmp/seedcheck"
os.makedirs(top, exist_ok=True)
q = queue.Queue()
for i in ids: q.put(i)
lock = threading.Lock(); missed = []
def work(w):
    d, v = f"{top}/repo{w}", f"{top}/verif{w}"
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "seeded", "--exclude", ".git", "/verif/", v + "/"], check=True)
    while True:
        try: i = q.get_nowait()
        except queue.Empty: break
        subprocess.run(["rsync", "-a", "--delete", "/repo/", d + "/"], check=True)
        subprocess.run(["git", "apply", f"/verif/seeded/{i}/patch.diff"], cwd=d, check=True)
        m = json.load(open(f"/verif/seeded/{i}/meta.json"))
        for p in props or [m["property"]]:
            r = subprocess.run(["unshare", "-n", "sh", "-c", f"ip link set lo up; exec {v}/run.sh {p} quick"], env=dict(os.environ, METIS_REPO=d, VERIF_SEED=seed, VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode(errors="replace")
            hit = r.returncode == 1 and f"VIOLATION property={p}" in o
            msg = [l for l in o.splitlines() if l.strip()]
            with lock:
                print(f"{i:40s} {p} {'caught' if hit else 'MISSED rc=%d' % r.returncode} {(msg[0] if msg else '')[:200]}", flush=True)
                if not hit: missed.append((i, p))
ts = [threading.Thread(target=work, args=(w,)) for w in range(par)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(top, ignore_errors=True)
print("missed:", missed)
