#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : decides property ID on /repo's tree.

exit 0: held on everything explored; 1: VIOLATION line; 2: no verdict."""
import sys, os, json, subprocess, shutil, time, glob, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from registry import REG, COMMON
T0 = time.time()
pid = sys.argv[1]
tier = os.environ.get("VERIF_TIER", "quick")
a = sys.argv[2:]
limit = None; only = None
while a:
    x = a.pop(0)
    if x == "--tier": tier = a.pop(0)
    elif x == "--time": limit = float(a.pop(0))
    elif x == "--only": only = a.pop(0).split(",")
if tier not in ("quick", "thorough"): tier = "quick"
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
R = REG[pid]
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
NPROC = max(1, min(8, os.cpu_count() or 1))
tn = 1 if tier == "thorough" else 0

def die(msg):
    print("ERROR property=%s %s" % (pid, msg)); sys.exit(2)
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

r = sh(["bash", V + "/tools/setup.sh"])
if r.returncode: print(r.stdout[-4000:]); die("setup failed")
hs = only or R["harnesses"]
W = tempfile.mkdtemp(prefix="run.%s." % pid, dir=B)
def cleanup(): shutil.rmtree(W, ignore_errors=True)
import atexit; atexit.register(cleanup)

# the executor's input and the native replay programs, from the same sources
pn = subprocess.Popen(["bash", V + "/tools/build_native.sh"] + R.get("native", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
r = sh(["bash", V + "/tools/build_ir.sh", W + "/a.ll", ",".join(hs)])
out = pn.communicate()[0]
if r.returncode: print(r.stdout[-4000:]); die("building the IR of /repo failed")
if pn.returncode: print(out[-4000:]); die("building the replay programs failed")
ND = "-".join(["native"] + R.get("native", []))
NAT = {"dev": B + "/" + ND + "/debug/replay", "release": B + "/" + ND + "/release/replay"}
t_build = time.time() - T0

tl = limit or (R.get("time_thorough", 600) if tn else R.get("time", 330))
t1 = time.time()
def explore(time_limit, extra=()):
    """One run of the executor; its results go to the variables below."""
    global r, parts, mainj, tot, H, funcs, viols, unsup, samples
    shutil.rmtree(W + "/o", ignore_errors=True); os.mkdir(W + "/o")
    r = sh([B + "/engine/release/symex", W + "/a.ll", "--out", W + "/o", "--harness", ",".join(hs), "--time", str(time_limit),
            "--procs", str(NPROC), "--tier", str(tn), "--budget", str(R.get("budget", 40000000))] + list(extra))
    parts = [json.load(open(f)) for f in sorted(glob.glob(W + "/o/part*.json"))]
    try: mainj = json.load(open(W + "/o/main.json"))
    except Exception: print(r.stdout[-3000:]); die("the executor did not finish")
    tot = {}; H = {}; funcs = set(); viols = []; unsup = []; samples = []
    for d in parts:
        for k in ("queries", "solver_time", "solver_unknown", "cert_queries", "cert_fail", "fp_ops"): tot[k] = tot.get(k, 0) + d[k]
        tot["z3"] = d["z3"]; funcs |= set(d["functions"])
        for hn, h in d["harness"].items():
            t = H.setdefault(hn, dict(reach={}))
            for k in ("paths", "assumed", "weight", "weight_unknown", "checks", "symchecks", "forks", "steps", "left"): t[k] = t.get(k, 0) + h[k]
            for k, v in h["reach"].items(): t["reach"][k] = t["reach"].get(k, 0) + v
            for v in h["viol"]: viols.append((hn, v))
            for u in h["unsup"]: unsup.append((hn, u))
            for s in h["samples"]: samples.append((hn, s))
explore(tl)

def replay(which, hn, hexin, show=False, timeout=20):
    cmd = [NAT[which], hn, hexin, str(tn)] + (["show"] if show else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=W,
                           preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (8 << 30, 8 << 30)))
    except subprocess.TimeoutExpired: return "hang", "", ""
    return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")

# ---- violations: replayed against the real code, both builds
rdir = V + "/evidence/replay"
confirmed = []; unconfirmed = []; slow = 0
def confirm():
    seen = set()
    for hn, (kind, msg, hexin) in viols:
        if (hn, hexin) in seen or len(confirmed) >= 3: continue
        if kind == "hang" and hangs_checked: continue
        seen.add((hn, hexin))
        res = {w: replay(w, hn, hexin) for w in ("dev", "release")}
        bad = {w: v for w, v in res.items() if v[0] == "hang" or v[0] not in (0, 20)}
        (confirmed if bad else unconfirmed).append((hn, kind, msg, hexin, res))
hangs_checked = False
confirm()
if not confirmed and unconfirmed and all(u[1] == "hang" for u in unconfirmed):
    # Paths over the step limit that do end natively: the rest is explored
    # nevertheless, and many of the long paths are run natively.
    from concurrent.futures import ThreadPoolExecutor
    unconfirmed.clear()
    explore(min(tl, 200), ["--keep-going"])
    hang = sorted(set((hn, v[2]) for hn, v in viols if v[0] == "hang"))
    step = max(1, len(hang) // 64)
    with ThreadPoolExecutor(NPROC) as ex: rs = list(ex.map(lambda x: (x, replay("release", *x)), hang[::step][-64:]))
    hung = [x for x, v in rs if v[0] == "hang"]
    slow = sum(1 for _, v in viols if v[0] == "hang")
    hangs_checked = True
    for hn, hexin in hung[:2]:
        msg = next(v[1] for h, v in viols if h == hn and v[2] == hexin)
        confirmed.append((hn, "hang", msg, hexin, {"release": ("hang", "", "")}))
    confirm()
t_sym = time.time() - t1
crashed = mainj["crashed"]
left = sum(h["left"] for h in H.values())
complete = left == 0 and crashed == 0 and not slow
stopped = bool(confirmed or unconfirmed)

# ---- translation check: sampled paths natively, traces must agree
# VERIF_SEED chooses which of the recorded paths are replayed.
import random
rnd = random.Random(seed); rnd.shuffle(samples)
val = 0; mism = []
byh = {}
for hn, s in samples: byh.setdefault(hn, []).append(s)
maxs = R.get("replays", 400) // max(1, len(byh))
shown = []
for hn, ss in byh.items():
    for k, (hx, tr) in enumerate(ss[:maxs]):
        w = "dev" if k % 2 else "release"
        rc, so, se = replay(w, hn, hx, timeout=60)
        if rc == 0 and so.strip().endswith(tr): val += 1
        else: mism.append((hn, hx, w, rc, so[-200:], tr))
    for hx, tr in ss[:3]:
        rc, so, se = replay("dev", hn, hx, show=True)
        shown.append({"harness": hn, "input": hx, "trace": tr, "source": se[-600:]})

states = sum(h["paths"] for h in H.values()); steps = sum(h["steps"] for h in H.values())
weights = {hn: round(h["weight"], 9) for hn, h in H.items()}
bad_w = [hn for hn, h in H.items() if complete and not stopped and not h["weight_unknown"] and abs(h["weight"] - 1) > 1e-6]
fl = sorted(set(l.strip() for l in open(W + "/a.ll.fns") if l.strip()))
own = [f for f in fl if f.startswith(("whitespace::", "<whitespace::", "wscli::", "<wscli::", "wsjs::", "<wsjs::")) or " as whitespace::" in f or " as wsjs::" in f]
bounds = dict(R["bounds"]);
if tn: bounds.update(R["thorough_bounds"])
ev = {
    "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
    "coverage": {
        "states": states, "transitions": steps,
        "states_are": "completed symbolic paths (each a set of inputs); transitions are IR instructions executed on symbolic states",
        "traces_validated_against_impl": val,
        "exhaustive": bool(complete and not stopped),
        "samples": shown[:12],
        "bounds": {h: bounds.get(h, "") for h in hs},
        "outside_bounds": R.get("outside", "inputs larger than the bounds, nesting that exhausts the machine stack, allocation failure"),
        "harnesses": {hn: {"paths": h["paths"], "assumed_away": h["assumed"], "input_space_share_decided": weights[hn] if not h["weight_unknown"] else None,
                           "assertions_decided": h["checks"], "assertions_on_symbolic_values": h["symchecks"], "symbolic_branches": h["forks"],
                           "unfinished": h["left"], "cover_points": h["reach"]} for hn, h in H.items()},
        "queries_discharged": tot.get("queries", 0), "solver_seconds": round(tot.get("solver_time", 0), 2), "solver_unknown": tot.get("solver_unknown", 0),
        "paths_unsupported": len(unsup), "paths_over_the_step_limit": slow, "certificate_queries": tot.get("cert_queries", 0), "solver": "Z3 " + str(tot.get("z3")), "symbolic_execution_seconds": round(t_sym, 2), "build_seconds": round(t_build, 2),
        "functions_encoded_count": len(fl),
        "functions_of_this_repository": own[:400],
    },
    "assumptions": COMMON + R["assumptions"],
    "wall_s": 0, "violations": len(confirmed),
}
def write_ev():
    os.makedirs(V + "/evidence", exist_ok=True)
    ev["wall_s"] = round(time.time() - T0, 2)
    p = V + "/evidence/%s.json" % pid
    json.dump(ev, open(p + ".tmp", "w"), indent=1); os.replace(p + ".tmp", p)
write_ev()

print("property %s (%s): %d paths, %d symbolic branches, %d solver queries (%.1f s), %d native traces agree, decided share %s, %s, %.0f s" % (
    pid, tier, states, sum(h["forks"] for h in H.values()), tot.get("queries", 0), tot.get("solver_time", 0), val, weights,
    "complete" if complete and not stopped else "incomplete (%d left)" % left, time.time() - T0))

known = []
kf = V + "/known-findings.txt"
if os.path.exists(kf):
    for l in open(kf):
        l = l.strip()
        if l.startswith("finding: property=%s " % pid): known.append(l)
rc = 0
for hn, kind, msg, hexin, res in confirmed:
    os.makedirs(rdir, exist_ok=True)
    path = "%s/%s-%s.json" % (rdir, pid, hexin[:24] or "empty")
    s = replay("dev", hn, hexin, show=True)
    json.dump({"property": pid, "harness": hn, "input": hexin, "kind": kind, "message": msg, "tier": tier,
               "native": {w: {"exit": v[0], "out": v[1][-500:], "err": v[2][-1500:]} for w, v in res.items()},
               "meaning": s[2][-4000:], "reproduce": "build/" + ND + "/debug/replay %s %s %d show" % (hn, hexin, tn)}, open(path, "w"), indent=1)
    key = "finding: property=%s harness=%s input=%s" % (pid, hn, hexin)
    if any(k.startswith(key + " ") for k in known):
        print("KNOWN-FINDING: property=%s %s" % (pid, hn + " " + hexin)); continue
    print("%s: %s %s input=%s\n%s" % (hn, kind, msg, hexin, s[2][-1500:]))
    print("VIOLATION property=%s replay=%s" % (pid, path)); rc = 1
if rc == 0:
    if slow: print("NOTE: %d paths were longer than the step limit and are not decided; those that were run natively ended" % slow)
    if unconfirmed and not confirmed: die("counterexample does not reproduce natively: %s" % (unconfirmed[0],))
    if tot.get("cert_fail", 0): die("solver disagrees with the evaluation tables")
    if mism: die("native trace differs: %s" % (mism[0],))
    if bad_w: die("paths do not cover the input space: %s" % bad_w)
    if unsup:
        print("NOTE: %d paths reached something the executor does not model: %s" % (len(unsup), unsup[:2]))
        if len(unsup) * 2 > states: die("most paths are unsupported")
    if val == 0: die("nothing was validated natively")
    need = R.get("reach", {})
    for hn, ids in need.items():
        if hn in hs and complete:
            miss = [i for i in ids if str(i) not in H[hn]["reach"]]
            if miss: die("cover points never reached in %s: %s" % (hn, miss))
sys.exit(rc)
