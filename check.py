#!/usr/bin/env python3
"""Decides one property by seeded simulation of /repo's current code.

  check.py ID [--thorough]  explore (VERIF_SEED, VERIF_TIER), write evidence/ID.json
  check.py --build        build the simulator only
  check.py --replay FILE  replay a recorded violation (exit 1 if it reproduces)
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PILLOW_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))

# property -> list of (scenario, share of the time)
SCEN = {}
for i in range(1, 11): SCEN["S%02d" % i] = [("srv", 1)]
for k, v in {"H01": "file", "H02": "file", "H03": "file", "H04": "log", "H05": "route", "H06": "script", "H07": "proxy", "H08": "proxy", "H09": "proxy",
             "C01": "cli", "C02": "cli", "C03": "cli", "C04": "cli", "C05": "cli", "C06": "cli", "C07": "cli", "C08": "nam", "C09": "msg", "X01": "e2e"}.items(): SCEN[k] = [(v, 1)]
SECONDS = {"quick": 20, "thorough": 560}
HARD = {"quick": 400, "thorough": 640}
MINRUNS = {"quick": 100, "thorough": 300}  # per worker, whatever the load of the machine (up to HARD)

REAL = {"srv": "HttpConnection, HttpServer, HttpsServer, HttpLocalServer, parser, HttpHeader/ByteArray helpers; QtNetwork (QTcpServer, QTcpSocket, QSslSocket with OpenSSL, QLocalServer), Qt event loop",
  "file": "HttpHandlerFile, HttpHandlerFileTransfer, HttpHandlerStack, HttpConnection, HttpServer; QFile on a scratch directory; QtNetwork, Qt event loop",
  "log": "HttpHandlerLog, HttpHandlerStack, HttpConnection, HttpServer; QtNetwork, Qt event loop",
  "route": "HttpHandlerSimpleRouter, HttpHandlerStack, HttpHandlerFixed, HttpHandler404, HttpConnection, HttpServer; QtNetwork, Qt event loop",
  "script": "HttpHandlerQtScript, HttpHandlerQtScriptFile, QtScript engine, HttpConnection, HttpServer; QFile on a scratch directory; QtNetwork, Qt event loop",
  "proxy": "HttpHandlerProxy, HttpHandlerProxyPipe, ElasticNetworkAccessManager, HttpConnection, HttpServer; QtNetwork including the QNetworkAccessManager worker thread (scheduled by the simulator), Qt event loop",
  "cli": "HttpClient, HttpResponseParser, HttpRequestWriter, GunzipContentTransformer, http_parser, zlib; QtNetwork (QTcpSocket), Qt event loop",
  "nam": "NetworkAccessManager, NetworkReply, HttpClient and below; QtNetwork, Qt event loop",
  "msg": "HttpResponseParser, HttpRequestWriter, http_parser; QtNetwork (QTcpSocket), Qt event loop",
  "e2e": "HttpClient, NetworkAccessManager, HttpServer, HttpConnection, HttpHandlerStack, HttpHandlerFile and HttpHandlerLog together; QFile on a scratch directory; QtNetwork, Qt event loop"}
STUB = "kernel (sockets, poll, clocks, eventfd, futex/pthread blocking, getrandom, file read faults) replaced by the simulator's; thread and event order, delays and faults drawn from the seed. Remote peers are scripted actors of the simulator (for e2e: both ends are real code)."

def fail(msg):
    print("ERROR: " + msg); sys.exit(3)

def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d in (os.path.join(REPO, "pillowcore"), os.path.join(HERE, "sim")):
        for r, ds, ns in os.walk(d):
            ds.sort()
            for n in sorted(ns):
                if n.endswith((".cpp", ".h", ".c", ".rl", "Makefile")): fs.append(os.path.join(r, n))
    for f in fs:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def build():
    key = tree_hash()
    b = os.path.join(HERE, "build", key)
    exe = os.path.join(b, "sim")
    if os.path.exists(os.path.join(b, "ok")): return exe
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    olds = sorted(glob.glob(os.path.join(HERE, "build", "*", "ok")), key=os.path.getmtime)
    for o in olds[:-3]: shutil.rmtree(os.path.dirname(o), ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="new-", dir=os.path.join(HERE, "build"))
    r = subprocess.run(["make", "-C", os.path.join(HERE, "sim"), "-j8", "REPO=" + REPO, "B=" + tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        fail("the simulator does not build:\n" + r.stdout[-4000:])
    open(os.path.join(tmp, "ok"), "w").close()
    if os.path.exists(b): shutil.rmtree(b, ignore_errors=True)
    try: os.rename(tmp, b)
    except OSError:
        if os.path.exists(exe): shutil.rmtree(tmp, ignore_errors=True)
        else: return os.path.join(tmp, "sim")
    return exe

def scratch_base():
    return tempfile.mkdtemp(prefix="pillow-sim-", dir=os.environ.get("TMPDIR", "/tmp"))

def replay(exe, path, verbose=False):
    d = scratch_base()
    try:
        w = os.path.join(d, "0000"); os.makedirs(w)
        r = subprocess.run([exe, "--replay", path] + (["-v"] if verbose else []), env={"SIM_SCRATCH": w, "PATH": "/usr/bin:/bin"}, stdout=subprocess.PIPE, stderr=None if verbose else subprocess.DEVNULL, text=True, timeout=600)
        return r.returncode, r.stdout
    finally: shutil.rmtree(d, ignore_errors=True)

def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}

def explore(exe, scenario, prop, base, seconds, hard, out, minruns, known):
    d = scratch_base(); procs = []
    kf = os.path.join(d, "known"); open(kf, "w").write("".join(k["match"] + "\n" for k in known))
    for w in range(WORKERS):
        # all scratch paths have the same length: a path's length must not influence a run
        sd = os.path.join(d, "%04d" % w); os.makedirs(sd)
        o = open(os.path.join(d, "out%d" % w), "w"); e = open(os.path.join(d, "err%d" % w), "w")
        p = subprocess.Popen([exe, "--scenario", scenario, "--prop", prop, "--explore", "--base", str(base), "--worker", str(w), "--workers", str(WORKERS), "--seconds", str(seconds), "--hard", str(hard), "--minruns", str(minruns), "--known", kf, "--out", out],
                             env={"SIM_SCRATCH": sd, "PATH": "/usr/bin:/bin"}, stdout=o, stderr=e, start_new_session=True)
        procs.append(p)
    results = [None] * WORKERS; errs = []; found = None
    deadline = time.time() + hard + 120
    while any(r is None for r in results) and time.time() < deadline and not found:
        time.sleep(0.1)
        for w, p in enumerate(procs):
            if results[w] is None and p.poll() is not None:
                try: results[w] = json.loads(open(os.path.join(d, "out%d" % w)).read())
                except Exception: results[w] = {}; errs.append("worker %d ended with %d: %s" % (w, p.returncode, open(os.path.join(d, "err%d" % w)).read()[-1500:]))
                if results[w].get("found"): found = results[w]
    for p in procs:
        if p.poll() is None:
            if not found: errs.append("a worker did not end in time")
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
    shutil.rmtree(d, ignore_errors=True)
    return [r for r in results if r], found, errs

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "--build": print(build()); return 0
    if a[0] == "--replay":
        rc, o = replay(build(), a[1], "-v" in a); print(o); return rc
    global TIER
    if "--thorough" in a: TIER = "thorough"
    prop = a[0]; t0 = time.time()
    if prop not in SCEN: fail("unknown property " + prop)
    exe = build(); t1 = time.time()
    out = os.path.join(HERE, "replays"); os.makedirs(out, exist_ok=True)
    secs = float(os.environ.get("SIM_SECONDS", SECONDS[TIER])); hard = HARD[TIER]
    kf = known_findings(); known = [k for k in kf["findings"] if k["property"] == prop]
    total = {"runs": 0, "nontrivial": 0, "distinctSchedules": 0, "simSeconds": 0.0, "steps": 0, "draws": 0, "wall": 0.0, "other": 0}
    faults, probes, samples, hits = {}, {}, [], {}; found = None; errs = []; scen_used = []
    for scenario, share in SCEN[prop]:
        scen_used.append(scenario)
        rs, f, e = explore(exe, scenario, prop, SEED, secs * share, hard * share, out, MINRUNS[TIER], known)
        errs += e
        for r in rs:
            for k in total: total[k] += r.get(k, 0)
            for k, v in r.get("faults", {}).items(): faults[k] = faults.get(k, 0) + v
            for k, v in r.get("probes", {}).items(): probes[k] = probes.get(k, 0) + v
            for k, v in r.get("known", {}).items(): hits[k] = hits.get(k, 0) + v
            if len(samples) < 6: samples += r.get("samples", [])[:2]
        if f: found = f; break
    t2 = time.time()
    verdict = 0; line = None
    if found:
        if found["confirm"] != 1 or found["class"] == "harness-stuck":
            errs.append("unreliable result (%s): %s" % (found["class"], found["message"])); found = None
        else:
            rc, o = replay(exe, found["replay"])
            if rc == 1:
                verdict = 1; line = "VIOLATION property=%s replay=%s" % (prop, found["replay"])
            else:
                errs.append("replay file %s does not reproduce in a new process: %s" % (found["replay"], o[-800:])); found = None
    wall = t2 - t1
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": 1 if verdict else 0,
      "coverage": {"evaluations": total["runs"], "distinct_nontrivial": total["nontrivial"],
        "rule": "Each evaluation is one simulated execution of the scenario '%s', generated from one seed: workload, network behaviour, faults and schedule are all drawn from it. A run counts as non-trivial when at least one exchange relevant to the scenario took place in it; distinct ones are counted by the hash of the whole event log (every delivery, application call and notification with its simulated time)." % "+".join(scen_used),
        "samples": samples or ["none"],
        "seeds_per_hour": round(total["runs"] / max(wall, 1e-3) * 3600), "simulated_seconds": round(total["simSeconds"], 1), "scheduler_steps": total["steps"], "choices_drawn": total["draws"],
        "distinct_interleavings": {"count": total["distinctSchedules"], "measure": "hash of the sequence of (thread or event chosen, kind) at every scheduling point, summed over workers"},
        "faults_injected": faults, "cases_reached": probes, "workers": WORKERS,
        "real_components": [REAL[s] for s in scen_used], "stubbed_components": [STUB],
        "violations_of_other_properties_seen": total["other"], "known_findings_hit": hits, "errors": errs},
      "assumptions": ["Qt, OpenSSL, zlib and libstdc++ behave as installed", "the simulated kernel's socket, poll and clock semantics match Linux for the calls made", "a pass covers only the executions explored"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d runs (%d distinct non-trivial), %.0f simulated s, %.0f s wall; faults %s" % (prop, total["runs"], total["nontrivial"], total["simSeconds"], wall, sum(faults.values())))
    if verdict:
        print("class: %s\n%s" % (found["class"], found["message"][:3000])); print("seed: %d" % found["seed"]); print(line); return 1
    if errs:
        for e in errs: print("ERROR: " + e)
        return 3
    if total["nontrivial"] < 50: print("ERROR: too few non-trivial runs"); return 3
    return 0

if __name__ == "__main__": sys.exit(main())
