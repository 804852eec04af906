#!/usr/bin/env python3
"""check.py ID - build the harness against /repo's working tree, run one check, judge it.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: no answer (the harness does not build, the run observed nothing, ...).
"""
import json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
PREFIX = "github.com/ElectroUnion/egts-gate/"

# per check: built with the race detector?, repo programs it needs, minimum of named
# counters below which a run has not observed enough to say anything
CHECKS = {
    "L01": dict(race=False, need={"memory measurements": 300, "decoded without error": 1000}, vmem=24 << 30),
    "L02": dict(race=False, need={"intact packets accepted": 100, "rejected with 137": 5000, "rejected with 138": 20000, "rejected with 131": 500, "rejected with 133": 500}),
    "L03": dict(race=False, need={"packets round-tripped": 5000, "real packets": 100}),
    "L04": dict(race=False, need={"encodings compared": 5000, "decodings compared": 5000, "accessors compared": 100000}),
    "L05": dict(race=False, need={"packet prefixes": 10000, "body prefixes": 10000, "subrecord section prefixes": 1000}),
    "L06": dict(race=False, need={"packets parsed back": 5000, "size limits tried": 150, "field limits tried": 3000, "bit fields of a wrong width tried": 1000}),
    "L07": dict(race=True, need={"aliasing probes": 500, "concurrent operations": 1000, "repeated encodings": 1000, "first calls made concurrently": 400}),
    "L08": dict(race=False, need={"JSON forms compared": 10000}),
    "S01": dict(race=True, bins=["receiver:race"], need={"hostile connections": 3000, "exchanges of well-behaved peers": 300, "silent connections": 300, "descriptors at the peak": 200, "new peers served next to silent ones": 20, "exchanges while out of descriptors": 60}),
    "S02": dict(race=True, need={"acknowledgements checked": 10000, "PT_RESPONSE packets sent": 2000, "records confirmed": 100000, "sessions of more than 65536 packets": 1}),
    "S03": dict(race=True, need={"damaged packets answered": 3000, "packets around them processed": 2000, "unframeable streams closed": 200}),
    "S04": dict(race=True, need={"positions exported": 20000, "packets that export nothing": 500, "packets with several objects": 300}),
    "S05": dict(race=True, need={"exports compared": 4000, "positions compared": 4000, "sensor values compared": 10000}),
    "S06": dict(race=True, need={"success acknowledgements checked": 1000, "failure acknowledgements checked": 1000, "acknowledgements held until storage returned": 30, "failures of slow storages reported": 2}),
    "S07": dict(race=True, need={"segmentations: one write": 100, "segmentations: byte by byte": 50, "segmentations: cuts at boundaries": 100, "segmentations: across boundaries": 100}),
    "S08": dict(race=True, need={"connections judged": 500, "records matched to their connection": 2000, "switches between connections at the storage": 200, "stuck storage calls survived": 8, "peers deaf until the reply could not be written": 1, "replies to peers that had been deaf": 10}),
    "S09": dict(race=False, need={"silences watched to the close": 60, "active sessions kept open, then closed": 50, "deaf and silent peers watched to the close": 3, "sessions longer than a minute kept open": 4, "peers served after a long silence": 50}),
    "S10": dict(race=True, need={"stops: while packets are processed": 40, "stops: while clients connect": 40, "stops: at the moment the port opens": 40, "stops: from the moment Run is called": 40, "restarts on the same address": 100, "idle measurements": 1}),
    "T01": dict(race=True, need={"patterns of failures": 500, "concurrent saves": 2000, "configurations refused": 60, "configurations loaded": 40}),
    "T02": dict(race=True, need={"failing initialisations": 100, "saves judged": 1500, "configurations refused": 100, "records refused or sent": 100}),
    "T03": dict(race=True, need={"delivered by " + k: 500 for k in ("redis", "nsq", "postgresql", "tarantool_queue", "nats", "rabbitmq")}),
    "T04": dict(race=True, need={"outages of " + k: 20 for k in ("redis", "nsq", "postgresql", "tarantool_queue", "nats", "rabbitmq")}),
    "T05": dict(race=False, need={"records delivered": 20000, "failed saves": 800, **{"outages of " + k: 6 for k in ("redis", "nsq", "postgresql", "tarantool_queue", "nats", "rabbitmq")}}),
    "C01": dict(race=False, bins=["receiver"], need={"files loaded": 4000, "files refused": 50, "programs configured": 12, "programs refused": 5}),
    "G01": dict(race=False, bins=["packet-gen"], need={"successes": 200, "failures": 500, "bad arguments refused": 60, "runs against the receiver": 40}),
    "G02": dict(race=False, bins=["receiver", "receiver:race"], need={"records printed": 3000, "programs killed amid traffic": 8, "killed with some records acknowledged and some not": 3, "packets refused while the output is full": 10}),
    "G03": dict(race=False, need={"packets replayed": 150, "answers after more than 2 s": 20, "files without an end of line at the end": 15, "packets replayed into the receiver": 20, "failures": 12}),
    "G04": dict(race=False, bins=["receiver", "receiver:race"], need={"records confirmed before their acknowledgement": 5000, "programs killed": 12, "outages of storages": 10, "packets sent again": 300, "packets refused by then": 100, "scenarios: calm": 4}),
    "S12": dict(race=False, need={"measurements": 40, "packets of long sessions": 200000, "short sessions: closed between packets": 3000}),
    "S11": dict(race=True, need={"identifications answered": 1000, "packets without identification": 1000, "confirmations accepted": 1000, "identifications answered while storing failed": 20}),
}


def env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE, check=True).stdout
    e = dict(x.split("=", 1) for x in out.decode(errors="surrogateescape").split("\0") if "=" in x)
    e.pop("GOFLAGS", None)
    e["GOFLAGS"] = "-mod=mod -buildvcs=false"
    return e


def no_answer(msg):
    print("NO ANSWER: " + msg, flush=True)
    sys.exit(2)


def delays(e):
    """A copy of a client library that can be slow between connecting and noting that it is
    connected: VERIF_NSQ_DELAY_host:port says for how long; without that it does nothing."""
    p = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/nsqio/go-nsq"], cwd=REPO, env=dict(e, GOFLAGS="-mod=readonly"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    lib, to = p.stdout.decode().strip(), os.path.join(BUILD, "go-nsq")
    src = os.path.join(lib, "producer.go")
    mark = "\tatomic.StoreInt32(&w.state, StateConnected)\n"
    text = open(src).read() if p.returncode == 0 and lib and os.path.exists(src) else ""
    if text.count(mark) != 1 or '\t"os"\n' not in text:
        return ""
    text = text.replace(mark, '\tif d, _ := time.ParseDuration(os.Getenv("VERIF_NSQ_DELAY_" + w.addr)); d > 0 {\n\t\ttime.Sleep(d)\n\t}\n' + mark)
    os.makedirs(to, exist_ok=True)
    for f in os.listdir(lib):
        if f == "go.mod" or f.endswith(".go") and not f.endswith("_test.go"):
            put(os.path.join(to, f), text if f == "producer.go" else open(os.path.join(lib, f)).read())
    return "\nreplace github.com/nsqio/go-nsq => %s\n" % to


def put(path, text):
    """Write a file unless it is as it should be."""
    if not os.path.exists(path) or open(path).read() != text:
        with open(path + ".%d" % os.getpid(), "w") as f:
            f.write(text)
        os.replace(f.name, path)


def build(e, race, pkg, name):
    os.makedirs(BUILD, exist_ok=True)
    # copies, so that the committed ones stay as they are
    put(os.path.join(BUILD, "go.mod"), open(os.path.join(HARNESS, "go.mod")).read() + delays(e))
    shutil.copyfile(os.path.join(HARNESS, "go.sum"), os.path.join(BUILD, "go.sum"))
    out = os.path.join(BUILD, name + ("-race" if race else ""))
    cmd = ["go", "build", "-modfile", os.path.join(BUILD, "go.mod"), "-o", out] + (["-race"] if race else []) + [pkg]
    if race:
        e = dict(e, CGO_ENABLED="1")
    p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        no_answer("building %s failed:\n%s" % (name, p.stdout.decode(errors="replace")[-4000:]))
    return out


def blamed(acc):
    """Is one of the accesses of a race report made by the code under test? It is if the
    innermost frame outside the standard library is its own; a race between two accesses
    inside a library is the library's."""
    for stack in acc.split("\n\n"):
        for f in re.findall(r"^  (\S+)\(\)$", stack, re.M):
            first = f.split("/")[0]
            if "/" in f and ("." in first or first == "verif"):
                if f.startswith(PREFIX):
                    return True
                break
    return False


def race_reports(outdir):
    """Race detector reports about the code under test."""
    reps = []
    for f in sorted(os.listdir(outdir)):
        if not f.startswith("race."):
            continue
        text = open(os.path.join(outdir, f), errors="replace").read()
        for r in text.split("=================="):
            if "DATA RACE" not in r:
                continue
            # only the two accesses count, not where the goroutines were created
            if blamed(re.split(r"\nGoroutine \d+", r)[0]):
                reps.append(r.strip())
    return reps


def race_key(rep):
    acc = re.split(r"\nGoroutine \d+", rep)[0]
    fs = re.findall(re.escape(PREFIX) + r"([\w/.()*]+)\(", acc)
    return "race " + " ".join(sorted(set(fs)))[:150]


def crash_in_repo(text):
    """A dying Go program: does the goroutine that failed go through the code under test?"""
    m = re.search(r"^(panic:|fatal error:|unexpected fault|runtime: goroutine stack exceeds|SIG[A-Z]+: )", text, re.M)
    if not m:
        return None
    tail = text[m.start():]
    g = re.search(r"^goroutine \d+.*\[(running|runnable)?.*\]:\n(.*?)(\n\n|\Z)", tail, re.M | re.S)
    stack = g.group(0) if g else tail[:6000]
    if PREFIX in stack:
        return tail[:200].splitlines()[0]
    return None


def known(cid):
    ks = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=\"([^\"]+)\" (.*)", l.strip())
            if m and m.group(1) == cid:
                ks.append((m.group(2), m.group(3)))
    return ks


def run_worker(e, exe, cid, cfg, out, tier, attempt_timeout):
    we = dict(e, VERIF_OUT=out, VERIF_TIER=tier, GOTRACEBACK="all")
    we["VERIF_SEED"] = os.environ.get("VERIF_SEED", "1") or "1"
    we["GORACE"] = "halt_on_error=0 exitcode=0 log_path=%s/race history_size=3" % out
    we["VERIF_BUILD"] = BUILD
    we["VERIF_REPO"] = REPO
    pre = None
    if cfg.get("vmem"):
        import resource

        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (cfg["vmem"], cfg["vmem"]))
    with open(os.path.join(out, "stdout"), "wb") as so, open(os.path.join(out, "stderr"), "wb") as se:
        p = subprocess.Popen([exe, cid], cwd=out, env=we, stdout=so, stderr=se, preexec_fn=pre, start_new_session=True)
        timed_out = False
        try:
            rc = p.wait(attempt_timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            p.send_signal(signal.SIGQUIT)
            try:
                p.wait(20)
            except subprocess.TimeoutExpired:
                pass
            rc = None
        try:  # whatever is left of its session
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    return rc, timed_out, open(os.path.join(out, "stderr"), errors="replace").read()


def main():
    args = [a for a in sys.argv[1:] if a != "--thorough"]
    if len(args) != 1 or args[0] not in CHECKS:
        print("usage: check.py [--thorough] " + "|".join(CHECKS))
        sys.exit(2)
    cid = args[0]
    cfg = CHECKS[cid]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    e = env()
    exe = build(e, cfg["race"], "./cmd/worker", "worker")
    for b in cfg.get("bins", []):
        build(e, b.endswith(":race"), PREFIX + "cli/" + b.split(":")[0], b.split(":")[0])
    t_build = time.time() - t0
    out = os.path.join(BUILD, "out-" + cid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    rc, timed_out, err = run_worker(e, exe, cid, cfg, out, tier, cfg.get("timeout", {}).get(tier, 840 - int(t_build) if tier == "quick" else 3000))

    violations = []  # (key, message, replay)
    notes = []
    res = None
    rp = os.path.join(out, "result.json")
    if os.path.exists(rp):
        res = json.load(open(rp))
        for v in res.get("violations") or []:
            violations.append((v["key"], v["message"], v["replay"]))
        for k in res.get("inconclusive") or []:
            notes.append(k)
    if rc != 0:
        why = crash_in_repo(err)
        rep = os.path.join(out, cid + "-crash.txt")
        if why and not why.startswith("SIGQUIT"):
            open(rep, "w").write(err)
            violations.append(("crash", "the process dies in the code under test: " + why, rep))
        elif not violations:
            notes.append("the worker ended with %s%s: %s" % (rc, " (timeout)" if timed_out else "", err[-3000:]))
    seen = {}
    for r in race_reports(out):
        k = race_key(r)
        seen[k] = seen.get(k, 0) + 1
        if seen[k] == 1:
            rep = os.path.join(out, "%s-race-%03d.txt" % (cid, len(seen)))
            open(rep, "w").write(r)
            violations.append((k, "data race", rep))

    # findings on record are reported, not alarmed about
    kn = known(cid)
    new, hit = [], {}
    for v in violations:
        m = [k for k in kn if k[0] == v[0]]
        if m:
            hit[m[0]] = 1
        else:
            new.append(v)

    # replay files outlive the next run of the check
    rdir = os.path.join(VERIF, "replays", cid)
    shutil.rmtree(rdir, ignore_errors=True)
    if new:
        os.makedirs(rdir)
        moved = []
        for k, msg, rep in new:
            dst = os.path.join(rdir, os.path.basename(rep))
            if os.path.exists(rep):
                shutil.copyfile(rep, dst)
            moved.append((k, msg, dst))
        new = moved

    res = res or {}
    ctr = dict(res.get("counters") or {})
    cov = {
        "evaluations": int(res.get("evaluations") or 0),
        "distinct_nontrivial": int(res.get("distinct") or 0),
        "rule": res.get("rule") or "",
        "samples": res.get("samples") or [],
        "observed": ctr,
        "race_detector": bool(cfg["race"]),
        "violation_keys": res.get("violation_keys") or [],
        "build_s": round(t_build, 1),
    }
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == cid), "exploration")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": cid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": res.get("assumptions") or [],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    tmp = os.path.join(VERIF, "evidence", cid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(VERIF, "evidence", cid + ".json"))

    for k, what in hit:
        print("KNOWN-FINDING: property=%s %s" % (cid, what))
    if new:
        for k, msg, rep in new[:10]:
            print("  [%s] %s" % (k, msg[:600]))
        print("VIOLATION property=%s replay=%s" % (cid, new[0][2]), flush=True)
        sys.exit(1)
    low = ["%s: %d < %d" % (k, ctr.get(k, 0), n) for k, n in cfg["need"].items() if ctr.get(k, 0) < n]
    if notes or low or rc != 0:
        no_answer("; ".join(notes + low) or "worker exit %s" % rc)
    print("%s held: %d evaluations, %d distinct, %.1f s" % (cid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))


main()
