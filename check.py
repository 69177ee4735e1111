#!/usr/bin/env python3
"""Decide one property by seeded simulation.

    check.py <property>            search (VERIF_SEED, VERIF_TIER=quick|thorough)
    check.py --replay <file>       play a replay file back in a fresh process

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself could not do its work.
"""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
OUT = os.path.join(HERE, "out")
REPO = "/repo"
CONFIGS = ["full", "std", "inl"]
# configuration of each worker
WORKERS = ["full", "std", "inl", "full", "std", "inl", "full", "std"]
# runs per worker and cap in seconds
BUDGET = {"quick": (220000, 100), "thorough": (3000000, 600)}

CONFIG_TEXT = {
    "full": "std, owned, error, seq, sval, serde, inline-i128, inline-str-l (46-byte inline text)",
    "inl": "std, owned, error, seq, sval, serde, inline-str (22-byte inline text)",
    "std": "std, owned, error, seq, sval, serde (no inline text)",
}
REAL = [
    "value-bag (all of src/) from /repo's working tree",
    "sval, sval_buffer, sval_dynamic, sval_fmt, sval_ref, sval_serde, serde_core, erased-serde, serde_buf, serde_fmt at the locked versions",
    "std Arc/Box/String/Vec and unwinding, OS threads (one runs at a time)",
]
STUB = [
    "captured user values (their Debug, Display, Error, Value, Serialize, Fill, AsRef, Drop)",
    "writers, sval streams, serde serializers, visitors and collections that receive values",
    "thread scheduling (the simulator's scheduler decides every switch)",
    "allocator (system allocator behind a layer that can fail, preempt, poison and quarantine)",
]


class CheckError(Exception):
    pass


def say(m):
    print(m, flush=True)


def source_hash():
    h = hashlib.sha256()
    for base in [REPO, SIM]:
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", "out"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".sh")) or f == "Cargo.lock" and base == SIM:
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def build(configs=CONFIGS):
    """Build from the working tree; never trust file times alone."""
    want = source_hash()
    procs = []
    for c in configs:
        stamp = os.path.join(SIM, "target", c, "sources")
        try:
            with open(stamp) as f:
                same = f.read() == want
        except OSError:
            same = False
        if not same and os.path.isdir(os.path.join(SIM, "target", c, "debug", ".fingerprint")):
            fp = os.path.join(SIM, "target", c, "debug", ".fingerprint")
            for d in os.listdir(fp):
                if d.startswith(("value-bag-", "vbsim-", "vbpre-")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        if os.path.exists(stamp):
            os.unlink(stamp)
        procs.append((c, stamp, subprocess.Popen(["bash", os.path.join(SIM, "build.sh"), c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    bad = []
    for c, stamp, p in procs:
        o = p.communicate()[0].decode(errors="replace")
        if p.returncode != 0:
            bad.append("building the %s configuration failed:\n%s" % (c, o[-3000:]))
        else:
            with open(stamp, "w") as f:
                f.write(want)
    if bad:
        raise CheckError("\n".join(bad))


def binary(c):
    return os.path.join(SIM, "target", c, "debug", "vbsim")


# every run starts fresh threads: let the C library keep their stacks
ENV = dict(os.environ, GLIBC_TUNABLES="glibc.pthread.stack_cache_size=400000000")


def limits():
    os.setsid()


def call(args, timeout):
    """Returns (exit code or None on timeout, output)."""
    p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits, env=ENV)
    try:
        o = p.communicate(timeout=timeout)[0]
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o = p.communicate()[0]
        return None, o.decode(errors="replace")


def outcome(code, out):
    """Name what a replay did: None if nothing went wrong."""
    if code is None:
        return "hang"
    if code < 0:
        return "crash"
    if code == 1:
        for l in out.splitlines():
            if l.startswith("REPRODUCED class="):
                return l.split("class=", 1)[1].split(" ", 1)[0]
        return None
    if code in (134, 139):
        return "crash"
    return None


def play(path, config, timeout=60):
    code, out = call([binary(config), "replay", "--file", path], timeout)
    return outcome(code, out), out


def save(path, doc):
    order = ["property", "config", "seed", "run", "class", "message", "warm_start", "warm_stride", "tape", "trace"]
    with open(path, "w") as f:
        f.write("{\n" + ",\n".join('  "%s": %s' % (k, json.dumps(doc[k])) for k in order if k in doc) + "\n}\n")


def shrink_outside(doc, path, tmp, secs=40):
    """Minimise by replaying candidates in fresh processes (for crashes and hangs)."""
    cls, config = doc["class"], doc["config"]
    t0 = time.time()
    tries = 0
    cand = os.path.join(tmp, "cand.json")
    best = list(doc["tape"])
    slow = 20 if cls in ("hang",) else 10

    def bad(t):
        nonlocal tries
        tries += 1
        d = dict(doc, tape=t, trace=[])
        save(cand, d)
        return play(cand, config, slow)[0] == cls

    n = max(1, len(best) // 2)
    while n >= 1 and time.time() - t0 < secs:
        i = 0
        while i < len(best) and time.time() - t0 < secs:
            c = best[:i] + best[i + n:]
            if bad(c):
                best = c
                continue
            if any(best[i:i + n]):
                c = best[:i] + [0] * len(best[i:i + n]) + best[i + n:]
                if bad(c):
                    best = c
            i += n
        n //= 2
    doc["tape"] = best
    save(path, dict(doc, trace=[]))
    _, out = play(path, config)
    doc["trace"] = out.splitlines()[-400:] + ["(minimised in %d fresh processes)" % tries]
    save(path, doc)


def search(prop, seed, tier, tmp):
    count, secs = BUDGET[tier]
    count = int(os.environ.get("VBSIM_COUNT", count))
    secs = int(os.environ.get("VBSIM_SECS", secs))
    n = len(WORKERS)
    ws = []
    per = {c: WORKERS.count(c) for c in CONFIGS}
    seen = {c: 0 for c in CONFIGS}
    for i, c in enumerate(WORKERS):
        w = {"i": i, "config": c, "start": seen[c], "stride": per[c]}
        seen[c] += 1
        for k in ("out", "replay", "progress"):
            w[k] = os.path.join(tmp, "%s-%d" % (k, i))
        w["args"] = [binary(c), "run", "--prop", prop, "--seed", str(seed), "--start", str(w["start"]), "--stride", str(w["stride"]),
                     "--count", str(count), "--secs", str(secs), "--out", w["out"], "--replay", w["replay"], "--progress", w["progress"]]
        w["proc"] = subprocess.Popen(w["args"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits, env=ENV)
        ws.append(w)
    deadline = time.time() + secs + 90
    hit = None
    while True:
        alive = [w for w in ws if w["proc"].poll() is None]
        if not alive:
            break
        if hit is None and any(w["proc"].returncode not in (None, 0) for w in ws):
            hit = time.time()
        # something was found: give the others a moment, then stop them
        if time.time() > deadline or (hit and time.time() > hit + 20):
            for w in alive:
                w["stopped"] = time.time() > deadline
                w["cut"] = True
                os.killpg(w["proc"].pid, signal.SIGKILL)
            for w in alive:
                w["proc"].wait()
            break
        time.sleep(0.05)
    for w in ws:
        w["text"] = w["proc"].stdout.read().decode(errors="replace")
        w["code"] = w["proc"].returncode
    return ws


def warmed(doc, w, path, tmp):
    """What went wrong needs runs made before it in the same process: find which."""
    run, stride = doc["run"], w["stride"]
    doc = dict(doc, tape=doc.get("full_tape") or doc["tape"])
    try:
        with open(w["progress"]) as f:
            first = int(f.read().split()[1])
    except (OSError, ValueError, IndexError):
        first = w["start"]
    most = max(0, run - first) // stride

    def shows(d, timeout):
        save(path, d)
        return play(path, w["config"], timeout)[0]

    for k in [1, 8, 64, 512, 4096, most]:
        k = min(k, most)
        d = dict(doc, warm_start=run - k * stride, warm_stride=stride)
        cls = shows(d, 300)
        if cls:
            d["class"] = cls
            t0 = time.time()
            for j in range(1, min(k, 512) + 1):
                if time.time() - t0 > 40:
                    break
                one = dict(d, warm_start=run - j * stride, warm_stride=j * stride)
                if shows(one, 20) == cls:
                    d = one
                    break
            shrink_outside(d, path, tmp, 30)
            return d
        if k == most:
            return None


def candidate(w, prop, seed, tmp, notes):
    """Turn what a worker found into a replay document that reproduces, or None."""
    code = w["code"]
    path = os.path.join(tmp, "doc-%d.json" % w["i"])
    if code == 0 or (w.get("cut") and not w.get("stopped")):
        return None
    if code in (1, 3):
        with open(w["replay"]) as f:
            doc = json.load(f)
        cls = None
        cold = {k: v for k, v in doc.items() if not k.startswith("warm_")}
        save(path, cold)
        cls, out = play(path, w["config"])
        if cls and "warm_start" in doc:
            # shows only in a process that has not run the library before
            cold["class"] = cls
            shrink_outside(cold, path, tmp)
            return cold
        if cls is None:
            found = warmed(doc, w, path, tmp)
            if found:
                return found
            notes.append("worker %d: %s did not reproduce in a fresh process: %s" % (w["i"], doc["class"], doc["message"]))
            return None
        doc["class"] = cls
        if code == 3:
            shrink_outside(doc, path, tmp)
        return doc
    if code in (2, 4):
        raise CheckError("worker %d (%s) failed with %d: %s" % (w["i"], w["config"], code, w["text"][-2000:]))
    # the process died or never came back
    try:
        with open(w["progress"]) as f:
            run, first = [int(x) for x in f.read().split()[:2]]
    except (OSError, ValueError):
        raise CheckError("worker %d (%s) ended with %s before its first run: %s" % (w["i"], w["config"], code, w["text"][-2000:]))
    log = os.path.join(tmp, "tape-%d" % w["i"])
    c, out = call([binary(w["config"]), "one", "--prop", prop, "--seed", str(seed), "--run", str(run), "--tape-log", log], 30)
    with open(log) as f:
        tape = [int(x) for x in f.read().split()]
    doc = {"property": prop, "config": w["config"], "seed": seed, "run": run, "class": "crash", "tape": tape, "trace": [],
           "message": "the process running the library was ended by signal %s: %s" % (-code if code and code < 0 else code, w["text"][-600:])}
    save(path, doc)
    cls, out = play(path, w["config"])
    if cls is None:
        doc["warm_start"], doc["warm_stride"] = first, w["stride"]
        save(path, doc)
        cls, out = play(path, w["config"], 300)
        if cls is None:
            notes.append("worker %d: ended with %s in run %d, which did not reproduce: %s" % (w["i"], code, run, w["text"][-300:]))
            return None
        doc["class"] = cls
        return doc
    doc["class"] = cls
    shrink_outside(doc, path, tmp)
    return doc


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            doc = json.load(f)
        build([doc["config"]])
        cls, out = play(sys.argv[2], doc["config"], 300)
        sys.stdout.write(out)
        if cls is None:
            say("the violation did not show")
            return 0
        say("VIOLATION property=%s replay=%s" % (doc["property"], os.path.abspath(sys.argv[2])))
        return 1
    if len(sys.argv) != 2:
        raise CheckError(__doc__)
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in BUDGET:
        raise CheckError("VERIF_TIER=%s" % tier)
    t0 = time.time()
    evidence = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    os.makedirs(OUT, exist_ok=True)
    build()
    t1 = time.time()
    tmp = tempfile.mkdtemp(prefix="run-", dir=OUT)
    try:
        ws = search(prop, seed, tier, tmp)
        t2 = time.time()
        notes, found = [], None
        for w in sorted(ws, key=lambda w: (w["code"] not in (1,), w["i"])):
            doc = candidate(w, prop, seed, tmp, notes)
            if doc:
                found = doc
                break
        for w in ws:
            # something outside the simulation ended it: do it over, once
            if found is None and w["code"] not in (0, 2, 4) and not (w.get("cut") and not w.get("stopped")):
                code, w["text"] = call(w["args"], BUDGET[tier][1] + 90)
                w["code"], w["cut"] = code, False
                w["stopped"] = code is None
                found = candidate(w, prop, seed, tmp, notes)
        runs = ticks = multi = fresh = 0
        hashes, counters, samples, configs = set(), {}, [], {}
        for w in ws:
            try:
                with open(w["out"]) as f:
                    d = json.load(f)
            except (OSError, ValueError):
                continue
            if "runs" not in d:
                continue
            runs += d["runs"]
            ticks += d["ticks"]
            multi += d["multi"]
            fresh += d["fresh"]
            hashes.update((w["config"], h) for h in d["hashes"])
            configs[w["config"]] = configs.get(w["config"], 0) + d["runs"]
            if w["i"] < 3:
                samples += ["%s build: %s" % (w["config"], s) for s in d["samples"][:2]]
            for k, v in d["counters"].items():
                counters[k] = counters.get(k, 0) + v
            notes += d["unconfirmed"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    span = max(t2 - t1, 0.001)
    faults = ["writer_refusal", "stream_error", "serializer_error", "visitor_error", "source_error", "source_error_lasting",
              "source_panic", "sink_panic", "alloc_failure", "source_mutation", "source_drop", "source_rewrite", "reentry"]
    pre = [k for k in counters if k.startswith("preempt_")]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2),
        "violations": 1 if found else 0,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hashes),
            "rule": "Each evaluation is one simulated run from its own seed: generated sources, a history of handle operations and inspections on up to 4 "
                    "scheduled threads, and faults drawn from the same seed. Runs are distinct when the 64-bit hash of everything that happened in them "
                    "(scheduling decisions, callbacks, sink calls, faults, results) differs, per build configuration; a run is non-trivial when at least one "
                    "fault, change of a source or re-entrant call fired, or a thread was preempted inside an operation.",
            "samples": samples,
            "simulated_runs_per_hour": int(runs / span * 3600),
            "seeds_per_hour": int(runs / span * 3600),
            "simulated_time_events": ticks,
            "runs_with_preemption_inside_an_operation": multi,
            "processes_started_afresh": fresh,
            "faults_fired": {k: counters.get(k, 0) for k in faults},
            "faults_planned_but_not_reached": counters.get("fault_not_reached", 0),
            "preemptions": {k: counters[k] for k in sorted(pre)},
            "operations": {k: counters.get(k, 0) for k in ["ops", "observations", "buffered", "shared", "clones", "drops", "evaluations_checked", "failed_marks", "unclear"]},
            "runs_per_configuration": {c + ": " + CONFIG_TEXT[c]: n for c, n in sorted(configs.items())},
            "real_components": REAL,
            "stubbed_components": STUB,
            "search_s": round(span, 2),
            "notes": notes[:10],
        },
        "assumptions": [
            "threads switch at user callbacks, sink calls, allocations, frees, operation boundaries, and at branches and memory accesses of the library's own code (not inside std, sval or serde); memory is sequentially consistent",
            "time is simulated as scheduler events; the library has no clock",
            "healthy dependencies at the versions in sim/Cargo.lock",
        ],
    }
    with open(evidence, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for n in notes[:10]:
        say("note: " + n)
    if found:
        path = os.path.join(OUT, "%s-%s-seed%d-run%d.json" % (prop, found["config"], found["seed"], found["run"]))
        save(path, found)
        for l in found["trace"][-60:]:
            say("  " + l)
        say("%s: %s" % (found["class"], found["message"]))
        say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if any(w["code"] not in (0,) and not (w.get("cut") and not w.get("stopped")) for w in ws):
        raise CheckError("a worker failed but nothing reproduced: %s" % notes)
    if runs == 0:
        raise CheckError("nothing ran")
    say("%s held: %d simulated runs (%d distinct non-trivial) in %.1f s, build %.1f s" % (prop, runs, len(hashes), span, t1 - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        sys.stderr.write("check.py: %s\n" % e)
        sys.exit(2)
    except Exception as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
