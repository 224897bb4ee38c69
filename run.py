#!/usr/bin/env python3
"""run.py <property>: builds the monitors against /repo's working tree, runs one property, reports.

Exit 0: the property held on everything observed.  Exit 1: violated (a VIOLATION line names the replay file).
Exit 2: no verdict (the harness did not build, a time limit, nothing observed)."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = "github.com/botlink/go-mavlink2"
REPO = os.environ.get("VERIF_REPO", "/repo")
# Built with the race detector; its reports decide.
RACE = {"C15", "C21", "C22", "C28"}
# Not run again in a 32-bit build: programs, and constants as such (C29 builds for such platforms); the race detector has no such build.
NO386 = {"C29", "C30"}
# Run once more under the race detector's scheduler in the thorough tier; reports are C22's, the monitors decide.
RACE_TOO = {"C03", "C06", "C14", "C16", "C17", "C24", "C27"}
# Run again with the library's sources woven (harness/weave): a call in front of every statement, which now and then holds the goroutine
# up. With the race detector where it decides anyway.
WOVEN = {"C03", "C04", "C06", "C14", "C15", "C16", "C17", "C21", "C22", "C24", "C27", "C28", "C32"}
ASSUME = {
    "*": ["the executions observed are those the seeded workloads produce; nothing is claimed about others",
          "the oracle's message tables (harness/ref/schema.json) are transcribed from the pinned tree; CRC_EXTRA is confirmed by recomputation"],
}


def env():
    e = dict(os.environ)
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], capture_output=True, check=True).stdout
        for kv in out.split(b"\0"):
            k, _, v = kv.decode().partition("=")
            if k and k not in ("_", "SHLVL", "PWD", "OLDPWD"):
                e[k] = v
    e["GOFLAGS"] = "-mod=mod"
    return e


def build(e, work, kind, pid=""):
    """The harness is copied so that nothing is written in /verif, and points at REPO."""
    src = os.path.join(work, "harness")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(HERE, "harness"), src)
        mod = os.path.join(src, "go.mod")
        text = open(mod).read()
        open(mod, "w").write(text.replace("=> /repo", "=> " + REPO))
    binary = os.path.join(work, "mv." + kind)
    if kind == "386":
        e = dict(e, GOARCH="386", CGO_ENABLED="0")
    extra = []
    if kind.startswith("woven"):
        out = os.path.join(work, "woven")
        os.makedirs(out, exist_ok=True)
        r = subprocess.run(["go", "run", "./weave", REPO, out], cwd=src, env=e, capture_output=True, text=True)
        if r.returncode:
            return None, False, r.stdout + r.stderr
        extra = ["-overlay", os.path.join(out, "overlay.json")]
    logs = []
    choices = (["-tags", "uavionix"], [])
    if pid == "C30":
        choices = (["-tags", "uavionix consts"],)
    for tags in choices:
        if extra:
            tags = ["-tags", " ".join([*tags[1:], "woven"])]
        cmd = ["go", "test", "-c", "-buildvcs=false", "-vet=off", *tags, *extra, *(["-race"] if kind in ("race", "wovenrace") else []), "-o", binary, "./mv"]
        r = subprocess.run(cmd, cwd=src, env=e, capture_output=True, text=True)
        if r.returncode == 0:
            return binary, "uavionix" in " ".join(tags), ""
        logs.append(r.stdout + r.stderr)
        # Only a failure of that one dialect package is set aside here (C29 reports it).
        if tags and "uAvionix" not in logs[-1]:
            break
    return None, False, logs[-1]


def crash(text):
    """What a crashed run shows: (what, excerpt), or None where it is not the library's doing."""
    if "WARNING: DATA RACE" in text:
        block = text[text.index("WARNING: DATA RACE"):]
        block = block[:block.find("==================")] if "==================" in block else block[:6000]
        return ("the race detector reported a data race" if LIB in block else None), block
    m = re.search(r"^(panic: |fatal error: ).*", text, re.M)
    if m:
        tail = text[m.start():][:20000]
        first = tail.split("\ngoroutine ", 2)
        head = m.group(0)[:300]
        if "deadlock" in head or "blocked goroutines remain" in tail or "all goroutines in bubble are blocked" in tail:
            return "the library's goroutines are left blocked for ever: " + head, tail
        # the first goroutine printed is the one that crashed
        if len(first) > 1 and LIB + "" in first[1]:
            return "the library crashed: " + head, tail
        # A run-time error of the monitor's own means that the library gave it what it never may: a nil, a
        # type other than the promised one, too few of something. (The monitor's own panics say what they mean.)
        if head.startswith("panic: runtime error: ") or head.startswith(("panic: interface conversion", "panic: reflect")):
            return "what the library returned cannot be used: " + head, tail
        return None, tail
    return None, text[-6000:]


def run(e, binary, pid, seed, tier, work, limit, name, race_decides):
    out = os.path.join(work, name + ".json")
    tmp = os.path.join(work, "tmp")
    os.makedirs(tmp, exist_ok=True)
    e = dict(e, VERIF_PROP=pid, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_OUT=out, VERIF_TMP=tmp, TMPDIR=tmp,
             VERIF_REPO=REPO, GOTRACEBACK="all")
    if name == "386" and tier == "quick":
        e["VERIF_SHARE"] = "4"
    if name.startswith("woven"):
        e["VERIF_SHARE"] = "3"
    if race_decides is True:
        e["GORACE"] = "halt_on_error=1 exitcode=66"
    elif race_decides is False:
        e["GORACE"] = "halt_on_error=0 exitcode=0 log_path=" + os.path.join(work, "race.log")
    with open(os.path.join(work, name + ".log"), "w+b") as log:
        p = subprocess.Popen([binary, "-test.run", "^TestProp$", "-test.timeout", "0"], cwd=work, env=e, stdin=subprocess.DEVNULL,
                             stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        log.seek(0)
        text = log.read(8 << 20).decode("utf-8", "replace")
    res = None
    if os.path.exists(out):
        res = json.load(open(out))
    if rc is None:
        return "inconclusive", "time limit of %d s" % limit, res, text
    if res and res["status"] == "violated":
        return "violated", res["violations"][0]["what"], res, text
    if res and res["status"] == "held" and rc == 0:
        return "held", "", res, text
    what, excerpt = crash(text)
    if what:
        return "violated", what, res, excerpt
    why = res["why"] if res and res.get("why") else "the monitor ended with %s" % rc
    return "inconclusive", why, res, excerpt


def listed(pid):
    """Known findings: lines 'known: property=<id> key=<key> <what fails>'."""
    keys = {}
    f = os.path.join(HERE, "known_findings.txt")
    for line in open(f) if os.path.exists(f) else []:
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            keys[m.group(2)] = m.group(3).strip()
    return keys


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "thorough" in sys.argv[2:] else "quick"
    limit = int(os.environ.get("VERIF_LIMIT") or (780 if tier == "quick" else 6 * 3600))
    t0 = time.time()
    e = env()
    work = tempfile.mkdtemp(prefix="mv-%s-" % pid)
    try:
        return check(pid, seed, tier, limit, t0, e, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(pid, seed, tier, limit, t0, e, work):
    passes = [("race", True)] if pid in RACE else [("plain", None)]
    if tier == "thorough" and pid in RACE_TOO:
        passes.append(("race", False))
    if tier == "thorough" and pid in RACE:
        passes.append(("plain", None))
    if pid in WOVEN:
        passes.append(("wovenrace", True) if pid in RACE else ("woven", None))
    if pid not in NO386:
        passes.append(("386", None))
    total, verdict = None, ("held", "")
    cov = {}
    for kind, decides in passes:
        binary, uav, log = build(e, work, kind, pid)
        if kind == "386":
            # the same monitors where an int has 32 bits; only where such programs can be built and run
            note = "" if binary else "does not build"
            if binary:
                try:
                    if subprocess.run([binary, "-test.run", "^$"], cwd=work, env=e, capture_output=True, timeout=120).returncode:
                        note = "does not run"
                except (OSError, subprocess.TimeoutExpired):
                    note = "does not run"
            if note:
                cov[kind] = {"build": kind, "status": note}
                continue
        if binary is None and kind.startswith("woven"):
            # an aid to reach; the plain build above is the check
            cov[kind] = {"build": kind, "status": "does not build"}
            continue
        if binary is None:
            if pid == "C29" and kind == "plain":
                # The harness needs the library: where the library itself does not build, that is C29's to say.
                r = subprocess.run(["go", "build", "-buildvcs=false", "-o", os.devnull, "./..."], cwd=REPO, env=e, capture_output=True, text=True)
                if r.returncode:
                    return report(pid, seed, tier, t0, ("violated", "a shipped package does not build"), None, r.stdout + r.stderr, cov)
            if pid == "C30":
                # The only thing that this build adds to the others' is the use of each constant by name.
                gone = re.findall(r"consts_test\.go.*undefined: (\S+)", log)
                if gone:
                    return report(pid, seed, tier, t0, ("violated", "a named constant is gone: " + gone[0]), None, log, cov)
            return report(pid, seed, tier, t0, ("inconclusive", "the harness does not build"), None, log, cov)
        status, why, res, text = run(e, binary, pid, seed, tier, work, limit, kind, decides)
        cov[kind] = {"build": kind, "uavionix_linked": uav, "status": status, "evaluations": (res or {}).get("evaluations", 0),
                     "distinct_nontrivial": (res or {}).get("distinct_nontrivial", 0)}
        for k, n in ((res or {}).get("observed") or {}).items():
            if k.startswith("weave_"):
                cov[kind][k] = n
        if decides is False:
            cov[kind]["race_reports"] = sum(open(f, errors="replace").read().count("WARNING: DATA RACE") for f in glob.glob(os.path.join(work, "race.log*")))
        if total is None or status != "held":
            total = res
        if status != "held":
            return report(pid, seed, tier, t0, (status, why), total, text, cov)
    return report(pid, seed, tier, t0, verdict, total, "", cov)


def clip(x, n=600):
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + "...(%d)" % len(x)
    if isinstance(x, list):
        return [clip(y, n) for y in x[:20]]
    if isinstance(x, dict):
        return {k: clip(v, n) for k, v in list(x.items())[:20]}
    return x


def report(pid, seed, tier, t0, verdict, res, text, builds):
    status, why = verdict
    res = res or {}
    keys = listed(pid)
    known = res.get("known") or {}
    unlisted = {k: v for k, v in known.items() if k not in keys}
    if status == "held" and unlisted:
        status, why = "violated", "; ".join(unlisted.values())
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    level = json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"] if os.path.exists(os.path.join(HERE, "MANIFEST.json")) else []
    level = next((c["level"] for c in level if c["property"] == pid), "exploration")
    counts = dict(sorted((res.get("observed") or {}).items()))
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": res.get("evaluations", 0),
            "distinct_nontrivial": res.get("distinct_nontrivial", 0),
            "rule": res.get("rule", ""),
            "samples": clip(res.get("samples") or []),
            "observed_events": counts,
            "builds": list(builds.values()),
            "verdict": status,
            "verdict_reason": why[:500],
            "notes": clip(res.get("notes") or []),
            "known_findings_seen": sorted(known),
        },
        "assumptions": ASSUME["*"],
        "wall_s": round(time.time() - t0, 2),
        "violations": max(1, len(res.get("violations") or [])) if status == "violated" else 0,
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    print("%s %s: %d cases, %d distinct, %.1f s%s" % (pid, status, evidence["coverage"]["evaluations"],
          evidence["coverage"]["distinct_nontrivial"], evidence["wall_s"], ": " + why if why else ""))
    for k, v in counts.items():
        print("  %-40s %d" % (k, v))
    for k in sorted(known):
        if k in keys and status != "violated":
            print("KNOWN-FINDING: property=%s %s" % (pid, keys[k]))
    if status == "held":
        return 0
    if status == "violated":
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%d.json" % (pid, seed))
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "what": why,
                       "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s" % (seed, tier, pid),
                       "violations": res.get("violations") or [], "log": text[-60000:] if text else ""}, f, indent=1)
            f.write("\n")
        for v in (res.get("violations") or [])[:3]:
            print("  case %s: %s" % (v["case"], str(v["what"])[:1000]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print((text or "")[-4000:])
    print("NO VERDICT property=%s: %s" % (pid, why))
    return 2


if __name__ == "__main__":
    sys.exit(main())
