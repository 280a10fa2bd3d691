#!/usr/bin/env python3
"""Driver: check.py <PROPERTY> [quick|thorough] [--replay FILE] [--shards N] [--scale F] [--part NAME]

Builds the harness binary from /repo's working tree, runs it in parallel shards, merges what they
explored into evidence/<PROPERTY>.json and reports. Exit 0: held on everything explored; 1: violation
(line "VIOLATION property=<id> replay=<path>"); 2: the check itself could not give an answer."""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
CHECKS = json.load(open(os.path.join(HERE, "checks.json")))


def goenv(extra=None):
    e = dict(os.environ)
    e.update(HOME="/root", GOENV="off", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GONOSUMDB="*", GONOSUMCHECK="1",
             GOFLAGS_="", GORACE="halt_on_error=1 exitcode=66")
    e["PATH"] = "/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
    if extra:
        e.update(extra)
    return e


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def run_build(cmd, cwd, what):
    for attempt in (1, 2):
        r = subprocess.run(cmd, cwd=cwd, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return
    print(r.stdout[-4000:])
    die("build of %s failed" % what)


def harness_copy(work):
    """With VERIF_REPO set (own experiments only) use a copy of the harness that points there."""
    if REPO == "/repo":
        return HARNESS
    dst = os.path.join(work, "harness")
    shutil.copytree(HARNESS, dst)
    p = os.path.join(dst, "go.mod")
    s = open(p).read().replace("=> /repo", "=> " + REPO)
    open(p, "w").write(s)
    return dst


def build(conf, work, race=None, hdir=None):
    hdir = hdir or harness_copy(work)
    race = conf.get("race") if race is None else race
    # go may rewrite go.mod/go.sum under -mod=mod; build with private copies
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(hdir, f), os.path.join(work, f))
    out = os.path.join(work, "t.race.bin" if race else "t.bin")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + os.path.join(work, "go.mod"), "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./" + conf["pkg"])
    procs = []
    run_build(cmd, hdir, "harness " + conf["pkg"])
    extra = {"VERIF_REPO_DIR": REPO}
    if conf.get("race_parts") and not race:  # some parts run under the race detector
        extra["VERIF_RACE_BIN"] = build(dict(conf, race_parts=None, bins={}), work, True, hdir)[0]
    for name, pkg in conf.get("bins", {}).items():
        b = os.path.join(work, name)
        opts = ["-race"] if name.endswith("_race") else []
        run_build(["go", "build", "-buildvcs=false"] + opts + ["-o", b, pkg], REPO, pkg)
        extra["VERIF_BIN_" + name.upper()] = b
    return out, extra


def limits():
    os.setsid()


class Shard:
    def __init__(self, binp, work, tag, args, extra):
        self.binp = binp
        self.out = os.path.join(work, tag + ".json")
        self.cur = os.path.join(work, tag + ".cur")
        self.errp = os.path.join(work, tag + ".err")
        self.scratch = os.path.join(work, tag + ".d")
        os.makedirs(self.scratch)
        env = goenv(extra)
        env["TMPDIR"] = self.scratch
        env["VERIF_SCRATCH"] = self.scratch
        env["GOTRACEBACK"] = "all"
        env["GOMAXPROCS"] = str(args.pop("gomaxprocs", 2))
        self.err = open(self.errp, "wb")
        a = [binp, "-test.run=^TestVerif$", "-test.timeout=0", "-verif.out=" + self.out, "-verif.cur=" + self.cur]
        a += ["-verif.%s=%s" % kv for kv in args.items()]
        self.p = subprocess.Popen(a, cwd=self.scratch, env=env, stdout=self.err, stderr=self.err, preexec_fn=limits)

    def finish(self):
        rc = self.p.wait()
        self.err.close()
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        res = None
        try:
            res = json.load(open(self.out))
        except Exception:
            pass
        b = open(self.errp, "rb").read()
        txt = (b[:400000] + b"\n...\n" + b[-400000:] if len(b) > 800000 else b).decode("utf-8", "replace")
        return rc, res, txt


def crash_blames_repo(txt):
    """Does a crash report of the worker blame kache code?"""
    m = re.search(r"WARNING: DATA RACE(.*?)={18}", txt, re.S)
    if m:
        return ("data race", "kacheio/kache" in m.group(1), m.group(1).strip()[:3000])
    m = re.search(r"^(panic: .*|fatal error: .*)$", txt, re.M)
    if not m:
        return None
    rest = txt[m.start():]
    gor = re.split(r"\n\n", rest)
    first = ""
    for g in gor:
        if re.search(r"^goroutine \d+ .*\[running", g, re.M):
            first = g
            break
    if not first:
        first = rest[:8000]
    i = first.rfind("\npanic(")
    seg = first[i:] if i >= 0 else first
    for l in seg.splitlines():
        l = l.strip()
        if l.startswith("github.com/kacheio/kache/"):
            return (m.group(1), True, first[:3000])
        if l.startswith("created by github.com/kacheio/kache/"):
            return (m.group(1), True, first[:3000])
        if l.startswith("verif/harness/"):
            break
    return (m.group(1), False, first[:3000])


def write_replay(prop, rf):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(rf["scenario"], sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s-%s.json" % (prop, rf["part"], h))
    with open(p, "w") as f:
        json.dump(rf, f, indent=1)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--part", default="")
    ap.add_argument("--bin", help="reuse a binary (own experiments)")
    ap.add_argument("--budget", type=float, default=0)
    a = ap.parse_args()
    conf = CHECKS[a.prop]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    rc = 2
    try:
        rc = drive(a, conf, seed, work, t0)
    except SystemExit as e:
        rc = e.code
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def drive(a, conf, seed, work, t0):
    prop = a.prop
    binp, extra = build(conf, work)
    tb = time.time()
    hard = float(os.environ.get("VERIF_HARD_LIMIT", "0")) or (780 if a.tier == "quick" else 6 * 3600)
    known = load_known(prop)
    viols, errors = [], []
    merged = {}

    def absorb(rc, res, txt, sh, fresh=True):
        for po in (res or {}).get("parts") or []:
            m = merged.setdefault(po["name"], dict(rule=po["rule"], evaluations=0, skipped=0, hashes=set(), labels={}, samples=[]))
            m["evaluations"] += po["evaluations"]
            m["skipped"] += po["skipped"]
            m["hashes"].update(po.get("hashes") or [])
            for k, v in (po.get("labels") or {}).items():
                m["labels"][k] = m["labels"].get(k, 0) + v
            m["samples"] += po.get("samples") or []
            if po.get("violation"):
                viols.append(po["violation"])
            if po.get("error"):
                errors.append(po["error"])
        if res and res.get("done") and rc == 0:
            return
        if any(po.get("violation") for po in (res or {}).get("parts") or []):
            return
        cur = None
        try:
            cur = json.load(open(sh.cur))
        except Exception:
            pass
        if rc == 97 and cur:
            if not fresh:
                cur["violation"] = "the case does not terminate (hang confirmed in a fresh process)"
                viols.append(cur)
                return
            if any("hang confirmed" in v.get("violation", "") for v in viols):
                return  # one is enough
            p = os.path.join(work, "hang.json")
            json.dump(cur, open(p, "w"))
            s2 = Shard(sh.binp, work, "hang%d" % int(time.time() * 1000), {"prop": prop, "replay": p}, extra)
            r2 = s2.finish()
            absorb(r2[0], r2[1], r2[2], s2, fresh=False)
            if r2[0] == 0:
                errors.append("a case hung once but not when repeated")
            return
        c = crash_blames_repo(txt)
        if c and c[1] and cur:
            cur["violation"] = c[0] + "\n" + c[2]
            viols.append(cur)
            return
        errors.append("worker ended with code %s\n%s" % (rc, txt[-3000:]))

    racebin = extra.pop("VERIF_RACE_BIN", None)
    raceparts = conf.get("race_parts") or []

    def pick(part):
        return racebin if part in raceparts else binp

    if a.replay:
        binp = pick(json.load(open(a.replay)).get("part"))
        sh = Shard(binp, work, "replay", {"prop": prop, "replay": os.path.abspath(a.replay)}, extra)
        absorb(*sh.finish(), sh)
    else:
        # saved inputs first
        corpus = os.path.join(HERE, "corpus", prop)
        files = sorted(os.path.join(corpus, f) for f in os.listdir(corpus)) if os.path.isdir(corpus) else []
        shards = []
        for b in (binp, racebin):
            fs = [f for f in files if pick(json.load(open(f)).get("part")) == b]
            if b and fs and not a.part:
                shards.append(Shard(b, work, "corpus%d" % (b == racebin), {"prop": prop, "replay": ",".join(fs)}, extra))
        n = a.shards or conf.get("shards", 8)
        for i in range(n):
            args = {"prop": prop, "tier": a.tier, "seed": seed, "shard": i, "shards": n, "scale": a.scale,
                    "gomaxprocs": conf.get("gomaxprocs", 2)}
            if a.part:
                args["part"] = a.part
            if raceparts:
                args["skip"] = ",".join(raceparts)
            if a.part not in raceparts:
                shards.append(Shard(binp, work, "s%d" % i, dict(args), extra))
            for rp in raceparts:
                if a.part in ("", rp):
                    args["part"], args["skip"] = rp, ""
                    shards.append(Shard(racebin, work, "r%d-%s" % (i, rp), dict(args), extra))
        deadline = time.time() + hard
        timed_out = False
        for s in shards:
            while s.p.poll() is None:
                if time.time() > deadline:
                    timed_out = True
                    for z in shards:
                        if z.p.poll() is None:
                            os.killpg(z.p.pid, signal.SIGKILL)
                    break
                time.sleep(0.02)
            absorb(*s.finish(), s)
        if timed_out:
            errors.append("time limit reached")

    tot = sum(m["evaluations"] for m in merged.values())
    nontriv = sum(len(m["hashes"]) for m in merged.values())
    ev = dict(property=prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed,
              level=conf.get("level", "exploration"),
              coverage=dict(evaluations=tot, distinct_nontrivial=nontriv,
                            rule=" | ".join("%s: %s" % (k, m["rule"]) for k, m in merged.items() if m["rule"]),
                            samples=[s for m in merged.values() for s in m["samples"][:2]][:8],
                            parts={k: dict(evaluations=m["evaluations"], distinct_nontrivial=len(m["hashes"]),
                                           inconclusive=m["skipped"], labels=dict(sorted(m["labels"].items())))
                                   for k, m in merged.items()},
                            build_s=round(tb - t0, 1)),
              assumptions=conf.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    if not a.replay and not a.part:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)" % (prop, ev["tier"], tot, nontriv, ev["wall_s"], tb - t0))
    for k, m in merged.items():
        print("  %s: %d cases, %d non-trivial, %d inconclusive; %s" % (k, m["evaluations"], len(m["hashes"]), m["skipped"],
              ", ".join("%s=%d" % kv for kv in sorted(m["labels"].items()))))
    real = []
    for v in viols:
        k = match_known(known, v)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        else:
            real.append(v)
    if real:
        real.sort(key=lambda v: len(json.dumps(v["scenario"])))
        v = real[0]
        p = write_replay(prop, v)
        print("violation: " + v.get("violation", "")[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if errors:
        for e in errors[:3]:
            print("CHECK-ERROR: " + e[:4000])
        return 2
    return 0


def load_known(prop):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                m = re.match(r"known: property=\S+ part=(\S+) scenario=(\S+) (.*)", l)
                if m:
                    out.append(m.groups())
    return out


def match_known(known, v):
    h = hashlib.sha256(json.dumps(v["scenario"], sort_keys=True).encode()).hexdigest()[:10]
    for part, sc, text in known:
        if part == v["part"] and sc == h:
            return text
    return None


if __name__ == "__main__":
    main()
