#!/usr/bin/env python3
"""check.py <property id>: build the harness against /repo's working tree, run
its worker processes, judge what the monitors recorded, write the evidence.

exit 0: held on everything explored (listed known findings are printed)
exit 1: VIOLATION property=<id> replay=<path>
exit 3: inconclusive (build failure, monitors not exercised, worker lost)
"""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
RACE = {"C15", "C18"}            # built with the race detector (implies checkptr)
CLI = {"C20"}                    # runs the command line program
LEVEL = {"C13": "fault_enumeration", "C14": "fault_enumeration"}


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def build(work, race, cli):
    """the harness and the command line program, from /repo's working tree"""
    src = os.path.join(work, "src")          # a copy: the build may touch go.sum
    shutil.copytree(HARNESS, src)
    out = os.path.join(work, "vh")
    cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
    p = subprocess.run(cmd, cwd=src, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode:
        return None, p.stdout[-4000:]
    if cli:
        p = subprocess.run(["go", "build", "-o", os.path.join(work, "cli"), "github.com/fumiama/go-docx/cmd/main"], cwd=src, env=goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode:
            return None, p.stdout[-4000:]
    return out, ""


def known(pid):
    """open findings: lines 'open: property=<id> sig=<sig> <what fails>'"""
    res = {}
    try:
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt"), encoding="utf-8"):
            f = l.strip().split(None, 3)
            if len(f) == 4 and f[0] == "open:" and f[1] == "property=" + pid and f[2].startswith("sig="):
                res[f[2][4:]] = f[3]
    except FileNotFoundError:
        pass
    return res


class Worker:
    def __init__(self, exe, pid, seed, tier, work, shard, shards, cases, extra=()):
        self.out = os.path.join(work, "r%d.json" % shard)
        self.prog = os.path.join(work, "p%d" % shard)
        self.err = os.path.join(work, "e%d" % shard)
        self.tmp = os.path.join(work, "t%d" % shard)
        os.makedirs(self.tmp, exist_ok=True)
        e = goenv()
        e["TMPDIR"] = self.tmp
        e["VERIF_CLI"] = os.path.join(work, "cli")
        e["VERIF_REPO"] = "/repo"
        e["GOMAXPROCS"] = "8" if pid in RACE or shards == 1 else "2"
        e["GORACE"] = "halt_on_error=1 exitcode=66"
        e["GOTRACEBACK"] = "all"
        self.cmd = [exe, "-prop", pid, "-seed", str(seed), "-tier", tier, "-shard", str(shard), "-shards", str(shards),
                    "-out", self.out, "-progress", self.prog] + list(extra)
        if cases:
            self.cmd += ["-cases", str(cases)]
        self.p = subprocess.Popen(self.cmd, env=e, cwd=self.tmp, stdin=subprocess.DEVNULL,
                                  stdout=open(os.path.join(work, "o%d" % shard), "wb"), stderr=open(self.err, "wb"))

    def result(self):
        try:
            return json.load(open(self.out))
        except Exception:
            return None

    def errtail(self, n=12000):
        try:
            b = open(self.err, "rb").read()
        except OSError:
            return ""
        return (b[:n] + (b"\n...\n" + b[-2000:] if len(b) > n + 2000 else b[n:])).decode("utf-8", "replace")

    def case(self):
        try:
            return int(open(self.prog).read().split()[0])
        except Exception:
            return -1


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cases = int(os.environ.get("VERIF_CASES", "0") or 0)
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    rpdir = os.path.join(evdir, "replay")
    os.makedirs(rpdir, exist_ok=True)
    evfile = os.path.join(evdir, pid + ".json")
    for f in os.listdir(rpdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rpdir, f))
    if os.path.exists(evfile):
        os.unlink(evfile)
    work = tempfile.mkdtemp(prefix="vh-%s-" % pid)
    try:
        return run(pid, tier, seed, cases, t0, evfile, rpdir, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, tier, seed, cases, t0, evfile, rpdir, work):
    exe, msg = build(work, pid in RACE, pid in CLI)
    if exe is None:
        print("INCONCLUSIVE property=%s the harness does not build against /repo:\n%s" % (pid, msg))
        return 3
    tb = time.time() - t0
    info = subprocess.run([exe, "-info"], stdout=subprocess.PIPE, text=True).stdout
    shards = 8
    for l in info.splitlines():
        f = l.split()
        if f and f[0] == pid and int(f[3]) > 0:
            shards = int(f[3])
    deadline = time.time() + (600 if tier == "quick" else 6 * 3600)
    ws = [Worker(exe, pid, seed, tier, work, i, shards, cases) for i in range(shards)]
    problems, results, viol = [], [], []
    for i, w in enumerate(ws):
        try:
            rc = w.p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            w.p.kill()
            w.p.wait()
            problems.append("worker %d ran out of wall time at case %d" % (i, w.case()))
            continue
        r = w.result()
        if r is not None:
            results.append(r)
        if rc != 0 or r is None:
            k, err = w.case(), w.errtail()
            real = any(s in err for s in ("fatal error:", "DATA RACE", "panic:", "goroutine stack exceeds", "SIGSEGV", "checkptr"))
            if not real and k >= 0:    # lost for an unknown reason: try the case alone
                os.makedirs(os.path.join(work, "again%d" % i), exist_ok=True)
                w2 = Worker(exe, pid, seed, tier, os.path.join(work, "again%d" % i), 0, 1, cases, ["-case", str(k)])
                try:
                    rc2 = w2.p.wait(timeout=120)
                except subprocess.TimeoutExpired:
                    w2.p.kill()
                    rc2 = -9
                err = w2.errtail()
                if rc2 != 0:
                    real = True
            if real:
                head = next((l for l in err.splitlines() if "fatal error" in l or "DATA RACE" in l or "panic:" in l), "worker died")
                viol.append(dict(property=pid, case=k, seed=seed, tier=tier, sig="crash", msg="the process died (exit %s): %s" % (rc, head.strip()), detail=err))
            else:
                problems.append("worker %d was lost at case %d (exit %s)" % (i, k, rc))
    events, distinct, samples, n, rule, need, nviol = {}, set(), [], 0, "", {}, 0
    for r in results:
        n += r["cases"]
        nviol += r["nviol"]
        for k, v in (r["events"] or {}).items():
            events[k] = events.get(k, 0) + v
        distinct.update(r["distinct"] or [])
        samples += (r["samples"] or [])[:1]
        rule = r["rule"]
        need = r["need"] or {}
        viol += r["violations"] or []
    kf = known(pid)
    new, seen = [], {}
    for v in viol:
        if v["sig"] in kf:
            seen.setdefault(v["sig"], []).append(v)
        else:
            new.append(v)
    tags = {k[4:]: v for k, v in events.items() if k.startswith("tag ")}
    events = {k: v for k, v in events.items() if not k.startswith("tag ")}
    if tags:
        events["different element tags generated"] = len(tags)
    if tier == "quick" and not cases:
        for k, v in need.items():
            if events.get(k, 0) < v:
                problems.append("only %d '%s' events observed, %d needed" % (events.get(k, 0), k, v))
    cov = dict(evaluations=n, distinct_nontrivial=len(distinct), rule=rule, samples=[s[:4000] for s in samples[:3]],
               observed_events=dict(sorted(events.items())), worker_processes=len(ws))
    if seen:
        cov["known_findings_reproduced"] = sorted(seen)
    if tags:
        cov["elements_by_tag"] = dict(sorted(tags.items()))
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL.get(pid, "exploration"), coverage=cov,
              assumptions=["the Go runtime, compiler, encoding/xml and archive/zip of the sandbox are trusted",
                           "the harness's own XML/zip readers and document models are the oracle"],
              wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(evfile + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    os.replace(evfile + ".tmp", evfile)
    for sig in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[sig]))
    if new:
        new.sort(key=lambda v: (v["case"], v["sig"]))
        for i, v in enumerate(new[:5]):
            path = os.path.join(rpdir, "%s-%d.json" % (pid, i))
            v = dict(v)
            v["replay_cmd"] = "cd /verif/harness && . /opt/vp/env.sh && go run %s . -prop %s -seed %d -tier %s -case %d" % ("-race" if pid in RACE else "", pid, v["seed"], v["tier"], v["case"])
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  [%s] case %s: %s" % (v["sig"], v["case"], v["msg"][:600].replace("\n", "\n    ")))
        print("%d violations in %d cases" % (max(nviol, len(new)), n))
        return 1
    for p in problems:
        print("INCONCLUSIVE property=%s %s" % (pid, p))
    if problems:
        return 3
    print("OK property=%s tier=%s cases=%d distinct=%d build=%.0fs wall=%.0fs" % (pid, tier, n, len(distinct), tb, time.time() - t0))
    print("  observed: " + ", ".join("%s=%d" % kv for kv in sorted(events.items())))
    return 0


if __name__ == "__main__":
    sys.exit(main())
