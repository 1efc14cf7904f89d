#!/usr/bin/env python3
"""Driver: check.py <property> [quick|thorough]

Builds the harness against /repo's current working tree (instrumented through a go build
overlay, see tools/instrument), runs the workload and monitors of one property, writes
evidence/<property>.json, prints VIOLATION and exits 1 when a monitor refuted the property.
Exit 2: no verdict (build failure, harness error, watchdog).
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TCPXVERIF_REPO", "/repo")
TCPX = "github.com/fwhezfwhez/tcpx"

# property -> list of runs; a run is (build, noise level, extra harness args). A run whose
# arguments name the workload of another property is borrowed: only what the race detector says counts.
RUNS = {
    "C12": [("plain", 2, []), ("race", 1, [])],
    "C17": [("race", 1, [])] + [("race", 1, ["-prop", p]) for p in (
        "C09", "C18", "C19", "C21", "C12", "C08", "C11", "C05", "C16", "C15", "C20", "C22", "C10", "C13", "C14", "C06", "C07", "C01", "C04", "C25", "C26", "C27", "C28")],
    "C09": [("plain", 1, []), ("plain", 0, ["-seedshift", "7"])],
}
DEFAULT_RUNS = [("plain", 1, [])]
LEVEL = {"C02": "fault_enumeration", "C03": "fault_enumeration"}


def sh(cmd, env, cwd, timeout=600):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


class Builder:
    def __init__(self, tmp):
        self.tmp = tmp
        self.env = dict(os.environ)
        self.env.update(GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOSUMDB="off", CGO_ENABLED="1",
                        GO111MODULE="on", GOFLAGS="-mod=mod", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", ""))
        self.env.setdefault("HOME", "/root")
        self.mod = os.path.join(tmp, "go.mod")
        s = open(os.path.join(VERIF, "harness", "go.mod")).read().replace("=> /repo", "=> " + REPO)
        open(self.mod, "w").write(s)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(tmp, "go.sum"))
        self.overlay = None
        self.instrumented = False
        e = dict(self.env, GOFLAGS="")
        rc, out = sh(["go", "build", "-o", os.path.join(tmp, "instr"), "main.go"], e, os.path.join(VERIF, "tools", "instrument"))
        if rc == 0:
            ov = os.path.join(tmp, "ov")
            os.mkdir(ov)
            rc, out = sh([os.path.join(tmp, "instr"), REPO, ov], e, VERIF)
            if rc == 0:
                self.overlay = os.path.join(ov, "overlay.json")
        if self.overlay is None:
            print("note: instrumenter failed, building plain\n" + out, file=sys.stderr)

    def build(self, kind):
        binp = os.path.join(self.tmp, "h-" + kind)
        if os.path.exists(binp):
            return binp
        base = ["go", "build", "-modfile=" + self.mod, "-o", binp]
        if kind == "race":
            base.append("-race")
        tries = ([["-overlay", self.overlay]] if self.overlay else []) + [[]]
        for extra in tries:
            rc, out = sh(base + extra + ["."], self.env, os.path.join(VERIF, "harness"))
            if rc == 0:
                self.instrumented = bool(extra)
                return binp
            print("note: build failed%s\n%s" % (" (instrumented)" if extra else "", out[-3000:]), file=sys.stderr)
        return None


def crash_of(err):
    """(text, in_tcpx) of a Go crash found in stderr, or None."""
    m = re.search(r"^(panic: |fatal error: |SIGSEGV|runtime: goroutine stack exceeds|unexpected fault address)", err, re.M)
    if not m:
        return None
    text = err[m.start():]
    # stack of the first goroutine listed
    parts = re.split(r"\n\n(?=goroutine \d+ )", text)
    first = parts[0] if len(parts) == 1 else parts[0] + "\n" + parts[1]
    return text[:20000], (TCPX + ".") in first


def races(prefix):
    """race reports in which tcpx code makes both accesses (on its own or inside a library it calls)."""
    found, ignored = [], 0
    for f in glob.glob(prefix + "*"):
        for blk in re.split(r"={18}\n", open(f, errors="replace").read()):
            if "WARNING: DATA RACE" not in blk:
                continue
            accesses = []
            for sec in re.split(r"\n\n", blk):
                mm = re.search(r"((?:Previous )?(?:atomic )?(?:[Rr]ead|[Ww]rite) at )", sec)
                if not mm or re.search(r"^Goroutine \d+", sec.strip()):
                    continue
                frames = re.findall(r"^  (\S+)\(.*?\)\n\s+(\S+):(\d+)", sec, re.M)
                top = None
                for fn, fl, ln in frames:
                    if fn.startswith(TCPX + ".") or fn.startswith("main.") or fn.startswith("tcpxverif"):
                        top = fn
                        break
                accesses.append(top or "")
            if len(accesses) >= 2 and all(a.startswith(TCPX + ".") for a in accesses):
                found.append(blk)
            else:
                ignored += 1
    return found, ignored


def main():
    prop = sys.argv[1]
    if prop == "setup":
        tmp = tempfile.mkdtemp(prefix="tcpxverif-")
        try:
            b = Builder(tmp)
            ok = b.build("plain") and b.build("race")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        sys.exit(0 if ok else 2)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evfile = os.path.join(evdir, prop + ".json")
    replay = os.path.join(evdir, "replay-%s.txt" % prop)
    for f in (evfile, replay):
        if os.path.exists(f):
            os.remove(f)
    tmp = tempfile.mkdtemp(prefix="tcpxverif-")
    rc = 2
    try:
        rc = run(prop, tier, seed, tmp, evfile, replay, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, tmp, evfile, replay, t0):
    b = Builder(tmp)
    runs = RUNS.get(prop, DEFAULT_RUNS)
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "counters": {}, "runs": []}
    keys, assumptions = set(), []
    violation = None
    error = None
    where = 0

    def finish():
        cov["distinct_nontrivial"] = len(keys)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
              "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
              "violations": 1 if violation else 0}
        json.dump(ev, open(evfile, "w"), indent=1)

    def execute(i):
        """runs one workload; returns (exit code or reason, result, stderr, racelog)"""
        kind, noise, extra = runs[i]
        borrowed = "-prop" in extra
        d = os.path.join(tmp, "run%d" % i)
        os.mkdir(d)
        out = os.path.join(d, "result.json")
        env = dict(os.environ)
        env.pop("TCPXVERIF_CHILD", None)
        racelog = os.path.join(d, "race")
        env["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3 log_path=" + racelog
        env["GOTRACEBACK"] = "all"
        cmd = [b.build(kind), "-prop", prop, "-seed", str(seed), "-tier", tier, "-out", out, "-noise", str(noise), "-tmp", d] + extra
        left = deadline - time.time()
        if borrowed:
            left = min(left, 150 if tier == "quick" else 1500)
            if time.time() - t0 > 400 and tier == "quick":
                return "skipped", None, "", racelog, out
        with open(os.path.join(d, "stderr"), "wb") as errf, open(os.path.join(d, "stdout"), "wb") as outf:
            p = subprocess.Popen(cmd, env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=outf, stderr=errf, start_new_session=True)
            try:
                rc = p.wait(timeout=max(30, left))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGQUIT)
                try:
                    p.wait(timeout=20)
                except subprocess.TimeoutExpired:
                    pass
                rc = "watchdog"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        err = open(os.path.join(d, "stderr"), errors="replace").read()
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
        return rc, res, err, racelog, out

    own = [i for i in range(len(runs)) if "-prop" not in runs[i][2]]
    lent = [i for i in range(len(runs)) if "-prop" in runs[i][2]]
    batches = [[i] for i in own] + ([lent] if lent else [])
    for batch in batches:
        for i in batch:
            if b.build(runs[i][0]) is None:
                print("ERROR: /repo or the harness does not build", file=sys.stderr)
                finish()
                return 2
        with ThreadPoolExecutor(4) as ex:
            results = list(ex.map(execute, batch))
        for i, (rc, res, err, racelog, out) in zip(batch, results):
            kind, noise, extra = runs[i]
            borrowed = "-prop" in extra
            info = {"build": kind, "noise": noise, "instrumented_build": b.instrumented}
            if borrowed:
                info["workload_of"] = extra[extra.index("-prop") + 1]
                info["exit"] = rc
            if res:
                info.update({"observed": res["instrumented"], "wall_s": res["wall_s"], "inconclusive": res["inconclusive"]})
                if borrowed:
                    info["evaluations"] = res["evaluations"]
                else:
                    cov["evaluations"] += res["evaluations"]
                    cov["rule"] = res["rule"]
                    cov["samples"] = (cov["samples"] + (res["samples"] or []))[:8]
                    for k, v in (res["counters"] or {}).items():
                        cov["counters"][k] = cov["counters"].get(k, 0) + v
                    for a in res["assumptions"] or []:
                        if a not in assumptions:
                            assumptions.append(a)
                    kf = out + ".keys"
                    if os.path.exists(kf):
                        keys.update(open(kf).read().split())
            cov["runs"].append(info)
            if kind == "race":
                found, ignored = races(racelog)
                cov["counters"]["race_reports_outside_tcpx"] = cov["counters"].get("race_reports_outside_tcpx", 0) + ignored
                if found and not violation:
                    violation = "data race in tcpx code\n\n" + "\n==================\n".join(found[:5])
                    where = i
            if borrowed:
                if rc not in (0, "skipped") and not violation and "fatal error: concurrent map" in err:
                    violation, where = "unsynchronised map access\n\n" + crash_of(err)[0], i
                continue
            if res and res.get("violation"):
                violation = res["violation"]["what"] + "\n\n" + res["violation"].get("goroutines", "")
            elif rc == "watchdog":
                error = "watchdog: the workload did not finish"
            elif rc != 0:
                c = crash_of(err)
                if c and c[1]:
                    violation = "the process crashed in tcpx code\n\n" + c[0]
                elif not violation:
                    error = "harness failed (exit %s)\n%s" % (rc, (c[0] if c else err)[-6000:])
            elif res is None:
                error = "harness wrote no result\n" + err[-3000:]
            elif res["evaluations"] == 0:
                error = "harness observed nothing"
            where = i if violation else where
        if violation or error:
            break
    finish()
    if violation:
        with open(replay, "w") as f:
            f.write("property %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3 %s %s\n(run %d: %s)\n\n%s\n" % (
                prop, seed, tier, os.path.join(VERIF, "check.py"), prop, where, json.dumps(runs[where]), violation))
        print("violated: " + violation.split("\n\n")[0][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if error:
        print("ERROR: " + error, file=sys.stderr)
        return 2
    print("%s %s: held on %d evaluations (%d distinct) in %.0f s" % (prop, tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
