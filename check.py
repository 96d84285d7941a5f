#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N]

Decides one property of /verif/properties.jsonl with its TLA+ specification:
 * model checks the specification itself (TLC, exhaustive small constants),
 * builds NESO-Particles from /repo's working tree, runs the conformance
   drivers, and validates every recorded behaviour against the specification.

exit 0: held on everything explored. exit 1 + VIOLATION line: broken.
exit 2: the check itself could not run."""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import nvbuild  # noqa: E402
import props  # noqa: E402

TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")
CORES = os.cpu_count() or 8
ENV = dict(os.environ)
for k in [k for k in ENV if k.startswith(("OMPI_", "PMIX_", "LD_LIBRARY"))]:
    del ENV[k]
ENV.update({
    "HOME": "/root", "OMPI_ALLOW_RUN_AS_ROOT": "1",
    "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_plm": "isolated",
    "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    # the treematch component hangs now and then in MPI_Dist_graph_create
    "OMPI_MCA_topo": "basic",
    # ompio's vulcan component corrupts collective writes on 3 or more ranks
    "OMPI_MCA_io": "romio321",
    "OMPI_MCA_mpi_yield_when_idle": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMP_NUM_THREADS": "1",
})


class CheckError(Exception):
    pass


class Stopped(Exception):
    pass


STOP = threading.Event()  # a repeated rejection was found


def log(*a):
    print(*a, flush=True)


def tlc(spec, cfg, workdir, env=None, extra=(), workers=1, timeout=600,
        heap="3g"):
    meta = os.path.join(workdir, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    e = dict(ENV)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4",
           "-Djava.io.tmpdir=" + meta, "-cp", TLA, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg), *extra,
           os.path.join(SPEC, spec + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b"").decode(errors="replace") if isinstance(
            ex.stdout, bytes) else (ex.stdout or "")
        rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, out, gen, dis


def run_driver(exe, job, d, tag):
    """Runs one conformance driver; returns (trace path, rc, output)."""
    out = os.path.join(d, tag + ".ndjson")
    for f in (out, out + ".started"):
        if os.path.exists(f):
            os.remove(f)
    e = dict(ENV)
    e.update({k: str(v) for k, v in job.get("env", {}).items()})
    tmp = os.path.join(d, tag + ".tmp")
    os.makedirs(tmp, exist_ok=True)
    e["TMPDIR"] = tmp
    args = ["%s=%s" % kv for kv in job.get("args", {}).items()]
    cmd = [exe, *args, "out=" + out, "tmp=" + tmp]
    n = job.get("n", 1)
    cmd = ["timeout", "-k", "5", str(job.get("timeout", 100)), "mpirun",
           "--oversubscribe", "-n", str(n)] + cmd
    log_f = os.path.join(d, tag + ".out")
    with open(log_f, "wb") as fh:
        p = subprocess.Popen(cmd, cwd=tmp, env=e, stdout=fh,
                             stderr=subprocess.STDOUT, start_new_session=True)
        while True:
            try:
                rc = p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                if STOP.is_set():
                    os.killpg(p.pid, 9)
                    p.wait()
                    shutil.rmtree(tmp, ignore_errors=True)
                    raise Stopped()
    shutil.rmtree(tmp, ignore_errors=True)
    with open(log_f, errors="replace") as fh:
        text = fh.read()
    if rc == 124:
        text += "(timed out)"
    return out, rc, text, cmd


def read_events(path):
    evs = []
    try:
        with open(path) as fh:
            for line in fh:
                if line.endswith("\n"):
                    evs.append(line)
    except FileNotFoundError:
        pass
    return evs


def validate(job, exe, d, tag):
    """Runs a driver and validates the behaviour it recorded."""
    path, rc, out, cmd = run_driver(exe, job, d, tag)
    started = os.path.exists(path + ".started")
    evs = read_events(path)
    res = {"job": job, "trace": path, "events": len(evs), "rc": rc,
           "cmd": " ".join(cmd), "states": 0, "trans": 0, "ok": False,
           "why": "", "inits": sum('"ev":"init"' in x[:40] for x in evs),
           "sample": [x[:400].strip() for x in evs[1:40:13]]}
    if not started:
        raise CheckError("driver did not start: rc=%d\n%s" % (rc, out[-2000:]))
    crashed = rc != 0 or not evs or not evs[-1].startswith('{"ev":"end"')
    if not evs:
        res["why"] = "the run ended before its first event (exit %d): %s" % (
            rc, out[-600:])
        return res
    if evs:
        with open(path, "w") as fh:
            fh.writelines(evs)
        wd = os.path.join(d, tag + ".tlc")
        os.makedirs(wd, exist_ok=True)
        trc, tout, gen, dis = tlc(job["spec"], job["cfg"], wd,
                                  env={"TRACE": path}, timeout=400)
        shutil.rmtree(wd, ignore_errors=True)
        res["states"], res["trans"] = dis, max(gen - 1, 0)
        rej = re.findall(r'<<"REJECT".*?>>', tout, flags=re.S)
        if trc == 0 and "No error has been found" in tout:
            if crashed:
                raise CheckError("trace accepted but run failed\n" + tout)
            res["ok"] = True
            return res
        inv = re.findall(r"Invariant (\S+) is violated", tout)
        post = "TraceAccepted" in tout or "POSTCONDITION" in tout.upper()
        # values no state of the specification has (an index outside every
        # domain, say) stop the evaluation of the event that carries them
        ill = trc in (75, 76, 77)
        if rej or inv or post or ill:
            m = rej or inv
            if ill and not m:
                m = ["no such state (%s)" % " ".join(re.findall(
                    r"Error: (.*)", tout)[1:2])[:150]]
            at = dis  # number of consumed events + 1
            res["why"] = "event %d of %d is not a step of %s: %s" % (
                at, len(evs), job["spec"],
                "; ".join(sorted(set(" ".join(x.split()) for x in m))[:6])
                if m else
                "the history is incomplete" if crashed else "no action matches")
            res["names"] = sorted(set(re.findall(r'"([^"]*)">>', " ".join(rej)))) + inv
            if 0 < at <= len(evs):
                res["event"] = evs[at - 1][:600]
            if crashed:
                res["why"] += " (the run ended with exit %d: %s)" % (
                    rc, out[-800:])
            return res
        raise CheckError("TLC failed on %s:\n%s" % (path, tout[-3000:]))
    return res


class Slots:
    """Bounds the number of MPI ranks and JVMs that run at once."""

    def __init__(self, n):
        self.n, self.c = n, threading.Condition()

    def take(self, k):
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k

    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    plan = props.plan(pid, a.tier, a.seed)
    d = os.path.join(VERIF, "_work", pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))
                 if k["property"] == pid and k["status"] == "known"]
    jobs = plan["jobs"]
    drivers = sorted({j["driver"] for j in jobs})
    slots = Slots(CORES + 2)
    mcs = []
    with cf.ThreadPoolExecutor(64) as ex:
        fb = ex.submit(nvbuild.build, drivers, plan.get("petsc", False))
        # model checking of the specification runs beside the build

        def mc(i, m):
            wd = os.path.join(d, "mc%d" % i)
            os.makedirs(wd, exist_ok=True)
            w = m.get("workers", 2)
            slots.take(w)
            try:
                if STOP.is_set():
                    return None
                r = tlc(m["spec"], m["cfg"], wd, workers=w,
                        extra=m.get("extra", ()), timeout=m.get("timeout", 700))
            finally:
                slots.give(w)
            shutil.rmtree(wd, ignore_errors=True)
            return r

        fm = [ex.submit(mc, i, m) for i, m in enumerate(plan.get("mc", []))]
        # behaviours generated from the specification for the drivers to replay
        gens = {}

        def gen(g):
            wd = os.path.join(d, "gen_" + g["name"])
            os.makedirs(wd, exist_ok=True)
            out = os.path.join(d, g["name"] + ".behaviours")
            slots.take(1)
            try:
                rc, o, s, dd = tlc(g["spec"], g["cfg"], wd,
                                   env={"GENOUT": out, **g.get("env", {})},
                                   extra=g.get("extra", ()), timeout=300)
            finally:
                slots.give(1)
            shutil.rmtree(wd, ignore_errors=True)
            lines = []
            for x in re.findall(r'^"BEHAVIOUR (.*)"$', o, flags=re.M):
                lines.append(x.encode().decode("unicode_escape"))
            if not lines:
                raise CheckError("no behaviours from %s:\n%s" %
                                 (g["spec"], o[-2000:]))
            lines = sorted(set(lines))
            with open(out, "w") as fh:
                fh.write("\n".join(lines) + "\n")
            return out, len(lines), s, dd

        for g in plan.get("gen", []):
            gens[g["name"]] = ex.submit(gen, g)
        exes, tb = fb.result()
        log("built %s in %.1fs" % (", ".join(drivers), tb))
        gens = {k: v.result() for k, v in gens.items()}
        for k, v in gens.items():
            log("%d behaviours generated by %s" % (v[1], k))
        for j in jobs:
            if "gen" in j:
                j["args"] = dict(j["args"], behaviours=gens[j["gen"]][0])

        def once(i, j, suffix=""):
            k = min(max(j.get("n", 1) * int(j.get("env", {}).get(
                "VSYCL_THREADS", 1)), 1), CORES)
            slots.take(k)
            try:
                if STOP.is_set():
                    raise Stopped()
                return validate(j, exes[j["driver"]], d, "t%d%s" % (i, suffix))
            finally:
                slots.give(k)

        def finding(i, r):
            for k in known:
                want = k.get("args", {})
                have = jobs[i].get("args", {})
                if k["driver"] == jobs[i]["driver"] and all(
                        have.get(x) == y for x, y in want.items()
                ) and re.search(
                        k["match"], r["why"] + " " + r.get("event", "")):
                    return k
            return None

        def one(i, j):
            """(result, repeated rejection or None)"""
            try:
                r = once(i, j)
                if r["ok"]:
                    return r, None
                # a rejection counts only when a re-run repeats it
                for k in range(j.get("retries", 2)):
                    x = once(i, j, "r%d" % k)
                    if not x["ok"]:
                        if finding(i, x) is None:
                            STOP.set()
                        return r, x
                log("NOT REPEATED: job %d: %s" % (i, r["why"]))
                r["unrepeated"] = True
                return r, None
            except Stopped:
                return None, None

        fj = [ex.submit(one, i, j) for i, j in enumerate(jobs)]
        results, bad = [], []
        for i, f in enumerate(fj):
            r, b = f.result()
            if r is not None:
                results.append(r)
            if b is not None:
                bad.append((i, b))
        for m, f in zip(plan.get("mc", []), fm):
            if STOP.is_set():
                break
            rc, out, g, ds = f.result()
            if rc != 0 or "No error has been found" not in out:
                raise CheckError("specification %s %s: rc=%d\n%s" %
                                 (m["spec"], m["cfg"], rc, out[-3000:]))
            if ds < m.get("min_states", 1):
                raise CheckError("specification %s explored only %d states" %
                                 (m["spec"], ds))
            mcs.append({"spec": m["spec"], "cfg": m["cfg"], "states": ds,
                        "transitions": g})
    unlisted = []
    for i, r in bad:
        hit = finding(i, r)
        if hit:
            log("KNOWN-FINDING: property=%s %s" % (pid, hit["what"]))
        else:
            unlisted.append((i, r))
    ok = [r for r in results if r["ok"]]
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(m["states"] for m in mcs) + sum(r["states"] for r in results),
            "transitions": sum(m["transitions"] for m in mcs) + sum(r["trans"] for r in results),
            "traces_validated_against_impl": sum(r["inits"] for r in ok),
            "events_validated": sum(r["events"] for r in ok),
            "runs": len(results),
            "rank_counts": sorted({j.get("n", 1) for j in jobs}),
            "model_runs": mcs,
            "behaviours_generated": sum(v[1] for v in gens.values()),
            "rejected_but_not_repeated": sum(
                1 for r in results if r.get("unrepeated")),
            "samples": [s for r in ok[:3] for s in r["sample"]][:8] or
                       [r["why"] for _, r in bad][:3],
        },
        "assumptions": plan.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(unlisted),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    log("%s %s: %d runs, %d behaviours, %d events accepted, model states %d, "
        "%.1fs" % (pid, a.tier, len(ok), sum(r["inits"] for r in ok),
                   sum(r["events"] for r in ok), sum(m["states"] for m in mcs),
                   time.time() - t0))
    if unlisted:
        rp = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rp, exist_ok=True)
        for i, r in unlisted[:5]:
            log("job %d (%s): %s" % (i, r["cmd"], r["why"]))
            if "event" in r:
                log("  event: " + r["event"][:300])
        i, r = unlisted[0]
        dst = os.path.join(rp, "%s_%d.ndjson" % (pid, a.seed))
        shutil.copy(r["trace"], dst) if os.path.exists(r["trace"]) else None
        with open(dst + ".txt", "w") as fh:
            fh.write("%s\n%s\nspec %s %s\n%s\n" % (
                r["why"], r["cmd"], jobs[i]["spec"], jobs[i]["cfg"],
                r.get("event", "")))
        print("VIOLATION property=%s replay=%s" % (pid, dst + ".txt"),
              flush=True)
        return 1
    if not a.keep:
        shutil.rmtree(d, ignore_errors=True)
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except (CheckError, nvbuild.BuildError) as ex:
        print("CHECK ERROR: %s" % ex, flush=True)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
