#!/usr/bin/env python3
"""check.py <property-id>   decides one property for /repo's current working tree (see DESIGN.md)."""
import sys, os, json, time, glob, tempfile, shutil, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lib import prover, native, cextract as cx, replay
from lib.registry import NATIVE, LEVEL, TRUSTED

DEADLINE = 780


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = [a[7:] for a in sys.argv if a.startswith("--unit=")]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return run(pid, tier, seed, t0, work, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, tier, seed, t0, work, only):
    units = [prover.Unit(p) for p in sorted(glob.glob(HERE + "/proofs/*.c"))]
    units = [u for u in units if pid in u.props and (tier == "thorough" or u.tier == "quick")]
    if only:
        units = [u for u in units if u.name in only]
    ncpu = min(8, os.cpu_count() or 4)
    base, blocks = {}, threading.Lock()
    src_err = None
    try:
        src = cx.source()
    except OSError as e:
        src, src_err = None, str(e)

    def text(defs):
        with blocks:
            k = tuple(defs)
            if k not in base:
                d = tempfile.mkdtemp(dir=work)
                try:
                    base[k] = cx.preprocess(src, d, k)
                except Exception as e:
                    base[k] = e
            return base[k]

    def prove(u, trace=False):
        if src is None:
            return dict(unit=u.name, status="undecided", obligations=0, discharged=0, failed=[], solver_s=0, wall_s=0,
                        reason="no source: %s" % src_err, backend="", covers=u.covers, bounded=u.bounded, notes=u.notes)
        if time.time() - t0 > DEADLINE - 60:
            return dict(unit=u.name, status="undecided", obligations=0, discharged=0, failed=[], solver_s=0, wall_s=0,
                        reason="deadline", backend="", covers=u.covers, bounded=u.bounded, notes=u.notes)
        t = text(u.defs)
        if isinstance(t, Exception):
            return dict(unit=u.name, status="undecided", obligations=0, discharged=0, failed=[], solver_s=0, wall_s=0,
                        reason="extraction: %s" % t, backend="", covers=u.covers, bounded=u.bounded, notes=u.notes)
        u.timeout = min(u.timeout, max(30, DEADLINE - (time.time() - t0)))
        return prover.prove(u, work, t, trace)

    # ---- bounded stand-ins on the compiled code
    nat = [] if only else NATIVE.get(pid, [])
    variants = ["amalga"] + (["noamalga"] if native.embedded_differs() else [])
    nout = work + "/native"
    os.makedirs(nout, exist_ok=True)

    blk = threading.Lock()

    def run_native(job):
        h, variant = job
        budget = h["thorough"] if tier == "thorough" else h["quick"]
        try:
            with blk:
                exe = native.build_harness(h["harness"], nout, h.get("variant", variant), extra=tuple(h.get("extra", ())), hdefs=tuple(h.get("hdefs", ())),
                                           flags=h.get("flags", native.FLAGS))
        except Exception as e:
            return dict(job=h, variant=variant, ok=False, failure=None, evaluations=0, nontrivial=0, samples=[], error=str(e)[-600:], wall=0)
        r = native.run_harness(exe, seed, budget, tier, h.get("args", ()))
        r.update(job=h, variant=variant)
        return r

    jobs = [(h, v) for h in nat for v in (variants if "variant" not in h else variants[:1])]
    with ThreadPoolExecutor(max(1, ncpu)) as ex:
        # long units first
        units.sort(key=lambda u: -u.timeout)
        nf = [ex.submit(run_native, j) for j in jobs]
        uf = [ex.submit(prove, u) for u in units]
        nres = [f.result() for f in nf]
        ures = [f.result() for f in uf]

    # ---- verdict
    violations = []
    for r in nres:
        if r["failure"]:
            violations.append(("bounded", r))
    failed_units = [r for r in ures if r["status"] == "failed"]
    lines = []
    rdir = HERE + "/replay"
    os.makedirs(rdir, exist_ok=True)
    replay_path = "%s/%s.txt" % (rdir, pid)
    nviol = 0
    if failed_units or violations:
        with open(replay_path, "w", errors="replace") as f:
            f.write("property %s seed %d tier %s\n" % (pid, seed, tier))
            found = False
            for kind, r in violations:
                found = True
                fl = r["failure"]
                f.write("\n== failing input on the real code (harness native/%s.c, build %s)\n%s: %s\ninput: %s\n" % (
                    r["job"]["harness"], r["variant"], fl["kind"], fl["message"], fl["input"]))
                if fl["kind"] != "contract":
                    f.write("stderr:\n%s\n" % fl["stderr"])
                f.write("replay: VERIF_SEED=%d python3 /verif/check.py %s\n" % (seed, pid))
            for r in failed_units:
                f.write("\n== obligation failed: unit %s (functions %s)\n" % (r["unit"], ", ".join(r["covers"])))
                for o in r["failed"][:20]:
                    f.write("   %s in %s line %s: %s [%s]\n" % (o["property"], o["function"], o["line"], o["description"], o["status"]))
                u = [x for x in units if x.name == r["unit"]][0]
                try:
                    rp = replay.confirm(u, prove(u, trace=True), work)
                except Exception as e:
                    rp = dict(confirmed=False, text="no counterexample replay: %s" % e)
                f.write("   verifier counterexample:\n%s\n" % rp["text"])
                if rp["confirmed"]:
                    found = True
        line = "VIOLATION property=%s replay=%s" % (pid, replay_path)
        if not found:
            line += " no-failing-input-found"
        lines.append(line)
        nviol = 1

    # ---- evidence
    ded = [r for r in ures if not r["bounded"]]
    bnd = [r for r in ures if r["bounded"]]
    ob = sum(r["obligations"] for r in ded)
    dis = sum(r["discharged"] for r in ded if r["status"] == "proved")
    # a unit that could not be attached or decided is an open obligation, never a discharged one
    ob += sum(1 for r in ded if r["status"] == "undecided" and not r["obligations"])
    undecided = [dict(unit=r["unit"], functions=r["covers"], reason=r["reason"]) for r in ures if r["status"] == "undecided"]
    cov = dict(
        obligations=ob, discharged=dis,
        checker_cmd=next((r["checker_cmd"] for r in ures if r.get("checker_cmd")), "cbmc"),
        trusted_base=TRUSTED,
        units_proved=sum(r["status"] == "proved" for r in ded), units=len(ded),
        functions_under_contract=sorted({c for r in ded if r["status"] == "proved" for c in r["covers"]}),
        per_unit=[dict(unit=r["unit"], status=r["status"], obligations=r["obligations"], discharged=r["discharged"],
                       backend=r.get("backend"), solver_s=round(r.get("solver_s", 0), 2), wall_s=r.get("wall_s"),
                       functions=r["covers"], bounded=r["bounded"], reason=r.get("reason", "")) for r in ures],
        solver_s=round(sum(r.get("solver_s", 0) for r in ures), 2),
        undecided=undecided,
        bounded=[dict(kind="cbmc-bounded", unit=r["unit"], bound=r["bounded"], status=r["status"]) for r in bnd] +
                [dict(kind="executable-contract", harness=r["job"]["harness"], build=r["variant"], bound=r["job"]["bound"],
                      ok=r["ok"], evaluations=r["evaluations"], nontrivial=r["nontrivial"], wall_s=r.get("wall"),
                      error=r.get("error", "")) for r in nres],
        evaluations=sum(r["evaluations"] for r in nres),
        distinct_nontrivial=sum(r["nontrivial"] for r in nres),
        rule="; ".join(sorted({r["job"]["bound"] for r in nres})) or "none",
        samples=[s for r in nres for s in r["samples"]][:6] or ["(deductive obligations only)"],
        explanation="deductive obligations (CBMC contracts on the code extracted from /repo on this run) decide the units listed in per_unit; "
                    "entries under bounded are executable contracts on the compiled code within the stated bound and are not counted as proved",
    )
    assumptions = sorted({n for r in ures for n in r["notes"]}) + list(cx.TRANSFORMS)
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL.get(pid, "other"), coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    if not only:
        json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)

    kf = HERE + "/KNOWN_FINDINGS"
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith("known: property=%s " % pid):
                print("KNOWN-FINDING: " + l[len("known: "):].strip())
    for r in ures:
        print("unit %-42s %-9s %4d/%-4d solver %6.1fs wall %6.1fs %s" % (r["unit"], r["status"], r["discharged"], r["obligations"],
              r.get("solver_s", 0), r.get("wall_s", 0), r.get("reason", "")[:300]))
        for o in r["failed"][:5]:
            print("     failed: %s (%s:%s)" % (o["description"], o["function"], o["line"]))
    for r in nres:
        print("bounded %-30s %-8s %s evals=%d nontrivial=%d wall=%ss %s" % (r["job"]["harness"], r["variant"],
              "ok" if r["ok"] else "FAIL" if r["failure"] else "ERROR", r["evaluations"], r["nontrivial"], r.get("wall"),
              (r["failure"] or {}).get("message", "") or r.get("error", "") or ("" if r["ok"] else r.get("stderr", "")[-300:])))
        if r["failure"]:
            print("     input: " + r["failure"]["input"][:1500])
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if lines else 0


if __name__ == "__main__":
    sys.exit(main())
