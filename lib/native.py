"""L2: executable contracts compiled natively together with /repo's code (bounded stand-ins and input search)."""
import os, re, subprocess, json, time, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CC = "clang"
FLAGS = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,float-divide-by-zero",
         "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-w", "-Wno-everything"]


def embedded_differs():
    """True when a dependency file differs from its copy embedded in tg.c (both are then judged)"""
    try:
        t = open(REPO + "/tg.c", errors="surrogateescape").read()
        for f in ("json.c", "fp.c"):
            m = re.search(r"// BEGIN %s\n(.*?)// END %s" % (f, f), t, re.S)
            d = open(REPO + "/deps/" + f, errors="surrogateescape").read()
            if not m or m.group(1).strip() != d.strip():
                return True
        return False
    except OSError:
        return True


def build_lib(outdir, variant="amalga", flags=FLAGS, extra=()):
    """-> list of objects or raises"""
    objs = []
    srcs = [("tg", REPO + "/tg.c")]
    defs = list(extra)
    if variant == "noamalga":
        defs.append("-DTG_NOAMALGA")
        srcs += [("json", REPO + "/deps/json.c"), ("fp", REPO + "/deps/fp.c")]
    tag = hashlib.md5(repr((variant, flags, defs)).encode()).hexdigest()[:8]
    ps = []
    for n, s in srcs:
        o = os.path.join(outdir, "%s_%s.o" % (n, tag))
        objs.append(o)
        if not os.path.exists(o):
            ps.append((o, subprocess.Popen([CC, *flags, *defs, "-I", REPO, "-c", s, "-o", o], stderr=subprocess.PIPE, text=True)))
    for o, p in ps:
        e = p.communicate()[1]
        if p.returncode:
            raise RuntimeError("compile failed: " + e[-800:])
    return objs


def build_harness(name, outdir, variant="amalga", flags=FLAGS, extra=(), hdefs=()):
    objs = build_lib(outdir, variant, flags, extra)
    tag = hashlib.md5(repr((variant, flags, extra, hdefs)).encode()).hexdigest()[:8]
    exe = os.path.join(outdir, "%s_%s" % (name, tag))
    cmd = [CC, *flags, *hdefs, "-I", REPO, "-I", HERE + "/native", HERE + "/native/" + name + ".c", *objs, "-lm", "-o", exe]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("harness compile failed: " + r.stderr[-1500:])
    return exe


def run_harness(exe, seed, budget, tier, extra_args=(), timeout=None):
    """-> dict(ok, evaluations, nontrivial, samples, failure)"""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="print_stacktrace=1")
    t = time.time()
    try:
        r = subprocess.run([exe, str(seed), str(budget), "1" if tier == "thorough" else "0", *extra_args],
                           capture_output=True, env=env, timeout=timeout or budget * 4 + 90)
        out, err, rc = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace"), r.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = (e.stdout or b"").decode(errors="replace"), "harness wall-clock limit", None
    res = dict(ok=False, evaluations=0, nontrivial=0, samples=[], failure=None, rc=rc, wall=round(time.time() - t, 2), stderr=err[-3000:])
    m = re.search(r"^STATS (.*)$", out, re.M)
    if m:
        d = json.loads(m.group(1))
        res["evaluations"], res["nontrivial"] = d["evaluations"], d["nontrivial"]
    res["samples"] = re.findall(r"^SAMPLE (.*)$", out, re.M)
    f = re.search(r"^FAIL (\w+): (.*?)\nINPUT (.*?)\nENDFAIL", out, re.M | re.S)
    if f:
        res["failure"] = dict(kind=f.group(1), message=f.group(2), input=f.group(3), stderr=err[-4000:])
    elif rc == 0 and m:
        res["ok"] = True
    elif rc is not None and rc != 0 and (rc < 0 or rc == 99 or "Sanitizer" in err or "runtime error" in err):
        res["failure"] = dict(kind="crash", message="harness ended with %s" % rc, input="(not recorded)", stderr=err[-4000:])
    return res
