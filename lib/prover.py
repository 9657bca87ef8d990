"""L1: deductive obligations.  A unit (proofs/<name>.c) carries contracts, loop contracts and a harness in text
form; this module attaches them to the code extracted from /repo on this run and asks CBMC to discharge them."""
import os, re, json, subprocess, time, shutil, resource
from . import cextract as cx

MEM = 7 << 30


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


class Unit:
    """directives in //@ lines:
    property ID...      properties this unit is an obligation of
    enforce F[/C]       function put under contract (callers see only the contract)
    rec                 enforce as recursive contract
    replace F[/C] ...   callees replaced by their contract
    loop F N            the lines up to '//@ end' are the loop contract of loop N (0-based) of F
    nloops F N          F must have exactly N loops, otherwise the unit cannot be attached
    entry NAME          harness function (default harness)
    unwind SET...       cbmc --unwindset entries
    solver sat|cvc5|z3|bitwuzla
    timeout S
    checks off          only user assertions / contract clauses (no UB checks)
    def -DX             preprocessor flags
    plain               no dfcc: the harness states pre/postcondition by assume/assert (loop-free or fully unwound code)
    covers F...         functions whose body is inside the obligation (for evidence)
    ghost DECL          ghost variable declared before the code (so loop contracts can name it)
    fptr F::P/G         calls through function pointer P of F: G is the callback given by the harness (the verifier checks that)
    hoist STRUCT F      the definition of STRUCT is moved before function F (so that a loop contract in F can name its members)
    stub F G...         calls of G inside F go to G__c, which states G's contract in the unit (G may be F: recursion)
    anyvalue F EXPR     the floating-point expression EXPR in F becomes an arbitrary double (a proof for every value is one for its value)
    umul F X*Y          the product X*Y in F becomes an uninterpreted function of X and Y: a proof for every such function is one for
                        multiplication (that the product does not overflow is then not an obligation of this unit)
    opaque STRUCT F...  frame obligation discharged by the type checker: every function outside F... compiles with STRUCT
                        left incomplete, so it can depend on and change the object only through the functions F...
    use NAME...         proofs/NAME.h (shared specifications) is put before the unit
    note ...            assumptions that remain (evidence)
    tier thorough       only in the thorough tier
    bounded TEXT        the unit is a bounded stand-in with this bound (never counted as proved)
    remove F ...        the body of F is dropped before attaching (its contract or havoc stands in): listed as assumption
    flags ...           extra cbmc flags
    """

    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-2]
        self.props, self.replace, self.loops, self.nloops, self.unwind = [], [], [], [], []
        self.defs, self.covers, self.notes, self.remove, self.flags = [], [], [], [], []
        self.enforce = None
        self.rec = False
        self.entry = "harness"
        self.solver = "sat"
        self.timeout = 200
        self.checks = True
        self.plain = False
        self.tier = "quick"
        self.bounded = None
        self.objbits = None
        self.opaque = None
        self.fptr, self.hoist, self.stubs, self.umul, self.anyv = [], [], [], [], []
        self.ghosts = []
        code, loop = [], None
        for line in open(path):
            s = line.strip()
            if s.startswith("//@"):
                w = s[3:].split()
                k, a = w[0], w[1:]
                if k == "end":
                    self.loops.append(loop)
                    loop = None
                elif k == "loop":
                    loop = (a[0], int(a[1]), [])
                elif k == "property":
                    self.props += a
                elif k == "enforce":
                    self.enforce = a[0]
                elif k == "rec":
                    self.rec = True
                elif k == "replace":
                    self.replace += a
                elif k == "nloops":
                    self.nloops.append((a[0], int(a[1])))
                elif k == "entry":
                    self.entry = a[0]
                elif k == "unwind":
                    self.unwind += a
                elif k == "solver":
                    self.solver = a[0]
                elif k == "timeout":
                    self.timeout = int(a[0])
                elif k == "checks":
                    self.checks = a[0] != "off"
                elif k == "use":
                    for x in a:
                        h = os.path.join(os.path.dirname(path), x + ".h")
                        if not os.path.exists(h):
                            h = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "proofs", x + ".h")
                        code.append(open(h).read())
                elif k == "ghost":
                    self.ghosts.append(s[3:].strip()[5:].strip())
                elif k == "opaque":
                    self.opaque = self.opaque or [a[0]]
                    self.opaque += a[1:]
                elif k == "fptr":
                    self.fptr += a
                elif k == "stub":
                    self.stubs += [(a[0], g) for g in a[1:]]
                elif k == "anyvalue":
                    self.anyv.append((a[0], " ".join(a[1:])))
                elif k == "umul":
                    self.umul.append((a[0], "".join(a[1:])))
                elif k == "hoist":
                    self.hoist.append((a[0], a[1]))
                elif k == "plain":
                    self.plain = True
                elif k == "def":
                    self.defs += a
                elif k == "covers":
                    self.covers += a
                elif k == "note":
                    self.notes.append(" ".join(a))
                elif k == "tier":
                    self.tier = a[0]
                elif k == "bounded":
                    self.bounded = " ".join(a)
                elif k == "remove":
                    self.remove += a
                elif k == "flags":
                    self.flags += a
                elif k == "objbits":
                    self.objbits = a[0]
                else:
                    raise SystemExit("%s: unknown directive %s" % (path, k))
                code.append("\n")
                continue
            if loop is not None:
                loop[2].append(line)
                code.append("\n")
            else:
                code.append(line)
        self.code = "".join(code)
        if self.enforce and self.enforce.split("/")[0] not in self.covers:
            self.covers.insert(0, self.enforce.split("/")[0])


def attach(unit, txt):
    """extracted text + loop contracts + contracts -> text for goto-cc"""
    ins = []
    for st, f in unit.hoist:
        m = re.search(r'struct\s+%s\s*\{' % re.escape(st), txt)
        loc = cx.find_function(txt, f)
        if not m or not loc:
            raise cx.ExtractError("struct %s or function %s not found" % (st, f))
        if loc[0] < m.start():
            semi = txt.index(";", cx.match_close(txt, m.end() - 1, "{", "}")) + 1
            txt = txt[:loc[0]] + "\n" + txt[m.start():semi] + "\n" + txt[loc[0]:m.start()] + txt[semi:]
    for f, ex in unit.umul:
        loc = cx.find_function(txt, f)
        if not loc:
            raise cx.ExtractError("function %s not found" % f)
        x, y = ex.split("*")
        rx = r'(?<![\w.>])%s\s*\*\s*%s(?![\w.(\[]|->)' % (r'\s*'.join(re.escape(t) for t in re.findall(r'\w+|\W', x)), r'\s*'.join(re.escape(t) for t in re.findall(r'\w+|\W', y)))
        body, n = re.subn(rx, "__CPROVER_uninterpreted_mul(%s, %s)" % (x, y), txt[loc[1]:loc[2]])
        if not n:
            raise cx.ExtractError("no product %s in %s" % (ex, f))
        txt = txt[:loc[0]] + "\nint __CPROVER_uninterpreted_mul(int, int);\n" + txt[loc[0]:loc[1]] + body + txt[loc[2]:]
    for f, ex in unit.anyv:
        loc = cx.find_function(txt, f)
        if not loc:
            raise cx.ExtractError("function %s not found" % f)
        rx = r'\s*'.join(re.escape(t) for t in re.findall(r'\w+|\S', ex))
        body = re.sub(rx, "nondet_anyd()", txt[loc[1]:loc[2]])
        txt = txt[:loc[0]] + ("" if "double nondet_anyd" in txt else "\ndouble nondet_anyd(void);\n") + txt[loc[0]:loc[1]] + body + txt[loc[2]:]
    for f, g in unit.stubs:
        loc, gl = cx.find_function(txt, f), cx.find_function(txt, g)
        if not loc or not (gl or g in LIBC):
            raise cx.ExtractError("function %s or %s not found" % (f, g))
        proto = re.sub(r'\b%s\s*\(' % re.escape(g), g + "__c(", txt[gl[0]:gl[1]] if gl else LIBC[g], count=1).strip() + ";\n"
        body = re.sub(r'\b%s\s*\(' % re.escape(g), g + "__c(", txt[loc[1]:loc[2]])
        txt = txt[:loc[0]] + "\n" + proto + txt[loc[0]:loc[1]] + body + txt[loc[2]:]
    for f, n in unit.nloops:
        loc = cx.find_function(txt, f)
        if not loc:
            raise cx.ExtractError("function %s not found" % f)
        if len(cx.find_loops(txt, loc[1], loc[2])) != n:
            raise cx.ExtractError("function %s does not have %d loops" % (f, n))
    for f, n, lines in unit.loops:
        loc = cx.find_function(txt, f)
        if not loc:
            raise cx.ExtractError("function %s not found" % f)
        ls = cx.find_loops(txt, loc[1], loc[2])
        if n >= len(ls):
            raise cx.ExtractError("function %s has no loop %d" % (f, n))
        ins.append((ls[n]["hdr_end"], "\n" + "".join(lines)))
    for f in unit.remove:
        loc = cx.find_function(txt, f)
        if not loc:
            raise cx.ExtractError("function %s not found" % f)
        ins.append((loc[1], None, loc[2]))
    for it in sorted(ins, reverse=True, key=lambda t: t[0]):
        if len(it) == 3:
            txt = txt[:it[0]] + ";" + txt[it[2] + 1:]
        else:
            txt = txt[:it[0]] + it[1] + txt[it[0]:]
    return "".join(g + "\n" for g in unit.ghosts) + txt + "\n\n" + PRELUDE + unit.code


LIBC = {  # prototypes of C library functions whose contract a unit may state itself (stub F memset)
    "memset": "void *memset(void *p, int c, unsigned long n)",
    "memcpy": "void *memcpy(void *p, const void *q, unsigned long n)",
    "memmove": "void *memmove(void *p, const void *q, unsigned long n)",
    "memcmp": "int memcmp(const void *p, const void *q, unsigned long n)",
    "strlen": "unsigned long strlen(const char *s)",
    "qsort": "void qsort(void *p, unsigned long n, unsigned long z, int (*f)(const void *, const void *))",
}
PRELUDE = r'''
#define bool _Bool
#define true 1
#define false 0
#define RET __CPROVER_return_value
#define REQ __CPROVER_requires
#define ENS __CPROVER_ensures
#define ASG __CPROVER_assigns
#define OLD __CPROVER_old
#define FRESH __CPROVER_is_fresh
#define ASSUME __CPROVER_assume
#define ASSERT(c, msg) __CPROVER_assert(c, msg)
#define REACH(c, msg) __CPROVER_assert(!(c), "reach:" msg)
#define IMPL(a, b) (!(a) || (b))
#define FINITE(d) ((d) > -__builtin_inf() && (d) < __builtin_inf())
#define FINF(d) ((d) > -__builtin_inff() && (d) < __builtin_inff())
#define PFIN(p) (FINITE((p).x) && FINITE((p).y))
#define SFIN(s) (PFIN((s).a) && PFIN((s).b))
#define RFIN(r) (PFIN((r).min) && PFIN((r).max))
#define PEQ(p, q) ((p).x == (q).x && (p).y == (q).y)
#define SEQ(s, t) (PEQ((s).a, (t).a) && PEQ((s).b, (t).b))
#define REQL(r, q) (PEQ((r).min, (q).min) && PEQ((r).max, (q).max))
#define PZERO(p) ((p).x == 0 && (p).y == 0)
#define RZERO(r) (PZERO((r).min) && PZERO((r).max))
#define INRECT(r, p) ((r).min.x <= (p).x && (p).x <= (r).max.x && (r).min.y <= (p).y && (p).y <= (r).max.y)
#define MIN2(a, b) ((a) < (b) ? (a) : (b))
#define MAX2(a, b) ((a) > (b) ? (a) : (b))
/* libm models (trusted, see registry.TRUSTED): next representable value */
float nextafterf(float x, float y) {
    union { float f; unsigned u; } v = { .f = x };
    if (x != x || y != y) return __builtin_nanf("");
    if (x == y) return y;
    if (x == 0) { v.u = 1; return y > 0 ? v.f : -v.f; }
    if ((x > 0) == (y > x)) v.u++; else v.u--;
    return v.f;
}
double nexttoward(double x, long double y) {
    union { double f; unsigned long u; } v = { .f = x };
    if (x != x || y != y) return __builtin_nan("");
    if (x == y) return (double)y;
    if (x == 0) { v.u = 1; return y > 0 ? v.f : -v.f; }
    if ((x > 0) == (y > x)) v.u++; else v.u--;
    return v.f;
}
static inline bool nd_bool(void) { bool b; return b ? 1 : 0; }
#define BITS(d) (((union { double f; unsigned long u; }){ .f = (d) }).u)
'''


def _expand(text):
    """gcc -E has already run on the code; expand the unit macros with a second pass over the appended part only."""
    return text


def run(cmd, timeout, **kw):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=_limit, start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace"), time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, "", "timeout", time.time() - t


def prove_opaque(unit, d, txt, res):
    """frame obligations by parametricity: one per function that mentions the type and is not named in the unit"""
    st, allowed = unit.opaque[0], set(unit.opaque[1:])
    res["backend"] = "gcc type checker (incomplete type)"
    m = re.search(r'struct\s+%s\s*\{' % re.escape(st), txt)
    if not m:
        raise cx.ExtractError("struct %s not found" % st)
    o = txt.index("{", m.start())
    c = cx.match_close(txt, o, "{", "}")
    semi = txt.index(";", c)
    if txt[c + 1:semi].strip():
        raise cx.ExtractError("struct %s is declared together with an object" % st)
    cut = [(m.start(), semi + 1, "struct %s;" % st)]
    for f in allowed:
        loc = cx.find_function(txt, f)
        if loc:
            cut.append((loc[1], loc[2] + 1, ";"))
    users = []
    for g in re.finditer(r'\b(\w+)\s*\(([^()]*\bstruct\s+%s\b[^()]*)\)\s*\{' % re.escape(st), txt[m.start():]):
        if g.group(1) not in allowed:
            users.append(g.group(1))
    for a, b, r in sorted(cut, reverse=True):
        txt = txt[:a] + r + txt[b:]
    src = os.path.join(d, "u.c")
    with open(src, "w", errors="surrogateescape") as f:
        f.write(txt)
    rc, out, err, dt = run(["gcc", "-std=gnu11", "-fsyntax-only", "-w", "-fmax-errors=2000", src], 120)
    bad = sorted(set(re.findall(r"In function .(\w+)'?", err.replace("\u2018", "").replace("\u2019", "'"))))
    res["obligations"] = len(users)
    res["covers"] = users
    res["solver_s"] = dt
    res["checker_cmd"] = "gcc -fsyntax-only with struct %s incomplete" % st
    if rc != 0:
        res["discharged"] = max(0, len(users) - len(bad))
        res["reason"] = "functions outside the contract set use the representation of struct %s: %s" % (st, ", ".join(bad[:20]) or err[-300:])
        return res
    res["discharged"] = len(users)
    res["status"] = "proved" if users else "undecided"
    return res


def prove(unit, workdir, base_txt, trace=False):
    """-> dict(status = proved|failed|undecided, obligations, discharged, failed=[...], reach=[...], ...)"""
    res = dict(unit=unit.name, status="undecided", obligations=0, discharged=0, failed=[], solver_s=0.0, reason="",
               backend="cbmc/" + unit.solver, covers=unit.covers, bounded=unit.bounded, notes=unit.notes)
    t0 = time.time()
    d = os.path.join(workdir, unit.name)
    os.makedirs(d, exist_ok=True)
    try:
        if unit.opaque:
            return prove_opaque(unit, d, base_txt, res)
        txt = attach(unit, base_txt)
        src = os.path.join(d, "u.c")
        with open(src, "w", errors="surrogateescape") as f:
            f.write(txt)
        steps = [["goto-cc", "--function", unit.entry, src, "-o", d + "/a.gb"],
                 ["goto-instrument", *[x for t in unit.fptr for x in ("--restrict-function-pointer-by-name", t)],
                  "--drop-unused-functions", d + "/a.gb", d + "/a1.gb"]]
        final = d + "/a1.gb"
        if not unit.plain:
            cmd = ["goto-instrument", "--dfcc", unit.entry]
            if unit.enforce:
                cmd += ["--enforce-contract-rec" if unit.rec else "--enforce-contract", unit.enforce]
            for r in unit.replace:
                cmd += ["--replace-call-with-contract", r]
            if unit.loops or "__CPROVER_loop_invariant" in unit.code:
                cmd += ["--apply-loop-contracts"]
            cmd += [final, d + "/b.gb"]
            steps.append(cmd)
            final = d + "/b.gb"
        for s in steps:
            rc, o, e, _ = run(s, 180)
            if rc != 0:
                res["reason"] = "%s failed: %s" % (s[0], (e + o)[-600:])
                return res
        cmd = ["cbmc", final, "--json-ui", "--no-standard-checks"]
        if not unit.plain:
            pass
        if unit.checks:
            cmd += ["--bounds-check", "--pointer-check", "--signed-overflow-check", "--div-by-zero-check", "--undefined-shift-check"]
        if unit.unwind:
            cmd += ["--unwindset", ",".join(unit.unwind), "--unwinding-assertions"]
        else:
            cmd += ["--unwinding-assertions"]
        if unit.solver in ("cvc5", "z3", "bitwuzla"):
            cmd += ["--" + unit.solver]
        if unit.objbits:
            cmd += ["--object-bits", unit.objbits]
        cmd += unit.flags
        if trace:
            cmd += ["--trace"]
        res["checker_cmd"] = " ".join(["cbmc", "<goto-binary>"] + cmd[2:])
        rc, o, e, dt = run(cmd, unit.timeout)
        res["cbmc_s"] = round(dt, 2)
        if rc is None:
            res["reason"] = "solver timeout after %ds" % unit.timeout
            return res
        try:
            js = json.loads(o)
        except ValueError:
            res["reason"] = "cbmc output unreadable: rc=%s %s" % (rc, (o + e)[-400:])
            return res
        results, msgs = None, []
        for it in js:
            if "result" in it:
                results = it["result"]
            if "messageText" in it:
                msgs.append(it["messageText"])
        for m in msgs:
            k = re.match(r"Runtime Solver: ([\d.e+-]+)s", m)
            if k:
                res["solver_s"] += float(k.group(1))
        if results is None:
            res["reason"] = "cbmc gave no result: " + " | ".join(msgs[-3:])[-400:]
            return res
        # library internals of the contract instrumentation are assumptions checks too; keep them as obligations
        for r in results:
            desc = r.get("description", "")
            if desc.startswith("reach:"):
                res.setdefault("reach", []).append((desc[6:], r["status"]))
                continue
            res["obligations"] += 1
            if r["status"] == "SUCCESS":
                res["discharged"] += 1
            else:
                loc = r.get("sourceLocation", {})
                res["failed"].append(dict(property=r.get("property"), description=desc, status=r["status"],
                                          function=loc.get("function"), line=loc.get("line"),
                                          trace=r.get("trace") if trace else None))
        unre = [n for n, s in res.get("reach", []) if s != "FAILURE"]
        hard = [f for f in res["failed"] if "unwinding assertion" not in f["description"] and "recursion unwinding" not in f["description"]]
        if any(f["status"] != "FAILURE" for f in hard):
            res["reason"] = "some obligations have status " + ",".join(sorted({f["status"] for f in res["failed"]}))
            hard = [f for f in hard if f["status"] == "FAILURE"]
        soft = len(res["failed"]) != len(hard)
        if soft:
            # some loop has no contract and was cut: what the solver then says about the rest is not decisive
            res["reason"] = "unwinding bound reached (a loop without contract, or a changed bound)"
            return res
        if hard:
            res["status"] = "failed"
            res["failed"] = hard
        elif res["obligations"] == 0:
            res["reason"] = "no obligations"
        elif not res.get("reach"):
            res["reason"] = "no reachability check in unit"
        elif unre:
            res["reason"] = "vacuous: not reachable: " + ", ".join(unre)
            res["status"] = "undecided"
        else:
            res["status"] = "proved"
        return res
    except cx.ExtractError as ex:
        res["reason"] = "contract cannot be attached: %s" % ex
        return res
    finally:
        res["wall_s"] = round(time.time() - t0, 2)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
