"""Counterexample of a failed deductive obligation -> text, and where the unit has a REPLAY part, a run on the real code.

A unit that supports replay declares its inputs as globals/locals named in_* of scalar-only types, and contains a block
    //@ replay
    <C statements using in_* and the public API / static functions; 'return 1' when the property is violated>
    //@ endreplay
(kept in a side file proofs/<unit>.replay.c).  The in_* values of the solver's trace are assigned, the block is compiled together with
/repo/tg.c by gcc and executed."""
import os, re, subprocess, struct

REPO = os.environ.get("VERIF_REPO", "/repo")


def _leaves(name, v, out):
    if "members" in v:
        for m in v["members"]:
            _leaves(name + "." + m["name"], m["value"], out)
    elif "elements" in v:
        for e in v["elements"]:
            _leaves("%s[%s]" % (name, e["index"]), e["value"], out)
    elif v.get("binary") is not None:
        out[name] = (v["binary"], v.get("type", ""), v.get("data"))


def confirm(unit, res, work):
    txt, inputs = [], {}
    for o in res["failed"]:
        tr = o.get("trace") or []
        inputs = {}
        for s in tr:
            if s.get("stepType") == "assignment" and re.match(r"in_\w+", s.get("lhs", "")):
                _leaves(s["lhs"], s["value"], inputs)
        txt.append("   obligation %s: %s" % (o["property"], o["description"]))
        for k, (b, t, d) in sorted(inputs.items()):
            txt.append("      %s = %s" % (k, d))
        if inputs:
            break
    rf = unit.path[:-2] + ".replay.c"
    if not inputs or not os.path.exists(rf):
        return dict(confirmed=False, text="\n".join(txt) or "   (none)")
    init = []
    for k, (b, t, d) in inputs.items():
        n = len(b)
        if "$" in k:
            continue
        init.append("{ unsigned __int128 u_ = ((unsigned __int128)0x%xull << 64) | 0x%xull; memcpy(&%s, &u_, %d < (int)sizeof(%s) ? %d : sizeof(%s)); }" % (
            int(b, 2) >> 64, int(b, 2) & ((1 << 64) - 1), k, max(1, n // 8), k, max(1, n // 8), k))
    body = open(rf).read().replace("/*INIT*/", "\n".join(init))
    c = work + "/replay_%s.c" % unit.name
    open(c, "w").write('#include "%s/tg.c"\n#include <string.h>\n#include <stdio.h>\n#include <math.h>\n#define FINITE(d) isfinite(d)\n#define IMPL(a,b) (!(a)||(b))\n' % REPO + body)
    exe = c[:-2]
    r = subprocess.run(["gcc", "-O0", "-w", "-I", REPO, c, "-o", exe, "-lm"], capture_output=True, text=True)
    if r.returncode:
        return dict(confirmed=False, text="\n".join(txt) + "\n   replay does not compile: " + r.stderr[-300:])
    try:
        r = subprocess.run([exe], capture_output=True, text=True, timeout=20)
    except subprocess.TimeoutExpired:
        return dict(confirmed=True, text="\n".join(txt) + "\n   replay on the real code: does not return")
    ok = r.returncode == 42 or r.returncode < 0
    return dict(confirmed=ok, text="\n".join(txt) + "\n   replay on the real code: %s %s" % ("property violated" if ok else "not reproduced", r.stdout))
