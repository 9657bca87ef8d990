"""Mechanical extraction of the code under verification from /repo.

Everything the verifier sees is the text of /repo/tg.c (amalgamated build), preprocessed by gcc -E on
every run, with the transformations listed in TRANSFORMS and nothing else.  Loop contracts are inserted
between a loop's header and its body; no executable token is added, removed or reordered by that.
"""
import os, re, subprocess, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")

TRANSFORMS = [
    "T1: gcc/x86-64 inline asm 'OPsd/OPss %1, %0' (OP in min,max) in floating min/max helpers is replaced by its "
    "architectural meaning dst = dst OP src ? dst : src (Intel SDM MINSD/MAXSD/MINSS/MAXSS); the verifier has no asm semantics. "
    "Any other asm statement aborts extraction.",
    "T2: a block-scope 'const uint8_t _ = 0;' used as an initialiser element of a static table is turned into "
    "'enum { _ = 0 };' (goto-cc rejects the GNU constant-folding extension). Same values.",
    "T4: __builtin_isfinite(e) of a double is written __CPROVER_isfinited(e), the verifier's predicate of the same meaning.",
    "T3: __attribute__((...)), GCC diagnostic pragmas and static_assert disappear or are ignored; function bodies are untouched.",
    "T5: inside the anonymous union of struct tg_geom the member 'struct multi *multi;' is listed right after the first member "
    "(CBMC tracks a pointer kept in a union under its first pointer member). Member order of a union has no meaning in C.",
]


class ExtractError(Exception):
    pass


def _asm_sub(src):
    rx = re.compile(r'(?:__asm__|__asm|asm)\s*(?:volatile\s*)?\(\s*"(min|max)(sd|ss)\s+%1,\s*%0"\s*:\s*"\+x"\s*\((\w+)\)\s*:\s*"x"\s*\((\w+)\)\s*\)\s*;')
    out = rx.sub(lambda m: "%s = %s %s %s ? %s : %s;" % (m[3], m[3], "<" if m[1] == "min" else ">", m[4], m[3], m[4]), src)
    return out


def source(path=None):
    path = path or os.path.join(REPO, "tg.c")
    with open(path, errors="surrogateescape") as f:
        return f.read()


def preprocess(src, outdir, defs=(), name="tg"):
    """src text -> preprocessed text (no line markers)."""
    src = _asm_sub(src)
    src = re.sub(r'const uint8_t _ = 0;(\s*static const uint8_t \w+\[256\])', r'enum { _ = 0 };\1', src)
    p = os.path.join(outdir, name + "_x.c")
    with open(p, "w", errors="surrogateescape") as f:
        f.write(src)
    cmd = ["gcc", "-E", "-P", "-I", REPO, "-D_FORTIFY_SOURCE=0", *defs, p]
    r = subprocess.run(cmd, capture_output=True, text=True, errors="surrogateescape")
    if r.returncode:
        raise ExtractError("preprocess failed: " + r.stderr[-500:])
    txt = r.stdout
    txt = re.sub(r'\b__builtin_isfinite\b', '__CPROVER_isfinited', txt)
    txt = re.sub(r'(struct\s+tg_geom\s*\{[^{}]*union\s*\{[^;{}]*;)([^{}]*?)(\s*struct\s+multi\s*\*\s*multi\s*;)', r'\1\3\2', txt)
    if re.search(r'\b(?:asm|__asm__|__asm)\s*(?:volatile|__volatile__)?\s*\(\s*"(?!"|\w*\b__isoc)', re.sub(r'__asm__\s*\(\s*""', '', txt)):
        raise ExtractError("inline asm without a known meaning")
    return txt


TOK = re.compile(r'''("(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[A-Za-z_]\w*|\d[\w.]*|\s+|.)''', re.S)


def match_close(txt, i, o, c):
    """txt[i]==o ; returns index of matching close"""
    d = 0
    n = len(txt)
    while i < n:
        ch = txt[i]
        if ch in "\"'":
            q = ch
            i += 1
            while txt[i] != q:
                if txt[i] == "\\":
                    i += 1
                i += 1
        elif ch == o:
            d += 1
        elif ch == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ExtractError("unbalanced " + o)


def find_function(txt, name):
    """returns (start_of_decl, body_open, body_close) of the definition of `name`."""
    for m in re.finditer(r'\b' + re.escape(name) + r'\s*\(', txt):
        try:
            p = match_close(txt, m.end() - 1, "(", ")")
        except ExtractError:
            continue
        q = p + 1
        while q < len(txt) and txt[q].isspace():
            q += 1
        if q < len(txt) and txt[q] == "{":
            # must be at file scope: previous non-ident context is a type, not '=' or ';' inside function
            s = m.start()
            # go back to start of declaration
            k = s
            while k > 0 and txt[k - 1] not in ";}{":
                k -= 1
            return k, q, match_close(txt, q, "{", "}")
    return None


def find_loops(txt, a, b):
    """loops in txt[a:b] in textual order: list of dict(kind, start, hdr_end, hdr, body_end)"""
    loops = []
    i = a
    stack = []
    # plain scan on keywords
    for m in re.finditer(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\b(for|while|do)\b', txt[a:b]):
        kw = m.group(1)
        if not kw:
            continue
        pos = a + m.start()
        if kw == "do":
            j = a + m.end()
            while txt[j].isspace():
                j += 1
            if txt[j] != "{":
                raise ExtractError("do without block")
            e = match_close(txt, j, "{", "}")
            w = re.compile(r'\s*while\s*').match(txt, e + 1)
            if not w:
                raise ExtractError("do without while")
            wp = w.end()
            we = match_close(txt, wp, "(", ")")
            loops.append(dict(kind="do", start=pos, hdr_end=a + m.end(), hdr=txt[wp:we + 1], body_end=we + 1, dowhile=(e + 1, we + 1)))
        else:
            j = a + m.end()
            while txt[j].isspace():
                j += 1
            e = match_close(txt, j, "(", ")")
            if kw == "while" and any(l["kind"] == "do" and l["dowhile"][0] <= pos < l["dowhile"][1] for l in loops):
                continue
            loops.append(dict(kind=kw, start=pos, hdr_end=e + 1, hdr=txt[j:e + 1]))
    return loops
