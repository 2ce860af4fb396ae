"""Builds the library from /repo's working tree in a given variant."""
import os, re, subprocess, shutil, concurrent.futures as cf

REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = os.cpu_count() or 4

class BuildError(Exception):
    pass

def sources():
    """The library's own source list (subdir.mk files); all *.c as fallback."""
    out = []
    def walk(d):
        mk = os.path.join(d, "subdir.mk")
        found = False
        if os.path.exists(mk):
            txt = open(mk).read().replace("\\\n", " ")
            for m in re.finditer(r"^\s*objects-y\s*[:+]?=\s*(.*)$", txt, re.M):
                for o in m.group(1).split():
                    c = os.path.join(d, re.sub(r"\.o$", ".c", o))
                    if os.path.exists(c):
                        out.append(c); found = True
            for m in re.finditer(r"^\s*subdirs-y\s*[:+]?=\s*(.*)$", txt, re.M):
                for s in m.group(1).split():
                    if os.path.isdir(os.path.join(d, s)):
                        walk(os.path.join(d, s)); found = True
        if not found:
            for r, _, fs in os.walk(d):
                out.extend(os.path.join(r, f) for f in fs if f.endswith(".c"))
    walk(os.path.join(REPO, "src"))
    seen, res = set(), []
    for s in out:
        if s not in seen:
            seen.add(s); res.append(s)
    # sources added to the tree but reached through other makefile syntax
    return res

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout

def config_header(mods):
    """Text of cry/config.h with options removed ('-X') or added ('X' / 'X=v')."""
    txt = open(os.path.join(REPO, "include/cry/config.h")).read()
    for m in mods:
        if m.startswith("-"):
            txt = re.sub(r"^\s*#\s*define\s+%s\b.*$" % re.escape(m[1:]), "", txt, flags=re.M)
        else:
            k, _, v = m.partition("=")
            add = "\n#ifndef %s\n#define %s %s\n#endif\n" % (k, k, v)
            i = txt.rfind("#endif")
            txt = txt + add if i < 0 or not re.search(r"#ifndef\s+\w+_H_", txt) else txt[:i] + add + txt[i:]
    return txt

GCC_BASE = ["-g1", "-w", "-fno-strict-aliasing", "-fwrapv", "-fno-delete-null-pointer-checks"]
KINDS = {
    # compiler, flags for the library and for the harness
    "asan":  ("gcc", ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]),
    "opt":   ("gcc", ["-O2", "-ftrivial-auto-var-init=pattern"]),
    "plain": ("gcc", ["-O0", "-ftrivial-auto-var-init=pattern"]),
}

def build_lib(outdir, kind="asan", defs=(), mods=(), extra=()):
    """Compiles every library source; returns (list of objects, include flags)."""
    os.makedirs(outdir, exist_ok=True)
    inc = []
    if mods:
        sh = os.path.join(outdir, "inc", "cry")
        os.makedirs(sh, exist_ok=True)
        with open(os.path.join(sh, "config.h"), "w") as f:
            f.write(config_header(mods))
        inc.append("-I" + os.path.join(outdir, "inc"))
    inc += ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    cc, flags = KINDS[kind] if kind in KINDS else kind
    jobs = []
    for i, s in enumerate(sources()):
        o = os.path.join(outdir, "%03d_%s.o" % (i, os.path.basename(s)[:-2]))
        jobs.append((o, [cc, "-c", s, "-o", o] + GCC_BASE + flags + list(extra) + inc + ["-D" + d for d in defs]))
    objs = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for (o, cmd), (rc, txt) in zip(jobs, ex.map(lambda j: run(j[1]), jobs)):
            if rc != 0:
                raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), txt))
            objs.append(o)
    lib = os.path.join(outdir, "libcry.a")
    if os.path.exists(lib):
        os.unlink(lib)
    rc, txt = run(["ar", "rcs", lib] + objs)
    if rc != 0:
        raise BuildError(txt)
    return lib, inc

def build_harness(out, srcs, lib, inc, kind="asan", defs=(), libs=("-lgmpxx", "-lgmp", "-lcrypto"), ldflags=(), opt=None):
    cc, flags = KINDS[kind] if kind in KINDS else kind
    flags = [f for f in flags]
    cxx = {"gcc": "g++", "clang": "clang++"}[cc]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    cmd = [cxx, "-std=c++17", "-o", out] + [os.path.join(here, "harness", s) for s in srcs] \
        + ["-g1", "-w"] + flags + (list(opt) if opt else []) + ["-I" + os.path.join(here, "harness")] + inc \
        + ["-D" + d for d in defs] + [lib] + list(ldflags) + list(libs)
    rc, txt = run(cmd)
    if rc != 0:
        raise BuildError("harness build failed: %s\n%s" % (" ".join(cmd), txt))
