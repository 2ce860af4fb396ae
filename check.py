#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]

Builds the library from /repo's working tree, explores the bounded space of
the property exhaustively on the real code, writes evidence/<id>.json and
exits 0 (held everywhere) or 1 (with a VIOLATION line).  See DESIGN.md.
"""
import sys, os, json, time, re, subprocess, shutil, signal, tempfile
import concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build as B
import specs

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=6:symbolize=0"
for k in list(ENV):
    if k.startswith(("CRY_", "CFLAGS", "CPPFLAGS", "MAKEFLAGS", "LDFLAGS")):
        ENV.pop(k)

def known_findings(prop):
    """Committed list: 'known: property=<id> tag=<tag> <text>' / 'fixed: ...'."""
    res = {}
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known:\s+property=(\S+)\s+tag=(\S+)\s+(.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res

def run_one(cmd, timeout, preexec=None):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        to = True
    return dict(cmd=cmd, rc=p.returncode, out=out.decode("utf-8", "replace"), err=err.decode("utf-8", "replace"),
                timeout=to, wall=time.time() - t)

def parse(r):
    st, samples, viol = {}, [], []
    for l in r["out"].splitlines():
        if l.startswith("STAT "):
            st = {}
            for kv in l.split()[1:]:
                k, _, v = kv.partition("=")
                st[k] = int(v)
        elif l.startswith("SAMPLE "):
            samples.append(l[7:])
        elif l.startswith("VIOL "):
            m = re.match(r"VIOL (\S+) \| (.*)", l)
            if m:
                viol.append((m.group(1), m.group(2)))
    return st, samples, viol

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = sys.argv[sys.argv.index("--run") + 1] if "--run" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    spec = specs.SPECS[prop]
    known = known_findings(prop)
    bdir = os.path.join(HERE, "build", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    libs, notes, fatal = {}, [], []
    tot = dict(states=0, transitions=0, traces=0)
    extra, samples, violations, knownhits, runs_ev = {}, [], [], {}, []
    try:
        runs = [r for r in spec["runs"] if tier in r.get("tiers", ("quick", "thorough")) and (not only or r["name"] == only)]
        # ---- build -------------------------------------------------------
        built = []
        for r in runs:
            vkey = json.dumps([r.get("kind", "asan"), r.get("defs", []), r.get("mods", []), r.get("libextra", [])])
            if vkey not in libs:
                d = os.path.join(bdir, "v%d" % len(libs))
                try:
                    libs[vkey] = B.build_lib(d, r.get("kind", "asan"), r.get("defs", []), r.get("mods", []), r.get("libextra", []))
                except B.BuildError as e:
                    libs[vkey] = e
        def mk(i_r):
            i, r = i_r
            vkey = json.dumps([r.get("kind", "asan"), r.get("defs", []), r.get("mods", []), r.get("libextra", [])])
            lib = libs[vkey]
            if isinstance(lib, Exception):
                return r, None, str(lib)
            exe = os.path.join(bdir, "h%d_%s" % (i, r["name"]))
            try:
                B.build_harness(exe, r["src"], lib[0], lib[1], r.get("hkind", r.get("kind", "asan")),
                                list(r.get("defs", [])) + list(r.get("hdefs", [])), ldflags=r.get("ldflags", []), opt=r.get("opt"))
            except B.BuildError as e:
                return r, None, str(e)
            return r, exe, None
        # harnesses with the same key are shared
        with cf.ThreadPoolExecutor(B.NPROC) as ex:
            uniq, mapping = {}, []
            for i, r in enumerate(runs):
                k = json.dumps([r["src"], r.get("kind", "asan"), r.get("hkind"), r.get("defs", []), r.get("hdefs", []), r.get("mods", []), r.get("libextra", []), r.get("ldflags", []), r.get("opt")])
                if k not in uniq:
                    uniq[k] = ex.submit(mk, (i, r))
                mapping.append((r, k))
            for r, k in mapping:
                _, exe, err = uniq[k].result()
                built.append((r, exe, err))
        # ---- run ---------------------------------------------------------
        jobs = []
        for r, exe, err in built:
            if exe is None:
                if r.get("build_is_property") and any(e for q, e, _ in built if q["src"] == r["src"]):
                    violations.append((r["name"], "build", "configuration no longer builds: " + err[-1500:], None))
                elif r.get("optional"):
                    notes.append("variant of run %s not available (does not build): skipped" % r["name"])
                else:
                    fatal.append(err)
                continue
            n = r.get("shards", B.NPROC)
            args = list(r.get("args", []))
            if tier == "thorough":
                args.append("--thorough")
            for t in known:
                args += ["--known", t]
            if r.get("mode"):
                args += ["--mode", r["mode"]]
            for s in range(n):
                jobs.append((r, [exe, "--shard", "%d/%d" % (s, n)] + args))
        budget = spec.get("budget", {}).get(tier, 800 if tier == "quick" else 4 * 3600)
        stop = []
        def go(job):
            r, cmd = job
            if stop:
                return job, None
            left = max(20, budget - (time.time() - t0))
            res = run_one(cmd, left)
            if any(v[0] not in known for v in parse(res)[2]):
                stop.append(1)      # a violation was found: start no further shards
            return job, res
        results = []
        with cf.ThreadPoolExecutor(B.NPROC) as ex:
            results = list(ex.map(go, jobs))
        per_run = {}
        results = [x for x in results if x[1] is not None]
        for (r, cmd), res in results:
            st, sm, vi = parse(res)
            bad = [v for v in vi if v[0] not in known]
            for v in vi:
                if v[0] in known:
                    knownhits.setdefault(v[0], v[1])
            ok = res["rc"] == 0 and not res["timeout"] and st
            if (not ok or bad) and not violations:
                # replay before report: run the same shard again, alone
                res2 = run_one(cmd, 600)
                st2, sm2, vi2 = parse(res2)
                bad2 = [v for v in vi2 if v[0] not in known]
                if res2["rc"] == 0 and not res2["timeout"] and st2 and not bad2:
                    notes.append("run %s: first execution ended abnormally (rc=%s, timeout=%s) but the replay of the same shard passed" % (r["name"], res["rc"], res["timeout"]))
                    st, sm = st2, sm2
                    if bad and bad[0][0] != "hang":
                        # deterministic harness, differing outcome: depends on uninitialised data
                        res3 = run_one(cmd, 600)
                        _, _, vi3 = parse(res3)
                        bad3 = [v for v in vi3 if v[0] not in known]
                        if bad3:
                            violations.append((r["name"], bad3[0][0], bad3[0][1], (cmd, res3)))
                elif bad2:
                    violations.append((r["name"], bad2[0][0], bad2[0][1], (cmd, res2)))
                elif res2["rc"] is not None and (res2["rc"] in (77, 78) or (res2["rc"] < 0 and res2["rc"] not in (-9, -15))):
                    violations.append((r["name"], "crash", "crash rc=%s %s" % (res2["rc"], res2["err"][-1500:]), (cmd, res2)))
                elif res2["timeout"]:
                    violations.append((r["name"], "hang", "no result within 600 s when run alone; last output: " + res2["out"][-300:], (cmd, res2)))
                else:
                    fatal.append("run %s shard %s ended with rc=%s\n%s\n%s" % (r["name"], cmd, res2["rc"], res2["out"][-1000:], res2["err"][-2000:]))
            for k, v in st.items():
                if k in tot:
                    tot[k] += v
                else:
                    extra[k] = extra.get(k, 0) + v
            pr = per_run.setdefault(r["name"], dict(states=0, transitions=0, traces=0, cpu_s=0.0))
            for k in ("states", "transitions", "traces"):
                pr[k] += st.get(k, 0)
            pr["cpu_s"] = round(pr["cpu_s"] + res["wall"], 1)
            samples += ["[%s] %s" % (r["name"], s) for s in sm[:4]]
        # ---- cross-run comparison (configuration equivalence etc.) --------
        if spec.get("post"):
            for v in spec["post"](results, parse):
                violations.append(v)
        # ---- replay artefacts ---------------------------------------------
        vpaths = []
        if violations:
            rd = os.path.join(HERE, "replays")
            os.makedirs(rd, exist_ok=True)
            for i, (rn, tag, desc, cr) in enumerate(violations[:5]):
                path = os.path.join(rd, "%s-%s-%d.txt" % (prop, rn, i))
                with open(path, "w") as f:
                    f.write("property %s\nrun %s\ntag %s\ncase %s\n" % (prop, rn, tag, desc))
                    f.write("replay: python3 check.py %s --tier %s --run %s\n" % (prop, tier, rn))
                    if cr:
                        f.write("command: %s\n--- stdout\n%s\n--- stderr\n%s\n" % (" ".join(cr[0]), cr[1]["out"][-6000:], cr[1]["err"][-6000:]))
                vpaths.append((path, rn, tag, desc))
        # ---- evidence -----------------------------------------------------
        ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "model_checking"),
                  coverage=dict(states=tot["states"], transitions=tot["transitions"],
                                traces_validated_against_impl=tot["traces"], samples=samples[:12] or ["(none)"],
                                exhaustive=not notes and not violations, bounds=spec["bounds"] + " (Figures in brackets: thorough tier.)", oracle=spec["oracle"],
                                per_run=per_run, counters=extra, notes=notes),
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for t, d in sorted(knownhits.items()):
            print("KNOWN-FINDING: property=%s %s" % (prop, known[t]))
        for n in notes:
            print("note:", n)
        print("%s %s: states=%d transitions=%d traces=%d wall=%.1fs" % (prop, tier, tot["states"], tot["transitions"], tot["traces"], time.time() - t0))
        if violations:
            for path, rn, tag, desc in vpaths:
                print("  violated in run %s [%s]: %s" % (rn, tag, desc[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, vpaths[0][0]))
            return 1
        if fatal:
            print("\n".join(fatal)[:6000])
            return 2
        return 0
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(bdir, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
