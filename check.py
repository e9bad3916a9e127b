#!/usr/bin/env python3
"""Driver of the monitors:  check.py <property> quick|thorough      decide one property
                            check.py replay <file>                  re-run a recorded violation
                            check.py setup                          build everything once
See DESIGN.md.  Exit 0: held on everything explored (or only known findings); 1: VIOLATION printed;
2: the check itself could not give an answer."""
import glob, json, os, re, subprocess, sys, time, tempfile, shutil, threading, signal, fnmatch
import vbuild
from props import PROPS, INCONCLUSIVE_MAX

VERIF = os.path.dirname(os.path.abspath(__file__))
NCORES = 8
ENV = dict(os.environ)
ENV.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
           OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_btl="self,vader",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_plm_rsh_agent="/bin/false",
           OMPI_MCA_btl_base_warn_component_unused="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
SAN_ENV = dict(ASAN_OPTIONS="detect_leaks=%d:abort_on_error=0:exitcode=97:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=25",
               LSAN_OPTIONS="exitcode=0:max_leaks=2000:report_objects=0",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=0")
FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)")

# allocations are filled with these bytes in the two runs of a "fills" job: zero, and not-a-number / minus one
FILLS = ("0", "255")

def job_id(j):
    return f"{j['h']}/{j.get('variant','asan')}/{j['mode']}/np{j.get('np',1)}" + (f"/{j['tool']}" if j.get("tool") else "") + ("/fills" if j.get("fills") else "")

class Runner:
    def __init__(self, tier, seed, exes, tmp):
        self.tier, self.seed, self.exes, self.tmp = tier, seed, exes, tmp
        self.n = 0
        self.lock = threading.Lock()

    def once(self, j, a, b, hang):
        """run cases [a,b) of job j; returns dict(rc, lines, err, hung)"""
        with self.lock:
            self.n += 1
            base = os.path.join(self.tmp, f"r{self.n}")
        wd = base + ".d"
        os.makedirs(wd)
        out = base + ".out"
        np, t0 = j.get("np", 1), time.time()
        cmd = [self.exes[(j.get("variant", "asan"), j["h"])], "--seed", str(self.seed), "--from", str(a), "--to", str(b),
               "--mode", j["mode"], "--out", out] + j.get("args", [])
        if j.get("tool") == "memcheck":
            cmd = ["valgrind", "-q", "--error-limit=no", "--num-callers=25", "--fullpath-after=", "--log-file=" + base + ".vg.%p",
                   "--suppressions=/usr/share/openmpi/openmpi-valgrind.supp"] + cmd
        if np > 1:
            cmd = ["mpirun", "-n", str(np)] + cmd
        env = dict(ENV)
        for k, v in SAN_ENV.items():
            env[k] = (v % (1 if j.get("leaks") else 0)) if "%d" in v else v
        if j.get("fill"):
            env["ASAN_OPTIONS"] += ":max_malloc_fill_size=100000000:malloc_fill_byte=" + j["fill"]
        env.update(j.get("env", {}))
        env["TMPDIR"] = wd
        errf = open(base + ".err", "wb")
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf, stdin=subprocess.DEVNULL, env=env, cwd=wd,
                             start_new_session=True)
        outs = [out] if np == 1 else [f"{out}.{r}" for r in range(np)]
        last, lastpos, hung = time.time(), -1, False
        while True:
            try:
                p.wait(timeout=0.25 if time.time() - last < 3 else 1.0)
                break
            except subprocess.TimeoutExpired:
                pass
            pos = sum(os.path.getsize(o) for o in outs if os.path.exists(o))
            if pos != lastpos:
                lastpos, last = pos, time.time()
            elif time.time() - last > hang:
                hung = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        errf.close()
        lines = []
        for rk, o in enumerate(outs):
            if os.path.exists(o):
                with open(o, errors="replace") as f:
                    for ln in f:
                        try:
                            d = json.loads(ln)
                        except ValueError:
                            continue
                        d["rank"] = rk
                        lines.append(d)
        with open(base + ".err", "rb") as f:
            err = f.read()[-400000:].decode(errors="replace")
        shutil.rmtree(wd, ignore_errors=True)
        vg = ""
        for o in glob.glob(base + ".vg.*"):
            with open(o, "rb") as f:
                vg += f.read()[:4000000].decode(errors="replace")
            os.unlink(o)
        for o in outs + [base + ".err"]:
            if os.path.exists(o):
                os.unlink(o)
        if os.environ.get("CHECK_TIMES"):
            print(f"{time.time()-t0:7.1f}s {job_id(j)} [{a},{b}) fill={j.get('fill')}", file=sys.stderr)
        return dict(rc=p.returncode, lines=lines, err=err, hung=hung, vg=vg)

def crash_key(res):
    e = res["err"]
    if res["hung"]:
        return "hang", "no progress within the watchdog time"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", e)
    kind = None
    if m:
        kind = "asan:" + m.group(1)
        tail = e[m.start():]
        fr = [f for f in FRAME.findall(tail) if "/repo/src" in f[1] or f[1].startswith(vbuild.REPO)]
        fn = fr[0][0].split("(")[0] if fr else "?"
        return f"{kind}@{fn}", tail[:1500]
    m = re.search(r"(\S+):(\d+): (.*?): Assertion `(.*)' failed", e)
    if m:
        fn = m.group(3).split("(")[0].split()[-1]
        return f"assert:{m.group(4)[:80]}@{fn}", m.group(0)[:600]
    m = re.search(r"terminate called[^\n]*(\n[^\n]*what[^\n]*)?", e)
    if m:
        return "exception", m.group(0)[:600]
    m = re.search(r"On entry to\s+(\S+)\s+parameter number\s+(\d+)", e)
    if m:
        return f"blas-stop:{m.group(1)}:{m.group(2)}", m.group(0)
    return f"exit:{res['rc']}", e[-600:] or "the process ended before its workload"

def bad(res, np=1):
    """crashed, hung, or left the process (e.g. the STOP of the BLAS error handler) before the end record"""
    return res["hung"] or res["rc"] != 0 or sum(1 for d in res["lines"] if d["t"] == "end") < np

def leak_blocks(err):
    """leak reports whose stack contains a frame in the repository's sources"""
    out = {}
    for m in re.finditer(r"(?:Direct|Indirect) leak of (\d+) byte\(s\) in (\d+) object\(s\) allocated from:\n((?:    #.*\n)+)", err):
        fr = FRAME.findall(m.group(3))
        fr = [f for f in fr if "/src/" in f[1] and f[1].startswith(vbuild.REPO)]
        if not fr:
            continue
        kind = "Direct" if m.group(0).startswith("Direct") else "Indirect"
        if kind == "Indirect":
            continue
        names = [f[0].split("(")[0] for f in fr[:4]]
        out.setdefault("leak@" + "<".join(names[:2]), f"{m.group(1)} bytes leaked; allocated in " + " <- ".join(names))
    return out

VGFRAME = re.compile(r"(?:at|by) 0x[0-9A-F]+: (.+?) \((/\S+?):(\d+)\)")

def memcheck_reports(vg):
    """errors of valgrind's memcheck with a frame in the repository's sources (or in the monitor reading what the library delivered)"""
    out = {}
    for blk in re.split(r"\n==\d+== \n", vg):
        ls = [re.sub(r"^==\d+== ?", "", x) for x in blk.strip().split("\n")]
        if not ls or not re.match(r"(Conditional jump|Use of uninit|Invalid|Syscall param|Mismatched|Source and dest|Jump to|Process terminating)", ls[0]):
            continue
        top = "\n".join(ls).split("\n Address ")[0].split("\n Uninitialised value was")[0]
        fr = [f for f in VGFRAME.findall(top) if f[1].startswith(vbuild.REPO + "/src/") or f[1].startswith(vbuild.VERIF + "/harness/")]
        if not fr:
            continue
        kind = re.sub(r" of size \d+| [\(@].*", "", ls[0]).strip().replace(" ", "_")[:60]
        fn = re.sub(r"\(.*", "", fr[0][0])
        out.setdefault(f"memcheck:{kind}@{fn}", f"{ls[0]}: " + " <- ".join(f"{re.sub('[(].*', '', a)} ({os.path.basename(b)}:{c})" for a, b, c in fr[:6]))
    return out

def digest(res):
    """what a run observed, for comparison with another run of the same cases"""
    d = [[x.get("evals"), sorted(x["dist"]), sorted((k, v) for k, v in x["cnt"].items()), sorted(x["max"].items())] for x in res["lines"] if x["t"] == "end"]
    return json.dumps([d, sorted((x["case"], x["key"]) for x in res["lines"] if x["t"] == "viol")])

def ub_reports(err):
    out = {}
    for m in re.finditer(r"(/\S+?):(\d+):(\d+): runtime error: (.*)", err):
        if "/src/" not in m.group(1):
            continue
        f = os.path.basename(m.group(1))
        fn = ""
        mm = FRAME.search(err[m.end():m.end() + 600])
        if mm:
            fn = mm.group(1).split("(")[0]
        what = re.sub(r"-?\d[\d.e+-]*|0x[0-9a-f]+", "N", m.group(4))[:80]
        out.setdefault(f"ub:{what}@{fn or f}", m.group(0)[:300])
    return out

class Shard(threading.Thread):
    pass

def compare_fills(rn, j, a, b, hang, agg, viols, incon, res):
    """the same cases with other contents of freshly allocated memory must be observed to do the same"""
    def differs(a, b, first=None):
        r1 = first or rn.once(dict(j, fill=FILLS[0], leaks=0), a, b, hang)
        r2 = rn.once(dict(j, fill=FILLS[1], leaks=0), a, b, hang)
        if bad(r1) or bad(r2):
            return crash_key(r2 if bad(r2) else r1)
        return None if digest(r1) == digest(r2) else ("fill", "what the monitors observe depends on the contents of memory before it is initialised")
    d = differs(a, b, res)
    with agg["lock"]:
        agg["cnt"]["cases_compared_under_two_fills"] = agg["cnt"].get("cases_compared_under_two_fills", 0) + (b - a)
    if not d:
        return
    while b - a > 1:
        m = (a + b) // 2
        if differs(a, m):
            b = m
        elif differs(m, b):
            a = m
        else:
            break
    d2 = differs(a, b)
    with agg["lock"]:
        if d2:
            viols.append(dict(key="uninitialised_influence" if d2[0] == "fill" else "fill:" + d2[0], msg=d2[1], case=a, job=dict(j, fill=FILLS[1]), a=a, b=b))
        else:
            incon.append(dict(job=job_id(j), a=a, b=b, why="not reproduced: " + d[0], msg=d[1][:300]))

def run_job(rn, j, tier, agg, slots, viols, incon, prop):
    n = j[tier] if tier in j else j["quick"]
    np = j.get("np", 1)
    size = j.get("shard", max(1, (n + NCORES - 1) // NCORES))
    hang = j.get("hang", 90)
    shards = [(a, min(n, a + size)) for a in range(0, n, size)]
    ths = []

    def work(a0, b0):
        for _ in range(min(np, NCORES)):
            slots.acquire()
        try:
            a, crashes = a0, 0
            while a < b0:
                res = rn.once(dict(j, fill=FILLS[0]) if j.get("fills") else j, a, b0, hang)
                with agg["lock"]:
                    absorb(res, j, agg, viols, prop)
                if not bad(res, np):
                    if j.get("fills"):
                        compare_fills(rn, j, a, b0, hang, agg, viols, incon, res)
                    break
                # crashed or hung at case k
                ks = [d["case"] for d in res["lines"] if d["t"] == "begin"]
                k = max(ks) if ks else a
                key, msg = crash_key(res)
                # confirm: alone, then with its history
                conf, ca = rn.once(j, k, k + 1, hang * 2), k
                if not bad(conf, np) and k > a:
                    conf, ca = rn.once(j, a, k + 1, hang * 2), a
                if bad(conf, np):
                    key2, msg2 = crash_key(conf)
                    with agg["lock"]:
                        absorb(conf, j, agg, viols, prop)
                        viols.append(dict(key=key2, msg=msg2, case=k, job=j, a=ca, b=k + 1))
                else:
                    incon.append(dict(job=job_id(j), a=k, b=k + 1, why="not reproduced: " + key, msg=msg[:300]))
                crashes += 1
                a = k + 1
                if crashes >= 4:
                    agg["truncated"] = agg.get("truncated", 0) + (b0 - a)
                    break
        except Exception as ex:
            agg["errors"].append(repr(ex))
        finally:
            for _ in range(min(np, NCORES)):
                slots.release()
    for a, b in shards:
        t = threading.Thread(target=work, args=(a, b))
        ths.append(t)
    return ths

def absorb(res, j, agg, viols, prop):
    for d in res["lines"]:
        t = d["t"]
        if t == "end":
            if d["rank"] == 0:
                agg["evals"] += d["evals"]
            agg["dist"].update(d["dist"]) if d["rank"] == 0 else None
            for k, v in d["cnt"].items():
                if d["rank"] == 0 or not j.get("rank0_counts"):
                    agg["cnt"][k] = agg["cnt"].get(k, 0) + v
            for k, v in d["max"].items():
                agg["max"][k] = max(agg["max"].get(k, -1e308), v)
        elif t == "sample":
            if len(agg["samples"]) < 8 and d["rank"] == 0:
                agg["samples"].append(f"[{job_id(j)} case {d['case']}] {d['text']}"[:900])
        elif t == "viol":
            key = d["key"]
            if ":" in key and re.match(r"^[A-Z]\d{2}$", key.split(":")[0]):
                p, key = key.split(":", 1)
                if p != prop:
                    agg["other"][p] = agg["other"].get(p, 0) + 1
                    continue
            viols.append(dict(key=key, msg=d["msg"], case=d["case"], job=j, a=d["case"], b=d["case"] + 1, rank=d["rank"]))
        elif t == "begin":
            if d["rank"] == 0:
                agg["begun"] += 1
    if j.get("tool") == "memcheck":
        agg["cnt"]["cases_under_memcheck"] = agg["cnt"].get("cases_under_memcheck", 0) + sum(1 for d in res["lines"] if d["t"] == "begin" and d["rank"] == 0)
        for k, m in memcheck_reports(res.get("vg", "")).items():
            viols.append(dict(key=k, msg=m, case=-1, job=j, a=min([d["case"] for d in res["lines"] if d["t"] == "begin"], default=0),
                              b=1 + max([d["case"] for d in res["lines"] if d["t"] == "begin"], default=0)))
    if j.get("ub"):
        for k, m in ub_reports(res["err"]).items():
            viols.append(dict(key=k, msg=m, case=-1, job=j, a=min([d["case"] for d in res["lines"] if d["t"] == "begin"], default=0),
                              b=1 + max([d["case"] for d in res["lines"] if d["t"] == "begin"], default=0)))
    if j.get("leaks"):
        for k, m in leak_blocks(res["err"]).items():
            viols.append(dict(key=k, msg=m, case=-1, job=j, a=min([d["case"] for d in res["lines"] if d["t"] == "begin"], default=0),
                              b=1 + max([d["case"] for d in res["lines"] if d["t"] == "begin"], default=0)))

def load_known(prop):
    """lines:  known: property=<id> key=<glob> :: <what fails>      fixed: property=<id> <commit> <what failed>"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) key=(.+?) :: (.*)", ln.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res

def build_for(jobs):
    exes = {}
    by = {}
    for j in jobs:
        by.setdefault(j.get("variant", "asan"), set()).add(j["h"])
    for v, hs in by.items():
        for n, p in vbuild.build(v, sorted(hs)).items():
            exes[(v, n)] = p
    return exes

def main():
    if sys.argv[1] == "setup":
        jobs = [j for p in PROPS.values() for j in p["jobs"]]
        build_for(jobs)
        print("built")
        return 0
    if sys.argv[1] == "replay":
        rp = json.load(open(sys.argv[2]))
        j = rp["job"]
        exes = build_for([j])
        tmp = tempfile.mkdtemp(prefix="vrep")
        rn = Runner("quick", rp["seed"], exes, tmp)
        res = rn.once(j, rp["a"], rp["b"], 180)
        for d in res["lines"]:
            if d["t"] == "viol":
                print(f"case {d['case']} rank {d['rank']} key={d['key']}: {d['msg']}")
        if bad(res, j.get("np", 1)):
            print("crash:", *crash_key(res))
        for k, m in memcheck_reports(res.get("vg", "")).items():
            print(k, m)
        if j.get("fills"):
            print("digest differs under the other fill:", digest(res) != digest(rn.once(dict(j, fill=FILLS[0]), rp["a"], rp["b"], 180)))
        print(res["err"][-3000:])
        return 0
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    t0 = time.time()
    jobs = [j for j in P["jobs"] if tier == "thorough" or j.get("quick", 0) > 0]
    exes = build_for(jobs)
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="vchk")
    agg = dict(evals=0, begun=0, dist=set(), cnt={}, max={}, samples=[], other={}, errors=[], lock=threading.Lock())
    viols, incon = [], []
    slots = threading.Semaphore(NCORES)
    # multi-slot acquisition is serialised to avoid deadlock between MPI jobs
    rn = Runner(tier, seed, exes, tmp)
    big = [j for j in jobs if j.get("np", 1) > 1]
    small = [j for j in jobs if j.get("np", 1) == 1]
    try:
        ths = []
        for j in small:
            ths += run_job(rn, j, tier, agg, slots, viols, incon, prop)
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        for j in big:
            par = max(1, NCORES // j["np"])
            ths = run_job(rn, dict(j, np=j["np"]), tier, agg, threading.Semaphore(10**6), viols, incon, prop)
            lim = threading.Semaphore(par)
            def guarded(t):
                with lim:
                    t.run()
            g = [threading.Thread(target=guarded, args=(t,)) for t in ths]
            for t in g:
                t.start()
            for t in g:
                t.join()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    known = load_known(prop)
    seen_known, new = {}, []
    for v in viols:
        for g, txt in known:
            if fnmatch.fnmatchcase(v["key"], g):
                seen_known[g] = txt
                break
        else:
            new.append(v)
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get("level", "exploration"),
              coverage=dict(evaluations=agg["evals"], distinct_nontrivial=len(agg["dist"]), rule=P["rule"],
                            samples=agg["samples"] or ["none"], cases=agg["begun"],
                            observed=dict(sorted(agg["cnt"].items())), maxima=agg["max"],
                            jobs=[dict(job=job_id(j), cases=j.get(tier, j.get("quick", 0))) for j in jobs],
                            inconclusive=incon[:20], truncated_cases=agg.get("truncated", 0),
                            known_findings_seen=sorted(seen_known)),
              assumptions=P.get("assumptions", []), wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for g, txt in known:
        print(f"KNOWN-FINDING: property={prop} {txt}" + ("" if g in seen_known else " (not reached in this run)"))
    print(f"{prop} {tier}: {agg['begun']} cases, {agg['evals']} evaluations, {len(agg['dist'])} distinct, build {tb:.0f}s, wall {wall:.0f}s, inconclusive {len(incon)}")
    if new:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        done = set()
        for v in new:
            if v["key"] in done:
                continue
            done.add(v["key"])
            if len(done) > 12:
                break
            path = os.path.join(rd, f"{prop}-{len(done)}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed, **{k: v[k] for k in ("key", "msg", "case", "job", "a", "b")}), f, indent=1)
            print(f"  {v['key']} [{job_id(v['job'])} case {v['case']}]: {v['msg'][:400]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if agg["errors"]:
        print("check error:", agg["errors"][:3])
        return 2
    if agg["evals"] == 0 or len(agg["dist"]) < P.get("min_distinct", 10):
        print("check error: the monitors observed nothing")
        return 2
    for c, m in P.get("need", {}).items():
        if agg["cnt"].get(c, 0) < m:
            print(f"check error: monitor counter {c}={agg['cnt'].get(c,0)} below {m}")
            return 2
    if len(incon) > INCONCLUSIVE_MAX:
        print("check error: too many inconclusive runs", incon[:3])
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
