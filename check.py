#!/usr/bin/env python3
"""Runtime-monitoring checks for directx_math.

  check.py <PROPERTY>          run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py --replay <file>     re-run the exact case recorded in a replay file

Exit 0: held on everything observed.  Exit 1 + "VIOLATION property=.. replay=..": violated.
Exit 2: inconclusive / error of the check (build failed, watchdog fired, nothing observed).
"""
import json, os, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
EVID = os.path.join(HERE, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
CPUS = os.cpu_count() or 4

SSE3 = "+sse3"
SSE4 = SSE3 + ",+sse4.1"
AVX = SSE4 + ",+avx"
F16C = AVX + ",+f16c"
FMA = F16C + ",+fma"
AVX2 = FMA + ",+avx2"
# name -> (target features, cargo features, toolchain, cpu flags needed)
CONFIGS = {
    "noint": ("", "no_intrinsics", "stable", []),
    "sse2": ("", "", "stable", []),
    "sse3": (SSE3, "", "stable", ["pni"]),
    "sse4": (SSE4, "", "stable", ["sse4_1"]),
    "avx": (AVX, "", "stable", ["avx"]),
    "f16c": (F16C, "", "stable", ["f16c"]),
    "fma": (FMA, "", "stable", ["fma"]),
    "avx2": (AVX2, "", "stable", ["avx2", "fma", "f16c"]),
    "intel": (AVX2, "favor_intel", "stable", ["avx2", "fma", "f16c"]),
    "spec": ("", "no_intrinsics,specialization", "nightly", []),
}
# code path / build profile pairs every behavioural monitor runs on
ALL = ["noint", "sse2", "sse3", "sse4", "avx", "f16c", "fma", "avx2", "intel", "spec",
       "noint:dbg", "sse2:dbg", "avx2:dbg"]
EXTRA_THOROUGH = ["sse2:o3", "avx2:o3", "noint:o3", "sse4:dbg", "fma:dbg", "intel:dbg"]

# quick-tier workload multipliers: about ten seconds per code path
SCALE = {"C02": 100, "C03": 600, "C04": 800, "C05": 12, "C06": 16, "C07": 5, "C08": 8, "C09": 16, "C10": 150, "C11": 80,
         "C12": 80, "C13": 100, "C14": 100, "C15": 100, "C16": 120, "C17": 30, "C18": 25, "C19": 150, "C20": 60, "C22": 60, "C23": 25, "C24": 60}


class Inconclusive(Exception):
    pass


def cpu_flags():
    for l in open("/proc/cpuinfo"):
        if l.startswith("flags"):
            return set(l.split(":", 1)[1].split())
    return set()


FLAGS = cpu_flags()


def supported(cfg):
    return all(f in FLAGS for f in CONFIGS[cfg.split(":")[0]][3])


def build(cfg, features, extra_rustflags="", target_dir=None, toolchain=None, extra_args=(), crate=HARNESS, binary="dxmon"):
    base, _, prof = cfg.partition(":")
    prof = prof or "release"
    tf, feats, tc, _ = CONFIGS[base]
    tc = toolchain or tc
    f = ",".join(x for x in (features, feats) if x)
    flags = "-A warnings -C target-cpu=x86-64" + (" -C target-feature=" + tf if tf else "")
    if extra_rustflags:
        flags += " " + extra_rustflags
    td = target_dir or os.path.join(TARGET, cfg.replace(":", "_"))
    env = dict(os.environ, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("CARGO_TARGET_DIR", None)
    cmd = ["cargo", "+" + tc, "build", "--offline", "--profile", prof, "--target-dir", td]
    if f:
        cmd += ["--features", f]
    cmd += list(extra_args)
    p = subprocess.run(cmd, cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=850)
    if p.returncode != 0:
        raise Inconclusive("build of configuration %s failed:\n%s" % (cfg, p.stdout[-3000:]))
    sub = [td] + ([extra_args[list(extra_args).index("--target") + 1]] if "--target" in extra_args else []) + [prof, binary]
    return os.path.join(*sub)


def run_bin(path, args, timeout, env=None):
    t0 = time.time()
    try:
        p = subprocess.run([path] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=timeout, env=env, errors="replace")
    except subprocess.TimeoutExpired:
        raise Inconclusive("watchdog: %s did not finish in %ds" % (path, timeout))
    return p.returncode, p.stdout, p.stderr, time.time() - t0


WATCHDOG = 150 if THOROUGH else 60  # processor seconds per 256 cases (which take milliseconds each)


def parse(cfg, rc, out, err):
    """-> (result dict or None, crash violation or None)"""
    m = re.search(r"^CRASH sig=(\d+) case=(\d+) fn=(.*)$", out, re.M)
    if m:
        return None, {"func": m.group(3), "case": int(m.group(2)), "msg": "did not return" if m.group(1) in ("14", "26") else "killed by signal %s while executing" % m.group(1), "input": []}
    m = re.search(r"^RESULT (.*)$", out, re.M)
    if rc != 0 or not m:
        raise Inconclusive("monitor in configuration %s ended with code %s and no result: %s" % (cfg, rc, (out + err)[-800:]))
    return json.loads(m.group(1)), None


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    """lines 'known: property=<id> func=<name> config=<regex> input=<comma separated u32> <text>'"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) func=(\S+) config=(\S+) input=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append({"func": m.group(2), "config": m.group(3), "input": m.group(4), "text": m.group(5)})
    return out


def is_known(known, v):
    for k in known:
        if k["func"] == v["func"].replace(" ", "_") and re.fullmatch(k["config"], v["config"]) and k["input"] == ",".join(map(str, v["input"])):
            return k
    return None


# ---------------------------------------------------------------- reporting
class Report:
    def __init__(self, prop):
        self.prop, self.t0, self.viol = prop, time.time(), []
        self.coverage, self.assumptions = {}, []
        self.level = "exploration"
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for f in os.listdir(os.path.join(EVID, "replay")):
            if f.startswith(prop + "-"):
                os.remove(os.path.join(EVID, "replay", f))

    def violation(self, **v):
        self.viol.append(v)

    def finish(self):
        known = known_findings(self.prop)
        new, seen = [], set()
        for v in self.viol:
            k = is_known(known, v)
            if k:
                if k["text"] not in seen:
                    seen.add(k["text"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
            else:
                new.append(v)
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": self.coverage, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shown = set()
        for i, v in enumerate(new):
            key = (v["func"], v["config"])
            if key in shown or len(shown) >= 8:
                continue
            shown.add(key)
            path = os.path.join(EVID, "replay", "%s-%d.json" % (self.prop, len(shown)))
            with open(path, "w") as f:
                json.dump(dict(v, property=self.prop), f, indent=1)
            print("  %s [%s] case %s: %s" % (v["func"], v["config"], v.get("case"), v["msg"][:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()
        return 1 if new else 0


# ---------------------------------------------------------------- behavioural monitors
def monitor(prop, cfgs=None, rule=None, features=None, scale=None, binary_args=(), more=None):
    """more: list of functions(rep) -> dict, run before the verdict; their results go into the evidence"""
    rep = Report(prop)
    cfgs = list(cfgs or ALL) + (EXTRA_THOROUGH if THOROUGH else [])
    unsup = [c for c in cfgs if not supported(c)]
    cfgs = [c for c in cfgs if supported(c)]
    scale = (scale if scale is not None else float(SCALE.get(prop, 10))) * (10.0 if THOROUGH else 1.0)
    rounds = 3 if THOROUGH else 1
    tot = {"evaluations": 0, "distinct": 0, "checks": 0, "skipped": 0}
    per_fn, samples, per_cfg = {}, [], {}

    hung = []

    def one(ic):
        i, cfg = ic
        if hung:  # every further build would wait for the watchdog as well
            return cfg, "not run: a call did not return in configuration " + hung[0], None
        try:
            b = build(cfg, features or prop)
        except Inconclusive as e:
            return cfg, str(e), None
        res = []
        for r in range(rounds):
            seed = SEED * 1000003 + i * 101 + r
            # half-size workload on secondary code paths keeps the quick tier short
            args = ["--seed", seed, "--scale", scale if cfg.endswith("o3") or r == 0 else scale / 2] + list(binary_args) + ["--watchdog", WATCHDOG]
            rc, out, err, dt = run_bin(b, args, 3000 if THOROUGH else 700)
            res.append((seed, args, parse(cfg, rc, out, err), dt))
            if (res[-1][2][1] or {}).get("msg") == "did not return":
                hung.append(cfg)
                break
        return cfg, b, res

    with ThreadPoolExecutor(CPUS) as ex:
        results = list(ex.map(one, enumerate(cfgs)))
    unbuilt = {cfg: b[-1500:] for cfg, b, res in results if res is None}
    if "sse2" in unbuilt:
        raise Inconclusive(unbuilt["sse2"])
    for cfg, b, res in results:
        for seed, args, (r, crash), dt in res or []:
            if crash:
                rep.violation(config=cfg, seed=seed, scale=args[3], **crash)
                continue
            for fn, (ev, ch, sk, di, ratio, rcase, vi) in r["functions"].items():
                tot["evaluations"] += ev - sk
                tot["checks"] += ch
                tot["skipped"] += sk
                tot["distinct"] += di
                q = per_fn.setdefault(fn, {"checks": 0, "distinct": 0, "max_err_over_tol": 0.0, "configs": 0})
                q["checks"] += ch
                q["distinct"] += di
                q["max_err_over_tol"] = max(q["max_err_over_tol"], round(float(ratio), 4))
                q["configs"] += 1 if ch else 0
            c = per_cfg.setdefault(cfg, {"checks": 0, "run_s": 0})
            c["checks"] += sum(x[1] for x in r["functions"].values())
            c["run_s"] = round(c["run_s"] + dt, 2)
            if len(samples) < 12:
                samples += [cfg + ": " + s for s in r["samples"][:2]]
            for v in r["violations"]:
                rep.violation(config=cfg, seed=seed, scale=args[3], **v)
    silent = [f for f, q in per_fn.items() if q["checks"] == 0]
    rep.coverage = {
        "evaluations": tot["evaluations"], "distinct_nontrivial": tot["distinct"],
        "rule": rule or ("seeded random + boundary-value cases per public function; a case counts when its input tuple is distinct (per function and "
                         "code path), satisfies the documented precondition and at least one oracle comparison was made on the returned value"),
        "samples": samples, "oracle_comparisons": tot["checks"], "outside_precondition": tot["skipped"],
        "code_paths": per_cfg, "code_paths_not_runnable_on_this_cpu": unsup, "code_paths_that_do_not_build": unbuilt, "functions": per_fn,
        "functions_without_observation": silent,
    }
    rep.assumptions = ["f64 arithmetic of the reference model is accurate to far better than the stated tolerances",
                       "rustc/LLVM compile the monitored configurations the way user builds are compiled"]
    for m in more or []:
        rep.coverage.update(m(rep))
    code = rep.finish()
    if code == 0 and (silent or not per_fn):
        raise Inconclusive("nothing observed for %s" % (silent or "any function"))
    return code


# ---------------------------------------------------------------- sanitizers
TRIPLE = "x86_64-unknown-linux-gnu"
SAN = {"asan": ("-Zsanitizer=address --cfg asan", (), "AddressSanitizer"),
       "msan": ("-Zsanitizer=memory -Zsanitizer-memory-track-origins --cfg asan", ("-Zbuild-std",), "MemorySanitizer"),
       "tsan": ("-Zsanitizer=thread", ("-Zbuild-std",), "ThreadSanitizer")}
SAN_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1", TSAN_OPTIONS="report_signal_unsafe=0:halt_on_error=0:exitcode=66",
               MSAN_OPTIONS="exit_code=77")


def san_build(kind, cfg, features):
    flags, extra, _ = SAN[kind]
    return build(cfg, features, extra_rustflags=flags + " -Cunsafe-allow-abi-mismatch=sanitizer", toolchain="nightly",
                 target_dir=os.path.join(TARGET, kind + "_" + cfg.replace(":", "_")), extra_args=list(extra) + ["--target", TRIPLE])


def san_run(kind, cfg, features, seed, scale, extra=()):
    """-> (stats dict, violation or None)"""
    try:
        b = san_build(kind, cfg, features)
    except (Inconclusive, subprocess.TimeoutExpired) as e:
        return {"not_run": str(e)[-600:]}, None
    args = ["--seed", seed, "--scale", scale] + list(extra)
    rc, out, err, dt = run_bin(b, args, 3000 if THOROUGH else 600, env=SAN_ENV)
    fns = re.findall(r"^FN (.*)$", out, re.M)
    m = re.search(r"(?:ERROR|WARNING): %s: (.*)" % SAN[kind][2], err)
    mc = re.search(r"^CRASH sig=(\d+) case=(\d+) fn=(.*)$", out, re.M)
    cmd = "python3 check.py --replay-san %s %s %s %s %s" % (kind, cfg, features, seed, scale)
    if m or mc:
        where = re.search(r"(?:#\d+ .*? in )?(directx_math::\S+)", err)
        fn = (mc.group(3) if mc else None) or (fns[-1] if fns else None) or (where.group(1) if where else "unknown")
        return {"reported": True}, {"config": "%s/%s" % (kind, cfg), "func": fn, "case": int(mc.group(2)) if mc else 0, "seed": seed, "scale": scale, "input": [],
                                    "msg": "%s: %s%s" % (SAN[kind][2], m.group(1)[:200] if m else "killed by signal " + mc.group(1), " in " + where.group(1) if where else ""),
                                    "command": cmd, "report": err[:4000]}
    r = re.search(r"^RESULT (.*)$", out, re.M)
    if rc != 0 or not r:
        return {"not_run": "ended with code %s: %s" % (rc, (out + err)[-400:])}, None
    r = json.loads(r.group(1))
    return {"calls": sum(x[0] for x in r["functions"].values()), "functions": len(r["functions"]), "run_s": round(dt, 1)}, None


def sanitizers(kind, jobs, features, scale):
    def comp(rep):
        def one(ic):
            i, c = ic
            return c, san_run(kind, c, features, SEED * 1000033 + i, scale)
        with ThreadPoolExecutor(4) as ex:
            res = list(ex.map(one, enumerate(c for c in jobs if supported(c))))
        for c, (st, v) in res:
            if v:
                rep.violation(**v)
        return {SAN[kind][2]: {c: st for c, (st, v) in res}}
    return comp


MIRIFLAGS = "-Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-symbolic-alignment-check"
# Miri has no shim for the F16C conversions; the AVX2/FMA paths are interpreted with the software conversion instead
MIRI = {"noint": ("", "no_intrinsics"), "sse2": ("", ""), "sse3": (SSE3, ""), "sse4": (SSE4, ""), "avx": (AVX, ""), "fma-f16c": (AVX + ",+fma", ""), "avx2-f16c": (AVX + ",+fma,+avx2", ""),
        "intel-f16c": (AVX + ",+fma,+avx2", "favor_intel")}


def miri_cmd(cfg, features, args):
    tf, feats = MIRI[cfg]
    env = dict(os.environ, MIRIFLAGS=MIRIFLAGS, RUSTFLAGS="-A warnings" + (" -C target-feature=" + tf if tf else ""), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("CARGO_TARGET_DIR", None)
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", os.path.join(TARGET, "miri_" + cfg),
           "--features", ",".join(x for x in (features, feats) if x), "--"] + [str(a) for a in args]
    return cmd, env


def miri_run(cfg, features, args, timeout):
    cmd, env = miri_cmd(cfg, features, args)
    try:
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return None, "", "timeout"
    return p.returncode, p.stdout, p.stderr


def miri(cfgs, features, scale, light=[], shards=8):
    full, cfgs = cfgs, cfgs + light
    def comp(rep):
        cov = {}
        p = subprocess.run(["cargo", "+nightly", "miri", "setup"], cwd=HARNESS, env=dict(os.environ, CARGO_NET_OFFLINE="true"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            return {"Miri": {"not_run": p.stdout[-600:]}}
        with ThreadPoolExecutor(CPUS) as ex:
            pre = dict(zip(cfgs, ex.map(lambda c: miri_run(c, features, ["--only", "-"], 600), cfgs)))
            good = [c for c in cfgs if pre[c][0] == 0]
            jobs = [(c, i) for c in good for i in range(shards)]
            sc = {c: scale if c in full else scale / 5 for c in cfgs}
            res = list(ex.map(lambda j: (j, miri_run(j[0], features, ["--seed", SEED * 1000037 + cfgs.index(j[0]), "--scale", sc[j[0]], "--shard", "%d/%d" % (j[1], shards)],
                                                     3000 if THOROUGH else 500)), jobs))
        for c in cfgs:
            cov[c] = {"calls": 0, "functions": 0, "shards": 0} if c in good else {"not_run": pre[c][2][-400:]}
        for (c, i), (rc, out, err) in res:
            fns = re.findall(r"^FN (.*)$", out, re.M)
            m = re.search(r"error: Undefined Behavior: (.*)", err) or re.search(r"error: (abnormal termination.*|deadlock.*)", err)
            r = re.search(r"^RESULT (.*)$", out, re.M)
            seed = SEED * 1000037 + cfgs.index(c)
            if m:
                where = re.search(r"--> (/repo/\S+|\S*src/\S+)", err)
                rep.violation(config="miri/" + c, func=fns[-1] if fns else "unknown", case=0, seed=seed, scale=sc[c], input=[],
                              msg="Miri: %s at %s" % (m.group(1)[:300], where.group(1) if where else "?"), report=err[:4000],
                              command="python3 check.py --replay-miri %s %s %s %s '%s'" % (c, features, seed, sc[c], fns[-1] if fns else "-"))
            elif rc == 0 and r:
                d = json.loads(r.group(1))["functions"]
                cov[c]["calls"] += sum(x[0] for x in d.values())
                cov[c]["functions"] += len(d)
                cov[c]["shards"] += 1
            else:
                cov[c].setdefault("incomplete_shards", []).append("%d/%d after %s: %s" % (i, shards, fns[-1:], err[-300:]))
        return {"Miri": cov}
    return comp


def memory(prop):
    fam = "C01,C02,C03,C22"
    return monitor(prop, scale=4.0, more=[
        # the configurations between get a light run: one that calls an instruction its build does not have is undefined too
        miri(list(MIRI) if THOROUGH else ["noint", "sse2", "sse4", "avx2-f16c"], fam if THOROUGH else "C01,C02,C22", 0.03 if THOROUGH else 0.004,
             [] if THOROUGH else ["sse3", "avx", "fma-f16c"]),
        sanitizers("asan", ["noint", "sse2", "sse4", "avx2", "intel"] if THOROUGH else ["noint", "sse2", "avx2"], fam, 40 if THOROUGH else 4),
        sanitizers("msan", ["noint", "sse2", "sse4", "fma", "avx2", "intel"] if THOROUGH else ["avx2"], fam, 40 if THOROUGH else 4)])


def purity(prop):
    return monitor(prop, more=[sanitizers("tsan", ["noint", "sse2", "avx2"] if THOROUGH else ["sse2"], "C23", 2 if THOROUGH else 0.3)])


# ---------------------------------------------------------------- C21: offline trace checker across builds
FAMILIES = ["C%02d" % i for i in range(2, 21)] + ["C22"]


def cross_build(prop):
    """Every build executes the same seeded calls; the recorded results of the reference build (sse2) are compared
    record by record with those of every other build."""
    rep = Report(prop)
    cfgs = [c for c in ALL + (EXTRA_THOROUGH if THOROUGH else []) if supported(c)]
    unsup = [c for c in ALL if not supported(c)]
    feats = ",".join(FAMILIES)
    rounds = 8 if THOROUGH else 1
    scale = 1.0
    bins, unbuilt = {}, {}

    def b1(cfg):
        try:
            bins[cfg] = build(cfg, feats)
        except Inconclusive as e:
            unbuilt[cfg] = str(e)[-1500:]

    with ThreadPoolExecutor(6) as ex:
        list(ex.map(b1, cfgs))
    if "sse2" not in bins:
        raise Inconclusive(unbuilt.get("sse2", "reference build missing"))
    ref = os.path.join(TARGET, "c21-ref.bin")
    tot = {"records": 0, "observations": 0, "distinct": 0, "skipped": 0}
    per_cfg, per_fn, samples, desync, size = {}, {}, [], [], 0
    try:
        for r in range(rounds):
            seed = SEED * 7919 + r
            args = ["--seed", seed, "--scale", scale, "--watchdog", WATCHDOG]
            rc, out, err, dt = run_bin(bins["sse2"], args + ["--trace", ref], 900)
            res, crash = parse("sse2", rc, out, err)
            if crash:
                # a fault of the reference build alone is a difference between builds
                rc, out, err, dt = run_bin(bins["noint"], ["--seed", seed, "--scale", scale, "--only", crash["func"], "--watchdog", WATCHDOG], 900) if "noint" in bins else (1, "", "", 0)
                if rc == 0 and not parse("noint", rc, out, err)[1]:
                    rep.violation(config="sse2", seed=seed, scale=scale, command="python3 check.py C21", **crash)
                    break
                raise Inconclusive("reference build crashed: %s" % crash)
            samples = samples or ["sse2: " + s for s in res["samples"][:6]]
            size = os.path.getsize(ref)

            def one(cfg):
                rc, out, err, dt = run_bin(bins[cfg], args + ["--compare", ref], 900)
                return cfg, parse(cfg, rc, out, err), dt

            with ThreadPoolExecutor(CPUS) as ex:
                for cfg, (res, crash), dt in ex.map(one, [c for c in bins if c != "sse2"]):
                    base = dict(config=cfg, seed=seed, scale=scale)
                    if crash:
                        rep.violation(command=replay21(cfg, seed, scale, crash["func"], crash["case"]), **base, **crash)
                        continue
                    if res.get("desync"):
                        desync.append(cfg)
                    pc = per_cfg.setdefault(cfg, {"records": 0, "observations": 0, "run_s": 0})
                    pc["run_s"] = round(pc["run_s"] + dt, 1)
                    for fn, (ev, ch, sk, di, ratio, rcase, vi) in res["functions"].items():
                        pc["records"] += ev
                        pc["observations"] += ch
                        tot["records"] += ev - sk
                        tot["observations"] += ch
                        tot["distinct"] += di
                        tot["skipped"] += sk
                        per_fn[fn] = per_fn.get(fn, 0) + ch
                    for v in res["violations"]:
                        rep.violation(command=replay21(cfg, seed, scale, v["func"], v["case"]), **base, **v)
    finally:
        if os.path.exists(ref):
            os.remove(ref)
    rep.coverage = {
        "evaluations": tot["records"], "distinct_nontrivial": tot["distinct"],
        "rule": "a record is one seeded call (or small group of calls) executed in the reference build and in another build; it counts when both builds produced at least one observation and the inputs are distinct per function and build",
        "samples": samples, "observations_compared": tot["observations"], "outside_precondition": tot["skipped"], "reference_trace_bytes": size,
        "code_paths": per_cfg, "code_paths_not_runnable_on_this_cpu": unsup, "code_paths_that_do_not_build": unbuilt, "functions": per_fn,
    }
    rep.assumptions = ["the reference build is the default (SSE2) one; two builds that differ from each other within the per-call rounding bounds are accepted"]
    code = rep.finish()
    if code == 0 and desync:
        raise Inconclusive("traces of %s do not correspond to the reference" % desync)
    if code == 0 and len(per_cfg) < 3:
        raise Inconclusive("fewer than three builds compared")
    return code


def replay21(cfg, seed, scale, fn, case):
    return "python3 check.py --replay21 %s %s %s %s '%s'" % (cfg, seed, scale, case, fn)


def do_replay21(cfg, seed, scale, case, fn):
    ref = os.path.join(TARGET, "c21-replay.bin")
    args = ["--seed", seed, "--scale", scale, "--only", fn, "--case", case, "-v"]
    feats = ",".join(FAMILIES)
    run_bin(build("sse2", feats), args + ["--trace", ref], 600)
    rc, out, err, _ = run_bin(build(cfg, feats), args + ["--compare", ref], 600)
    os.remove(ref)
    print(out)
    return 1 if "VIOL" in out or "CRASH" in out else 0


CHECKS = {"C01": memory, "C21": cross_build, "C23": purity}


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        v = json.load(open(sys.argv[2]))
        if "command" in v:
            print("replay: " + v["command"])
            return subprocess.run(v["command"], shell=True, cwd=HERE).returncode
        b = build(v["config"], v["property"])
        rc, out, err, _ = run_bin(b, ["--seed", v["seed"], "--scale", v.get("scale", 1), "--only", v["func"], "--case", v["case"], "-v"], 600)
        print(out, err)
        return 1 if "VIOL" in out or "CRASH" in out else 0
    if sys.argv[1] == "--replay21":
        return do_replay21(*sys.argv[2:7])
    if sys.argv[1] == "--replay-san":
        st, v = san_run(*sys.argv[2:5], sys.argv[5], sys.argv[6])
        print(st, v and v["report"])
        return 1 if v else 0
    if sys.argv[1] == "--replay-miri":
        c, f, seed, scale, fn = sys.argv[2:7]
        rc, out, err = miri_run(c, f, ["--seed", seed, "--scale", scale, "--only", fn], 900)
        print(err[-5000:])
        return 1 if "error: Undefined Behavior" in err else 0
    if sys.argv[1] == "--setup":
        # warm the dependency builds; every check rebuilds what changed by itself
        os.makedirs(EVID, exist_ok=True)
        with ThreadPoolExecutor(CPUS) as ex:
            list(ex.map(lambda c: build(c, "C03"), [c for c in ALL if supported(c)]))
        return 0
    prop = sys.argv[1]
    try:
        if prop in CHECKS:
            return CHECKS[prop](prop)
        return monitor(prop)
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (prop, e))
        return 2
    except subprocess.TimeoutExpired as e:
        print("INCONCLUSIVE property=%s timeout %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
