#!/usr/bin/env python3
"""Driver of the property checks.

  run.py check ID [--tier quick|thorough]   build from /repo, explore, write evidence/ID.json
  run.py replay FILE                        re-run one recorded failure
  run.py selftest                           toolchain + reference-model self tests
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GMLIB_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, ".replays")
EVID = os.path.join(VERIF, "evidence")
CXX, CLANG = "/usr/bin/g++", "clang++"
JOBS = 8
WORKERS = 8

SUP = ["-DSUPPORT_SM3_YANG15", "-DSUPPORT_SM4_LANG18"]
SIMD = ["-DCPU_FLAG_SSE2", "-DCPU_FLAG_AVX2", "-DCPU_FLAG_AES", "-DCPU_FLAG_MOVBE", "-DCPU_FLAG_BMI2",
        "-DCPU_FLAG_RDSEED", "-DCPU_FLAG_RDRAND", "-DCPU_FLAG_PCLMUL", "-msse2", "-mavx2", "-maes",
        "-mmovbe", "-mbmi2", "-mrdseed", "-mrdrnd", "-mpclmul"]
CONFIGS = {
    "plain": [],
    "portable": SUP,
    "simd": SUP + SIMD,
    "sse2": SUP + ["-DCPU_FLAG_SSE2", "-msse2"],
    "num64": SUP + ["-DCPU_FLAG_MOVBE", "-DCPU_FLAG_BMI2", "-mmovbe", "-mbmi2"],
    "avx2": SUP + ["-DCPU_FLAG_SSE2", "-DCPU_FLAG_AVX2", "-msse2", "-mavx2"],
    "lang18": ["-DSUPPORT_SM4_LANG18", "-DCPU_FLAG_AVX2", "-mavx2"],
    "yang15": ["-DSUPPORT_SM3_YANG15", "-DCPU_FLAG_MOVBE", "-mmovbe"],
    "aesonly": ["-DCPU_FLAG_AES", "-DCPU_FLAG_PCLMUL", "-DCPU_FLAG_BMI2", "-mbmi2"],
    "aespcl": ["-DCPU_FLAG_SSE2", "-DCPU_FLAG_AES", "-DCPU_FLAG_PCLMUL", "-msse2", "-maes", "-mpclmul"],
    # the library's MSVC branches over a stand-in <intrin.h>
    "msvc": SUP + SIMD + ["-D_MSC_VER=1930", "-I" + VERIF + "/harness/msvc"],
}
NEED_FLAGS = {"simd": {"avx2", "aes", "movbe", "bmi2", "rdseed", "rdrand", "pclmulqdq"},
              "msvc": {"avx2", "aes", "movbe", "bmi2", "rdseed", "rdrand", "pclmulqdq"}, "num64": {"movbe", "bmi2"}, "yang15": {"movbe"}, "lang18": {"avx2"}, "aesonly": {"bmi2"}, "avx2": {"avx2"}, "aespcl": {"aes", "pclmulqdq"}}
FEATURES = ["SSE2", "AVX2", "AES", "MOVBE", "BMI2", "RDSEED", "RDRAND", "PCLMUL"]
OPTION = dict(zip(FEATURES, ["-msse2", "-mavx2", "-maes", "-mmovbe", "-mbmi2", "-mrdseed", "-mrdrnd", "-mpclmul"]))
CPUINFO = dict(zip(FEATURES, ["sse2", "avx2", "aes", "movbe", "bmi2", "rdseed", "rdrand", "pclmulqdq"]))
OPTIONAL = {"msvc"}  # a stand-in that does not compile says nothing about the library


def option_set(mask, alg):
    """the configuration of one subset of the documented options; its name is like m8d2"""
    name = "m%02x%d" % (mask, alg)
    fs = [f for i, f in enumerate(FEATURES) if mask >> i & 1]
    CONFIGS[name] = ["-DCPU_FLAG_" + f for f in fs] + [OPTION[f] for f in fs] + [x for i, x in enumerate(SUP) if alg >> i & 1]
    NEED_FLAGS[name] = {CPUINFO[f] for f in fs}
    OPTIONAL.add(name)
    return name


def random_options(seed, n):
    """option subsets, the interacting features together or apart"""
    r, out = random.Random("options/%d" % seed), []
    while len(out) < n:
        mask = r.choice([r.getrandbits(8), r.getrandbits(8) & r.getrandbits(8), r.getrandbits(8) | r.getrandbits(8)])
        if bin(mask & 0x9f).count("1") < 2:  # RDRAND and RDSEED change nothing else
            continue
        name = option_set(mask, r.getrandbits(2))
        if name not in out and cpu_ok(name):
            out.append(name)
    return out


MODES = {
    "san": [CXX, "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
            "-fno-sanitize=alignment,nonnull-attribute", "-fno-sanitize-recover=all"],
    "opt": [CXX, "-O2", "-g1", "-DNDEBUG"],
    "o0": [CXX, "-O0", "-g1"],
    "o3": [CXX, "-O3", "-g1", "-DNDEBUG"],
    "clang": [CLANG, "-O2", "-g1", "-DNDEBUG"],
    "tsan": [CXX, "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DPBT_TSAN"],
    "fuzz": [CLANG, "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=fuzzer-no-link,address,undefined",
             "-fno-sanitize=alignment,nonnull-attribute,function", "-fno-sanitize-recover=all"],
}
COMMON = ["-std=c++17", "-w", "-I" + REPO + "/include", "-I" + VERIF + "/harness", "-I" + VERIF]
REFFLAGS = [CXX, "-std=c++17", "-O2", "-w", "-I" + VERIF]

sys.path.insert(0, VERIF)
from checks.table import CHECKS  # noqa: E402


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                if f.endswith((".h", ".hpp", ".cpp", ".inc", ".c", ".cc", ".ipp", ".inl")):
                    h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def compile_one(cmd, out):
    tmp = "%s.%d.tmp" % (out, os.getpid())
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    os.replace(tmp, out)
    return out


def lib_sources():
    return sorted(p for e in ("cpp", "cc", "c") for p in glob.glob(REPO + "/src/**/*." + e, recursive=True))


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.rh = tree_hash(REPO + "/include", REPO + "/src")
        self.vh = tree_hash(VERIF + "/harness", VERIF + "/ref")
        self.ex = cf.ThreadPoolExecutor(JOBS)
        self.jobs = {}
        cxxv = subprocess.run([CXX, "--version"], stdout=subprocess.PIPE).stdout
        self.cv = sha(cxxv)

    def obj(self, cmd, src, key):
        out = os.path.join(BUILD, key[:2], key + ".o")
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if out in self.jobs:
            return self.jobs[out]
        if os.path.exists(out):
            os.utime(out)
            f = cf.Future()
            f.set_result(out)
        else:
            f = self.ex.submit(compile_one, cmd + ["-c", src], out)
        self.jobs[out] = f
        return f

    def variant(self, check, spec, config, mode, fuzz=False):
        """starts the compilation of one test binary; returns a function that finishes it"""
        flags = MODES[mode] + COMMON + CONFIGS[config] + spec.get("flags", [])
        futs = []
        for s in lib_sources():
            mods = spec.get("lib")
            rel = os.path.relpath(s, REPO + "/src")
            if mods is not None and os.sep in rel and rel.split(os.sep)[0] in ALL_MODS - set(mods):
                continue
            futs.append(self.obj(flags, s, sha("lib", self.cv, self.rh, flags, s, read(s))))
        src = os.path.join(VERIF, "checks", spec.get("src", check + ".cpp"))
        srcs = [src, VERIF + "/harness/pbt.cpp"] + [os.path.join(VERIF, "harness", x) for x in spec.get("extra", [])]
        hf = flags + (["-DPBT_LIBFUZZER"] if fuzz else [])
        for s in srcs:
            futs.append(self.obj(hf, s, sha("har", self.cv, self.rh, self.vh, hf, s, read(s))))
        for r in spec.get("ref", []):
            s = os.path.join(VERIF, "ref", r + ".cpp")
            futs.append(self.obj(REFFLAGS, s, sha("ref", self.cv, self.vh, REFFLAGS, s)))

        def finish():
            objs = [f.result() for f in futs]
            key = sha("bin", *objs, spec.get("link", []), flags, fuzz)
            out = os.path.join(BUILD, key[:2], "%s-%s-%s-%s" % (check, config, mode, key))
            if not os.path.exists(out):
                os.makedirs(os.path.dirname(out), exist_ok=True)
                link = [f for f in MODES[mode] if not f.startswith("-fno-sanitize-recover")]
                if fuzz:
                    link = [f.replace("fuzzer-no-link", "fuzzer") for f in link]
                compile_one(link + objs + spec.get("link", []) + ["-pthread", "-ldl"], out)
            else:
                os.utime(out)
            return out
        return finish

    def plugin(self, src, config, mode):
        """the library and one source of /verif as a shared object of one configuration"""
        flags = MODES[mode] + COMMON + CONFIGS[config] + PLUGFLAGS
        s = os.path.join(VERIF, "checks", src)
        futs = [self.obj(flags, x, sha("lib", self.cv, self.rh, flags, x, read(x))) for x in lib_sources()]
        futs.append(self.obj(flags, s, sha("har", self.cv, self.rh, self.vh, flags, s, read(s))))
        r = os.path.join(VERIF, "ref", "ref_sym.cpp")
        futs.append(self.obj(REFFLAGS + PLUGFLAGS, r, sha("ref", self.cv, self.vh, REFFLAGS, PLUGFLAGS, r)))

        def finish():
            objs = [f.result() for f in futs]
            key = sha("so", *objs, flags)
            out = os.path.join(BUILD, key[:2], "%s-%s-%s.so" % (config, mode, key))
            if not os.path.exists(out):
                os.makedirs(os.path.dirname(out), exist_ok=True)
                compile_one([MODES[mode][0], "-shared", "-Wl,-Bsymbolic"] + objs, out)
            else:
                os.utime(out)
            return "%s-%s=%s" % (config, mode, out)
        return finish


def plugin_env(b, spec, tier, seed=1, notes=[], names=None):
    """starts building the plugins of a check; returns a function that gives the environment naming them"""
    if names:
        ps = [tuple(n.rsplit("-", 1)) for n in names]
        for n, _ in ps:
            if re.match(r"m[0-9a-f]{2}[0-3]$", n):
                option_set(int(n[1:3], 16), int(n[3]))
    else:
        ps = [p for p in spec.get("plugins", []) if cpu_ok(p[0]) and (tier == "thorough" or len(p) < 3)]
        k = spec.get("random_plugins", {}).get(tier, 0)
        ps += [(n, ("opt", "o0", "o3")[i % 3] if tier == "thorough" else "opt") for i, n in enumerate(random_options(seed, k))]
    fin = [(p, b.plugin(spec["plugin_src"], p[0], p[1])) for p in ps]

    def env():
        got = []
        for p, f in fin:
            try:
                got.append(f())
            except BuildError as e:
                if p[0] not in OPTIONAL:
                    raise
                notes.append("configuration %s (%s) does not build, left out" % (p[0], " ".join(CONFIGS[p[0]])))
        return {"PBT_PLUGINS": ";".join(got), "PBT_PLUGIN_NAMES": " ".join(g.split("=")[0] for g in got)} if got else {}
    return env


PLUGFLAGS = ["-fPIC", "-fvisibility=hidden"]
ALL_MODS = {"aes", "asn1", "ghash", "memory_utils", "number", "sm2", "sm3", "sm4", "sm9"}


def prune(limit=1500 << 20):
    fs = []
    for root, _, names in os.walk(BUILD):
        for n in names:
            p = os.path.join(root, n)
            try:
                st = os.stat(p)
                fs.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    fs.sort(reverse=True)
    tot = 0
    for m, sz, p in fs:
        tot += sz
        if tot > limit and time.time() - m > 600:
            try:
                os.unlink(p)
            except OSError:
                pass


def cpu_ok(config):
    need = NEED_FLAGS.get(config)
    if not need:
        return True
    try:
        have = set(re.search(r"^flags\s*:\s*(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
    except Exception:
        return True
    return need <= have


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def run_bin(exe, args, env=None, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run([exe] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def limit_mem():
    # -fsanitize needs a large address space; only cap core files
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def check(pid, tier):
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    limit_mem()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    if spec.get("py"):
        return check_py(pid, spec, tier, seed, t0)
    b = Builder()
    variants = [v for v in spec["variants"] if cpu_ok(v[0]) and (tier == "thorough" or not (len(v) > 3 and v[3] == "thorough"))]
    skipped = [v[0] for v in spec["variants"] if not cpu_ok(v[0])]
    fin = [(v, b.variant(pid, spec, v[0], v[1])) for v in variants]
    res, viol, infra = [], None, []
    penv = plugin_env(b, spec, tier, seed, infra)
    fz = None
    if tier == "thorough" and spec.get("fuzz"):
        fz = b.variant(pid, spec, spec["fuzz"], "fuzz", fuzz=True)
    budget = spec.get("thorough_s", 700)
    left = budget
    ev_extra = {}
    per = max(20.0, (budget * (0.75 if fz else 1.0)) / max(1, len(fin)))
    try:
        built = []
        for v, f in fin:
            try:
                built.append((v, f()))
            except BuildError as e:
                if v[0] not in OPTIONAL:
                    raise
                infra.append("configuration %s does not build, left out" % v[0])
        env = dict(penv(), PBT_CHECK=pid)
        if fz:
            fzexe = fz()
    except BuildError as e:
        print("BUILD FAILED for %s:\n%s" % (pid, e))
        write_evidence(pid, tier, seed, spec, [], t0, 0, ["build failed"], {})
        return 2
    tb = time.time() - t0
    for v, exe in built:
        name = v[0] + "-" + v[1]
        out = os.path.join(BUILD, "res-%s-%s-%d.json" % (pid, name, os.getpid()))
        rp = os.path.join(REPLAYS, "%s-%s-s%d-%s.replay" % (pid, name, seed, tier))
        args = ["--seed", str(seed), "--tier", tier, "--scale", str(v[2]), "--workers", str(WORKERS), "--out", out,
                "--variant", name, "--replay-out", rp, "--timeout", str(spec.get("timeout", 60))]
        if tier == "thorough":
            args += ["--max-seconds", str(int(per))]
        r = run_bin(exe, args, env=env)
        if not os.path.exists(out):
            print("engine error in %s: rc=%s\n%s" % (name, r.returncode, r.stdout.decode(errors="replace")[-3000:]))
            infra.append(name + ": engine error")
            continue
        d = json.load(open(out))
        os.unlink(out)
        res.append(d)
        if d["infra"]:
            infra.append(name + ": " + d["infra"])
        print("%s %s: %d cases, %d distinct non-trivial, %d discarded, %.1fs%s" % (
            pid, name, d["evaluations"], d["distinct_nontrivial"], d["discarded"], d["wall_s"],
            "  FAILED" if d["violation"] else ""), flush=True)
        if d["violation"]:
            again = lambda _: run_bin(exe, ["--replay", rp, "--timeout", str(spec.get("timeout", 60))], env=env).returncode == 3
            if d["sig"] == "hang": # side by side, each takes as long as the time-out
                with cf.ThreadPoolExecutor(3) as ex:
                    n = sum(ex.map(again, range(3)))
            else:
                n = sum(again(k) for k in range(3))
            # a wrong result needs to be seen again once (it may depend on memory contents,
            # addresses or real randomness); a time-out or an exhausted resource every time
            need = 3 if d["sig"] in ("hang", "terminate") and not spec.get("schedule") else 1
            print("%s %s in %s: %s\n  replay reproduced %d/3" % (pid, d["sig"], d["sub"], d["message"][:1500], n))
            if n >= need:
                viol = rp
                break
            infra.append("%s: a failure in %s did not reproduce (%d/3); recorded, not reported" % (name, d["sub"], n))
    if fz and not viol:
        viol = run_fuzz(pid, spec, fzexe, seed, max(20, int(budget * 0.25)), res, infra, ev_extra)
    write_evidence(pid, tier, seed, spec, res, t0, 1 if viol else 0, infra + (["skipped configurations: " + ",".join(skipped)] if skipped else []), ev_extra)
    prune()
    print("%s: build %.1fs, total %.1fs" % (pid, tb, time.time() - t0))
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(viol, VERIF)))
        return 1
    if infra and not any(d["evaluations"] for d in res):
        return 2
    for m in infra:
        print("NOTE: " + m)
    return 0


def py_module(spec):
    import importlib.util
    sp = importlib.util.spec_from_file_location("check_py", os.path.join(VERIF, "checks", spec["py"]))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def check_py(pid, spec, tier, seed, t0):
    """a check of something that is not C++; same protocol"""
    os.makedirs(BUILD, exist_ok=True)
    m = py_module(spec)
    r = m.explore(REPO, BUILD, CXX, seed, tier)
    viol, notes = None, list(r["notes"])
    if r.get("build"):
        print("BUILD FAILED for %s:\n%s" % (pid, r["build"]))
        write_evidence(pid, tier, seed, spec, [], t0, 0, ["build failed"], {})
        return 2
    if r["error"]:
        rp = os.path.join(REPLAYS, "%s-s%d-%s.replay" % (pid, seed, tier))
        with open(rp, "w") as f:
            f.write("check %s\nvariant py\nmessage %s\ncase %s\n" % (pid, r["error"].replace("\n", " ")[:2000], json.dumps(r["case"])))
        n = sum(bool(m.again(REPO, BUILD, CXX, r["case"])) for _ in range(3))
        print("%s: %s\n  replay reproduced %d/3" % (pid, r["error"][:1500], n))
        if n:
            viol = rp
        else:
            notes.append("a failure did not reproduce; recorded, not reported")
    d = {"variant": "python", "evaluations": r["evaluations"], "discarded": 0, "distinct_nontrivial": r["distinct"], "labels": r["labels"],
         "samples": r["samples"], "wall_s": round(time.time() - t0, 1)}
    print("%s: %d cases, %d distinct, %.1fs" % (pid, r["evaluations"], r["distinct"], time.time() - t0))
    write_evidence(pid, tier, seed, spec, [d], t0, 1 if viol else 0, notes, {})
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(viol, VERIF)))
        return 1
    for x in notes:
        print("NOTE: " + x)
    return 0


def run_fuzz(pid, spec, exe, seed, secs, res, infra, extra):
    corpus = os.path.join(BUILD, "corpus-%s-%d" % (pid, os.getpid()))
    os.makedirs(corpus, exist_ok=True)
    rp = os.path.join(REPLAYS, "%s-fuzz-s%d.replay" % (pid, seed))
    if os.path.exists(rp):
        os.unlink(rp)
    env = {"PBT_CHECK": pid, "PBT_REPLAY_OUT": rp, "PBT_VARIANT": spec["fuzz"] + "-san",
           "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1"}
    r = run_bin(exe, [corpus, "-seed=%d" % seed, "-max_total_time=%d" % secs, "-fork=%d" % JOBS, "-max_len=4096",
                      "-print_final_stats=1", "-artifact_prefix=" + corpus + "/crash-", "-timeout=60", "-rss_limit_mb=3000"], env=env)
    txt = r.stdout.decode(errors="replace")
    m = re.findall(r"#(\d+): cov: (\d+) ft: (\d+) corp: (\d+)", txt)
    if m:
        extra["libfuzzer"] = {"executions": int(m[-1][0]), "edges": int(m[-1][1]), "features": int(m[-1][2]), "corpus": int(m[-1][3])}
        res.append({"variant": spec["fuzz"] + "-libfuzzer", "evaluations": int(m[-1][0]), "discarded": 0,
                    "distinct_nontrivial": int(m[-1][3]), "labels": {}, "samples": [], "wall_s": secs})
    crashes = glob.glob(corpus + "/crash-*crash*") + glob.glob(corpus + "/crash-*timeout*")
    bad = None
    if crashes:
        c = sorted(crashes)[0]
        keep = os.path.join(REPLAYS, "%s-fuzz-s%d.bin" % (pid, seed))
        shutil.copy(c, keep)
        n = sum(run_bin(exe, [keep, "-timeout=60"], env=env).returncode != 0 for _ in range(3))
        print("%s libFuzzer: failing input, reproduced %d/3\n%s" % (pid, n, txt[-2500:]))
        if n == 3:
            bad = rp if os.path.exists(rp) else keep
        else:
            infra.append("libFuzzer crash did not reproduce")
    shutil.rmtree(corpus, ignore_errors=True)
    return bad


def write_evidence(pid, tier, seed, spec, res, t0, nviol, notes, extra):
    samples = []
    for d in res:
        for s in d["samples"][:6]:
            samples.append("[%s] %s" % (d["variant"], s))
    labels = {}
    for d in res:
        for k, n in d["labels"].items():
            labels[k] = labels.get(k, 0) + n
    cov = {"evaluations": sum(d["evaluations"] for d in res),
           "distinct_nontrivial": max([d["distinct_nontrivial"] for d in res] or [0]),
           "rule": spec["rule"] + "  distinct_nontrivial counts distinct choice sequences, taken from the one build variant with most (the variants draw the same sequences).",
           "samples": samples[:40],
           "per_variant": [{k: d[k] for k in ("variant", "evaluations", "discarded", "distinct_nontrivial", "wall_s")} for d in res],
           "case_classes": labels}
    cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []) + notes, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    head = open(path, errors="replace").read().split("\nchoices", 1)[0]
    kv = dict(l.split(" ", 1) for l in head.splitlines() if " " in l)
    pid = kv["check"]
    spec = CHECKS[pid]
    if spec.get("py"):
        e = py_module(spec).again(REPO, BUILD, CXX, json.loads(next(l for l in open(path) if l.startswith("case "))[5:]))
        print(e or "holds")
        return 1 if e else 0
    cfg, mode = kv["variant"].rsplit("-", 1)
    b = Builder()
    fin, penv = b.variant(pid, spec, cfg, mode), plugin_env(b, spec, "quick", names=kv.get("plugins", "").split())
    r = subprocess.run([fin(), "--replay", path], env=dict(os.environ, **penv()))
    return 1 if r.returncode == 3 else r.returncode


def selftest():
    b = Builder()
    exe = b.variant("selftest", CHECKS["selftest"], "plain", "opt")()
    return subprocess.run([exe, "--out", os.path.join(BUILD, "selftest.json")]).returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.cmd == "check":
        return check(a.arg, a.tier)
    if a.cmd == "replay":
        return replay(a.arg)
    if a.cmd == "selftest":
        return selftest()
    if a.cmd == "all":
        rc = {}
        for p in sorted(CHECKS):
            if p != "selftest":
                rc[p] = check(p, a.tier)
        print({k: v for k, v in rc.items() if v})
        return 1 if any(rc.values()) else 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
