"""C32: every subset of the documented build options builds and works.

A case is one of
  headers: a sequence of public headers, included (some twice) by one source
           file that then names everything they declare, under one option
           subset, for one compiler, standard and level;
  source:  one source file of the library compiled so;
  module:  one module's sources with those of the modules its own build under
           script/ names, compiled so and linked into a program;
  program: the library and two units that use every class, including all
           headers in random orders, built under one option subset, linked and
           run; what the units write must be equal, must contain no failed
           inverse or verdict, and must equal the build without options.
Oracle: the compiler, the linker and the program's own checks.  A case that
fails is shrunk by dropping headers and options while it still fails."""
import concurrent.futures as cf
import glob
import os
import random
import re
import shutil
import subprocess
import tempfile
import time

FEATURES = ["SSE2", "AVX2", "AES", "MOVBE", "BMI2", "RDSEED", "RDRAND", "PCLMUL"]
OPTION = dict(zip(FEATURES, ["-msse2", "-mavx2", "-maes", "-mmovbe", "-mbmi2", "-mrdseed", "-mrdrnd", "-mpclmul"]))
CPUINFO = dict(zip(FEATURES, ["sse2", "avx2", "aes", "movbe", "bmi2", "rdseed", "rdrand", "pclmulqdq"]))
ALG = ["SUPPORT_SM3_YANG15", "SUPPORT_SM4_LANG18"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNIT = os.path.join(HERE, "harness", "build_unit.inc")


MODES = [m + d for m in ("Ecb", "Cbc", "Cfb", "Ofb", "Ctr", "Gcm") for d in ("Encryptor", "Decryptor")]
# the documented names each public header declares
NAMES = {
    "aes/aes.h": ["aes::AES128", "aes::AES192", "aes::AES256"],
    "aes/aes_mode.h": ["aes::AES%d%s" % (k, m) for k in (128, 192, 256) for m in MODES] + ["aes::AES128", "aes::AES192", "aes::AES256"],
    "sm4/sm4.h": ["sm4::SM4"],
    "sm4/sm4_mode.h": ["sm4::SM4" + m for m in MODES] + ["sm4::SM4"],
    "asn1/asn1.h": ["asn1::" + n for n in ("Asn1TLV asn1_decode_tlv asn1_encode_integer_outl asn1_encode_integer_tlv asn1_encode_octet_string_tlv asn1_encode_bit_string_tlv "
                    "asn1_encode_boolean_tlv asn1_encode_sequence_tl asn1_encode_set_tl asn1_decode_integer_value asn1_decode_bit_string_value asn1_decode_octet_string_value "
                    "asn1_decode_null_value asn1_decode_sequence_value asn1_decode_set_value asn1_decode_boolean_value").split()],
    "asn1/asn1_dump.h": ["asn1::asn1_dump"],
    "block_cipher_mode/block_cipher.h": ["block_cipher_mode::BlockCipher"],
    "block_cipher_mode/block_cipher_mode.h": ["block_cipher_mode::BlockCipherMode"],
    "ghash/ghash.h": ["ghash::GHash"],
    "hash_lib/hash.h": ["hash_lib::Hash"],
    "hash_lib/hmac.h": ["hash_lib::HMac"],
    "memory_utils/endian.h": ["memory_utils::%s%d_%s" % (o, w, e) for o in ("load", "store") for w in (8, 16, 32, 64) for e in ("le", "be")],
    "memory_utils/memdump.h": ["memory_utils::memdump"],
    "memory_utils/memxor.h": ["memory_utils::memxor", "memory_utils::memxor_n"],
    "number/uint256.h": ["number::uint256_" + n for n in "add_carry sub_borrow mul sqr mod_add mod_sub cmp equal_zero equal_one cpy set_zero set_one set_uint32 add_carry_uint32 sub_borrow_uint32 cmp_uint32 from_bytes to_bytes bittest".split()],
    "number/mont256.h": ["number::Mont256CTX"] + ["number::mont256_" + n for n in "add sub dbl tpl neg mul sqr div2 pow inv equal equal_zero equal_one cpy set_zero set_one set_uint32 from_bytes to_bytes from_bytes_ex".split()],
    "number/mpz.h": ["number::mpz_" + n for n in "add_carry sub_borrow mul cmp cpy from_bytes to_bytes".split()],
    "rng/rng.h": ["rng::Rng"],
    "rng/cstd_rng.h": ["rng::CstdRng"],
    "rng/std_rng.h": ["rng::StdRng"],
    "rng/hardware_rng/rdrand32_rng.h": ["RDRAND", "rng::hardware_rng::RdrandRng_32"],
    "rng/hardware_rng/rdrand64_rng.h": ["RDRAND", "rng::hardware_rng::RdrandRng_64"],
    "rng/hardware_rng/rdseed32_rng.h": ["RDSEED", "rng::hardware_rng::RdseedRng_32"],
    "rng/hardware_rng/rdseed64_rng.h": ["RDSEED", "rng::hardware_rng::RdseedRng_64"],
    "sm2/sm2.h": ["sm2::SM2PublicKey", "sm2::SM2PrivateKey"],
    "sm3/sm3.h": ["sm3::SM3"],
    "sm9/sm9.h": ["sm9::SM9SignMasterPrivateKey", "sm9::SM9SignMasterPublicKey", "sm9::SM9SignPrivateKey"],
}
for m in ("ecb", "cbc", "cfb", "ofb", "ctr", "gcm"):
    NAMES["block_cipher_mode/%s_mode.h" % m] = ["block_cipher_mode::%s%s" % (m.title(), d) for d in ("Encryptor", "Decryptor")]


def uses(case, headers):
    """a function that names everything the given headers declare"""
    o = ["static inline void names_()\n{\n"]
    for h in sorted(set(headers)):
        names = NAMES.get(h.replace("gmlib/", "", 1), [])
        if names and names[0] in FEATURES:
            names = names[1:] if names[0] in case["options"] else []
        o += ["    { using %s; }\n" % n for n in names]
    return "".join(o) + "}\n"


def flags_of(case):
    return ["-D" + ("CPU_FLAG_" + f if f in FEATURES else f) for f in case["options"]] + [OPTION[f] for f in case["options"] if f in OPTION]


def host_has(case):
    try:
        import re
        have = set(re.search(r"^flags\s*:\s*(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
    except Exception:
        return False
    return {CPUINFO[f] for f in case["options"] if f in CPUINFO} <= have


def needs_of(repo, module):
    """the other modules that the module's own build compiles in"""
    t = open(os.path.join(repo, "script", module, "CMakeLists.txt"), errors="replace").read()
    t = re.sub(r"#.*", "", t)
    n = re.search(r"set\s*\(\s*THIRD_PARTY\b([^)]*)\)", t)
    return n.group(1).split() if n else []


class Check:
    def __init__(self, repo, build, cxx):
        self.repo, self.cxx = repo, cxx
        self.dir = tempfile.mkdtemp(prefix="c32-", dir=build)
        inc = os.path.join(repo, "include")
        # internal headers are for the library's own use; the Windows generators need
        # Windows' headers (C29 runs them over stand-ins)
        self.headers = sorted(os.path.relpath(h, inc) for h in glob.glob(inc + "/**/*.h", recursive=True) if "/os_rng/" not in h and "/internal/" not in h)
        self.sources = sorted(glob.glob(repo + "/src/**/*.cpp", recursive=True))
        self.modules = sorted(os.path.basename(os.path.dirname(f)) for f in glob.glob(repo + "/script/*/CMakeLists.txt"))
        self.n = 0
        self.plain = None
        self.pool = cf.ThreadPoolExecutor(8)

    def close(self):
        self.pool.shutdown()
        shutil.rmtree(self.dir, ignore_errors=True)

    def base(self, case):
        cc = {"g++": self.cxx, "clang++": "clang++"}[case["compiler"]]
        return [cc, "-std=" + case["std"], "-w", "-I" + self.repo + "/include"] + flags_of(case)

    def run(self, cmd, **k):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

    def headers_case(self, case):
        d = tempfile.mkdtemp(dir=self.dir)
        f = os.path.join(d, "h.cpp")
        with open(f, "w") as o:
            for h in case["headers"]:
                if os.path.exists(os.path.join(self.repo, "include", h)):
                    o.write("#include <%s>\n" % h)
            o.write(uses(case, case["headers"]) + "int main() { return 0; }\n")
        r = self.run(self.base(case) + ["-O" + case["level"], "-S", "-o", os.devnull, f])
        shutil.rmtree(d)
        return self.fault("a file that includes %s does not compile" % ", ".join(case["headers"]), r) if r.returncode else None

    def source_case(self, case):
        s = os.path.join(self.repo, case["source"])
        if not os.path.exists(s):
            return None
        r = self.run(self.base(case) + ["-O" + case["level"], "-S", "-o", os.devnull, s])
        return self.fault("%s does not compile" % case["source"], r) if r.returncode else None

    def module_case(self, case):
        m, src = case["module"], []
        if not os.path.exists(os.path.join(self.repo, "script", m, "CMakeLists.txt")):
            return None
        for x in [m] + needs_of(self.repo, m):
            src += glob.glob("%s/src/%s/**/*.cpp" % (self.repo, x), recursive=True)
        d = tempfile.mkdtemp(dir=self.dir)
        try:
            f = os.path.join(d, "main.cpp")
            with open(f, "w") as o:
                o.write("int main() { return 0; }\n")
            todo = [(s, os.path.join(d, "%d.o" % i)) for i, s in enumerate(src + [f])]
            jobs = [(s, self.pool.submit(self.run, self.base(case) + ["-O" + case["level"], "-c", s, "-o", o])) for s, o in todo]
            for s, j in jobs:
                if j.result().returncode:
                    return self.fault("%s does not compile" % os.path.basename(s), j.result())
            r = self.run(self.base(case)[:1] + [o for _, o in todo] + ["-o", os.path.join(d, "prog")])
            if r.returncode:
                return self.fault("module %s does not link with only the modules its build under script/ names" % m, r)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def fault(self, what, r):
        e = [l.strip() for l in r.stdout.splitlines() if "error" in l or "undefined" in l or "multiple" in l][:3]
        return "%s: %s" % (what, " / ".join(e) or r.stdout[-300:])

    def program(self, case):
        """-> (error, output)"""
        d = tempfile.mkdtemp(dir=self.dir)
        try:
            units = []
            for u in range(2):
                f = os.path.join(d, "unit%d.cpp" % u)
                with open(f, "w") as o:
                    for h in case["units"][u]:
                        if os.path.exists(os.path.join(self.repo, "include", h)):
                            o.write("#include <%s>\n" % h)
                    o.write(uses(case, case["units"][u]))
                    o.write('#define UNIT %d\n#include "%s"\n' % (u, UNIT))
                units.append(f)
            f = os.path.join(d, "main.cpp")
            with open(f, "w") as o:
                o.write('#include <cstdio>\n#include <string>\nstd::string run_unit_0();\nstd::string run_unit_1();\n'
                        'int main() { std::string a = run_unit_0(), b = run_unit_1(); std::fputs(a.c_str(), stdout);\n'
                        'if (a != b) std::puts("UNITS DIFFER"); return 0; }\n')
            objs, jobs = [], []
            for i, s in enumerate(self.sources + units + [f]):
                o = os.path.join(d, "%d.o" % i)
                objs.append(o)
                jobs.append((s, self.pool.submit(self.run, self.base(case) + ["-O" + case["level"], "-c", s, "-o", o])))
            for s, j in jobs:
                if j.result().returncode:
                    return self.fault("%s does not compile" % os.path.basename(s), j.result()), None
            exe = os.path.join(d, "prog")
            r = self.run(self.base(case)[:1] + objs + ["-o", exe])
            if r.returncode:
                return self.fault("the program does not link", r), None
            if not host_has(case):
                return None, None
            r = self.run([exe], timeout=120)
            if r.returncode:
                return "the program ends with %d: %s" % (r.returncode, r.stdout[-300:]), None
            for w in ("NOT ", "ACCEPTED", "UNITS DIFFER"):
                i = r.stdout.find(w)
                if i >= 0:
                    return "the program reports: " + r.stdout[max(0, r.stdout.rfind("\n", 0, i - 1)):i + 60].strip()[-200:], None
            return None, r.stdout
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def program_case(self, case):
        if self.plain is None:
            e, out = self.program(dict(case, options=[], compiler="g++", std="c++17", level="1"))
            self.plain = out or ""
        e, out = self.program(case)
        if e:
            return e
        if out is not None and self.plain and out != self.plain:
            a, b = out.splitlines(), self.plain.splitlines()
            k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)) - 1)
            return "the program's results differ from the build without options: %s / %s" % (a[k][:150], b[k][:150])
        return None

    def attempt(self, case):
        try:
            return getattr(self, case["kind"] + ("_case"))(case)
        except subprocess.TimeoutExpired:
            return "the program does not end"


def gen(r, chk, kind):
    m = r.choice([r.getrandbits(8), r.getrandbits(8) & r.getrandbits(8), r.getrandbits(8) | r.getrandbits(8), 1 << r.randrange(8), 255])
    case = {"kind": kind, "options": [f for i, f in enumerate(FEATURES) if m >> i & 1] + [a for a in ALG if r.random() < 0.5],
            "compiler": r.choice(["g++", "g++", "clang++"]), "std": r.choice(["c++17", "c++17", "c++20"]), "level": r.choice("0012")}
    if kind == "headers":
        n = r.choice([1, 2, 2, 3, 5, 8, len(chk.headers)])
        case["headers"] = [r.choice(chk.headers) for _ in range(n)]
    elif kind == "source":
        case["source"] = os.path.relpath(r.choice(chk.sources), chk.repo)
    elif kind == "module":
        case["module"] = r.choice(chk.modules)
    else:
        case["level"] = r.choice("01")
        case["units"] = [r.sample(chk.headers, len(chk.headers)) for _ in range(2)]
    return case


def shrink(chk, case, deadline):
    while time.time() < deadline:
        for key in ("options", "headers"):
            for i in range(len(case.get(key, []))):
                c = dict(case, **{key: case[key][:i] + case[key][i + 1:]})
                if (c.get("headers") != [] and chk.attempt(c)):
                    case = c
                    break
            else:
                continue
            break
        else:
            if case["kind"] == "program" and any(case["units"]):
                c = dict(case, units=[[], []])
                if chk.attempt(c):
                    case = c
                    continue
            for key, v in (("compiler", "g++"), ("std", "c++17"), ("level", "0")):
                if case[key] != v and chk.attempt(dict(case, **{key: v})):
                    case = dict(case, **{key: v})
            return case
    return case


def explore(repo, build, cxx, seed, tier):
    chk = Check(repo, build, cxx)
    res = {"evaluations": 0, "distinct": 0, "labels": {}, "samples": [], "error": None, "case": None, "notes": []}
    try:
        r = random.Random("C32/%d" % seed)
        seen = set()
        end = time.time() + (150 if tier == "quick" else 600)
        quick = tier == "quick"
        # every header on its own once, without and with all options
        cases = [dict(gen(r, chk, "headers"), headers=[h], options=o) for h in chk.headers for o in ([], FEATURES + ALG)]
        cases += [gen(r, chk, "headers") for _ in range(200 if quick else 4000)]
        cases += [gen(r, chk, "source") for _ in range(120 if quick else 3000)]
        if chk.modules:
            cases += [dict(gen(r, chk, "module"), module=m, level="0") for m in chk.modules]
            cases += [gen(r, chk, "module") for _ in range(0 if quick else 300)]
        r.shuffle(cases)

        def done(case, err):
            res["evaluations"] += 1
            seen.add(repr(case))
            k = case["kind"]
            res["labels"][k] = res["labels"].get(k, 0) + 1
            res["labels"][case["compiler"]] = res["labels"].get(case["compiler"], 0) + 1
            res["labels"]["%d options" % len(case["options"])] = res["labels"].get("%d options" % len(case["options"]), 0) + 1
            if sum(x.startswith(k) for x in res["samples"]) < 4:
                res["samples"].append("%s: %s %s -O%s %s %s" % (k, case["compiler"], case["std"], case["level"], "+".join(case["options"]), case.get("headers") or case.get("source") or case.get("module") or ""))
            if err:
                res["case"], res["error"] = case, err

        with cf.ThreadPoolExecutor(8) as ex:
            it = iter(cases)
            todo = {}
            while not res["error"]:
                while len(todo) < 16 and time.time() < end:
                    c = next(it, None)
                    if c is None:
                        break
                    todo[ex.submit(chk.attempt, c)] = c
                if not todo:
                    break
                for f in cf.wait(todo, return_when=cf.FIRST_COMPLETED).done:
                    c = todo.pop(f)
                    if not res["error"]:
                        done(c, f.result())
        n = 0
        while not res["error"] and n < (6 if quick else 80) and time.time() < end + (60 if quick else 300):
            c = gen(r, chk, "program")
            if n == 0:
                c["options"] = []
            n += 1
            done(c, chk.attempt(c))
        if res["error"]:
            c = shrink(chk, res["case"], time.time() + 120)
            res["error"], res["case"] = chk.attempt(c) or res["error"], c
            res["error"] += " (%s %s -O%s, options: %s)" % (c["compiler"], c["std"], c["level"], " ".join(c["options"]) or "none")
        res["distinct"] = len(seen)
        return res
    finally:
        chk.close()


def again(repo, build, cxx, case):
    chk = Check(repo, build, cxx)
    try:
        return chk.attempt(case)
    finally:
        chk.close()
