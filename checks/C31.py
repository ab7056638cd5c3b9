"""C31: the feature probes (tools/cpuid.py, demo/cpuid.py, tools/cpuid.cpp) under
generated processors.

A case is a scripted processor: what CPUID returns for every leaf and subleaf.
Expectations come from the bit positions of the Intel and AMD manuals."""
import contextlib
import ctypes
import io
import os
import random
import re
import struct
import subprocess
import sys
import time

REGS = ("eax", "ebx", "ecx", "edx")
# build flag: leaf, register, bit, compiler option
FLAGS = {"SSE2": (1, 3, 26, "-msse2"), "AVX2": (7, 1, 5, "-mavx2"), "AES": (1, 2, 25, "-maes"), "MOVBE": (1, 2, 22, "-mmovbe"),
         "BMI2": (7, 1, 8, "-mbmi2"), "RDSEED": (7, 1, 18, "-mrdseed"), "RDRAND": (1, 2, 30, "-mrdrnd"), "PCLMUL": (1, 2, 1, "-mpclmul")}
E1 = 0x80000001
# message of cpuid.cpp: leaf, register, bit, vendor the bit is defined for
MSG = {"SSE3": (1, 2, 0, 0), "PCLMULQDQ": (1, 2, 1, 0), "MONITOR": (1, 2, 3, 0), "SSSE3": (1, 2, 9, 0), "FMA": (1, 2, 12, 0), "CMPXCHG16B": (1, 2, 13, 0),
       "SSE4.1": (1, 2, 19, 0), "SSE4.2": (1, 2, 20, 0), "MOVBE": (1, 2, 22, 0), "POPCNT": (1, 2, 23, 0), "AES": (1, 2, 25, 0), "XSAVE": (1, 2, 26, 0),
       "OSXSAVE": (1, 2, 27, 0), "AVX": (1, 2, 28, 0), "F16C": (1, 2, 29, 0), "RDRAND": (1, 2, 30, 0), "MSR": (1, 3, 5, 0), "CX8": (1, 3, 8, 0),
       "SEP": (1, 3, 11, 0), "CLFSH": (1, 3, 19, 0), "MMX": (1, 3, 23, 0), "FXSR": (1, 3, 24, 0), "SSE": (1, 3, 25, 0), "SSE2": (1, 3, 26, 0),
       "FSGSBASE": (7, 1, 0, 0), "BMI1": (7, 1, 3, 0), "HLE": (7, 1, 4, "GenuineIntel"), "AVX2": (7, 1, 5, 0), "BMI2": (7, 1, 8, 0), "ERMS": (7, 1, 9, 0),
       "INVPCID": (7, 1, 10, 0), "RTM": (7, 1, 11, "GenuineIntel"), "AVX512F": (7, 1, 16, 0), "RDSEED": (7, 1, 18, 0), "ADX": (7, 1, 19, 0),
       "AVX512PF": (7, 1, 26, 0), "AVX512ER": (7, 1, 27, 0), "AVX512CD": (7, 1, 28, 0), "SHA": (7, 1, 29, 0), "PREFETCHWT1": (7, 2, 0, 0),
       "LAHF": (E1, 2, 0, 0), "LZCNT": (E1, 2, 5, "GenuineIntel"), "ABM": (E1, 2, 5, "AuthenticAMD"), "SSE4a": (E1, 2, 6, "AuthenticAMD"),
       "XOP": (E1, 2, 11, "AuthenticAMD"), "TBM": (E1, 2, 21, "AuthenticAMD"), "SYSCALL": (E1, 3, 11, "GenuineIntel"),
       "MMXEXT": (E1, 3, 22, "AuthenticAMD"), "RDTSCP": (E1, 3, 27, "GenuineIntel"), "3DNOWEXT": (E1, 3, 30, "AuthenticAMD"),
       "3DNOW": (E1, 3, 31, "AuthenticAMD")}
INTRIN = r"""
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <array>
static inline void __cpuidex(int r[4], int leaf, int sub)
{
    static std::map<std::array<unsigned, 2>, std::array<unsigned, 4>> t;
    if (t.empty())
    {
        unsigned a, b, c, d, e, f;
        FILE*    s = std::fopen(std::getenv("C31_CPU"), "r");
        while (s && std::fscanf(s, "%x %x %x %x %x %x", &a, &b, &c, &d, &e, &f) == 6)
            t[{a, b}] = {c, d, e, f};
        if (s)
            std::fclose(s);
    }
    auto i = t.find({(unsigned)leaf, (unsigned)sub});
    if (i == t.end())
        i = t.find({0xffffffffu, 0});
    for (int k = 0; k < 4; k++)
        r[k] = (int)i->second[k];
}
static inline void __cpuid(int r[4], int leaf) { __cpuidex(r, leaf, 0); }
"""
REAL = r"""
#include <cpuid.h>
#include <cstdio>
#include <cstdlib>
int main(int n, char** v)
{
    for (int i = 1; i + 1 < n; i += 2)
    {
        unsigned a, b, c, d;
        __cpuid_count(std::strtoul(v[i], 0, 16), std::strtoul(v[i + 1], 0, 16), a, b, c, d);
        std::printf("%x %x %x %x\n", a, b, c, d);
    }
}
"""


class Processor:
    """regs: {(leaf, subleaf): (eax, ebx, ecx, edx)}; anything else returns .other, and a
    leaf above the highest one what the highest basic leaf returns"""

    def __init__(self, regs, other):
        self.regs, self.other = regs, other

    def __call__(self, leaf, sub=0):
        leaf &= 0xffffffff
        top = self.regs[(0x80000000 if leaf >= 0x80000000 else 0, 0)][0]
        if leaf > top:
            leaf, sub = self.regs[(0, 0)][0], 0
        return self.regs.get((leaf, sub), self.other)

    def has(self, leaf, reg, bit):
        top = self.regs[(0x80000000 if leaf >= 0x80000000 else 0, 0)][0]
        return leaf <= top and bool(self(leaf)[reg] >> bit & 1)


def word(r):
    return r.choice([0, 0xffffffff, r.getrandbits(32), r.getrandbits(32), r.getrandbits(32) & r.getrandbits(32) & r.getrandbits(32), 1 << r.randrange(32), 0xffffffff ^ 1 << r.randrange(32)])


def gen(r):
    vendor = r.choice([b"GenuineIntel", b"AuthenticAMD", b"GenuineIntel", b"HygonGenuine", b"CentaurHauls", bytes(r.randrange(33, 127) for _ in range(12))])
    v = struct.unpack("<III", vendor)
    top = r.choice([1, 2, 5, 6, 7, 7, 0xd, 0x16, 0x1f, 0x20])
    ext = 0x80000000 + r.choice([1, 4, 4, 8, 8, 0x1e])
    regs = {(0, 0): (top, v[0], v[2], v[1]), (0x80000000, 0): (ext, word(r), word(r), word(r))}
    for i in range(1, top + 1):
        regs[(i, 0)] = tuple(word(r) for _ in range(4))
    for i in range(1, ext - 0x80000000 + 1):
        regs[(0x80000000 + i, 0)] = tuple(word(r) for _ in range(4))
    for s in range(1, 3):
        regs[(7, s)] = tuple(word(r) for _ in range(4))
        regs[(1, s)] = tuple(word(r) for _ in range(4))
    if ext >= 0x80000004:
        n = r.choice([0, 1, 15, 16, 17, 31, 32, 33, 46, 47])
        b = (bytes(r.randrange(32, 127) for _ in range(n)) + b"\0" * 48)[:48]
        for i in range(3):
            regs[(0x80000002 + i, 0)] = struct.unpack("<IIII", b[16 * i:16 * i + 16])
    return {"kind": r.choice(["flags", "flags", "flags", "helpers", "cpp", "cpp"]), "regs": {"%x:%x" % k: list(x) for k, x in regs.items()},
            "other": [word(r) for _ in range(4)], "probe": [r.choice([0, 1, 7, 0x80000001, 2, 5, 0xd]), r.randrange(3), r.randrange(4), r.randrange(32)]}


def processor(case):
    return Processor({tuple(int(y, 16) for y in k.split(":")): tuple(v) for k, v in case["regs"].items()}, tuple(case["other"]))


@contextlib.contextmanager
def scripted(proc):
    """ctypes.CFUNCTYPE builds functions that answer for proc"""
    real = ctypes.CFUNCTYPE

    def maker(*types):
        def at(_addr):
            def f(st, eax, ecx=0):
                st = getattr(st, "_obj", st)
                for n, v in zip(REGS, proc(int(eax), int(ecx))):
                    setattr(st, n, v)
            return f
        return at
    ctypes.CFUNCTYPE = maker
    try:
        yield
    finally:
        ctypes.CFUNCTYPE = real


def load(path, name):
    ns = {"__name__": name, "__file__": path}
    exec(compile(open(path, encoding="utf-8").read(), path, "exec"), ns)
    return ns


class Check:
    def __init__(self, repo, build, cxx):
        self.repo, self.build, self.cxx = repo, build, cxx
        self.dir = os.path.join(build, "c31-%d" % os.getpid())
        os.makedirs(self.dir, exist_ok=True)
        self.n = 0
        self.labels = {}

    def label(self, x):
        self.labels[x] = self.labels.get(x, 0) + 1

    def compile(self):
        for d, f, s in (("w", "intrin.h", INTRIN), ("r", "real.cpp", REAL)):
            os.makedirs(os.path.join(self.dir, d), exist_ok=True)
            with open(os.path.join(self.dir, d, f), "w") as o:
                o.write(s)
        self.cpp, self.real = os.path.join(self.dir, "probe"), os.path.join(self.dir, "real")
        for cmd in ([self.cxx, "-std=c++17", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-I" + self.dir + "/w",
                     self.repo + "/tools/cpuid.cpp", "-o", self.cpp],
                    [self.cxx, "-O1", "-w", self.dir + "/r/real.cpp", "-o", self.real]):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return r.stdout.decode(errors="replace")[-3000:]
        return None

    def close(self):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, case):
        """None, or what is wrong"""
        self.n += 1
        p = processor(case)
        return getattr(self, "on_" + case["kind"])(case, p)

    def on_flags(self, case, p):
        want = {f: o for f, (leaf, reg, bit, o) in FLAGS.items() if p.has(leaf, reg, bit)}
        self.label("highest leaf below 7" if p.regs[(0, 0)][0] < 7 else "leaf 7")
        for path in ("tools/cpuid.py", "demo/cpuid.py"):
            f = os.path.join(self.repo, path)
            with scripted(p):
                fl, opt = load(f, "cpuid_under_test")["support_flag"]()
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    load(f, "__main__")
            if sorted(fl) != sorted(want):
                return "%s: support_flag gives %s, the processor has %s" % (path, sorted(fl), sorted(want))
            opt = [o for o in opt if o.startswith("-m")]
            if sorted(opt) != sorted(want.values()):
                return "%s: compile options %s for %s" % (path, sorted(opt), sorted(want))
            t = out.getvalue()
            d = re.findall(r"add_definitions\(-D(\w+)\)", t)
            if sorted(d) != sorted(["CPU_FLAG_" + x for x in want] + ["SUPPORT_SM3_YANG15", "SUPPORT_SM4_LANG18"]):
                return "%s prints the definitions %s, the processor has %s" % (path, d, sorted(want))
            o = [x for x in re.findall(r"(-m\w+)", " ".join(l for l in t.splitlines() if "add_definitions" not in l))]
            if sorted(o) != sorted(want.values()):
                return "%s prints the options %s, the processor has %s" % (path, o, sorted(want))
        return None

    def on_helpers(self, case, p):
        leaf, sub, reg, bit = case["probe"]
        v = struct.pack("<III", p(0)[1], p(0)[3], p(0)[2]).decode()
        self.label("helpers")
        for path in ("tools/cpuid.py", "demo/cpuid.py"):
            with scripted(p):
                ns = load(os.path.join(self.repo, path), "cpuid_under_test")
                cpu = ns["CPUID"]()
                if cpu(leaf, sub) != p(leaf, sub):
                    return "%s: cpu(%x, %x) gives %s, not %s" % (path, leaf, sub, cpu(leaf, sub), p(leaf, sub))
                top = p.regs[(0x80000000 if leaf >= 0x80000000 else 0, 0)][0]
                if leaf <= top and ns["is_set"](cpu, leaf, sub, reg, bit) != ("Yes" if p(leaf, sub)[reg] >> bit & 1 else "--"):
                    return "%s: is_set(%x, %x, %s, %d) with %x" % (path, leaf, sub, REGS[reg], bit, p(leaf, sub)[reg])
                if ns["cpu_vendor"](cpu) != v:
                    return "%s: vendor %r, not %r" % (path, ns["cpu_vendor"](cpu), v)
                if p.regs[(0x80000000, 0)][0] >= 0x80000004:
                    name = b"".join(struct.pack("<IIII", *p(0x80000002 + i)) for i in range(3)).split(b"\0")[0].decode()
                    if ns["cpu_name"](cpu) != name:
                        return "%s: name %r, not %r" % (path, ns["cpu_name"](cpu), name)
        return None


    def on_cpp(self, case, p):
        f = os.path.join(self.dir, "cpu")
        with open(f, "w") as o:
            for (leaf, sub), v in p.regs.items():
                o.write("%x %x %x %x %x %x\n" % ((leaf, sub) + v))
            o.write("ffffffff 0 %x %x %x %x\n" % p.other)
        r = subprocess.run([self.cpp], env=dict(os.environ, C31_CPU=f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        t = r.stdout.decode(errors="replace")
        if r.returncode:
            return "tools/cpuid.cpp ends with status %d: %s" % (r.returncode, t[-800:])
        vendor = struct.pack("<III", p(0)[1], p(0)[3], p(0)[2]).decode()
        self.label("cpuid.cpp, " + (vendor if vendor in ("GenuineIntel", "AuthenticAMD") else "another vendor"))
        lines = t.splitlines()
        if not lines or lines[0] != vendor:
            return "tools/cpuid.cpp prints the vendor %r, not %r" % (lines[:1], vendor)
        if p.regs[(0x80000000, 0)][0] >= 0x80000004:
            name = b"".join(struct.pack("<IIII", *p(0x80000002 + i)) for i in range(3)).split(b"\0")[0].decode()
            if lines[1] != name:
                return "tools/cpuid.cpp prints the name %r, not %r" % (lines[1], name)
        got = {}
        for l in lines[2:]:
            m = re.fullmatch(r"(\S+) (not )?supported", l)
            if m:
                got[m.group(1)] = not m.group(2)
        for k, (leaf, reg, bit, ven) in MSG.items():
            if ven and ven != vendor:
                continue
            if k not in got:
                return "tools/cpuid.cpp says nothing about %s" % k
            if got[k] != p.has(leaf, reg, bit):
                return "tools/cpuid.cpp: %s %ssupported, the processor says otherwise" % (k, "" if got[k] else "not ")
        return None

    def instruction(self, r):
        """the machine code in the scripts against the compiler's, on this processor; (cases, error)"""
        try:
            cpus = os.sched_getaffinity(0)
            os.sched_setaffinity(0, {min(cpus)})
        except OSError:
            cpus = None
        try:
            n = 0
            q = [(r.choice([0, 1, 7, 0x80000001, 0x80000002, 0x80000004, 0x80000008, 4, 2]), r.choice([0, 0, 1, 2])) for _ in range(40)]
            args = [x for leaf, s in q for x in ("%x" % leaf, "%x" % s)]

            def real():
                o = subprocess.run([self.real] + args, stdout=subprocess.PIPE).stdout.decode().split("\n")
                return [tuple(int(y, 16) for y in x.split()) for x in o if x]
            for path in ("tools/cpuid.py", "demo/cpuid.py"):
                a = real()
                try:
                    cpu = load(os.path.join(self.repo, path), "cpuid_under_test")["CPUID"]()
                except (OSError, SystemError) as e:
                    return n, None, "executable memory is not available here (%s)" % e
                g = [tuple(cpu(leaf, s)) for leaf, s in q]
                b = real()
                for i in range(len(q)):
                    if a[i] != b[i]:
                        continue
                    n += 1
                    if g[i] != a[i]:
                        return n, "%s: CPUID(%x, %x) gives %s, the instruction %s" % (path, q[i][0], q[i][1], ["%x" % x for x in g[i]], ["%x" % x for x in a[i]]), None
            return n, None, None
        finally:
            if cpus:
                os.sched_setaffinity(0, cpus)




def shrink(chk, case, deadline):
    def fails(c):
        try:
            return chk.run(c)
        except Exception as e:  # the same kind of failure
            return "%s: %s" % (type(e).__name__, e)
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for k in sorted(case["regs"]):
            for i in range(4):
                v = case["regs"][k][i]
                if k in ("0:0", "80000000:0") or not v or time.time() > deadline:
                    continue
                for w in [0] + [v & ~(1 << b) for b in range(32) if v >> b & 1]:
                    c = dict(case, regs=dict(case["regs"], **{k: case["regs"][k][:i] + [w] + case["regs"][k][i + 1:]}))
                    if fails(c):
                        case, v, changed = c, w, True
                        if not v:
                            break
    return case


def attempt(chk, case):
    try:
        return chk.run(case)
    except subprocess.TimeoutExpired:
        return None
    except Exception as e:
        return "%s ends with %s: %s" % (case["kind"], type(e).__name__, e)


def explore(repo, build, cxx, seed, tier):
    """-> dict(evaluations, distinct, labels, samples, error, case, notes)"""
    chk = Check(repo, build, cxx)
    res = {"evaluations": 0, "distinct": 0, "labels": chk.labels, "samples": [], "error": None, "case": None, "notes": []}
    try:
        e = chk.compile()
        if e:
            res["build"] = e
            return res
        r = random.Random("C31/%d" % seed)
        seen = set()
        end = time.time() + (40 if tier == "quick" else 500)
        total = 2000 if tier == "quick" else 60000
        for i in range(total):
            if time.time() > end:
                break
            if i % 200 == 0:
                n, err, note = chk.instruction(r)
                res["evaluations"] += n
                if n:
                    chk.labels["instruction"] = chk.labels.get("instruction", 0) + n
                if note and note not in res["notes"]:
                    res["notes"].append(note)
                if err:
                    res["error"], res["case"] = err, {"kind": "instruction"}
                    return res
            case = gen(r)
            res["evaluations"] += 1
            seen.add(repr(case))
            if i < 6:
                res["samples"].append("%s: leaf 0 %s, leaf 1 %s, leaf 7 %s" % (case["kind"], *[["%x" % x for x in case["regs"].get(k, [])] for k in ("0:0", "1:0", "7:0")]))
            err = attempt(chk, case)
            if err:
                case = shrink(chk, case, time.time() + 30)
                res["error"], res["case"] = attempt(chk, case) or err, case
                return res
        res["distinct"] = len(seen)
        return res
    finally:
        chk.close()


def again(repo, build, cxx, case):
    chk = Check(repo, build, cxx)
    try:
        if chk.compile():
            return None
        if case["kind"] == "instruction":
            return chk.instruction(random.Random(1))[1]
        return attempt(chk, case)
    finally:
        chk.close()
