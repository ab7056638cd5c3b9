"""C34: demo/make.py builds every demo for any processor, and the demos' results
are right.

A case is a processor (scripted CPUID registers, or none to be had), the demo
programs make.py builds on it, and byte streams the demos draw their random
values from.  Oracle: the definitions and options the manuals' bits give, and
independent implementations of SM3, HMAC, SM4, CBC, GCM and SM2 applied to what
the demos print."""
import concurrent.futures as cf
import json
import os
import random
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SHIM = r"""
#include <cstdio>
#include <cstdlib>
#include <cstring>
// std::random_device delivers the bytes of DEMO_STREAM (hex), then those of a
// generator seeded by DEMO_SEED
extern "C" unsigned scripted() __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned scripted()
{
    static const char*        s = std::getenv("DEMO_STREAM");
    static unsigned long long x = std::strtoull(std::getenv("DEMO_SEED"), nullptr, 10);
    unsigned v;
    if (s && std::sscanf(s, "%2x", &v) == 1)
    {
        s += 2;
        return v;
    }
    x += 0x9E3779B97F4A7C15ull;
    unsigned long long z = x;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return (unsigned)(z >> 32);
}
"""


# ---------------------------------------------------------------- references
def rol(x, n):
    n &= 31
    return ((x << n) | (x >> (32 - n))) & 0xffffffff


def sm3(m):
    v = [0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e]
    p = m + b"\x80" + b"\0" * ((55 - len(m)) % 64) + (8 * len(m)).to_bytes(8, "big")
    for o in range(0, len(p), 64):
        w = [int.from_bytes(p[o + 4 * i:o + 4 * i + 4], "big") for i in range(16)]
        for i in range(16, 68):
            x = w[i - 16] ^ w[i - 9] ^ rol(w[i - 3], 15)
            w.append(x ^ rol(x, 15) ^ rol(x, 23) ^ rol(w[i - 13], 7) ^ w[i - 6])
        a, b, c, d, e, f, g, h = v
        for j in range(64):
            s1 = rol((rol(a, 12) + e + rol(0x79cc4519 if j < 16 else 0x7a879d8a, j)) & 0xffffffff, 7)
            s2 = s1 ^ rol(a, 12)
            t1 = ((a ^ b ^ c if j < 16 else a & b | a & c | b & c) + d + s2 + (w[j] ^ w[j + 4])) & 0xffffffff
            t2 = ((e ^ f ^ g if j < 16 else e & f | ~e & g) + h + s1 + w[j]) & 0xffffffff
            a, b, c, d, e, f, g, h = t1, a, rol(b, 9), c, t2 ^ rol(t2, 9) ^ rol(t2, 17), e, rol(f, 19), g
        v = [x ^ y for x, y in zip(v, (a, b, c, d, e, f, g, h))]
    return b"".join(x.to_bytes(4, "big") for x in v)


def hmac(k, m):
    k = (sm3(k) if len(k) > 64 else k).ljust(64, b"\0")
    return sm3(bytes(x ^ 0x5c for x in k) + sm3(bytes(x ^ 0x36 for x in k) + m))


def gmul(a, b, poly, n):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a >> n:
            a ^= poly
        b >>= 1
    return r


def sm4_box():
    """the S-box from its algebraic form: two affine maps around the inversion in GF(2)[x]/(x^8+x^7+x^6+x^5+x^4+x^2+1)"""
    def affine(x):
        return sum((bin((0xa7 << i | 0xa7 >> (8 - i)) & 0xff & x).count("1") & 1) << i for i in range(8))

    def inverse(x):
        r = 1
        for _ in range(254):
            r = gmul(r, x, 0x1f5, 8)
        return r if x else 0
    return [affine(inverse(affine(x) ^ 0xd3)) ^ 0xd3 for x in range(256)]


BOX = sm4_box()


def sm4_t(x, key):
    y = int.from_bytes(bytes(BOX[b] for b in x.to_bytes(4, "big")), "big")
    return y ^ rol(y, 13) ^ rol(y, 23) if key else y ^ rol(y, 2) ^ rol(y, 10) ^ rol(y, 18) ^ rol(y, 24)


def sm4(key, block, decrypt=False):
    fk = [0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc]
    k = [int.from_bytes(key[4 * i:4 * i + 4], "big") ^ fk[i] for i in range(4)]
    for i in range(32):
        ck = int.from_bytes(bytes((4 * i + j) * 7 & 255 for j in range(4)), "big")
        k.append(k[i] ^ sm4_t(k[i + 1] ^ k[i + 2] ^ k[i + 3] ^ ck, True))
    rk = k[4:][::-1] if decrypt else k[4:]
    x = [int.from_bytes(block[4 * i:4 * i + 4], "big") for i in range(4)]
    for r in rk:
        x = x[1:] + [x[0] ^ sm4_t(x[1] ^ x[2] ^ x[3] ^ r, False)]
    return b"".join(v.to_bytes(4, "big") for v in x[::-1])


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def blocks(m):
    return [m[i:i + 16] for i in range(0, len(m), 16)]


def sm4_ecb(k, m):
    return b"".join(sm4(k, b) for b in blocks(m))


def sm4_cbc(k, iv, m):
    o = []
    for b in blocks(m):
        iv = sm4(k, xor(b, iv))
        o.append(iv)
    return b"".join(o)


def sm4_gcm(k, iv, aad, m):
    def gf(x, y):
        z = 0
        for i in range(128):
            if x >> (127 - i) & 1:
                z ^= y
            y = y >> 1 ^ (0xe1 << 120 if y & 1 else 0)
        return z
    h = int.from_bytes(sm4(k, bytes(16)), "big")
    c = b"".join(xor(b, sm4(k, iv + (i + 2).to_bytes(4, "big"))) for i, b in enumerate(blocks(m)))
    y = 0
    for b in blocks(aad.ljust(-(-len(aad) // 16) * 16, b"\0")) + blocks(c.ljust(-(-len(c) // 16) * 16, b"\0")) + [(8 * len(aad)).to_bytes(8, "big") + (8 * len(c)).to_bytes(8, "big")]:
        y = gf(y ^ int.from_bytes(b, "big"), h)
    return c, xor(y.to_bytes(16, "big"), sm4(k, iv + b"\0\0\0\1"))


P = 0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF
A = P - 3
B = 0x28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93
N = 0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123
G = (0x32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7, 0xBC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0)


def add(a, b):
    if not a or not b:
        return a or b
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        l = (3 * a[0] * a[0] + A) * pow(2 * a[1], -1, P) % P
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (l * l - a[0] - b[0]) % P
    return x, (l * (a[0] - x) - a[1]) % P


def mul(k, a):
    r = None
    while k:
        if k & 1:
            r = add(r, a)
        a = add(a, a)
        k >>= 1
    return r


def i2(b):
    return int.from_bytes(b, "big")


def sm2_verify(pub, m, sig, ident=b"1234567812345678"):
    z = sm3((8 * len(ident)).to_bytes(2, "big") + ident + b"".join(v.to_bytes(32, "big") for v in (A, B) + G + pub))
    e, r, s = i2(sm3(z + m)), i2(sig[:32]), i2(sig[32:])
    t = (r + s) % N
    if not (0 < r < N and 0 < s < N and t):
        return False
    q = add(mul(s, G), mul(t, pub))
    return q is not None and (e + q[0]) % N == r


def sm2_decrypt(d, c):
    """C1 || C3 || C2; None when it is not valid"""
    if len(c) < 98 or c[0] != 4:
        return None
    q = (i2(c[1:33]), i2(c[33:65]))
    if (q[1] ** 2 - q[0] ** 3 - A * q[0] - B) % P:
        return None
    x, y = (v.to_bytes(32, "big") for v in mul(d, q))
    c3, c2 = c[65:97], c[97:]
    t = b"".join(sm3(x + y + i.to_bytes(4, "big")) for i in range(1, len(c2) // 32 + 2))
    m = xor(c2, t)
    return m if sm3(x + m + y) == c3 else None


# ---------------------------------------------------------------- what the demos print
def parse(text):
    """-> dumped byte strings in order, lines that are a lone 0 or 1"""
    out, cur, flags = [], None, []
    for l in text.splitlines():
        m = re.match(r"((?:[0-9a-f]{2} )+) ", l + "  ")
        if m and not l.startswith("["):
            if cur is None:
                cur = []
                out.append(cur)
            cur.append(bytes.fromhex(m.group(1)))
        else:
            cur = None
            if l.strip() in ("0", "1"):
                flags.append(l.strip())
    return [b"".join(x) for x in out], flags


def ok_key(d, x, y):
    return 0 < i2(d) < N - 1 and mul(i2(d), G) == (i2(x), i2(y))


def j_sm2_cipher(b, f):
    d, x, y, m, c, p = b
    if not ok_key(d, x, y):
        return "the public key is not the private key's"
    if p != m:
        return "decryption gives %s, the message was %s" % (p.hex(), m.hex())
    if sm2_decrypt(i2(d), c) != m:
        return "the ciphertext %s does not decrypt to the message" % c.hex()


def j_sm2_sign(b, f):
    d, x, y, m, s = b
    if not ok_key(d, x, y):
        return "the public key is not the private key's"
    if f != ["1"]:
        return "verification prints %s" % f
    if not sm2_verify((i2(x), i2(y)), m, s):
        return "the signature %s is not valid" % s.hex()


def j_sm3_hash(b, f):
    m, h = b
    if sm3(m) != h:
        return "SM3(%s) is %s, not %s" % (m.hex(), sm3(m).hex(), h.hex())


def j_sm3_hmac(b, f):
    m, k, h = b
    if hmac(k, m) != h:
        return "HMAC(%s, %s) is %s, not %s" % (k.hex(), m.hex(), hmac(k, m).hex(), h.hex())


def j_sm4_cipher(b, f):
    k, m, c, p = b
    if sm4_ecb(k, m) != c:
        return "SM4(%s, %s) is %s, not %s" % (k.hex(), m.hex(), sm4_ecb(k, m).hex(), c.hex())
    if p != m:
        return "decryption gives %s, the message was %s" % (p.hex(), m.hex())


def j_sm4_cbc(b, f):
    k, iv, m, c, p = b
    if sm4_cbc(k, iv, m) != c:
        return "CBC(%s, %s, %s) is %s, not %s" % (k.hex(), iv.hex(), m.hex(), sm4_cbc(k, iv, m).hex(), c.hex())
    if p != m:
        return "decryption gives %s, the message was %s" % (p.hex(), m.hex())


def j_sm4_gcm(b, f):
    k, iv, a, m, c, t, p = b
    if sm4_gcm(k, iv, a, m) != (c, t):
        return "GCM(%s, %s, %s, %s) is not %s %s" % (k.hex(), iv.hex(), a.hex(), m.hex(), c.hex(), t.hex())
    if p != m:
        return "decryption gives %s, the message was %s" % (p.hex(), m.hex())


def j_sm9_sign(b, f):
    if f != ["1"]:
        return "verification prints %s" % f


# demo: judge, number of dumped values
DEMOS = {"sm2/sm2_cipher.cpp": (j_sm2_cipher, 6), "sm2/sm2_sign.cpp": (j_sm2_sign, 5), "sm3/sm3_hash.cpp": (j_sm3_hash, 2), "sm3/sm3_hmac.cpp": (j_sm3_hmac, 3),
         "sm4/sm4_cipher.cpp": (j_sm4_cipher, 4), "sm4/sm4_cbc.cpp": (j_sm4_cbc, 5), "sm4/sm4_gcm.cpp": (j_sm4_gcm, 7), "sm9/sm9_sign.cpp": (j_sm9_sign, 5)}


def c31():
    return runpy.run_path(os.path.join(HERE, "C31.py"))


def child(argv):
    """run make.py on a scripted processor: demo directory, source, target, processor"""
    m = c31()
    os.chdir(argv[0])
    sys.dont_write_bytecode = True
    sys.path[0] = argv[0]
    sys.argv = ["make.py", argv[1], argv[2]]
    case = json.loads(argv[3])
    if isinstance(case, dict):
        with m["scripted"](m["processor"](case)):
            runpy.run_path("make.py", run_name="__main__")
    else:
        import ctypes
        import mmap
        import platform

        def none(*a, **k):
            raise {"machine": SystemError, "mapping": OSError, "memory": MemoryError, "ctypes": AttributeError}[case]("CPUID cannot be executed")
        if case == "machine":
            platform.machine = lambda: "aarch64"
        elif case in ("mapping", "memory"):
            mmap.mmap = none
        ctypes.CFUNCTYPE = none
        ctypes.pythonapi = None
        runpy.run_path("make.py", run_name="__main__")


class Check:
    def __init__(self, repo, build, cxx):
        self.repo, self.cxx = repo, cxx
        self.dir = tempfile.mkdtemp(prefix="c34-", dir=build)
        self.m31 = c31()
        self.labels = {}
        os.mkdir(self.dir + "/bin")
        with open(self.dir + "/bin/g++", "w") as o:
            o.write('#!/bin/bash\nprintf "%%s\\0" "$@" > "$C34_LOG"\nexec "%s" "$@"\n' % shutil.which(cxx))
        os.chmod(self.dir + "/bin/g++", 0o755)
        with open(self.dir + "/shim.cpp", "w") as o:
            o.write(SHIM)
        subprocess.run([cxx, "-shared", "-fPIC", "-O1", self.dir + "/shim.cpp", "-o", self.dir + "/shim.so"], check=True)
        try:
            self.host = set(re.search(r"^flags\s*:\s*(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
        except Exception:
            self.host = set()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def label(self, x):
        self.labels[x] = self.labels.get(x, 0) + 1

    def make(self, demo, proc):
        """-> error, arguments of g++, program"""
        d = tempfile.mkdtemp(dir=self.dir)
        exe, log = d + "/demo.exe", d + "/log"
        r = subprocess.run([sys.executable, "-B", os.path.join(HERE, "C34.py"), "--make", self.repo + "/demo", demo, exe, json.dumps(proc)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=300, env=dict(os.environ, PATH=self.dir + "/bin:" + os.environ["PATH"], C34_LOG=log, PYTHONDONTWRITEBYTECODE="1"))
        if not os.path.exists(log):
            return "make.py runs no compiler for %s: %s" % (demo, r.stdout[-600:]), None, None
        args = open(log).read().split("\0")[:-1]
        if not os.path.exists(exe):
            e = [l for l in r.stdout.splitlines() if "error" in l or "undefined" in l or "rror:" in l][:3]
            return "make.py does not build %s: %s" % (demo, " / ".join(e) or r.stdout[-600:]), args, None
        return None, args, exe

    def build(self, case):
        """-> error, program"""
        err, args, exe = self.make(case["demo"], case["cpu"])
        if args is not None:
            want = {}
            if isinstance(case["cpu"], dict):
                p = self.m31["processor"](case["cpu"])
                want = {f: o for f, (leaf, reg, bit, o) in self.m31["FLAGS"].items() if p.has(leaf, reg, bit)}
            got = sorted(a[2:].split("=")[0] for a in args if a.startswith("-DCPU_FLAG_"))
            if got != sorted("CPU_FLAG_" + w for w in want):
                return "make.py defines %s, the processor has %s" % (got, sorted(want)), None
            got = sorted(a for a in args if a.startswith("-m"))
            if got != sorted(want.values()):
                return "make.py compiles with %s, the processor has %s" % (got, sorted(want)), None
        if err:
            return err, None
        self.label("%d extensions" % len(want) if want else "no extension" if isinstance(case["cpu"], dict) else "unknown processor: " + case["cpu"])
        need = {"SSE2": "sse2", "AVX2": "avx2", "AES": "aes", "MOVBE": "movbe", "BMI2": "bmi2", "RDSEED": "rdseed", "RDRAND": "rdrand", "PCLMUL": "pclmulqdq"}
        return None, exe if {need[w] for w in want} <= self.host else None

    def judge(self, demo, exe, stream, seed):
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, env=dict(os.environ, LD_PRELOAD=self.dir + "/shim.so", DEMO_STREAM=stream, DEMO_SEED=str(seed)))
        t = r.stdout.decode("latin-1")
        if r.returncode:
            return "%s ends with %d: %s" % (demo, r.returncode, t[-300:])
        b, f = parse(t)
        judge, n = DEMOS[demo]
        if len(b) < n:
            return "%s prints %d values instead of %d" % (demo, len(b), n)
        if len(b) > n:
            return None  # another layout than the one known here
        try:
            e = judge(b, f)
        except Exception as x:
            return "%s prints values of the wrong size (%s: %s): %s" % (demo, type(x).__name__, x, [len(v) for v in b])
        return e and "%s: %s" % (demo, e)

    def attempt(self, case):
        try:
            e, exe = self.build(case)
            if e or not exe:
                return e
            for s, seed in case["streams"]:
                e = self.judge(case["demo"], exe, s, seed)
                if e:
                    case["streams"] = [[s, seed]]
                    return e
            return None
        except subprocess.TimeoutExpired:
            return "%s does not end" % case["demo"]



def stream(r):
    """shaped bytes: fields of zeros, ones, small values, values near n, random ones"""
    o = b""
    for _ in range(r.randrange(5)):
        k = r.randrange(8)
        n = r.choice([1, 8, 12, 16, 31, 32, 33, 64])
        o += (bytes(n) if k == 0 else b"\xff" * n if k == 1 else (bytes(max(0, n - 1)) + bytes([r.randrange(4)])) if k == 2 else (N + r.randrange(-3, 3)).to_bytes(32, "big") if k == 3
              else bytes([r.randrange(256)]) * n if k == 4 else bytes(r.getrandbits(8) for _ in range(n)))
    return o.hex()


NONE = ["machine", "mapping", "memory", "ctypes"]


def cpu(r, m31, host):
    if r.random() < 0.15:
        return r.choice(NONE)
    c = m31["gen"](r)
    case = {"regs": c["regs"], "other": c["other"]}
    if r.random() < 0.5:  # leaf 7 present, so that any subset can come up
        case["regs"]["0:0"][0] = max(7, case["regs"]["0:0"][0])
        for k in ("1:0", "7:0"):
            case["regs"].setdefault(k, [r.getrandbits(32) for _ in range(4)])
    if r.random() < 0.8:  # only what this machine can run
        need = {"SSE2": "sse2", "AVX2": "avx2", "AES": "aes", "MOVBE": "movbe", "BMI2": "bmi2", "RDSEED": "rdseed", "RDRAND": "rdrand", "PCLMUL": "pclmulqdq"}
        for f, (leaf, reg, bit, _) in m31["FLAGS"].items():
            k = "%x:0" % leaf
            if need[f] not in host and k in case["regs"]:
                case["regs"][k][reg] &= ~(1 << bit)
    return case


def explore(repo, build, cxx, seed, tier):
    res = {"evaluations": 0, "distinct": 0, "labels": {}, "samples": [], "error": None, "case": None, "notes": []}
    chk = Check(repo, build, cxx)
    res["labels"] = chk.labels
    try:
        r = random.Random("C34/%d" % seed)
        demos = [d for d in DEMOS if os.path.exists(repo + "/demo/" + d)]
        if not demos or not os.path.exists(repo + "/demo/make.py"):
            res["notes"].append("no demos here")
            return res
        quick = tier == "quick"
        end = time.time() + (120 if quick else 700)
        seen = set()
        for rnd in range(8 if quick else 60):
            if time.time() > end:
                break
            cases = []
            for d in demos:
                c = cpu(r, chk.m31, chk.host)
                if rnd == 0:
                    c = r.choice(NONE)
                cases.append({"demo": d, "cpu": c, "streams": [[stream(r), r.getrandbits(62)] for _ in range(25 if quick else 60)]})
            with cf.ThreadPoolExecutor(8) as ex:
                errs = list(ex.map(chk.attempt, cases))
            for c, e in zip(cases, errs):
                res["evaluations"] += 1 + len(c["streams"])
                seen.add(json.dumps(c))
                chk.label(c["demo"])
                if len(res["samples"]) < 8:
                    res["samples"].append("%s, %s, stream %s.." % (c["demo"], "processor with leaf 1 %s" % ["%x" % x for x in c["cpu"]["regs"].get("1:0", [])] if isinstance(c["cpu"], dict) else "processor unknown (%s)" % c["cpu"], c["streams"][0][0][:40]))
                if e and not res["error"]:
                    res["error"], res["case"] = e, c
            for d in os.listdir(chk.dir):
                if d.startswith("tmp"):
                    shutil.rmtree(os.path.join(chk.dir, d), ignore_errors=True)
            if res["error"]:
                # shrink: no processor, a shorter stream
                c = res["case"]
                stop = time.time() + 60
                for v in ([dict(c, cpu="machine")] if isinstance(c["cpu"], dict) else []) + [dict(c, streams=[[s[0][:k], s[1]] for s in c["streams"][:1]]) for k in (0, 32, 64, 128)]:
                    if time.time() < stop and len(c["streams"]) >= 1:
                        e = chk.attempt(json.loads(json.dumps(v)))
                        if e:
                            res["error"], res["case"] = e, v
                            break
                break
        res["distinct"] = len(seen) * (25 if quick else 60)
        return res
    finally:
        chk.close()


def again(repo, build, cxx, case):
    chk = Check(repo, build, cxx)
    try:
        return chk.attempt(json.loads(json.dumps(case)))
    finally:
        chk.close()


if __name__ == "__main__" and sys.argv[1:2] == ["--make"]:
    child(sys.argv[2:])
