"""Textbook R-ate pairing of the SM9 generators (GB/T 38635.1), in plain
Python over F_p[w]/(w^12+2); prints the constant used in ref/ref_sm9.cpp."""
t = 0x600000000058F98A
p = 36*t**4 + 36*t**3 + 24*t**2 + 6*t + 1
n = 36*t**4 + 36*t**3 + 18*t**2 + 6*t + 1
assert p == 0xb640000002a3a6f1d603ab4ff58ec74521f2934b1a7aeedbe56f9b27e351457d
assert n == 0xb640000002a3a6f1d603ab4ff58ec74449f2934b18ea8beee56ee19cd69ecf25
def mul(a, b):
    r = [0]*23
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i+j] += x*y
    return [(r[i] - 2*(r[i+12] if i+12 < 23 else 0)) % p for i in range(12)]
def add(a, b): return [(x+y) % p for x, y in zip(a, b)]
def sub(a, b): return [(x-y) % p for x, y in zip(a, b)]
def sc(a, k): return [x*k % p for x in a]
def pw(a, e):
    r = [1]+[0]*11
    while e:
        if e & 1: r = mul(r, a)
        a = mul(a, a); e >>= 1
    return r
def inv(a): # extended Euclid on polynomials
    m = [2]+[0]*11+[1]
    def deg(f):
        d = len(f)-1
        while d and not f[d]: d -= 1
        return d
    lm, hm, low, high = [1]+[0]*12, [0]*13, a+[0], m
    while deg(low):
        dl, q = deg(low), [0]*13
        nm, new = hm[:], high[:]
        li = pow(low[dl], -1, p)
        while deg(new) >= dl and any(new):
            d = deg(new); k = new[d]*li % p; s = d-dl
            for i in range(13-s):
                nm[i+s] = (nm[i+s] - lm[i]*k) % p
                new[i+s] = (new[i+s] - low[i]*k) % p
        lm, low, hm, high = nm, new, lm, low
    li = pow(low[0], -1, p)
    return [x*li % p for x in lm[:12]]
one = [1]+[0]*11
def W(k): r = [0]*12; r[k] = 1; return r
def line(T, Q, P): # value at P of the line through T and Q; also T+Q
    if T[0] == Q[0]:
        lam = mul(sc(mul(T[0], T[0]), 3), inv(sc(T[1], 2)))
    else:
        lam = mul(sub(Q[1], T[1]), inv(sub(Q[0], T[0])))
    x = sub(sub(mul(lam, lam), T[0]), Q[0])
    R = (x, sub(mul(lam, sub(T[0], x)), T[1]))
    return sub(mul(lam, sub(P[0], T[0])), sub(P[1], T[1])), R
def pairing(P, Q):
    P = ([P[0]]+[0]*11, [P[1]]+[0]*11)
    q = [[0]*12, [0]*12]
    for i in range(2):
        q[i][0], q[i][6] = Q[i][1], Q[i][0]
    Q = (mul(q[0], inv(W(2))), mul(q[1], inv(W(3))))
    assert mul(Q[1], Q[1]) == add(mul(Q[0], mul(Q[0], Q[0])), sc(one, 5))
    f, T = one, Q
    for b in bin(6*t+2)[3:]:
        l, T = line(T, T, P); f = mul(mul(f, f), l)
        if b == '1':
            l, T = line(T, Q, P); f = mul(f, l)
    Q1 = (pw(Q[0], p), pw(Q[1], p)); Q2 = (pw(Q1[0], p), sub([0]*12, pw(Q1[1], p)))
    l, T = line(T, Q1, P); f = mul(f, l)
    l, T = line(T, Q2, P); f = mul(f, l)
    return pw(f, (p**12-1)//n)
P1 = (0x93DE051D62BF718FF5ED0704487D01D6E1E4086909DC3280E8C4E4817C66DDDD, 0x21FE8DDA4F21E607631065125C395BBC1C1C00CBFA6024350C464CD70A3EA616)
P2 = ((0x85AEF3D078640C98597B6027B441A01FF1DD2C190F5E93C454806C11D8806141, 0x3722755292130B08D2AAB97FD34EC120EE265948D19C17ABF9B7213BAF82D65B),
      (0x17509B092E845C1266BA0D262CBEE6ED0736A96FA347C8BD856DC76B84EBEB96, 0xA7CF28D519BE3DA65F3170153D278FF247EFBA98A71A08116215BBA5C999A7C7))
if __name__ == "__main__":
    g = pairing(P1, P2)
    assert g != one and pw(g, n) == one
    # 2 P1
    l = 3*P1[0]**2*pow(2*P1[1], -1, p) % p; x = (l*l-2*P1[0]) % p
    assert pairing((x, (l*(P1[0]-x)-P1[1]) % p), P2) == mul(g, g)
    for c in g: print('"%064x",' % c)
    # the standard's example: g = e(P1, [ks]P2)
    gg = pw(g, 0x0130E78459D78545CB54C587E02CF480CE0B66340F319F348A1D5B1F2DC5F4)
    print("// standard example, first two coefficients:", "%064x %064x" % (gg[2+3+6], gg[2+3]))
