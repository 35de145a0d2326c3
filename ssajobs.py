"""The harnesses of engine B: which functions run with which parameters."""


def J(pkg, func, weight=1, **kw):
    j = {"pkg": pkg, "func": func, "weight": weight}
    for k in ("setup", "seconds", "timeout", "contracts", "name"):
        if k in kw:
            j[k] = kw.pop(k)
    j["params"] = kw
    return j


def groups(h, tier):
    return globals()[h](tier == "thorough")


def c11(deep):
    js = [J("buckler", "ZZC11", bits=n, weight=n + 1) for n in range(0, 9 if deep else 6)]
    js += [J("buckler", "ZZC11Len", bits=n, weight=3) for n in ((12, 16, 24, 32) if deep else (12,))]
    for b in (1, 2, 3, 6, 10) + ((20, 40) if deep else ()):
        for o in (-1, 0, 1):
            js.append(J("buckler", "ZZC11Fixed", bits=b, off=o, qbits=61, weight=2))
    for b in (31, 32, 33, 63, 64, 65, 100, 128) + ((200, 256) if deep else ()):
        for o in (-3, 0, 5):
            js.append(J("buckler", "ZZC11Wide", bits=b, off=o))
    js.append(J("buckler", "ZZC11Fixed", bits=0, off=0, qbits=13, half=1))
    js.append(J("buckler", "ZZC11Fixed", bits=0, off=0, qbits=7, half=1))
    return [{"jobs": js}]


def c16(deep):
    P = "math/csprng"
    js = [J(P, "ZZC16Range", words=w, weight=2) for w in (1, 2, 3)]
    js.append(J(P, "ZZC16Unbiased", weight=5))
    for n, s in ((1, 0), (2, 0), (3, 0), (5, 0), (1, 32), (1, 40), (3, 40), (1, 63), (3, 62)):
        for o in (0, 1, -1) if s else (0,):
            js.append(J(P, "ZZC16Small", n=n, shift=s, off=o))
    for a, b in ((0, 1), (1, 0), (1, 15), (16, 16), (7, 30), (33, 5)):
        for sd in (0, 1, 32, 48):
            js.append(J(P, "ZZC16Read", seed=sd, first=a, second=b))
    for n, e, c in ((8191, 511, 0), (8193, 512, 1), (16390, 4097, 8192)) + (((70000, 8191, 65535),) if deep else ()):
        js.append(J(P, "ZZC16Long", len=n, every=e, cut=c, weight=4))
    for n in (1, 16, 32, 33, 64, 100):
        for k in range(n) if deep else sorted({0, n // 2, n - 1}):
            js.append(J(P, "ZZC16Seed", seed=n, at=k))
    for k in (0, 1, 500, 1021, 1022, 1023, 1024, 1025, 2046, 2047, 3000):
        js.append(J(P, "ZZC16Words", skip=k))
    for k in range(8):
        js.append(J(P, "ZZC16Refill", at=k, old=(0, 255, 0xa5, 1)[k % 4], weight=2))
    return [{"jobs": js}]


PRIMES = ((4, 1), (16, 1), (61, 65), (64, 961), (110, 193), (220, 3777), (440, 897))


def c15(deep):
    P = "math/bigpoly"
    js = []
    for pb, po in PRIMES:
        qs = {(pb, po), (pb, po - 1), (pb + 1, 2 * po), (0, 0), (1, 0), (1, 1), (3, 0), (8, 1), (60, -1), (pb + 20, 7), (pb + 60, 0), (pb + 61, -5)}
        if deep:
            qs |= {(b, o) for b in (2, 5, 13, 31, 64, 120, 180, 240, 500) for o in (-1, 0, 1, 3)}
        for i, (qb, qo) in enumerate(sorted(qs)):
            r = (2, 4, 8)[i % 3]
            if pb == 4:
                r = 2 if i % 2 else 4
            js.append(J(P, "ZZC15", pbits=pb, poff=po, qbits=qb, qoff=qo, rank=r, at=(i * 3 + 1) % r))
    for r in (2, 4, 8):
        for k in range(r):
            js.append(J(P, "ZZC15", pbits=16, poff=1, qbits=30, qoff=3 * k, rank=r, at=k))
    for pb, po in PRIMES:
        for w in (6, 30, 64, 128, 240, 300) if deep else (6, 64, 240):
            js.append(J(P, "ZZC15", pbits=pb, poff=po, qsym=w, rank=2, at=1, weight=3, timeout=60000, seconds=500))
    return [{"jobs": js}]


RECON = {"jindo": {"RNSReconstructor.reconstructTo": "if zzRecon($0, $1) { return }; $r.zzoreconstructTo($0, $1)"}}


def c09(deep):
    js = []
    for bits, limbs, mixed in ((50, 1, 0), (58, 2, 0), (40, 2, 61), (61, 2, 20), (58, 3, 0), (30, 3, 60)) + (((61, 4, 0), (20, 4, 61), (61, 1, 0), (17, 2, 0)) if deep else ()):
        for k in range(8) if deep or bits == 58 and limbs == 2 else (0, 5):
            js.append(J("jindo", "ZZC09", setup=True, bits=bits, limbs=limbs, mixed=mixed, at=k, weight=limbs * limbs, timeout=60000, seconds=300))
        for k in (3, 7):
            js.append(J("jindo", "ZZC09Set", setup=True, bits=bits, limbs=limbs, mixed=mixed, at=k, weight=3 * limbs, timeout=60000, seconds=300))
        js.append(J("jindo", "ZZC09Set", setup=True, bits=bits, limbs=limbs, mixed=mixed, at=k, small=1, weight=3))
        js.append(J("jindo", "ZZC09Set", setup=True, bits=bits, limbs=limbs, mixed=mixed, at=k, residue=1, weight=3))
        js.append(J("jindo", "ZZC09Set", setup=True, bits=bits, limbs=limbs, mixed=mixed, at=k, small=1, same=1, weight=9))
        js.append(J("jindo", "ZZC09Copy", setup=True, bits=bits, limbs=limbs, mixed=mixed, weight=2))
    js.append(J("jindo", "ZZC09Balanced"))
    return [{"jobs": js, "files": ["zz_c09.go"]}]


def c10(deep):
    js = []
    bounds = ((1, 0), (2, 0), (1000, 0), (1001, -1), (3, -2), (1001, 10), (77777, 40), (1001, 60), (3, 90))
    for limbs in (1, 2, 3):
        for polys in (0, 1, 2, 3, 5):
            for m, e in bounds if deep or polys == 2 or limbs == 2 else bounds[2:8:3]:
                js.append(J("jindo", "ZZC10", setup=True, contract=1, all=1, bits=58, limbs=limbs, polys=polys, mant=m, exp=e))
    for limbs, m, e, rest in ((1, 1000, 0, 0), (2, 1001, 10, 2000), (2, 5, 60, 3), (1, 1000001, -1, 100)):
        for k in range(16) if deep else (0, 3, 7, 8, 15):
            js.append(J("jindo", "ZZC10", setup=True, bits=40, limbs=limbs, polys=2, at=k, at2=-1, at3=-1, mant=m, exp=e, rest=rest, weight=3 * limbs))
    return [{"jobs": js, "files": ["zz_c09.go", "zz_c10.go"], "stubs": RECON}]


NOISE = {"math/csprng": {
    "TwinCDTGaussianSampler.Sample": "if ZZNoise != nil { return ZZNoise($r.StdDev()) }; return $r.zzoSample($0)",
    "COSACSampler.Sample": "if ZZNoise != nil { return ZZNoise($1) }; return $r.zzoSample($0, $1)",
    "RoundedGaussianSampler.Sample": "if ZZNoise != nil { return ZZNoise($1) }; return $r.zzoSample($0, $1)",
}}
RECONB = {"jindo": {"RNSReconstructor.reconstructTo": "if zzReconB($r, $0, $1) { return }; $r.zzoreconstructTo($0, $1)"}}
JG = {"files": ["zz_c09.go", "zz_params.go", "zz_c07.go", "zz_noise.go"], "stubs": dict(NOISE, **RECONB), "extra": ["math/csprng"]}


def c08(deep):
    js = []
    # base, exponent, slots
    for b, e, s in ((65536, 1, 8), (256, 2, 4), (16, 4, 2), (16, 8, 1), (7, 16, 1), (4, 8, 2), (5, 2, 4), (1 << 32, 2, 4), (1 << 40, 4, 2), (2642, 16, 1)) + (
            ((1 << 20, 8, 4), (1 << 30, 4, 4), (10, 4, 8), (11, 4, 4), (1 << 63, 2, 8), (6, 32, 1)) if deep else ()):
        for l in (1, 2) if deep or e < 8 else (2,):
            for o in (0, 1) if deep or e < 8 else (0,):
                js.append(J("jindo", "ZZC08", setup=True, base=b, exp=e, slots=s, limbs=l, olimbs=3 - l, outer=o, bits=61, obits=60, weight=e, seconds=200))
        for k in range(e) if deep else sorted({0, e // 2, e - 1}):
            js.append(J("jindo", "ZZC08", setup=True, base=b, exp=e, slots=s, limbs=1, reach=k + 1, bits=61, weight=e, seconds=200))
    return [dict({"jobs": js}, **JG)]


def c07(deep):
    js = []
    for b, e, s in ((256, 2, 4), (16, 4, 2), (4, 8, 1), (65536, 1, 8), (1 << 32, 2, 4), (10, 4, 4)) + (
            ((7, 16, 1), (1 << 40, 4, 4), (1 << 30, 8, 2), (5, 8, 2), (6, 2, 8)) if deep else ()):
        for l in (1, 2):
            for k in range(4):
                for n in sorted({0, 1, s - 1, s}):
                    js.append(J("jindo", "ZZC07", setup=True, base=b, exp=e, slots=s, limbs=l, bits=61, kind=k, len=n, copy=int((n + l + k) % 3 == 0), weight=e))
                    if k == 3 and n in (1, s):
                        js.append(J("jindo", "ZZC07", setup=True, base=b, exp=e, slots=s, limbs=l, bits=58, kind=k, len=n, other=1, noise=(1 << 55) // (b + 1) - 1, weight=e))
            for k, n, m in ((1, s, 0), (3, s, 0), (3, 0, s), (1, 1, s), (3, s, 1)):
                js.append(J("jindo", "ZZC07", setup=True, base=b, exp=e, slots=s, limbs=l, bits=61, kind=k, len=n, again=1, len2=m, weight=2 * e))
        # noise beyond a limb
        js.append(J("jindo", "ZZC07", setup=True, base=b, exp=e, slots=s, limbs=3, bits=50, kind=3, len=s, noise=1 << 55, weight=e))
        js.append(J("jindo", "ZZC07", setup=True, base=b, exp=e, slots=s, limbs=2, bits=61, kind=0, len=s, realrns=1, weight=e))
        js.append(J("jindo", "ZZC07Long", setup=True, base=b, exp=e, slots=s))
    return [dict({"jobs": js}, **JG)]


CHAL = {"jindo": {"encodeChallengeTo": "if zzChal($0, $1, $2, $3) { return }; zzoencodeChallengeTo($0, $1, $2, $3)"}}
NORM = {"jindo": {"Verifier.verifyNorm": "if zzd, zzok := zzNorm($0, $1, $2, $3); zzd { return zzok }; return $r.zzoverifyNorm($0, $1, $2, $3)"}}
PG = {"files": JG["files"] + ["zz_c04.go", "zz_c05.go", "zz_c06.go", "zz_c21.go"], "stubs": dict(NOISE, jindo=dict(RECONB["jindo"], **CHAL["jindo"], **NORM["jindo"])), "extra": ["math/csprng"]}


def c04(deep):
    js = []

    def j(base, exp, slots, rows, cols, ln, x, **kw):
        kw = dict(dict(bits=55, incut=12, obits=58, dcmpnm=47, resnm=24), **kw)
        js.append(J("jindo", "ZZC04", setup=True, base=base, exp=exp, slots=slots, rows=rows, cols=cols, len=ln, x=x, weight=rows * cols * kw.get("batch", 1), timeout=20000, seconds=120, **kw))

    # every length, one column and several, any point
    for n in range(0, 3):
        j(16, 4, 2, 2, 1, n, 0)
    for n in range(0, 5):
        j(16, 4, 2, 3, 1, n, 0)
    for n in range(0, 9):
        for x in (1, 2, 3, 65537) if deep or n in (0, 3, 8) else (7,):
            j(16, 4, 2, 3, 2, n, x)
    for n in (0, 1, 2, 3, 4):
        j(16, 4, 2, 2, 2, n, 5, symchal=1)
    j(256, 2, 4, 3, 2, 13, 257, resnm=27)
    j(65536, 1, 8, 2, 2, 16, 9, resnm=40)
    # limbs
    for l in (dict(limbs=2, olimbs=1, bits=30, obits=60, dcmpnm=52), dict(limbs=2, olimbs=2, bits=30, obits=31, dcmpnm=52), dict(limbs=3, olimbs=3, bits=25, obits=24, incut=24, dcmpnm=53, resnm=29)):
        j(16, 4, 2, 2, 1, 2, 0, **l)
        j(16, 4, 2, 2, 2, 3, 4, **l)
    # ranks
    for r in (dict(out=2), dict(mlwe=2), dict([("in", 2)]), dict([("in", 2), ("out", 3), ("mlwe", 2)])):
        j(16, 4, 2, 2, 1, 2, 0, symchal=1, **r)
    # batches
    for b, n, m in ((2, 2, 0), (2, 1, 2), (3, 2, 1)):
        j(16, 4, 2, 2, 1, n, 0 if b == 2 else 6, batch=b, len2=m, resnm=29, dcmpnm=52)
        j(16, 4, 2, 2, 1, n, 11, batch=b, len2=m, resnm=29, dcmpnm=52, symchal=1)
    j(16, 4, 2, 3, 2, 8, 3, batch=2, len2=5, resnm=29, dcmpnm=52)
    # more than once, copies
    j(16, 4, 2, 2, 1, 2, 0, again=1)
    j(16, 4, 2, 2, 2, 3, 5, again=1, copy=1)
    j(16, 4, 2, 2, 1, 2, 7, again=1, batch=2, len2=1, resnm=29, dcmpnm=52)
    j(16, 4, 2, 3, 1, 3, 0, copy=1)
    for b in (1, 2):
        js.append(J("jindo", "ZZC04Refuse", setup=True, base=16, exp=4, slots=2, batch=b))
    return [dict({"jobs": js}, **PG)]


def c05(deep):
    js = []

    def j(rows, cols, x, weight=1, **kw):
        kw = dict(dict(base=16, exp=4, slots=2, bits=55, obits=58, incut=12), **kw)
        js.append(J("jindo", "ZZC05", setup=True, rows=rows, cols=cols, x=x, weight=weight * rows * cols * kw.get("batch", 1), timeout=60000, seconds=300, **kw))

    # everything arbitrary
    for x in (1, 2, 8, 65537) if deep else (1, 8, 65537):
        j(2, 1, x)
    j(2, 2, 5)
    j(3, 1, 4)
    j(3, 2, 9)
    j(2, 1, 3, batch=2)
    j(2, 2, 6, batch=2)
    j(2, 1, 300, batch=3)
    # the challenges too
    for k in range(1, 6):
        j(2, 1, 7, sym=k, symchal=1)
    # the point too
    for k in range(1, 6):
        j(2, 1, 0, sym=k)
    for r in (dict(out=2), dict(mlwe=2), dict([("in", 2)]), dict([("in", 2), ("out", 3), ("mlwe", 2)])):
        j(2, 1, 11, **r)
    for l in (dict(limbs=2, olimbs=1, bits=30, obits=60), dict(limbs=2, olimbs=2, bits=30, obits=31), dict(limbs=3, olimbs=3, bits=25, obits=24)):
        for k in range(1, 6):
            j(2, 2, 12, sym=k, weight=2, **l)
    # other encodings
    j(2, 2, 21, base=256, exp=2, slots=4)
    j(2, 2, 65000, base=65536, exp=1, slots=8)
    j(2, 1, 22, base=4, exp=8, slots=1)
    j(2, 2, 23, batch=2, out=2, mlwe=2, symchal=1, sym=1)
    if deep:
        for x in (1, 2, 6, 65537):
            for b in (1, 2, 3, 4):
                for rc in ((2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 2)):
                    j(*rc, x, batch=b)
        for k in range(1, 6):
            for b in (1, 2):
                j(2, 1, 0, sym=k, batch=b, symchal=1)
                j(2, 2, 0, sym=k, batch=b)
                j(3, 2, 31, sym=k, batch=b, symchal=1)
    return [dict({"jobs": js}, **PG)]


def c06(deep):
    js = []
    for rows, cols, batch in ((2, 1, 1), (2, 1, 2), (2, 2, 2), (3, 2, 3), (3, 3, 1)) + (((2, 1, 5), (4, 4, 2), (2, 6, 1)) if deep else ()):
        for kw in (dict(), dict(limbs=2, olimbs=1, bits=30, obits=60), dict(limbs=2, olimbs=2, bits=30, obits=31), dict([("in", 2), ("out", 2), ("mlwe", 2)])):
            kw = dict(dict(base=16, exp=4, slots=2, bits=55, obits=58, incut=12), **kw)
            for crs in (1, 16, 33) if deep else (5,):
                js.append(J("jindo", "ZZC06", setup=True, rows=rows, cols=cols, batch=batch, crs=crs, weight=rows * cols * batch, timeout=60000, seconds=300, **kw))
            for n in (0, rows * cols) if batch < 3 else (1,):
                js.append(J("jindo", "ZZC06Same", setup=True, rows=rows, cols=cols, batch=batch, len=n, x=5, weight=rows * cols * batch, timeout=60000, seconds=300, **kw))
    return [dict({"jobs": js}, **PG)]


def c21(deep):
    js = []
    for rows, cols in ((2, 1), (2, 2), (3, 1), (3, 2), (4, 1)) + (((2, 3), (4, 2), (3, 3), (5, 1)) if deep else ()):
        top = (rows - 1) * cols * 2
        for n in range(top + 1) if deep or rows * cols <= 4 else (0, 2, top - 1, top):
            for x in (1, 2, 5, 65537) if deep else (1 + (n + rows) % 3 * 4,):
                js.append(J("jindo", "ZZC21", setup=True, rows=rows, cols=cols, len=n, x=x, warm=n % 2, weight=rows * cols, timeout=20000, seconds=200, base=16, exp=4, slots=2, bits=55, obits=58, incut=12))
    for kw in (dict(limbs=2, olimbs=1, bits=30, obits=60), dict(limbs=2, olimbs=2, bits=30, obits=31), dict([("in", 2), ("out", 2), ("mlwe", 2)]), dict(base=256, exp=2, slots=4), dict(base=65536, exp=1, slots=8)):
        kw = dict(dict(base=16, exp=4, slots=2, bits=55, obits=58, incut=12), **kw)
        for batch in (1, 2):
            js.append(J("jindo", "ZZC21", setup=True, rows=2, cols=2, batch=batch, len=3, len2=2, x=8, weight=8, timeout=20000, seconds=200, **kw))
            js.append(J("jindo", "ZZC21Share", setup=True, rows=3, cols=2, batch=batch, len=5, len2=3, weight=8, timeout=20000, seconds=200, **kw))
    for batch in (2, 3) + ((4,) if deep else ()):
        for rows, cols in ((2, 1), (3, 2)):
            for n, m in ((2, 2), (1, 0), (0, 2)):
                kw = dict(rows=rows, cols=cols, batch=batch, len=n, len2=m, timeout=20000, seconds=200, base=16, exp=4, slots=2, bits=55, obits=58, incut=12)
                js.append(J("jindo", "ZZC21", setup=True, x=4 + n, weight=8, **kw))
                js.append(J("jindo", "ZZC21Share", setup=True, weight=8, **kw))
    return [dict({"jobs": js}, **PG)]


FIELDS = ("buckler/internal/zp110", "buckler/internal/zp220", "jindo/internal/zp", "buckler/internal/zp440", "buckler/internal/zp880")
ZP = {"tags": "purego"}
PRODUCTS = (2, 3, 7, 8, 14, 20, 21)


def c17(deep):
    js = []
    for p in FIELDS:
        big = p.endswith("440")
        for op in range(22):
            if p.endswith("880") and op in ((2, 3, 14) if deep else PRODUCTS + (6,)):
                continue
            if big and not deep and op == 3:
                continue
            if op in (0, 1, 2, 14, 15):
                aliases = (0, 1, 2, 3, 4)
            elif op in (3, 4, 5, 16):
                aliases = (0, 1)
            else:
                aliases = (0, 4) if op in (13, 19, 20) else (0,)
            if big and op in (2, 14):
                aliases = aliases if deep else (0,) if op == 2 else ()
            if op in (13, 20):
                aliases = (0,)
            for a in aliases:
                heavy = op in (2, 3, 14)
                js.append(J(p, "ZZC17", op=op, alias=a, weight=(60 if big else 12 if p.endswith("220") else 6) if heavy else 2, timeout=20000, seconds=600))
    return [dict({"jobs": js}, **ZP)]


BYTES = dict(zip(FIELDS, (16, 32, 32, 56, 112)))


def c18(deep):
    js = []
    for p in FIELDS:
        n = BYTES[p]
        # refusals, elements, single words
        ops = [(12, 0)] + [(6, k) for k in (0, n - 1, n + 1)] + [(11, k) for k in range(5)]
        if n <= 56:
            ops += [(1, 0), (6, n), (8, 0), (13, 0), (14, 0)]
        if n <= 32:
            ops += [(0, 0), (1, 1), (2, 0), (7, 0), (9, 0), (9, 2)] + [(10, k) for k in (range(13) if n == 16 or deep else (0, 5, 9, 12))]
            ops += [(4, k) for k in (0, 8)]
        if n == 16:
            ops += [(3, 8 * n + 40), (3, 70), (9, 1), (5, n)] + [(4, k) for k in (9, n - 1, n, n + 1, 2 * n)]
        if deep:
            if n == 16:
                ops += [(12, 1), (3, 8 * n), (3, 16 * n), (6, 2 * n)] + [(4, k) for k in (1, 3, 8, 12, n + 5)]
            elif n == 32:
                ops += [(3, 8 * n + 40), (3, 70), (4, n - 1), (4, n), (4, n + 5), (9, 1)]
            else:
                ops += [(0, 0), (14, 0), (7, 0)]
        for op, k in dict.fromkeys(ops):
            js.append(J(p, "ZZC18", op=op, len=k, weight=(n // 16) ** 2 * (1 if op in (6, 11, 12) and (op, k) != (6, n) else 4), timeout=10000, seconds=300))
    return [dict({"jobs": js}, **ZP)]
