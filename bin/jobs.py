# Job tables: which entry is explored under which bounds, per property and tier.
#   small jobs run two at a time on few slots, wide ones use the whole machine.
BIG = 3000000000

ALPHA = {0: "{00,ff}", 1: "{00,01}", 2: "{fe,ff}", 3: "{a,b}", 4: "{7f,80}", 5: "{00,80,ff}", 6: "{a,b,c}", 7: "{00,01,ff}", 8: "{00,fe,ff}", 9: "{00,01,fe,ff}", 10: "{a,b,c,d}", 11: "{01,02,03}", 12: "{7f,80,81}", 13: "{0a,0d,1a}", 99: "any byte"}
LENS = ["1,2,253..258", "1,3,509..513,768,1024", "1,2,1022..1026,2047..2049,3072,3073", "1,65533..65537", "1..16", "1,65536", "1,2,3,5,9", "65535,65536", "1,100,150,298"]
PAT = {99: "one repeated byte", 0: "ababab", 1: "groups 01 a b c8 with distinct a b", 2: "pseudo-random bytes", 3: "pseudo-random over few letters", 4: "rising bytes", 5: "falling bytes", 6: "ruler sequence", 7: "Thue-Morse word", 8: "random,ff,00 groups", 9: "period 2 then period 3", 10: "random and periodic stretches", 11: "Fibonacci word", 12: "groups of five, all S* substrings distinct", 13: "groups of three, all S* substrings distinct", 14: "groups of twelve, distinct with a common prefix", 15: "groups of twelve, distinct with a common suffix", 16: "groups of 48, distinct in the middle only", 17: "groups of five, distinct, of one sum"}


def J(entry, mods, what="", time=100, slots=4, reach=(), **kw):
    params = kw.pop("params", {})
    return dict(entry=entry, mods=mods, what=what, time=time, slots=slots, reach=list(reach), params=params, **kw)


def fam0(lo, hi, alpha):
    return dict(fam=0, nmin=lo, nmax=hi, alpha=alpha), "every text of length %d..%d over %s" % (lo, hi, ALPHA[alpha])


def fam1(lo, hi, sig):
    return dict(fam=1, nmin=lo, nmax=hi, sig=sig), "every text of length %d..%d over %d consecutive byte values, all positions of that range in 00..ff" % (lo, hi, sig)


def fam2(lens, rmin, rmax, alpha):
    return dict(fam=2, lens=lens, rmin=rmin, rmax=rmax, alpha=alpha), "every text of %d..%d runs with run lengths from {%s} over %s" % (rmin, rmax, LENS[lens], ALPHA[alpha])


def fam3(pat, n, nsym=1, stride=97, alpha=9, seed=0, n2=None, **kw):
    p = dict(fam=3, pat=pat, nmin=n, nmax=n2 or n, nsym=nsym, stride=stride, alpha=alpha, pseed=seed, **kw)
    return p, "texts of length %d%s: %s%s" % (n, "..%d" % n2 if n2 else "", PAT[pat], ", with %d arbitrary byte(s) of %s at any multiple of %d%s" % (nsym, ALPHA[alpha], stride, " from the end" if kw.get("fromend") else "") if nsym else "")


def fam4(lens, ulen, vlen, wlen, alpha):
    return dict(fam=4, lens=lens, ulen=ulen, vlen=vlen, wlen=wlen, alpha=alpha), "every text u^k v w^m with |u|<=%d, |v|<=%d, |w|<=%d over %s, k and m from {%s}" % (ulen, vlen, wlen, ALPHA[alpha], LENS[lens])


def fam5(lo, hi, head, tail, alpha):
    return dict(fam=5, nmin=lo, nmax=hi, head=head, tail=tail, alpha=alpha), "every text x^k between words of length %d and %d over %s, k = %d..%d" % (head, tail, ALPHA[alpha], lo, hi)


def fam6(lens, gmin, gmax, cs=2, **kw):
    return dict(fam=6, lens=lens, gmin=gmin, gmax=gmax, cs=cs, **kw), "every text of %d..%d groups a b^x c b^y%s with x%s from {%s} and c one of %d letters" % (gmin, gmax, " ending in one of %d letters" % kw["ds"] if kw.get("ds") else "", " and x+y=%d" % kw["sum"] if kw.get("sum") else ", y", LENS[lens], cs)


SHORT_Q = [fam0(1, 10, 0), fam0(1, 7, 5), fam0(1, 5, 9), fam0(1, 6, 1), fam0(1, 6, 2), fam1(1, 3, 2), fam0(1, 1, 99)]
SHORT_T = [fam0(1, 14, 0), fam0(1, 9, 5), fam0(1, 7, 9), fam0(1, 9, 1), fam0(1, 9, 2), fam1(1, 6, 2), fam1(1, 4, 3), fam0(1, 2, 99), fam0(1, 9, 4), fam0(1, 7, 12)]
LONG_Q = [fam2(0, 1, 2, 5), fam2(1, 1, 2, 5), fam2(2, 2, 2, 0), fam4(0, 2, 1, 0, 3), fam4(6, 2, 1, 2, 3), fam3(1, 1100), fam3(2, 1500, stride=400), fam3(9, 2100, stride=300), fam3(11, 600, stride=50), fam3(6, 530, stride=50, alpha=0)]
LONG_T = [fam2(0, 1, 3, 5), fam2(1, 1, 3, 0), fam2(2, 1, 3, 0), fam4(0, 2, 1, 1, 3), fam4(4, 2, 2, 2, 6), fam3(1, 1100, 2, 50), fam3(2, 3000, stride=100), fam3(3, 3000, stride=100), fam3(9, 4200, stride=300), fam3(11, 2000, stride=50), fam3(6, 3000, stride=50), fam3(0, 2100), fam3(4, 1500), fam3(5, 1500), fam3(7, 1500, stride=50), fam3(8, 1500), fam3(10, 1500)]


def e2e(entry, fam, reach, small=True, mods=("e2e", "wrap"), **kw):
    """pipeline job; small: table reduced to 61 slots"""
    p, what = fam
    p = dict(p)
    p.update(kw.pop("params", {}))
    redir = ["ctor"] if small else []
    if "posbits" in p:
        redir = redir + ["sort"]
        kw["redir_needed"] = True
        what += "; positions forced to %d bits%s" % (p["posbits"] + 1, " and shifted up to that size" if p.get("shift", 1) else "")
    if small:
        p.setdefault("htsize", 61)
        what += "; table of %d slots" % p["htsize"]
    kw.setdefault("max_steps", 400000000)
    return J(entry, list(mods), what, reach=reach, params=p, redir=redir, **kw)


def many(entry, fams, reach, **kw):
    return [e2e(entry, f, reach, **kw) for f in fams]


def chain(entry, R, q, **kw):
    """long substrings of equal length in one chain that differ in one character, at the front, in the middle or at the end"""
    kw.setdefault("params", dict(htsize=1))
    if q:
        return [e2e(entry, fam6(1, 2, 2, 2, sum=1025), R, **kw), e2e(entry, fam6(8, 3, 3, 2, sum=300), R, **kw)]
    return [e2e(entry, fam6(1, 3, 3, 2, sum=1025), R, **kw), e2e(entry, fam6(0, 3, 3, 2, sum=300, ds=2), R, **kw), e2e(entry, fam6(2, 2, 3, 2, sum=3500), R, **kw), e2e(entry, fam6(4, 4, 4, 2, sum=17), R, **kw)]


def HUGE(entry, reach):
    """past 2^16 distinct substrings, real table"""
    return [e2e(entry, fam3(13, 197100, 0), reach, small=False, slots=1, max_steps=BIG, native="plain", tests=1)]


def LEN64K(entry, reach, q, full=False):
    """run lengths around 2^16: as the whole text, and as an S* substring of 65535..65537 characters"""
    if q and not full:
        P = dict(freeT=1)
        return [e2e(entry, fam2(7, 1, 1, 3), reach, slots=2, max_steps=BIG, tests=2, params=P), e2e(entry, fam5(65533, 65533, 1, 2, 3), reach, slots=4, max_steps=BIG, tests=2, params=P)]
    if q:
        return [e2e(entry, fam2(3, 1, 1, 5), reach, slots=4, max_steps=BIG, tests=2), e2e(entry, fam5(65534, 65534, 2, 2, 3), reach, slots=8, max_steps=BIG, tests=2)]
    return [e2e(entry, fam2(3, 1, 2, 5), reach, slots=8, max_steps=BIG, tests=2, time=200), e2e(entry, fam5(65528, 65535, 1, 2, 3), reach, slots=8, max_steps=BIG, tests=2, time=200), e2e(entry, fam5(65532, 65534, 1, 2, 0), reach, slots=8, max_steps=BIG, tests=2, time=200)]


def C01(t):
    R = ["transform compared"]
    q = t == "quick"
    return many("h_bwt", SHORT_Q if q else SHORT_T, R) + many("h_bwt", LONG_Q if q else LONG_T, R) + chain("h_bwt", R, q) + [e2e("h_bwt", fam3(1, 700), R, small=False)] + LEN64K("h_bwt", R, q) + ([] if q else HUGE("h_bwt", R))


def C02(t):
    R = ["inverted"]
    q = t == "quick"
    return many("h_inv", SHORT_Q if q else SHORT_T, R) + many("h_inv", LONG_Q if q else LONG_T, R) + chain("h_inv", R, q) + LEN64K("h_inv", R, q) + ([] if q else HUGE("h_inv", R))


def fjob(entry, params, reach, what, cli=False, **kw):
    p = dict(params)
    p.setdefault("htsize", 61)
    return J(entry, ["file+cli" if cli else "file", "wrap"], what + "; table of 61 slots", reach=reach, params=p, redir=["ctor"] + kw.pop("redir", []), stdio=True, **kw)


def C03(t):
    q = t == "quick"
    js = [fjob("h_file", dict(nmin=1, nmax=7 if q else 10, alpha=0), ["output compared"], "every file of 1..%d bytes over {00,ff}; output file absent, shorter or longer" % (7 if q else 10)),
          fjob("h_file", dict(nmin=1, nmax=5 if q else 7, alpha=5), ["output compared"], "every file of 1..%d bytes over {00,80,ff}" % (5 if q else 7)),
          fjob("h_file", dict(nmin=1, nmax=5 if q else 7, alpha=13), ["output compared"], "every file of 1..%d bytes over {0a,0d,1a}" % (5 if q else 7)),
          fjob("h_file", dict(nmin=1, nmax=1, alpha=99), ["output compared"], "every file of one byte"),
          fjob("h_file", dict(nmin=2, nmax=2, alpha=0, names=1), ["output compared"], "names of 1 to 4096 characters that differ in the last one only, files of two bytes"),
          fjob("h_file_same", dict(nmax=5 if q else 8, alpha=0), ["output compared"], "the same path as input and output, every file of 1..%d bytes over {00,ff}" % (5 if q else 8)),
          fjob("h_file_long", dict(fam3(3, 600, 1, 100)[0]), ["output compared"], fam3(3, 600, 1, 100)[1] + ", as file content"),
          fjob("h_file_long", dict(fam2(0, 1, 2, 5)[0]), ["output compared"], fam2(0, 1, 2, 5)[1] + ", as file content"),
          fjob("h_file_big", dict(sizes=0, small=80 if q else 300), ["two parts", "one part"], "file sizes 1..%d, any rank 1..n of the whole-string row (bwt_string replaced by one that returns that rank)" % (80 if q else 300), redir=["bwt_string"], redir_needed=True),
          fjob("h_file_big", dict(maxalloc=1 << 40, small=0), ["two parts", "one part"], "file sizes from 1 to 2^37, any rank 1..n of the whole-string row (bwt_string replaced by one that returns that rank)", redir=["bwt_string"], redir_needed=True, native="plain", big=True),
          fjob("h_file_mid", dict(lo=0, hi=8 if q else 13), ["output compared"], "sizes around 512, 1000, 1024, 2048, .. %d (with and without the header): bytes handed to bwt_string and bytes written, ten ranks (bwt_string replaced)" % (65536 if q else 1048576), redir=["bwt_string"], redir_needed=True, slots=8, time=200, tests=4),
          fjob("h_file_mid", dict(lo=8 if q else 2, hi=8 if q else 10, ranks=1), ["output compared"], "the same for sizes around 65536 and ranks around 256, 512, 1000, .. 65536", redir=["bwt_string"], redir_needed=True, slots=8, time=200, tests=4)]
    if not q:
        js += [fjob("h_file", dict(nmin=2, nmax=2, alpha=99), ["output compared"], "every file of two bytes", slots=8, time=300)]
    return js


def C04(t):
    q = t == "quick"
    R = ["reported", "short read", "size unknown", "no fault"]
    return [fjob("h_fin", dict(nmax=4 if q else 6, alpha=0, maxalloc=1 << 40), R, "files of 0..%d bytes; one failing input-side call of every kind at its first or second occurrence, every short read length, reported sizes larger than the content, failing buffer allocation" % (4 if q else 6)),
            fjob("h_fin", dict(nmax=2 if q else 3, alpha=5, maxalloc=1 << 40), R, "the same for files of 0..%d bytes over {00,80,ff}" % (2 if q else 3)),
            fjob("h_fin_big", dict(maxalloc=1 << 40), ["reported"], "the same for sizes up to 2^37, every short read length", native="plain", big=True),
            fjob("h_fin_big", dict(maxalloc=1 << 40, fake=1), ["reported"], "sizes up to 2^37, the call that reads the middle or the last byte fails (bwt_string replaced)", redir=["bwt_string"], redir_needed=True, native="plain", big=True),
            fjob("h_fault_mid", dict(hi=5 if q else 7), ["reported"], "sizes 600..%d: the read that covers one of nine places is short (bwt_string replaced)" % (131072 if q else 1048577), redir=["bwt_string"], redir_needed=True, slots=4, tests=4),
            fjob("h_file_big", dict(noassert=1, sizes=0, small=80 if q else 300), [], "sizes 1..%d, no fault: every store inside the buffer (bwt_string replaced)" % (80 if q else 300), redir=["bwt_string"], redir_needed=True)]


def C05(t):
    q = t == "quick"
    R = ["reported", "short write", "failed close", "success"]
    return [fjob("h_fout", dict(nmax=4 if q else 6, alpha=0), R, "files of 1..%d bytes; every output-side call failing at any occurrence up to the 12th, with every short write length" % (4 if q else 6), slots=8, time=200),
            fjob("h_fout", dict(nmax=2 if q else 4, alpha=5), R, "the same over {00,80,ff}", slots=8),
            fjob("h_fout_big", dict(maxalloc=1 << 40), ["reported"], "sizes up to 2^37 and any rank, every short write length (bwt_string replaced)", redir=["bwt_string"], redir_needed=True, native="plain", big=True),
            fjob("h_fault_mid", dict(hi=5 if q else 7, out=1), ["reported"], "sizes 600..%d: the write that covers one of nine places is short (bwt_string replaced)" % (131072 if q else 1048577), redir=["bwt_string"], redir_needed=True, slots=4, tests=4)]


def C06(t):
    R = ["returned"]
    q = t == "quick"
    js = many("h_mem", SHORT_Q if q else SHORT_T, R) + many("h_mem", LONG_Q if q else LONG_T, R)
    js += [e2e("h_mem", fam0(1, 4, 0), R, small=False)]
    js += [e2e("h_mem", fam0(1, 8, 0), R, params=dict(htsize=1)), e2e("h_mem", fam2(1, 1, 3 if not q else 2, 0), R, params=dict(htsize=1))]
    js += [fjob("h_file", dict(nmin=1, nmax=4, alpha=0, noassert=1), ["output compared"], "bwt_file on every file of 1..4 bytes over {00,ff}"),
           fjob("h_file_big", dict(noassert=1, sizes=0, small=80 if q else 300), [], "bwt_file for sizes 1..%d, any rank (bwt_string replaced by one that returns that rank)" % (80 if q else 300), redir=["bwt_string"], redir_needed=True),
           fjob("h_file_mid", dict(noassert=1, lo=8 if q else 2, hi=8 if q else 10, ranks=1), [], "bwt_file for sizes around 65536, ranks around 256, 512, 1000, .. 65536 (bwt_string replaced)", redir=["bwt_string"], redir_needed=True, slots=4, tests=4),
           fjob("h_file_big", dict(maxalloc=1 << 40, noassert=1, small=0), [], "the same for sizes from 1 to 2^37", redir=["bwt_string"], redir_needed=True, native="plain", big=True)]
    js += LEN64K("h_mem", R, q)
    return js


def C07(t):
    R = ["ownership checked"]
    q = t == "quick"
    js = many("h_own", SHORT_Q if q else SHORT_T, R) + many("h_own", LONG_Q if q else LONG_T, R)
    js += [e2e("h_own", fam0(1, 4, 0), R, small=False)]
    for pb in (32, 40, 48, 56):
        js += [e2e("h_own", fam0(1, 4 if q else 8, 0), R, params=dict(posbits=pb, shift=1), slots=2)]
    js += [fjob("h_fin", dict(nmax=3 if q else 5, alpha=0, maxalloc=1 << 40, leak=1), ["reported", "short read", "size unknown"], "bwt_file on files of 0..%d bytes, one failing input-side call of every kind: nothing retained, no stream open" % (3 if q else 5)),
           fjob("h_fout", dict(nmax=3 if q else 5, alpha=0, leak=1), ["reported", "short write", "failed close"], "the same, one failing output-side call of every kind", slots=4)]
    js += [fjob("h_fown", dict(nmax=5 if q else 8, alpha=0), R, "bwt_file on every file of 1..%d bytes over {00,ff}" % (5 if q else 8))]
    return js


def C08(t):
    return [J("h_params", ["e2e", "wrap"], "null pointer with any length, length 0 with any buffer, both settings of free_T; valid calls of length 1 and 2 over {00,01,fe,ff}; table of 61 slots", reach=["rejected", "accepted"], params=dict(htsize=61), redir=["ctor"]),
            J("h_params", ["e2e", "wrap"], "the same with the real table size", reach=["rejected", "accepted"], redir=[])] + \
        [J("h_accept_len", ["e2e", "wrap"], "any length 1..2^58, the call ended where the decomposition starts", reach=["accepted"], params=dict(accept=1), redir=["extract"], redir_needed=True, native="plain")] + \
        many("h_accept", SHORT_Q if t == "quick" else SHORT_T, ["accepted"]) + many("h_accept", [fam2(0, 1, 2, 5), fam3(2, 1500, stride=400)], ["accepted"])


def C09(t):
    R = ["compared"]
    q = t == "quick"
    fs = [fam0(1, 8, 0), fam0(1, 5, 5), fam0(1, 4, 9), fam1(1, 1, 2), fam2(0, 1, 2, 3), fam2(1, 1, 2, 3), fam4(6, 2, 1, 1, 3), fam3(1, 1100, stride=400), fam3(2, 1500, stride=800)] if q else \
        [fam0(1, 11, 0), fam0(1, 7, 5), fam0(1, 6, 9), fam1(1, 4, 2), fam2(0, 1, 3, 3), fam2(1, 1, 2, 5), fam2(2, 1, 2, 0), fam4(0, 2, 1, 0, 3), fam3(1, 1100), fam3(2, 3000, stride=400), fam3(9, 2100)]
    us = [(7, 4), (3, 7)] if q else [(9, 5), (6, 8), (8, 6)]
    return many("h_det", fs, R) + [e2e("h_det", (dict(fam=0, nmin=1, nmax=a, alpha=0, umax=b), "every text of length 1..%d, with any text of length 1..%d transformed in between, over {00,ff}" % (a, b)), R) for a, b in us] + [e2e("h_det", fam0(1, 6, 0), R, params=dict(htsize=1)), e2e("h_det", fam0(1, 4, 0), R, small=False)]


def C10(t):
    q = t == "quick"
    R = ["compared"]
    js = []
    ws = [(1, 1), (7, 7), (13, 13), (31, 31), (33, 33), (48, 48), (63, 63), (64, 64)] if q else [(i, i + 3) for i in range(1, 65, 4)]
    for a, b in ws:
        js.append(J("h_parray", ["parray"], "widths %d..%d, every length up to 64, every index pair, all values, any previous content" % (a, b), reach=R, params=dict(wmin=a, wmax=b, lbits=6, arrays=1), slots=2))
    js.append(J("h_parray_old", ["parray"], "every width, every length up to 16 and index pair: elements not stored to keep what they read", reach=R, params=dict(wmin=1, wmax=64, lbits=3 if q else 5, arrays=1), slots=8, time=150))
    js.append(J("h_parray_fill", ["parray"], "every width, arrays of 64 and 65 elements (every bit offset) filled with arbitrary values, one rewritten, all read back", reach=R, params=dict(lmin=64, lmax=65)))
    js.append(J("h_parray_fill", ["parray"], "the same filled downwards, 1..9 elements", reach=R, params=dict(lmin=1, lmax=9, down=1)))
    js.append(J("h_parray_big", ["parray"], "every width, elements around bit positions 2^31..2^38 and indices 2^15..2^32, arbitrary values", reach=R, params=dict(maxalloc=1 << 40), native="plain", big=True))
    if not q:
        js.append(J("h_parray_fill", ["parray"], "every width, arrays of 1..130 elements", reach=R, params=dict(lmin=1, lmax=130), slots=8, time=300))
    return js


def C11(t):
    q = t == "quick"
    R = ["sorted"]
    return [J("h_width", ["sais"], "every text of length 3..%d over 4 symbols, every element width from the least sufficient to sorter width - 1, arbitrary element 0, five sorters" % (5 if q else 6), reach=R, params=dict(nmin=3, nmax=5 if q else 6, k=4), slots=8, time=300),
            J("h_width", ["sais"], "binary texts of length 6..%d, all widths" % (8 if q else 10), reach=R, params=dict(nmin=6, nmax=8 if q else 10, k=3), slots=8),
            J("h_width", ["sais"], "texts of length 3..4 with values up to 2^9, all widths that hold them", reach=R, params=dict(nmin=3, nmax=4, k=4, big=511), slots=8),
            J("h_width", ["sais"], "texts of length 3 with values up to 2^14, all widths that hold them", reach=R, params=dict(nmin=3, nmax=3, k=3, big=16385), slots=8, time=120)] + \
        ([] if q else [J("h_width", ["sais"], "texts of length 4 with values up to 2^17, all widths that hold them", reach=R, params=dict(nmin=4, nmax=4, k=3, big=131071), slots=8, time=300)]) + \
        [J("h_width_long", ["sais"], "texts of length 60..70 from 7 patterns, every element width", reach=R, params=dict(nmin=66, nmax=66 if q else 70), slots=8)]


def C12(t):
    q = t == "quick"
    R = ["released", "drained"]
    js = [J("h_queue", ["queue"], "up to 2 arbitrary operations on top of prefilled queues (0..2049 elements at either end, drained to 0,1,2,1023.. left)", reach=R, params=dict(npre=10, ops=1, widths=2), slots=8, time=200),
          J("h_queue", ["queue"], "every sequence of 5 operations, 16 widths", reach=R, params=dict(npre=1, ops=5, widths=16, keeps=0), slots=4),
          J("h_queue", ["queue"], "every sequence of 3 operations on queues of 0..2 elements, refilled from the front", reach=R, params=dict(npre=3, ops=3, widths=4, refill=1), slots=8),
          J("h_queue_ops", ["queue"], "bursts of 1, 1023, 1024, 1025 or 2048 operations of one kind, every sequence of 3 bursts", reach=["released"], params=dict(bursts=3), slots=8, time=200),
          J("h_queue_ops", ["queue"], "bursts of 1 or 1023 operations of one kind, every sequence of 5 bursts", reach=["released"], params=dict(bursts=5, sizes=2), slots=8, time=200)]
    if not q:
        js += [J("h_queue", ["queue"], "3 arbitrary operations on prefilled queues", reach=R, params=dict(npre=10, ops=3, widths=1), slots=8, time=400),
               J("h_queue", ["queue"], "every sequence of 8 operations", reach=R, params=dict(npre=1, ops=8, widths=2, keeps=0), slots=8, time=200),
               J("h_queue_ops", ["queue"], "every sequence of 4 bursts", reach=["released"], params=dict(bursts=4), slots=8, time=300)]
    return js


def C13(t):
    q = t == "quick"
    R = ["compared"]
    return [J("h_len", ["hash"], "every length 1..2^64-1, any previous content, nine placements", reach=R),
            J("h_ptr", ["hash"], "every 64-bit pointer, any previous content", reach=R),
            J("h_name", ["hash"], "every table input length up to 2^58, every name that fits, any previous content, record lengths 1..768%s" % ("" if q else ", 65535..65537"), reach=R, params=dict(lens=12 if q else 15), slots=8, time=300, max_steps=200000000),
            J("h_next", ["hash"], "two adjacent records, any name and pointer writes to the first leave the second alone", reach=R, slots=4)]


def C14(t):
    q = t == "quick"
    R = ["checked"]
    js = [J("h_set", ["hash"], "every sequence of 4 substrings of 3 arbitrary bytes, all colliding", reach=R, params=dict(k=4, lmax=3, htmax=1)),
          J("h_set", ["hash"], "every sequence of 3 substrings of 3..4 arbitrary bytes, all colliding", reach=R, params=dict(k=3, lmax=4, htmax=1)),
          J("h_set", ["hash"], "the same with 2-byte names", reach=R, params=dict(k=3, lmax=4, htmax=1, n=100000, namestep=300)),
          J("h_set_tab", ["hash"], "every sequence of %d substrings of 3 letters from {a,b,c}, table sizes 1..7" % (3 if q else 4), reach=R, params=dict(k=3 if q else 4, htmax=7), slots=8, time=300),
          J("h_block", ["hash"], "substrings of 460..530 bytes around the block size, two of them arbitrary in the last byte, then short ones", reach=R, params=dict(k=5), slots=8),
          J("h_block", ["hash"], "sequences of 3 substrings with lengths 3..1500 around byte and block boundaries", reach=R, params=dict(k=3, mode=1), slots=8),
          J("h_block", ["hash"], "2 colliding substrings of one length (3..1500) with one arbitrary byte each, at 18 places", reach=R, params=dict(k=2, mode=3), slots=8),
          J("h_block", ["hash"], "30 colliding substrings of 60 bytes, the first 60..120: block fill at every offset", reach=R, params=dict(k=30, mode=2, nsym=1), slots=8, time=200),
          J("h_block", ["hash"], "60 colliding substrings of 20 bytes, the first 20..50", reach=R, params=dict(k=60, mode=2, lo=20, hi=30, nsym=1), slots=8, time=200)]
    if not q:
        js += [J("h_set", ["hash"], "every sequence of 5 substrings of 3 arbitrary bytes, all colliding", reach=R, params=dict(k=5, lmax=3, htmax=1), slots=8, time=200),
               J("h_block", ["hash"], "sequences of 4 substrings with lengths 3..1500", reach=R, params=dict(k=4, mode=1, nsym=1), slots=8, time=300)]
    return js


def C15(t):
    q = t == "quick"
    R = ["sorted"]
    js = [J("h_sais", ["sais"], "every text of length 1..%d over 3 symbols, five sorters" % (9 if q else 13), reach=R, params=dict(nmin=1, nmax=9 if q else 13, k=3), slots=8, time=200),
          J("h_sais", ["sais"], "every text of length 1..%d over 4 symbols" % (7 if q else 9), reach=R, params=dict(nmin=1, nmax=7 if q else 9, k=4), slots=8, time=200),
          J("h_sais", ["sais"], "every text of length 1..%d over 6 symbols" % (5 if q else 7), reach=R, params=dict(nmin=1, nmax=5 if q else 7, k=6), slots=8, time=200),
          J("h_sais", ["sais"], "alphabets with unused symbols (k = 102, 602)", reach=R, params=dict(nmin=1, nmax=6, k=3, gap=100)),
          J("h_sais", ["sais"], "", reach=R, params=dict(nmin=1, nmax=4, k=4, gap=300)),
          J("h_sais_long", ["sais"], "texts of length 40..%d from 7 patterns (ruler, periodic, random, Thue-Morse, decreasing) with one arbitrary position" % (60 if q else 100), reach=R, params=dict(nmin=40, nmax=60 if q else 100), slots=8, time=200),
          J("h_sais_long", ["sais"], "the same for length 600..601", reach=R, params=dict(nmin=600, nmax=601, stride=60), slots=8, time=200)]
    js += [J("h_buckets%d" % w, ["bk%d" % w], "bucket boundaries of the %d-bit sorter: every %d counts whose sum is below 2^%d, starts and ends, in place and not" % (w, 3 if q else 6, w - 1), reach=["bounds"], params=dict(k=3 if q else 6), slots=1) for w in (32, 40, 48, 56, 64)]
    return js


def C16(t):
    R = ["compared"]
    return [J("h_split", ["split"], "every signed 40-, 48- and 56-bit value, every index pair of 4-element arrays, any previous content", reach=R, slots=8),
            J("h_split_big", ["split"], "elements at indices around 2^31, 2^32 and 6442450943: every value", reach=R, params=dict(maxalloc=0x100000000000), native="plain", big=True)]


def ext(entry, fam, reach, params=None, **kw):
    p = dict(params or {})
    return e2e(entry, fam, reach, mods=("extract", "wrap"), params=p, **kw)


def EXT(entry, R, q, full, fullhi):
    js = [ext(entry, f, R[:1]) for f in (SHORT_Q if q else SHORT_T)[:6]]
    js += [ext(entry, fam0(1, 11 if q else 14, 0), R)]
    js += [ext(entry, f, R[:1]) for f in ([fam2(0, 1, 3, 5), fam2(1, 1, 2, 5), fam2(2, 1, 2, 0), fam4(6, 2, 1, 2, 3), fam3(1, 1100), fam3(2, 1500, stride=200), fam3(11, 600, stride=50), fam3(6, 530, stride=50)] if q else LONG_T)]
    if full:
        js += [ext(entry, fam0(1, fullhi, 99), R, params=dict(htsize=1, ite=300, allbytes=0), slots=8, time=300)]
    return js


def L64(entry, R, q):
    """a substring of 65535..65537 characters among shorter ones"""
    return [ext(entry, fam5(65533, 65535, 3, 2, 3), R, slots=8, max_steps=BIG, tests=2)] if not q else [ext(entry, fam5(65534, 65534, 3, 2, 3), R, slots=4, max_steps=BIG, tests=2)]


def C17(t):
    q = t == "quick"
    return EXT("h_extract", ["compared", "two substrings", "repeated substring"], q, False, 0) + \
        [ext("h_extract", fam0(1, 2 if q else 3, 99), ["compared"], params=dict(ite=300, allbytes=0), slots=4, time=200)] + \
        [ext("h_extract", fam0(1, 3, 0), ["compared"], small=False)]


def C18(t):
    q = t == "quick"
    return EXT("h_sort", ["order checked", "two distinct substrings", "repeated substring"], q, True, 7 if q else 9) + \
        [ext("h_sort", fam3(13, 3000, 0), ["order checked"], small=False)] + \
        [ext("h_sort", fam2(3, 1, 1, 5), ["order checked"], max_steps=BIG, tests=2)] + L64("h_sort", ["order checked"], q)


def C19(t):
    q = t == "quick"
    return EXT("h_shorten", ["compared", "two substrings", "repeated substring"], q, True, 7 if q else 9) + \
        [ext("h_shorten", fam3(13, 3000, 0), ["compared"], small=False)] + \
        [ext("h_shorten", fam2(3, 1, 1, 5), ["compared"], max_steps=BIG, tests=2)] + L64("h_shorten", ["compared"], q)


def C20(t):
    q = t == "quick"
    R = ["transform compared"]
    js = []
    for pb in (30, 31, 38, 39, 46, 47, 54, 55, 61):
        js.append(e2e("h_bwt", fam0(1, 7 if q else 10, 0), R, params=dict(posbits=pb, shift=1), slots=2))
    for pb in (31, 39, 47, 55):
        js.append(e2e("h_bwt", fam0(1, 5 if q else 7, 5), R, params=dict(posbits=pb, shift=0), slots=2))
        js.append(e2e("h_own", fam0(1, 6, 0), ["ownership checked"], params=dict(posbits=pb, shift=1), slots=2))
        js.append(e2e("h_bwt", fam1(1, 2 if q else 3, 2), R, params=dict(posbits=pb, shift=1), slots=2))
        for f in ([fam2(1, 1, 2, 3), fam2(2, 1, 2, 3), fam4(4, 2, 1, 0, 3), fam3(1, 1100, stride=400), fam3(2, 1500, stride=500), fam3(11, 600, stride=60)] if q else LONG_T[3:]):
            js.append(e2e("h_bwt", f, R, params=dict(posbits=pb, shift=1), slots=2))
    js.append(e2e("h_bwt", fam0(1, 8, 0), R))
    return js


def C21(t):
    q = t == "quick"
    R = ["compared"]
    js = [J("h_msb", ["width"], "every positive 64-bit number", reach=R),
          J("h_namebytes", ["width"], "every input length 1..2^58, every name up to n/2+1", reach=R)]
    for f in [fam0(1, 10 if q else 13, 0), fam0(1, 7, 5), fam2(0, 1, 3, 5), fam2(1, 1, 2, 5), fam2(2, 1, 2, 5), fam3(1, 1100), fam3(13, 3000, 0), fam3(2, 1500, stride=200), fam4(6, 2, 1, 2, 3)]:
        js.append(e2e("h_bwp", f, R, mods=("width", "wrap")))
    js.append(e2e("h_bwp", fam2(3, 1, 1, 5), R, mods=("width", "wrap"), max_steps=BIG, tests=2))
    # texts whose record storage ends just around powers of two: the largest position needs one more bit
    js.append(e2e("h_bwp", fam2(4, 1, 3, 3), R, mods=("width", "wrap")))
    js.append(e2e("h_bwp", fam5(1, 600 if q else 2100, 1, 2, 0), R, mods=("width", "wrap"), slots=8))
    return js


def C22(t):
    q = t == "quick"
    R = ["transform compared"]
    js = HUGE("h_bwt", R)
    fs = [fam2(0, 1, 2, 5), fam2(0, 3, 3, 3), fam2(1, 1, 2, 5), fam2(2, 1, 2, 0), fam4(0, 2, 1, 0, 3), fam3(1, 1100), fam3(1, 1100, fromend=1), fam3(12, 1500), fam3(13, 1600, stride=300), fam3(0, 2100, stride=300), fam3(9, 4200, stride=700), fam3(2, 1500, stride=300), fam3(6, 1100, stride=110)] if q else LONG_T
    js += many("h_bwt", fs, R)
    js += LEN64K("h_bwt", R, q, True)
    js += [e2e("h_bwt", fam3(13, 1600, 1, 400), R, small=False), e2e("h_bwt", fam3(13, 1600, 1, 400), R, params=dict(htsize=1))]
    return js


def C23(t):
    q = t == "quick"
    return [fjob("h_cli", dict(nmax=4 if q else 7, alpha=0), ["transformed", "refused"], "0 to 6 words on the command line (arbitrary extra ones), files of 1..%d bytes over {00,ff}, output absent or present" % (4 if q else 7), cli=True, slots=8),
            fjob("h_cli", dict(nmax=3, alpha=5, args=8), ["transformed", "refused"], "0 to 8 words, files of 1..3 bytes over {00,80,ff}", cli=True, slots=8),
            fjob("h_cli", dict(nmax=1, alpha=0, args=3, names=1), ["transformed", "refused"], "file names of 1 to 4096 characters that differ in the last one only", cli=True),
            fjob("h_cli_fail", {}, ["failed", "ok"], "exactly two file arguments and a failing open or write", cli=True)]


def C24(t):
    q = t == "quick"
    R = ["measured"]
    fs = [fam0(1, 6 if q else 9, 5), fam3(2, 4000, stride=1000), fam3(1, 4000, stride=1000), fam3(6, 4000, stride=1000, alpha=0), fam3(8, 4000, stride=1000), fam2(5, 1, 1 if q else 2, 5), fam4(5, 2, 0, 0 if q else 1, 3), fam3(3, 30000, stride=10000), fam3(11, 30000, stride=10000, alpha=0), fam3(0, 400000, 0), fam3(99, 300000, 0)]
    if not q:
        fs += [fam3(0, 1000000, 0), fam3(99, 300000, stride=150000, alpha=0), fam3(6, 300000, 0), fam3(10, 300000, stride=100000), fam3(4, 30000, stride=10000), fam3(5, 30000, stride=10000), fam3(7, 60000, stride=20000), fam2(1, 1, 3, 3), fam4(0, 2, 2, 1, 3)]
    js = [e2e("h_linear", f, R, slots=2, time=300, tests=2, max_steps=10 * BIG) for f in fs]
    real = [fam3(13, 16000, stride=5000, alpha=0), fam3(12, 8000, stride=3000, alpha=0), fam3(2, 8000, stride=4000, alpha=0), fam3(9, 8000, stride=3000, alpha=0), fam3(14, 48000, stride=40000, alpha=0), fam3(15, 48000, stride=40000, alpha=0), fam3(16, 60000, 0), fam3(17, 16000, 0)]
    if not q:
        real += [fam3(13, 100000, 0), fam3(12, 200000, 0), fam3(2, 60000, stride=30000, alpha=0), fam3(1, 60000, stride=30000, alpha=0)]
    js += [e2e("h_linear", f, R, slots=2, time=300, tests=2, max_steps=10 * BIG, params=dict(htsize=67777)) for f in real]
    for j in js:
        j["redir"] = ["ctor", "count"]
        j["native"] = "plain" # AddressSanitizer copies the record memory at every realloc
    return js


def C26(t):
    q = t == "quick"
    B = ["reported", "enough memory"]
    K = lambda lo, hi, **kw: dict(kmin=lo, kmax=hi, tie=1 if q else 0, **kw)
    js = [e2e("h_oom", fam0(1, 1 if q else 3, 0), B, params=K(0, 1070), slots=8, time=400),
          e2e("h_oom", fam0(3, 3, 0), B[:1], params=K(0, 40), slots=4), e2e("h_oom", fam0(3, 3, 0), B, params=K(1000, 1070), slots=4),
          e2e("h_oom", fam3(13, 3000, 0), B, params=K(0, 90, kstep=47 if q else 23)), e2e("h_oom", fam3(1, 1100, 0), B, params=K(0, 70, kstep=29 if q else 11)), e2e("h_oom", fam3(0, 2100, 0), B, params=K(0, 20 if q else 60, kstep=59 if q else 19)), e2e("h_oom", fam2(0, 1, 2, 0), B[:1], params=K(0, 14))]
    for pb in (39, 47, 55, 61):
        js.append(e2e("h_oom", fam0(2, 2 if q or pb in (47, 61) else 3, 0), B, params=K(1030 if q else 0, 1070, posbits=pb), slots=4, time=400))
    js += [fjob("h_foom", K(0, 12, nmax=2 if q else 3), B[:1], "files of 1..%d bytes; any of the first 13 allocations fails, once or for good" % (2 if q else 3)),
           fjob("h_foom", K(1030 if q else 13, 1080, nmax=1 if q else 2), B, "the later allocations")]
    for j in js:
        j["what"] += "; any allocation of the stated range fails, once or for good"
    return js


def C27(t):
    q = t == "quick"
    R = ["overlapped", "not overlapped"]
    js = []
    for f, kw in [(fam0(1, 3 if q else 5, 0), dict(ulo=0, uhi=0)), (fam0(2, 2 if q else 3, 0), dict(ulo=1, uhi=4)), (fam3(11, 80, 0), dict(ulo=0, uhi=1)), (fam3(2, 60, 0), dict(ulo=4, uhi=4)), (fam2(0, 1, 1, 0), dict(ulo=0, uhi=0, firsts=1, every=300))]:
        js.append(e2e("h_overlap", f, R, params=dict(kw, **({} if q else dict(firsts=4, every=15))), slots=4, time=300))
    for pb in (39, 47, 55, 61):
        js.append(e2e("h_overlap", fam0(3, 3 if q else 4, 0), R, params=dict(ulo=0, uhi=0 if q else 1, posbits=pb, **({} if q else dict(firsts=4, every=15))), slots=2, time=300))
    # the second thread is interrupted as well, and goes on when the first has ended
    W = dict(firsts=1, every=100000)
    for f, kw in [(fam3(2, 40, 0), dict(ulo=4, uhi=4, switches=2)), (fam0(2, 2, 0), dict(ulo=0, uhi=0, switches=2, firsts=1))] if q else [(fam3(2, 40, 0), dict(ulo=0, uhi=4, switches=2)), (fam3(2, 60, 0), dict(ulo=4, uhi=4, switches=2, firsts=3)), (fam0(1, 3, 0), dict(ulo=0, uhi=0, switches=2)), (fam3(2, 40, 0), dict(ulo=4, uhi=4, switches=3)), (fam0(1, 1, 0), dict(ulo=3, uhi=3, switches=3))]:
        js.append(e2e("h_overlap", f, R, params=dict(W, **kw), slots=8, time=250))
    for j in js:
        j["redir"] = j["redir"] + ["yield"]
        j["what"] += "; a second call in another thread; %d change(s) of threads, at any of the inserted points" % j["params"].get("switches", 1)
    return js


JOBS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}

# what every claim takes for granted, and what lies outside the explored bounds
COMMON = [
    "the encoded program is clang 18's IR (-O0, then sroa, simplifycfg, early-cse) of /repo's current sources, x86-64; gcc's code for the same sources is taken to agree where C++ defines the result",
    "memory model: disjoint blocks of exactly the requested size at 16-byte aligned addresses; bytes never written read as arbitrary values; every access outside a live block, every use after release and every mismatched release is a violation",
    "allocation succeeds except where the property is about its failure",
    "counterexamples are reported only after the same IR, compiled natively (AddressSanitizer unless noted), shows the violation for the concrete input",
]
STDIO_MODEL = "C stream functions are replaced by the model in harness/fmodel.h: two named files, unbuffered, failures and short transfers as listed"
TABLE = "the table is built with 61 slots instead of 67777 where the job says so (a constructor argument; any size is legal); other jobs keep 67777"
SHIFT = "positions are widened by moving the announced base address of the records (harness/wrap.cpp); the code under test then runs its wider paths unmodified"
_E2E = "texts outside the listed families: arbitrary bytes are covered to the stated short lengths only, longer texts only within the stated patterns and run lengths"
META = {
    "C01": dict(assumptions=COMMON + [TABLE], outside=_E2E),
    "C02": dict(assumptions=COMMON + [TABLE], outside=_E2E + "; the second sentence (different strings give different pairs) follows from the inverse being a function of the pair"),
    "C03": dict(assumptions=COMMON + [TABLE, STDIO_MODEL], outside="file contents outside the families; sizes above 2^37; special files, and text/binary translation of other platforms"),
    "C04": dict(assumptions=COMMON + [STDIO_MODEL], outside="more than one failing call per run; sizes above 2^37"),
    "C05": dict(assumptions=COMMON + [STDIO_MODEL], outside="more than one failing call per run; sizes above 2^37; data lost after a successful close"),
    "C06": dict(assumptions=COMMON + [TABLE, "forming an out-of-range pointer or shift amount without using the result is not counted"], outside=_E2E),
    "C07": dict(assumptions=COMMON + [TABLE, SHIFT], outside=_E2E + "; storage left behind when an allocation fails half way"),
    "C08": dict(assumptions=COMMON + [TABLE], outside="lengths that do not match the buffer; " + _E2E),
    "C09": dict(assumptions=COMMON + [TABLE], outside="call histories other than the listed ones; concurrent calls; " + _E2E),
    "C10": dict(assumptions=COMMON, outside="lengths above the listed ones except at the listed bit positions up to 2^38"),
    "C11": dict(assumptions=COMMON, outside="texts longer than listed; alphabets above 2^17"),
    "C12": dict(assumptions=COMMON, outside="operation sequences not of the listed form (short arbitrary sequences on empty and prefilled queues, and bursts)"),
    "C13": dict(assumptions=COMMON, outside="record lengths not listed (for name and neighbour reads; lengths themselves are covered completely)"),
    "C14": dict(assumptions=COMMON, outside="longer sequences; arbitrary bytes with tables of more than one slot (chains are covered by one-slot tables, slot choice by small alphabets)"),
    "C15": dict(assumptions=COMMON, outside="texts longer than listed except the patterns; 2^31 or more symbols"),
    "C16": dict(assumptions=COMMON, outside="indices other than 0..3 and the listed large ones"),
    "C17": dict(assumptions=COMMON + [TABLE], outside=_E2E),
    "C18": dict(assumptions=COMMON + [TABLE], outside=_E2E),
    "C19": dict(assumptions=COMMON + [TABLE, "suffix order of the shortened string follows from C18 (names ordered as the substrings) and the spelling checked here"], outside=_E2E),
    "C20": dict(assumptions=COMMON + [TABLE, SHIFT], outside=_E2E),
    "C21": dict(assumptions=COMMON + [TABLE], outside="texts outside the families, for the width of queued positions; the two arithmetic parts are complete"),
    "C22": dict(assumptions=COMMON + [TABLE], outside=_E2E + "; boundaries at 2^24 and above"),
    "C24": dict(assumptions=COMMON + [TABLE, "time is the number of executed basic blocks of the library and of bytes moved by block operations, counted by code inserted into the IR; space is the sum of the sizes of live heap blocks"], outside=_E2E + "; steps inside the C and C++ libraries; stack"),
    "C26": dict(assumptions=COMMON[:2] + COMMON[3:] + [TABLE, SHIFT, STDIO_MODEL], outside="two separate failures; storage left behind by a call that fails; failures inside the C and C++ libraries; " + _E2E),
    "C27": dict(assumptions=COMMON + [TABLE, SHIFT, "calls interact only through memory; threads change at function entries and around accesses to mutable globals (each place a few times per path)"], outside="more than the listed number of changes; preemption between other instructions (the shared state reachable there is the same); more than two calls; " + _E2E),
    "C23": dict(assumptions=COMMON + [TABLE, STDIO_MODEL], outside="more than 8 words; longer extra arguments"),
}
