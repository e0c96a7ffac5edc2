"""What each check explores: entry points of the harness, their parameters (the bounds) and a time cap per job.

A job symbolically executes one entry of the harness (compiled together with /repo) over every value of its symbolic
inputs. `pin` fixes leading inputs to constants (`_`: still symbolic), so that a large fixed shape can be combined with
arbitrary further operations. Hash masks pick which hash bits vary: a u8 hash under a u8 flag has digits of 3, 3 and 2 bits.
"""
QUICK_S = 420
THOROUGH_S = 6 * 3600
SAMPLES = 12
PARALLEL = {"quick": 4, "thorough": 3}  # jobs explored side by side

ASSUMPTIONS = [
    "rustc's LLVM IR for the dev profile (opt-level 1, fat LTO, overflow and debug checks on, panic=abort) is what is executed; the engine's semantics of that IR is cross-checked on every run by replaying sampled paths on the compiled binary",
    "the allocator never fails and returns fresh, suitably aligned blocks",
    "keys, values and operations are the harness's: equality is total, hashing is consistent with it, operations do not panic",
    "everything beyond the stated bounds (operations, entries, hash bits that vary) is not covered",
]


def j(feature, entry, *params, t=60, pin="", what="", steps=""):
    return {"feature": feature, "entry": entry, "params": list(params), "time": t, "pin": pin, "what": what, "steps": steps}


# --- fixed prefixes of histories: (hash, id, operation); operation 0 inserts or replaces, 2 inserts only if absent, 1 removes
BASES = {
    "a collision pair, a sibling at the last level and one at the second": [(0, 0, 0), (0, 1, 0), (64, 0, 0), (8, 0, 0)],
    "a full root": [(d, 0, 0) for d in range(8)],
    "a full last level below a chain": [(0, 0, 0), (64, 0, 0), (128, 0, 0), (192, 0, 0), (192, 1, 0)],
    "branches left with one child by removals": [(0, 0, 0), (64, 0, 0), (64, 0, 1), (1, 0, 0), (9, 0, 0), (9, 0, 1)],
    "a collision list of four": [(255, 0, 0), (255, 1, 0), (255, 2, 0), (255, 3, 0)],
    "a collision list shrunk from its ends": [(255, 0, 0), (255, 1, 0), (255, 2, 0), (255, 0, 1), (255, 2, 1)],
    "emptied by removals": [(5, 0, 0), (69, 0, 0), (5, 0, 1), (69, 0, 1)],
    "two collision lists under one branch": [(2, 0, 0), (2, 1, 0), (66, 0, 0), (66, 1, 0), (130, 1, 0)],
}


def hist(feature, entry, extra, bases=None, ids=1, t=60):
    out = []
    for name, b in BASES.items():
        if bases and not any(x in name for x in bases):
            continue
        i = max([ids] + [k[1] for k in b])
        i = 3 if i > 1 else i
        pin = ",".join(f"{h},{d},{c}" for h, d, c in b)
        if entry.startswith("h_set"):
            out.append(j(feature, entry, len(b) + extra, 255, i, t=t, pin=pin, what=f"{name}, then {extra} arbitrary operations"))
        else:
            out.append(j(feature, entry, len(b) + extra, 255, i, 0, t=t, pin=pin, what=f"{name}, then {extra} arbitrary operations"))
    return out


# --- fixed shapes of the operands of joint operations
def jpin(left, right, lk, bk, rk):
    """left/right: (hash, id) or None for arbitrary; lk/bk per left entry, rk per right entry: decisions, None arbitrary."""
    s = lambda x: "_" if x is None else str(x)
    p = []
    for k in list(left) + list(right):
        p += ["_", "_"] if k is None else [s(k[0]), s(k[1])]
    for a, b in zip(lk, bk):
        p += [s(a), s(b)]
    p += [s(x) for x in rk]
    return ",".join(p)


def dict_jobs(entry, tier):
    q = [j("dict", entry, 0, 255, 1, 0), j("dict", entry, 1, 255, 3, 0), j("dict", entry, 2, 255, 1, 0), j("dict", entry, 3, 73, 1, 0), j("dict", entry, 4, 0, 3, 1), j("dict", entry, 3, 0, 3, 0)]
    q += hist("dict", entry, 1)
    q += [j("dict", entry, 4, 65, 3, 0, t=150), j("dict", entry, 5, 0, 3, 0, t=120), j("dict", entry, 3, 255, 1, 0, t=120)]
    if tier == "thorough":
        q += hist("dict", entry, 2, t=1800)
        q += [j("dict", entry, 4, 73, 1, 0, t=1800), j("dict", entry, 5, 65, 1, 0, t=1800), j("dict", entry, 5, 1, 3, 0, t=1800), j("dict", entry, 6, 0, 3, 0, t=1800), j("dict", entry, 4, 201, 1, 2, t=1800), j("dict", entry, 4, 255, 1, 0, t=3600)]
    return q


# Operand shapes (sorted by hash) for joint operations.
SHAPES = {
    "collision list meets collision list": ([(0, 0), (0, 1), (0, 2)], [(0, 1), (0, 2), (0, 3)]),
    "collision list meets single": ([(0, 0), (0, 1), (0, 2)], [(0, 1)]),
    "single meets collision list": ([(0, 1)], [(0, 0), (0, 1), (0, 2)]),
    "collision list meets branch above it": ([(0, 0), (0, 1)], [(0, 1), (8, 0), (64, 0)]),
    "branch meets collision list below it": ([(0, 1), (8, 0), (64, 0)], [(0, 0), (0, 1)]),
    "single meets branch": ([(9, 0)], [(1, 0), (9, 0), (65, 0)]),
    "branch meets single": ([(1, 0), (9, 0), (65, 0)], [(9, 0)]),
    "branches sharing some slots": ([(0, 0), (1, 0), (2, 0), (5, 0)], [(1, 0), (2, 0), (3, 0), (7, 0)]),
    "deep chains that part at the last level": ([(0, 0), (64, 0)], [(64, 0), (128, 0)]),
    "collision lists that part below their slot": ([(0, 0), (0, 1)], [(8, 0), (8, 1)]),
    "collision lists that part two levels below their slot": ([(0, 0), (0, 1)], [(64, 0), (64, 1)]),
    "collision list meets single of another hash": ([(0, 0), (0, 1)], [(64, 0)]),
    "single meets collision list of another hash": ([(8, 0)], [(0, 0), (0, 1)]),
    "different depths": ([(3, 0), (11, 0)], [(3, 0), (67, 0), (75, 1)]),
}
# Both operands branch at several levels.
NESTED = {
    "sub-branches with entries in both halves": ([(0, 0), (16, 0), (56, 0)], [(0, 0), (16, 0), (1, 0)]),
    "a collision list against a single below a shared branch": ([(3, 0), (11, 0), (11, 1)], [(11, 1), (19, 0)]),
    "the same sub-branch on both sides": ([(1, 0), (9, 0), (17, 0)], [(1, 0), (9, 0), (17, 0)]),
    "two sub-branches against one and a single": ([(0, 0), (8, 0), (1, 0), (9, 0)], [(0, 0), (1, 0), (9, 0)]),
    "three levels on both sides": ([(0, 0), (64, 0), (8, 0)], [(64, 0), (128, 0), (16, 0)]),
    "a branch of two sub-branches": ([(0, 0), (64, 0), (8, 0), (72, 0)], [(64, 0), (8, 0)]),
    "sub-branches side by side, none shared": ([(0, 0), (8, 0), (2, 0)], [(1, 0), (9, 0), (2, 0)]),
}
for _l, _r in NESTED.values():
    for _x in (_l, _r):
        _x.sort()


def joint_jobs(feature, entry, tier, lk=3, bk=5, rk=3, par=True, set_=False, flags=0):
    """lk/bk/rk: how many decisions the entry has on the left, on both, on the right."""
    q = [j(feature, entry, 0, 0, 255, 1, flags), j(feature, entry, 1, 0, 255, 1, flags), j(feature, entry, 0, 1, 255, 1, flags), j(feature, entry, 1, 1, 255, 1, flags),
         j(feature, entry, 2, 0, 255, 1, flags), j(feature, entry, 0, 2, 255, 1, flags), j(feature, entry, 2, 1, 9, 1, flags), j(feature, entry, 1, 2, 9, 1, flags), j(feature, entry, 1, 2, 72, 1, flags), j(feature, entry, 2, 1, 72, 1, flags)]
    q += [j(feature, entry, 2, 2, 0, 3, flags)]
    for name, (l, r) in SHAPES.items():
        ids = 3 if max(k[1] for k in l + r) > 1 else 1
        n, m = len(l), len(r)
        if n + m <= 4:
            q.append(j(feature, entry, n, m, 255, ids, flags, pin=jpin(l, r, [], [], []), what=name + ", every decision"))
        else:
            # all but a window of the decisions fixed
            for w in range(2):
                dl = [None if i % 2 == w else i % lk for i in range(n)]
                db = [None if i % 2 == w else (i + 1) % bk for i in range(n)]
                dr = [None if i % 2 != w else (i + 1) % rk for i in range(m)]
                q.append(j(feature, entry, n, m, 255, ids, flags, pin=jpin(l, r, dl, db, dr), what=name + ", half the decisions fixed"))
    return q


def deep_joint(feature, entry, lk=3, bk=5, rk=3, flags=0):
    """Thorough: arbitrary hashes over more bits, decisions fixed to patterns; and all decisions over fixed shapes."""
    q = [j(feature, entry, 2, 2, 9, 1, flags, t=900), j(feature, entry, 2, 2, 72, 1, flags, t=900), j(feature, entry, 2, 2, 73, 0, flags, t=1800), j(feature, entry, 3, 3, 0, 3, flags, t=900),
         j(feature, entry, 1, 2, 255, 1, flags, t=1800), j(feature, entry, 2, 1, 255, 1, flags, t=1800), j(feature, entry, 2, 2, 9, 1, flags | 6, t=1800), j(feature, entry, 1, 1, 255, 1, flags | 6, t=1800)]
    for name, (l, r) in SHAPES.items():
        ids = 3 if max(k[1] for k in l + r) > 1 else 1
        q.append(j(feature, entry, len(l), len(r), 255, ids, flags, t=900, pin=jpin(l, r, [], [], []), what=name + ", every decision"))
        for a in range(lk):
            for b in range(bk):
                c = (a + b) % rk
                # one more arbitrary entry on either side (the keys are sorted by hash, so it goes last)
                q.append(j(feature, entry, len(l), len(r), 255, ids, flags, t=300, pin=jpin([x for x in l[:-1]] + [None], [x for x in r[:-1]] + [None], [a] * len(l), [b] * len(l), [c] * len(r)), what=f"{name}, last entry of either side arbitrary, decisions {a}/{b}/{c} throughout"))
    return q


def const_jobs(feature, entry, tier, codes=range(8)):
    q = []
    for c in codes:
        q += [j(feature, entry, 1, 1, 255, 1, 0, c), j(feature, entry, 2, 2, 0, 3, 0, c), j(feature, entry, 2, 1, 9, 1, 0, c), j(feature, entry, 1, 2, 9, 1, 0, c)]
        for name, (l, r) in SHAPES.items():
            ids = 3 if max(k[1] for k in l + r) > 1 else 1
            n, m = len(l), len(r)
            if tier == "quick" and c not in (1, 3, 6, 7):
                continue
            q.append(j(feature, entry, n, m, 255, ids, 0, c, pin=jpin(l, r, [None] * n, [None if i == 0 else (i + c) % 3 for i in range(n)], [None if i == 0 else (i + c) % 2 for i in range(m)]) if False else jpin(l, r, [], [], []), what=name))
        if tier == "thorough":
            q += [j(feature, entry, 2, 2, 9, 1, 0, c, t=900), j(feature, entry, 2, 2, 72, 1, 0, c, t=900), j(feature, entry, 2, 2, 9, 1, 7, c, t=900), j(feature, entry, 3, 3, 0, 3, 0, c, t=900)]
    return q


# --- word widths
def bit(*bs):
    return sum(1 << b for b in bs)


def split64(m):
    return m & (2 ** 64 - 1), m >> 64


# entry suffix, feature, hash bits, digit bits
WIDTHS = [("16_8", "wa", 16, 3), ("8_16", "wa", 8, 4), ("32_32", "wa", 32, 5), ("16_16", "wb", 16, 4), ("64_64", "wb", 64, 6), ("64_s", "wb", 64, 6),
          ("64_8", "wc", 64, 3), ("64_32", "wc", 64, 5), ("128_8", "wc", 128, 3), ("64_128", "wd", 64, 7), ("128_128", "wd", 128, 7)]

MORE_WIDTHS = [("32_8", "we", 32, 3), ("32_16", "we", 32, 4), ("64_16", "we", 64, 4), ("16_32", "we", 16, 5), ("128_16", "we", 128, 4), ("32_64", "wf", 32, 6), ("16_64", "wf", 16, 6), ("128_32", "wf", 128, 5), ("s_8", "wf", 64, 3), ("s_32", "wf", 64, 5), ("128_64", "wg", 128, 6), ("32_128", "wg", 32, 7), ("16_128", "wg", 16, 7), ("128_s", "wg", 128, 6), ("s_s", "wg", 64, 6)]


def width_jobs(tier):
    q = []
    for name, f, hb, d in MORE_WIDTHS:
        last = (hb - 1) // d * d
        some = sorted({0, d, last, hb - 1})
        for n, bits, ids in [(2, some, 1), (3, [hb - 1], 1), (2, range(d - 1, hb, d), 0)] + ([(3, some, 1), (2, range(hb), 1)] if tier == "thorough" else []):
            q.append(j(f, "h_w" + name, n, *split64(bit(*bits)), ids, 0, t=1800 if tier == "thorough" else 60, what=f"{hb}-bit hashes, {d}-bit digits, hash bits {list(bits)} vary"))
    for name, f, hb, d in WIDTHS:
        last = (hb - 1) // d * d
        some = sorted({0, d, last, hb - 1})
        for n, bits, ids in [(2, some, 1), (3, sorted({0, hb - 1}), 0), (2, [last // 2 // d * d, last], 1)]:
            q.append(j(f, "h_w" + name, n, *split64(bit(*bits)), ids, 0, what=f"{hb}-bit hashes, {d}-bit digits, hash bits {bits} vary"))
        # the top or bottom bit of every digit; the whole of the first digit, of the second
        for bits, what in [(range(d - 1, hb, d), "the top bit of every digit varies"), (range(0, hb, d), "the bottom bit of every digit varies"), (range(d), "the whole first digit varies"), (range(d, min(hb, 2 * d)), "the whole second digit varies")]:
            if d < 7 or tier == "thorough" or "whole" not in what or ("first" in what) == (hb == 64):
                q.append(j(f, "h_w" + name, 2, *split64(bit(*bits)), 0, 0, what=f"{hb}-bit hashes, {d}-bit digits, {what}"))
        if tier == "thorough":
            q.append(j(f, "h_w" + name, 3, *split64(bit(*some)), 1, 0, t=1800, what=f"{hb}-bit hashes, {d}-bit digits, hash bits {some} vary"))
            q.append(j(f, "h_w" + name, 2, *split64(2 ** hb - 1), 1, 0, t=1800, what=f"{hb}-bit hashes, {d}-bit digits, every hash bit varies"))
    for name, f, hb, d in [("16_8", "ja", 16, 3), ("32_32", "ja", 32, 5), ("8_16", "ja", 8, 4), ("64_64", "jb", 64, 6), ("64_s", "jb", 64, 6), ("128_128", "jc", 128, 7)]:
        last = (hb - 1) // d * d
        for n, m, bits, ids, par in [(1, 1, sorted({0, d, last, hb - 1}), 1, 0), (2, 1, sorted({0, hb - 1}), 0, 1), (2, 2, [hb - 1], 1, 0)]:
            q.append(j(f, "h_wj" + name, n, *split64(bit(*bits)), ids, m, par, what=f"joint operation, {hb}-bit hashes, hash bits {bits} vary"))
        q += [j(f, "h_wj" + name, 1, *split64(bit(*range(d - 1, hb, d))), 0, 1, 0, what=f"joint operation, {hb}-bit hashes, the top bit of every digit varies"), j(f, "h_wj" + name, 1, *split64(bit(*sorted({0, d // 2, d - 2, d - 1}))), 0, 1, 1, what=f"joint operation, {hb}-bit hashes, four bits of the first digit vary")]
        if tier == "thorough":
            q.append(j(f, "h_wj" + name, 2, *split64(bit(0, d, last)), 1, 2, 0, t=1800))
            q.append(j(f, "h_wj" + name, 1, *split64(2 ** hb - 1), 1, 1, 0, t=1800))
    return q


def fan_jobs(tier):
    q = [j("fa", "h_fan8", 0, 8, 1, 0), j("fa", "h_fan8", 0, 8, 3, 2), j("fa", "h_fan16", 15, 16, 1, 0), j("fa", "h_fan16", 3, 4, 5, 7), j("fa", "h_fan32", 31, 32, 1, 0, 1), j("fa", "h_fan32", 6, 6, 7, 30),
         j("fb", "h_fan64", 63, 64, 1, 0, 1), j("fb", "h_fans", 63, 64, 1, 0, 1), j("fb", "h_fan64", 33, 33, 23, 5, 1), j("fc", "h_fan128", 128, 128, 1, 0, 1), j("fc", "h_fan128", 66, 66, 51, 60, 1)]
    for k in range(4):
        q += [j("fd", "h_fant8", 0, 8, k & 1, k), j("fd", "h_fant32", 30, 32, k & 1, k)]
    q += [j("fd", "h_fant128", 128, 128, 1, 1)]
    for k in range(12):
        q += [j("fe", "h_fanj8", 4, 1 + k % 2, k & 1, k), j("fe", "h_fanj32", 20, 1 + k % 3, k & 1, k)]
    q += [j("ff", "h_fanj128", 100, 1, 0, 0)]
    if tier == "thorough":
        q += [j("fc", "h_fan128", 127, 127, 1, 0, 1), j("fa", "h_fan32", 31, 32, 1, 0, t=600), j("fa", "h_fan16", 0, 16, 1, 0, t=600), j("fa", "h_fan32", 0, 32, 1, 0, t=1800), j("fb", "h_fan64", 0, 64, 1, 0, 1, t=1800), j("fb", "h_fan64", 60, 64, 1, 0, t=1800), j("fb", "h_fans", 0, 64, 1, 0, 1, t=1800), j("fc", "h_fan128", 100, 128, 1, 0, 1, t=3600)]
        q += [j("fd", "h_fant32", 0, 32, k & 1, k, t=900) for k in range(4)] + [j("fd", "h_fant128", 96, 128, k & 1, k, t=1800) for k in range(4)] + [j("ff", "h_fanj128", 128, 3, 1, 5), j("ff", "h_fanj128", 70, 2, 1, 8)] + [j("ff", "h_fanj128", 100 + k, 1 + k % 4, k & 1, k, t=900) for k in range(12)]
    return q


# Shapes for one-operand transformations (sorted by hash).
ONE = {
    "a full root": [(d, 0) for d in range(6)],
    "a collision list of five": [(7, i) for i in range(5)],
    "a chain with a collision list at its end": [(0, 0), (0, 1), (8, 0), (64, 0), (128, 1)],
    "two subtrees and a single": [(1, 0), (2, 0), (10, 0), (9, 0)][:1] + [(2, 0), (9, 0), (10, 0), (74, 1)],
    "collision lists side by side": [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2)],
}
ONE.update({
    "a sub-branch and a single": [(1, 0), (3, 0), (11, 0)],
    "a chain of two levels and a single": [(1, 0), (3, 0), (67, 0)],
    "a collision list under a chain beside a single": [(2, 0), (9, 0), (9, 1), (73, 0)],
})
ONE["two subtrees and a single"] = [(1, 0), (2, 0), (9, 0), (10, 0), (74, 1)]


def one_jobs(feature, entry, tier, *tail, par=True):
    q = [j(feature, entry, n, m, i, f, *tail) for n, m, i, f in [(0, 255, 1, 0), (1, 255, 1, 0), (2, 255, 1, 0), (2, 73, 1, 1), (3, 73, 1, 0), (3, 36, 1, 1 if par else 0), (4, 9, 1, 0), (2, 9, 1, 2), (2, 72, 1, 3 if par else 2), (4, 73, 1, 0), (5, 1, 3, 1 if par else 0)]]
    for k, (name, v) in enumerate(ONE.items()):
        ids = 3 if max(x[1] for x in v) > 1 else 1
        if max(x[1] for x in v) > 3:
            ids = 7
        pin = ",".join(f"{h},{i}" for h, i in v)
        q.append(j(feature, entry, len(v), 255, ids, (k & 1) if par else 0, *tail, pin=pin, what=name + ", every decision"))
        if tier == "thorough":
            q.append(j(feature, entry, len(v) + 1, 255, ids, (k & 1) if par else 0, *tail, t=900, pin=pin, what=name + " and one arbitrary entry after it, every decision"))
            q.append(j(feature, entry, len(v), 255, ids, 2, *tail, t=900, pin=pin, what=name + " with an arbitrary entry that came and went, every decision"))
    if tier == "thorough":
        q += [j(feature, entry, 3, 255, 1, 0, *tail, t=1800), j(feature, entry, 2, 255, 1, 2, *tail, t=1800), j(feature, entry, 5, 9, 3, 1 if par else 0, *tail, t=900), j(feature, entry, 4, 73, 1, 0, *tail, t=1800)]
    return q


def mem_jobs(tier):
    q = []
    for o in range(3):
        q += [j("mem", "h_mem_hist", 2, 201, 1, o), j("mem", "h_mem_hist", 3, 9, 1, o), j("mem", "h_mem_hist", 3, 0, 3, o), j("mem", "h_mem_hist", 4, 64, 0, o)]
    for name, b in BASES.items():
        if len(b) < 6:
            ids = 3 if max(k[1] for k in b) > 1 else 1
            q.append(j("mem", "h_mem_hist", len(b), 255, ids, 0, pin=",".join(f"{h},{i},{c}" for h, i, c in b[:-1]), what=name + " without its last operation, then an arbitrary one"))
    for o in range(4):
        q += [j("mem", "h_mem_transform", 2, 201, 1, o & 1, o), j("mem", "h_mem_transform", 3, 0, 3, o & 1, o), j("mem", "h_mem_transform", 3, 9, 0, 1 - (o & 1), o), j("mem", "h_mem_transmute", 2, 201, 1, 0, o), j("mem", "h_mem_transmute", 3, 0, 3, 0, o), j("mem", "h_mem_set", 2, 9, 1, o & 1, o)]
    for e in ("tt", "tm", "mt", "mm"):
        for o in range(4):
            q += [j("memj", "h_mem_" + e, 1, 1, 73, 1, o & 1, o), j("memj", "h_mem_" + e, 2, 1, 0, 3, 0, o), j("memj", "h_mem_" + e, 1, 2, 0, 3, 0, o), j("memj", "h_mem_" + e, 2, 1, 65, 0, 0, o), j("memj", "h_mem_" + e, 1, 2, 65, 0, 1, o)]
        for k, (name, (l, r)) in enumerate(SHAPES.items()):
            if len(l) + len(r) > 5 and tier == "quick":
                continue
            ids = 3 if max(x[1] for x in l + r) > 1 else 1
            pin = ",".join(f"{h},{i}" for h, i in l + r)
            q.append(j("memj", "h_mem_" + e, len(l), len(r), 255, ids, k & 1, k % 4, pin=pin, what=name))
    if tier == "thorough":
        for o in range(3):
            q += [j("mem", "h_mem_hist", 3, 201, 1, o, t=1200), j("mem", "h_mem_hist", 4, 9, 1, o, t=1200), j("mem", "h_mem_hist", 5, 0, 3, o, t=1200)]
        for e in ("tt", "tm", "mt", "mm"):
            q += [j("memj", "h_mem_" + e, 2, 2, 9, 1, 0, o, t=900) for o in range(4)] + [j("memj", "h_mem_" + e, 2, 2, 72, 1, 1, o, t=900) for o in range(4)] + [j("memj", "h_mem_" + e, 3, 3, 0, 3, 0, o, t=900) for o in range(4)]
        q += [j("mem", "h_mem_transform", 4, 73, 1, o & 1, o, t=900) for o in range(4)] + [j("mem", "h_mem_transmute", 4, 73, 1, 0, o, t=900) for o in range(4)] + [j("mem", "h_mem_set", 3, 73, 1, o & 1, o, t=900) for o in range(4)]
    return q


def set_hist_jobs(tier):
    q = [j("set", "h_set", 0, 255, 1), j("set", "h_set", 1, 255, 3), j("set", "h_set", 2, 255, 1), j("set", "h_set", 3, 73, 1), j("set", "h_set", 3, 0, 3), j("set", "h_set", 4, 64, 1), j("set", "h_set", 4, 65, 1, t=120), j("set", "h_set", 5, 0, 3, t=120), j("set", "h_set", 3, 255, 1, t=120)]
    q += hist("set", "h_set", 1)
    if tier == "thorough":
        q += hist("set", "h_set", 2, t=1800) + [j("set", "h_set", 4, 255, 1, t=3600), j("set", "h_set", 4, 73, 1, t=3600), j("set", "h_set", 5, 65, 1, t=1800), j("set", "h_set", 6, 0, 3, t=1800)]
    return q


def set_ops_jobs(tier):
    q = one_jobs("set", "h_set_transform", tier) + one_jobs("set", "h_set_transmute", tier, par=False)
    for e in ("tt", "tm", "mt", "mm"):
        q += joint_jobs("setj", "h_set_" + e, tier, 2, 2, 2, set_=True) + [j("setj", "h_set_" + e, 2, 2, 9 if e in ("tt", "mm") else 72, 1, 0, t=150)]
        if tier == "thorough":
            q += [j("setj", "h_set_" + e, 2, 2, 9, 1, 0, t=900), j("setj", "h_set_" + e, 2, 2, 72, 1, 1 if e != "mm" else 0, t=900), j("setj", "h_set_" + e, 3, 3, 0, 3, 0, t=900), j("setj", "h_set_" + e, 1, 2, 255, 1, 0, t=900)]
    q += [j("setj", "h_set_tt_flip", 1, 1, 255, 1, 0), j("setj", "h_set_tt_flip", 2, 1, 9, 1, 1), j("setj", "h_set_tt_flip", 1, 2, 9, 1, 0), j("setj", "h_set_tt_flip", 2, 2, 0, 3, 0)] + shape_jobs("setj", "h_set_tt_flip", 0, limit=6 if tier == "quick" else 99)
    for name, (l, r) in NESTED.items():
        q += [j("setj", "h_set_" + e, len(l), len(r), 255, 1, 0, pin=",".join(f"{h},{i}" for h, i in l + r), what=name + ", every decision") for e in ("tt", "tm", "mt", "mm") if len(l) + len(r) < 7]
    for c in range(4):
        for s in range(3):
            q += [j("setj", "h_set_const", 1, 1, 255, 1, 16, c, s), j("setj", "h_set_const", 2, 2, 0, 3, 16, c, s), j("setj", "h_set_const", 1, 2, 9, 1, 17, c, s), j("setj", "h_set_const", 1, 1, 255, 1, 0, c, s), j("setj", "h_set_const", 2, 2, 0, 3, 0, c, s), j("setj", "h_set_const", 2, 1, 9, 1, 0, c, s), j("setj", "h_set_const", 1, 2, 9, 1, 1, c, s)]
            if tier == "thorough":
                q += [j("setj", "h_set_const", 2, 2, 73, 1, 0, c, s, t=600), j("setj", "h_set_const", 3, 3, 0, 3, 0, c, s, t=600)]
        for k, (name, (l, r)) in enumerate(SHAPES.items()):
            ids = 3 if max(x[1] for x in l + r) > 1 else 1
            q.append(j("setj", "h_set_const", len(l), len(r), 255, ids, 0, c, k % 3, pin=",".join(f"{h},{i}" for h, i in l + r), what=name))
    return q


def key_jobs(tier):
    q = dict_jobs("h_key", tier)
    q += [j("set", "h_set_key", *p) for p in [(0, 255, 1), (1, 255, 1), (2, 255, 1), (3, 73, 1), (3, 0, 3), (4, 9, 1), (4, 64, 1)]]
    q += [j("set", "h_set_key", len(v), 255, 7 if max(x[1] for x in v) > 3 else 3, pin=",".join(f"{h},{i}" for h, i in v), what=name) for name, v in ONE.items()]
    if tier == "thorough":
        q += [j("set", "h_set_key", 3, 255, 1, t=1800), j("set", "h_set_key", 4, 73, 1, t=1800), j("set", "h_set_key", 5, 0, 7, t=900)]
    return q


def bits_jobs(tier):
    return [j("bits", "h_bits" + w, t=120) for w in ("8", "16", "32", "64", "usize", "128")] + [j("bits", "h_consts")]


def std_jobs(tier):
    full = 2 ** 64 - 1
    q = [j("sa", "h_std8", 2, full, 1, 0), j("sa", "h_std8", 3, bit(0, 3, 7, 8, 63), 0, 0), j("sa", "h_std16", 2, bit(0, 3, 15, 16, 63), 1, 0), j("sb", "h_std32", 2, bit(0, 5, 31, 32, 63), 1, 0), j("sb", "h_std64", 2, bit(0, 5, 60, 63), 1, 0), j("sb", "h_std64", 3, bit(0, 63), 0, 0),
         j("sc", "h_fnv_map", 2, 255, t=60) if tier == "thorough" else j("sc", "h_fnv_map", 2, 15), j("sc", "h_fnv_set", 2, 0x1111), j("sc", "h_fnv_map", 4, 3)]
    q += [j("sd", "h_stdf8", 2, full, 1, 5), j("sd", "h_stdf8", 2, full, 1, 0), j("sd", "h_stdf8", 3, bit(0, 7), 1, 1), j("sd", "h_stdf64", 2, bit(0, 60), 1, 0), j("sd", "h_stdf64", 2, bit(0, 5, 63), 1, 2 ** 63), j("sd", "h_std_unit", 4, full, 0, 0), j("sd", "h_std_unit", 3, full, 0, 77), j("sd", "h_std_unit", 3, full, 0, full)]
    if tier == "thorough":
        q += [j("sd", "h_stdf8", 3, bit(0, 3, 7, 63), 1, 1, t=900), j("sd", "h_stdf64", 2, full, 1, 2 ** 63, t=1800), j("sd", "h_std_unit", 6, full, 0, 1)]
        q += [j("sa", "h_std16", 2, full, 1, 0, t=900), j("sb", "h_std32", 2, full, 1, 0, t=900), j("sb", "h_std64", 2, full, 1, 0, t=900), j("sa", "h_std8", 3, full, 1, 0, t=3600), j("sc", "h_fnv_map", 3, 15, t=900), j("sc", "h_fnv_set", 2, 0xffff, t=1800)]
    return q


def shape_jobs(feature, entry, flags, *tail, limit=99, every=1):
    return [j(feature, entry, len(l), len(r), 255, 3 if max(x[1] for x in l + r) > 1 else 1, flags, *tail, pin=jpin(l, r, [], [], []), what=name) for k, (name, (l, r)) in enumerate(SHAPES.items()) if len(l) + len(r) <= limit and k % every == 0]


def total_jobs(tier):
    """Every operation, on the inputs that stress termination: equal hashes, hashes that differ in the last bits only, exhausted digits."""
    q = []
    for e in ("h_insert", "h_remove", "h_persist"):
        q += [j("dict", e, 3, 192, 1, 0), j("dict", e, 3, 0, 3, 0)] + hist("dict", e, 1, bases=("collision", "last level"))
    q += [j("wa", "h_w16_8", 3, bit(14, 15), 0, 1, 0), j("wa", "h_w32_32", 3, bit(30, 31), 0, 1, 0), j("wa", "h_w8_16", 3, bit(4, 7), 0, 1, 0)]
    for e in ("h_transform", "h_transmute"):
        q += [j("xform", e, 3, 192, 1, 0), j("xform", e, 3, 0, 3, 0), j("xform", e, 0, 255, 1, 0)]
    q += [j("xform", "h_transform", 3, 192, 1, 1)]
    for f in ("tt", "tm", "mt", "mm"):
        q += [j(f, "h_" + f, 2, 2, 192, 0, 0), j(f, "h_" + f, 2, 2, 0, 3, 0), j(f, "h_" + f, 1, 2, 128, 1, 0), j(f, "h_" + f, 2, 1, 128, 1, 0)] + shape_jobs(f, "h_" + f, 0, limit=4 if tier == "quick" else 99)
    return q


def PAR(tier):
    q = [j("jpar", "h_par", *p) for p in [(0, 0, 255, 1, 0), (1, 1, 255, 1, 0), (2, 0, 73, 1, 0), (0, 2, 73, 1, 0), (2, 1, 9, 1, 0), (1, 2, 9, 1, 0), (2, 1, 36, 1, 0), (1, 2, 36, 1, 0), (2, 2, 36, 0, 0), (2, 2, 0, 3, 0)]] + [j("jpar", "h_par", 2, 2, 36, 1, 0, t=150)]
    q += shape_jobs("jpar", "h_par", 0, limit=6 if tier == "quick" else 99)
    q += [j("jpar", "h_par", len(l), len(r), 255, 1, 0, pin=jpin(l, r, [], [], []), what=name + ", every decision") for name, (l, r) in NESTED.items() if len(l) + len(r) < 7 or tier == "thorough"]
    # the other operations under the middle-index strategy, against the same oracle as under the sequential one
    for f in ("tm", "mt"):
        for fl in (0, 1):
            q += [j(f, "h_" + f, 1, 1, 255, 1, fl), j(f, "h_" + f, 2, 1, 36, 1, fl), j(f, "h_" + f, 1, 2, 36, 1, fl)] + shape_jobs(f, "h_" + f, fl, limit=5)
    for fl in (0, 1):
        q += [j("set", "h_set_transform", 3, 73, 1, fl), j("set", "h_set_transform", 4, 36, 1, fl)]
    if tier == "thorough":
        q += [j("jpar", "h_par", 2, 1, 255, 1, 0, t=1200), j("jpar", "h_par", 1, 2, 255, 1, 0, t=1200), j("jpar", "h_par", 2, 2, 9, 1, 0, t=1200), j("jpar", "h_par", 3, 3, 0, 3, 0, t=1200), j("jpar", "h_par", 2, 2, 36, 1, 6, t=1200)]
    return q


def after_jobs(tier):
    """Histories, then any subset of the entries dropped at once, possibly around a removal or an insertion."""
    q = [j("dict", "h_after", 3, 73, 1, 0, 0), j("dict", "h_after", 3, 9, 0, 0, 2)]
    for name, v in ONE.items():
        ids = 7 if max(x[1] for x in v) > 3 else 3 if max(x[1] for x in v) > 1 else 1
        pin = ",".join(f"{h},{i},0" for h, i in v)
        q.append(j("dict", "h_after", len(v), 255, ids, 0, 2, pin=pin, what=name + ", then one removed, then any subset dropped"))
        # inserted in another order
        pin = ",".join(f"{h},{i},0" for h, i in v[1:] + v[:1])
        q.append(j("dict", "h_after", len(v), 255, ids, 0, 4, pin=pin, what=name + ", then any subset dropped and an arbitrary key inserted"))
    for name, v in BASES.items():
        if len(v) > 7 and tier == "quick":
            continue
        ids = 3 if max(x[1] for x in v) > 1 else 1
        q.append(j("dict", "h_after", len(v) + 1, 255, ids, 0, 0, pin=",".join(f"{h},{i},{c}" for h, i, c in v), what=name + ", then an arbitrary operation, then any subset dropped"))
    if tier == "thorough":
        q += [j("dict", "h_after", 3, 255, 1, 0, 0, t=3600), j("dict", "h_after", 4, 73, 1, 0, 2, t=1800), j("dict", "h_after", 3, 201, 1, 0, 5, t=1800), j("dict", "h_after", 3, 201, 1, 0, 6, t=1800)]
    return q


def derived_jobs(tier):
    q = [j("jthen", "h_then", *p) for p in [(1, 1, 73, 1, 0), (2, 1, 0, 3, 0), (1, 2, 0, 3, 0), (2, 1, 9, 0, 0), (1, 2, 9, 0, 1), (2, 2, 64, 0, 1), (1, 1, 9, 1, 6)]]
    for k, (name, (l, r)) in enumerate(SHAPES.items()):
        if len(l) + len(r) <= 5 or tier == "thorough":
            n, m = len(l), len(r)
            q.append(j("jthen", "h_then", n, m, 255, 3 if max(x[1] for x in l + r) > 1 else 1, k & 1, pin=jpin(l, r, [i % 3 for i in range(n)], [None] * n, [None] * m), what=name + ", then arbitrary operations"))
    for k, (name, v) in enumerate(ONE.items()):
        ids = 7 if max(x[1] for x in v) > 3 else 3 if max(x[1] for x in v) > 1 else 1
        pin = ",".join(f"{h},{i}" for h, i in v)
        for e in ("h_transform_after", "h_transmute_after"):
            for how in (0, 2) if len(v) < 5 or tier == "thorough" else (0,):
                q.append(j("xforma", e, len(v), 255, ids, 0, how, pin=pin, what=name + ", every decision, then " + ("one removed, then " if how else "") + "any subset dropped"))
    q += [j("xforma", "h_transform_after", *p) for p in [(1, 73, 1, 0, 5), (2, 73, 1, 0, 4), (3, 9, 0, 0, 2)]] + [j("xforma", "h_transmute_after", *p) for p in [(1, 73, 1, 0, 5), (2, 73, 1, 0, 4), (3, 9, 0, 0, 2)]]
    for f, top in (("tta", 5 if tier == "quick" else 9), ("tma", 5 if tier == "quick" else 9), ("mta", 5 if tier == "quick" else 9), ("mma", 6 if tier == "quick" else 9)):
        e = "h_" + f[:2] + "_after"
        q += [j(f, e, 1, 1, 73, 0, 0, 4), j(f, e, 2, 1, 9, 0, 0, 2), j(f, e, 1, 2, 9, 0, 0, 0)]
        for k, (name, (l, r)) in enumerate(list(SHAPES.items()) + list(NESTED.items())):
            if "another hash" in name or "their slot" in name:
                q.append(j(f, e, len(l), len(r), 255, 3, 0, 4, pin=jpin(l, r, [], [], []), what=name + ", every decision, then an arbitrary key inserted, then any subset dropped"))
            if len(l) + len(r) <= top or f == "tta" and tier == "quick" and k in (14, 16):
                q.append(j(f, e, len(l), len(r), 255, 3 if max(x[1] for x in l + r) > 1 else 1, 0, 2 * (k & 1) if len(l) + len(r) < 5 else 0, pin=jpin(l, r, [], [], []), what=name + ", every decision, then any subset dropped"))
    if tier == "thorough":
        q += [j("jthen", "h_then", 1, 1, 255, 1, 0, t=900), j("jthen", "h_then", 2, 2, 0, 3, 0, t=900), j("jthen", "h_then", 2, 2, 9, 1, 0, t=1800), j("jthen", "h_then", 2, 2, 72, 1, 1, t=1800)]
    return q


def eq_jobs(tier):
    q = one_jobs("xform", "h_transform_eq", tier)
    q += [j("jeq", "h_tt_eq", *p) for p in [(0, 0, 255, 1, 0), (1, 0, 255, 1, 0), (0, 1, 255, 1, 0), (1, 1, 255, 1, 0), (2, 1, 9, 1, 0), (1, 2, 9, 1, 1), (2, 2, 0, 3, 0)]] + shape_jobs("jeq", "h_tt_eq", 0, limit=5 if tier == "quick" else 99)
    if tier == "thorough":
        q += [j("jeq", "h_tt_eq", 2, 2, 9, 1, 0, t=900), j("jeq", "h_tt_eq", 2, 2, 72, 1, 1, t=900)]
    return q


def size_jobs(tier):
    q = dict_jobs("h_visit", tier) + after_jobs(tier)
    q += [j("xform", "h_transform", 3, 73, 1, 0), j("xform", "h_transmute", 3, 73, 1, 0), j("xform", "h_transform", 4, 0, 3, 1)]
    for f in ("tt", "tm", "mt", "mm"):
        q += [j(f, "h_" + f, 1, 1, 255, 1, 0), j(f, "h_" + f, 2, 2, 0, 3, 0), j(f, "h_" + f, 2, 1, 9, 1, 0), j(f, "h_" + f, 1, 2, 9, 1, 0)] + shape_jobs(f, "h_" + f, 0, limit=5)
    return q


def persist_jobs(tier):
    q = dict_jobs("h_persist", tier)
    q += [j("xform", "h_transform", 3, 73, 1, 0), j("xform", "h_transmute", 3, 73, 1, 0)]
    for f in ("tt", "mm"):
        q += [j(f, "h_" + f, 1, 1, 255, 1, 0), j(f, "h_" + f, 2, 2, 0, 3, 0), j(f, "h_" + f, 2, 1, 9, 1, 0), j(f, "h_" + f, 1, 2, 9, 1, 0)]
    return q


def joints(pairs, lk, bk, rk, par=True):
    def f(tier):
        q = []
        for feature, entry in pairs:
            q += joint_jobs(feature, entry, tier, lk, bk, rk)
            q += [j(feature, entry, 3, 3, 0, 3, 0, t=150), j(feature, entry, 2, 2, 9, 1, 0, t=150), j(feature, entry, 2, 2, 72, 1, 1 if par else 0, t=150)]
            if feature != "fut":
                for name, (l, r) in SHAPES.items():
                    if "another hash" in name or "their slot" in name:
                        q.append(j(feature + "a", entry + "_after", len(l), len(r), 255, 3, 0, 4, pin=jpin(l, r, [], [], []), what=name + ", every decision, then an arbitrary key inserted, then any subset dropped"))
            for k, (name, (l, r)) in enumerate(NESTED.items()):
                if feature != "fut" or tier == "thorough":
                    q.append(j(feature, entry, len(l), len(r), 255, 1, (k & 1) if par else 0, pin=jpin(l, r, [], [], []), what=name + ", every decision"))
            if feature == "tt":
                for fl in (0, 1):
                    q += [j("ttf", "h_tt_flip", 1, 1, 255, 1, fl), j("ttf", "h_tt_flip", 2, 1, 9, 1, fl), j("ttf", "h_tt_flip", 1, 2, 9, 1, fl), j("ttf", "h_tt_flip", 2, 2, 0, 3, fl)]
                q += shape_jobs("ttf", "h_tt_flip", 0, limit=5 if tier == "quick" else 99)
            for k, (name, (l, r)) in enumerate(SHAPES.items()):
                ids = 3 if max(x[1] for x in l + r) > 1 else 1
                n, m = len(l), len(r)
                fl = (k & 1) if par else 0
                for a in range(2):
                    q.append(j(feature, entry, n, m, 255, ids, fl, pin=jpin(l[:-1] + [None], r[:-1] + [None], [a] * n, [(a + k) % bk] * n, [(a + k) % rk] * m), what=name + ", last entry of either side arbitrary, uniform decisions"))
            if tier == "thorough":
                q += deep_joint(feature, entry, lk, bk, rk)
                if par:
                    q += deep_joint(feature, entry, lk, bk, rk, flags=1)
        return q
    return f


def share_jobs(tier):
    """Two threads. Parameters: entries, masks, how they hold the map, what each does, preemptions, derivation, flags."""
    q, k = [], 0
    for a in range(7):
        for b in range(a, 7):
            how = k % 5
            q.append(j("share", "h_share", 2, 1 if how > 2 or tier == "quick" else 3, 1, how, a, b, 1, 1 + k // 5 % 2, k % 4, what="two arbitrary entries"))
            q.append(j("share", "h_share", 1, 73, 0, (how + 2) % 5, b, a, 2, 1 + k // 5 % 2, 0, what="one arbitrary entry"))
            k += 1
    pairs = [(1, 1), (1, 2), (2, 3), (3, 4), (4, 1), (0, 2), (2, 2), (6, 3), (5, 1), (3, 3), (0, 0), (0, 4), (5, 5)]
    for r in range(4 if tier == "quick" else 20):
        for name, v in ONE.items():
            ids = 7 if max(x[1] for x in v) > 3 else 3 if max(x[1] for x in v) > 1 else 1
            (a, b), how = pairs[k % len(pairs)], k % 5
            h, i = v[k % len(v)]
            pin = ",".join(f"{h},{i}" for h, i in v) + f",_,_,{h},{i}" + (f",{h},{i}" if k & 1 else "")
            q.append(j("share", "h_share", len(v), 255, ids, how, a, b, 2 if len(v) < 5 or tier == "thorough" else 1, 1 + k // 5 % 2, k % 2 * 2, pin=pin, what=name + ", one thread works on one of its entries"))
            k += 1
    if tier == "thorough":
        for a in range(7):
            for b in range(7):
                for how in range(5):
                    q.append(j("share", "h_share", 2, 9, 1, how, a, b, 2, 1 + (a + b) % 2, (a + how) % 4, t=1200))
    return q


def own_jobs(tier):
    """The right operand is a version of the left one: entries that both have may be shared between them."""
    q = []
    full = tier == "thorough"
    for k, (f, e, lk, bk, rk) in enumerate([("tt", "h_tt", 3, 5, 3), ("own", "h_tm_own", 3, 3, 2), ("own", "h_mt_own", 2, 3, 3), ("own", "h_mm_own", 2, 2, 2), ("setj", "h_set_tt", 2, 4, 2), ("jeq", "h_tt_eq", 3, 5, 3), ("jpar", "h_par", 3, 5, 3), ("fut", "h_tf", 3, 3, 2), ("fut", "h_ft", 2, 3, 3)]):
        if k < 5 or full:
            q += [j(f, e, 1, 1, 255 if k < 4 else 73, 1, 32), j(f, e, 2, 1, 9, 1, 32), j(f, e, 1, 2, 9, 1, 96), j(f, e, 2, 2, 0, 3, 32)]
        shapes = [(name, l, r) for name, (l, r) in list(SHAPES.items()) + list(NESTED.items())] + [(name + ", nothing removed or added", v, v) for name, v in ONE.items()]
        for i, (name, l, r) in enumerate(shapes):
            if not full and (k > 4 and i % 4 != k % 4 or k in (2, 3, 4) and i % 2 != k % 2):
                continue
            ids = 7 if max(x[1] for x in l + r) > 3 else 3 if max(x[1] for x in l + r) > 1 else 1
            n, m = len(l), len(r)
            fl = 32 + 64 * (i + k & 1) + ((i >> 1) & 1 if k != 3 else 0)
            keys = jpin(l, r, [], [], [])
            if n + m <= 4:
                q.append(j(f, e, n, m, 255, ids, fl, pin=keys, what=name + ", one a version of the other"))
                continue
            for w in range(2):
                dl, db, dr = [None if x % 2 == w and n + m < 8 else (x + i) % lk for x in range(n)], [None if x % 2 == w else (x + i) % bk for x in range(n)], [None if x % 2 != w and n + m < 8 else (x + i) % rk for x in range(m)]
                sh = [None if x % 2 == w and n + m < 8 else (x + i) // 3 % 2 * (n + m < 8) for x in range(m)]
                q.append(j(f, e, n, m, 255, ids, fl, pin=jpin(l, r, dl, db, dr + sh), what=name + ", one a version of the other, half the decisions fixed"))
    for c in range(1, 8) if full else (1, 3, 5, 7):
        for i, (l, r) in enumerate(list(SHAPES.values()) + list(NESTED.values())):
            if full or len(l) + len(r) <= 5:
                q.append(j("ttc", "h_tt_const", len(l), len(r), 255, 3, 32 + (i & 1), c, pin=jpin(l, r, [], [], []), what="one a version of the other, constant operations"))
    for c in range(4):
        q.append(j("setj", "h_set_const", 2, 2, 9, 1, 32, c, c % 3, what="sets, one a version of the other, constant operations"))
    if full:
        for f, e in (("tt", "h_tt"), ("own", "h_tm_own"), ("own", "h_mt_own"), ("own", "h_mm_own"), ("setj", "h_set_tt")):
            q += [j(f, e, 2, 2, 9, 1, 32, t=1200), j(f, e, 2, 2, 72, 1, 97 if e != "h_mm_own" else 96, t=1200), j(f, e, 3, 3, 0, 3, 32, t=1200)]
    return q


def long_jobs(tier):
    """Collision lists of any length and maps of hundreds of entries, next to what the other checks do with few."""
    q = []
    full = tier == "thorough"
    ats = (0, 1, 2, 5, 6)
    for at in ats:
        q.append(j("long", "h_long", 0, 24 if full else 12, at, 0, what="a list of every length up to the bound"))
        q += [j("long", "h_long", n, n, at, 1) for n in ((31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 300, 512, 513, 1000) if full else (24, 33, 65) if at else (16, 129))] + [j("long", "h_long", 254, 258, at, 1)]
        for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11):
            if full or k % 5 == at % 5 or at == 0 and k < 8:
                q.append(j("long", "h_long_one", 0, 16 if full else 8, at, k, what="a list of every length up to the bound, entries around one treated differently"))
        q.append(j("long", "h_long_one", 40, 40, at, at & 3))
        if full:
            q += [j("long", "h_long_one", 300, 300, at, k) for k in (2, 6)]
    q += [j("long", "h_long_one", 260, 260, 1, 2), j("long", "h_long_one", 260, 260, 0, 5)]
    for op in range(4):
        for d in range(36):
            kl, kr, kb = d % 3, d // 3 % 3, d // 9
            if op in (1, 2) and (kr if op == 1 else kl) == 1 or op == 3 and (kl == 1 or kr == 1 or kb in (1, 2)) or op == 1 and kb == 1 or op == 2 and kb == 0:
                continue  # the same as another choice: a transmuted side can only be kept or dropped
            for i, (at, rat) in enumerate(((0, 0), (1, 2), (2, 2), (5, 6), (2, 0), (0, 6))):
                if full or i == (d + op) % 6:
                    q.append(j("long", "h_long_joint", 5 + (d + i) % 4, 9 + (d + op) % 3, at, 1 + (d + i) % 3, d, op, rat, what="two lists overlapping from any key on"))
        for d in (0, 13, 19, 33):
            q.append(j("long", "h_long_joint", 30, 40, (0, 1, 2, 6)[op], 1 + d % 3, d, op, (2, 0, 6, 1)[op], what="two long lists overlapping from any key on"))
        q += [j("long", "h_long_joint", 280 if full or op == 0 else 120, 290 if full else 281 if op == 0 else 121, (0, 1, 2, 6)[op], 7, d, op, 1, what="two long lists overlapping from any key on") for d in ((4, 13, 0, 27) if full else ((4, 24, 0, 27)[op],))]
    for n, stride in ((256, 37), (300, 1), (600, 77)) + (((255, 91), (257, 3), (768, 5), (1100, 201)) if full else ()):
        q += [j("long", "h_many", n, stride, 0, 73 if not full else 219, 36), j("long", "h_many", n, stride, 1, 0), j("long", "h_many", n, stride, 1, 1), j("long", "h_many", n, stride, 2, 0), j("long", "h_many", n, stride, 2, 1)]
    big = [(1, 5), (2, 1), (0, 1), (0, 0)]      # the longest first
    if full:
        big += [(2, 0), (1, 0), (1, 1), (1, 2), (1, 3), (1, 4), (0, 2), (0, 3)]
    return [j("long", "h_big", 66000, *x, t=400, steps=4_000_000_000, what="more entries than sixteen bits count, one of them with an arbitrary value") for x in big] + q


PROPERTIES = {
    "P01": {"jobs": lambda t: [j("dict", "h_empty")] + dict_jobs("h_find", t)},
    "P02": {"jobs": lambda t: dict_jobs("h_insert", t)},
    "P03": {"jobs": lambda t: dict_jobs("h_remove", t)},
    "P04": {"jobs": persist_jobs},
    "P05": {"jobs": size_jobs},
    "P06": {"jobs": total_jobs},
    "P07": {"jobs": lambda t: one_jobs("xform", "h_transform", t)},
    "P08": {"jobs": lambda t: one_jobs("xform", "h_transmute", t, par=False)},
    "P09": {"jobs": joints([("tt", "h_tt")], 3, 5, 3)},
    "P10": {"jobs": joints([("tm", "h_tm"), ("fut", "h_tf")], 3, 3, 2)},
    "P11": {"jobs": joints([("mt", "h_mt"), ("fut", "h_ft")], 2, 3, 3)},
    "P12": {"jobs": joints([("mm", "h_mm")], 2, 2, 2, par=False)},
    "P13": {"jobs": PAR},
    "P14": {"jobs": lambda t: one_jobs("xform", "h_transform_const", t, 0) + one_jobs("xform", "h_transform_const", t, 1) + const_jobs("ttc", "h_tt_const", t) + const_jobs("tmc", "h_tm_const", t) + const_jobs("mtc", "h_mt_const", t) + const_jobs("mmc", "h_mm_const", t)},
    "P15": {"jobs": bits_jobs},
    "P16": {"jobs": lambda t: [j("bits", "h_ops"), j("bits", "h_set_ops")]},
    "P17": {"jobs": eq_jobs},
    "P18": {"jobs": mem_jobs},
    "P19": {"jobs": set_hist_jobs},
    "P20": {"jobs": set_ops_jobs},
    "P21": {"jobs": key_jobs},
    "P22": {"jobs": width_jobs},
    "P23": {"jobs": fan_jobs},
    "P24": {"jobs": std_jobs},
    "P25": {"jobs": lambda t: derived_jobs(t) + after_jobs(t)},
    "P26": {"jobs": share_jobs},
    "P27": {"jobs": own_jobs},
    "P28": {"jobs": long_jobs},
}


def jobs(pid, tier):
    """Cheapest modules' jobs keep their order; each job is listed once."""
    seen, out = set(), []
    for x in PROPERTIES[pid]["jobs"](tier):
        k = (x["feature"], x["entry"], tuple(x["params"]), x["pin"])
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out
