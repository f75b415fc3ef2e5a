"""What is run per property: harness, arguments, bounds."""

ASSUMPTIONS = [
    "SHA-256 and RIPEMD-160 are ideal: equal outputs only for equal inputs (model crates harness/models/sha2, ripemd)",
    "256-bit division of amplify_num is its mathematical contract (bvurem/bvudiv)",
    "the random source may deliver any value (model crate harness/models/rand)",
    "rustc/LLVM compile the code correctly; the checked artefact is the optimised LLVM IR with debug assertions and overflow checks",
    "memory allocation never fails",
]


def J(h, *a, covers=("end",), cost=1, **kw):
    return dict(h=h, a=list(a), covers=list(covers), cost=cost, **kw)


PROPS = {}


def prop(pid, title, quick, thorough=None, **kw):
    PROPS[pid] = dict(title=title, quick=quick, thorough=thorough, **kw)


prop("C14", "length-prefixed hashing",
     quick=[J("h_c14_small", alg, 6) for alg in (0, 1)] +
           [J("h_c14_edge", alg, k) for alg in (0, 1) for k in range(12)] +
           [J("h_c14_pairs", alg, 2, 3) for alg in (0, 1)],
     thorough=[J("h_c14_small", alg, 40) for alg in (0, 1)] +
              [J("h_c14_edge", alg, k) for alg in (0, 1) for k in range(12)] +
              [J("h_c14_pairs", alg, 3, 3) for alg in (0, 1)] + [J("h_c14_pairs", alg, 2, 8) for alg in (0, 1)],
     bounds="data of every length 0..6 (all bytes symbolic) for 13 declared maxima around every prefix width; lengths 255, 256, 300 fully "
            "symbolic and 65535, 65536, 74565 with 16 symbolic bytes; tags of 0..3 symbolic bytes; up to 1 raw byte before and after; pairs of "
            "2-chunk sequences of lengths 0..3",
     bounds_thorough="as quick with lengths 0..40, pairs of 3-chunk sequences of lengths 0..3 and of 2-chunk sequences of lengths 0..8",
     outside="data longer than 74565 bytes; declared maxima other than the 13 listed (the prefix width depends on four ranges only)")

prop("C18", "plain commitment",
     quick=[J("h_c18_commit", covers=["ok", "mismatch"]), J("h_c18_try", covers=["ok", "mismatch", "message"])] +
           [J("h_c18_tree", d, m, covers=["ok", "mismatch", "message"]) for d, m in ((1, 1), (1, 2), (1, 3), (2, 11), (3, 164))],
     bounds="commitments and messages with 32-bit symbolic content, equality ignoring a symbolic part, fallible and infallible scheme; multi-message trees of 1..3 messages against the same ones, any message replaced, one left out, other entropy or depth",
     outside="other message types (the default methods are generic and treat the message as opaque)")

prop("C19", "embedded commitment",
     quick=[J("h_c19_verify", covers=["restore", "message", "proof", "mismatch", "ok"]), J("h_c19_honest")],
     bounds="containers, proofs and messages with 32-bit symbolic content whose operations are distinct mixing functions and fail on symbolic "
            "conditions; every kind of restore error; an honest scheme",
     outside="other container types (the default method is generic and treats them as opaque)")

prop("C20", "convolved commitment",
     quick=[J("h_c20_verify", covers=["message", "proof", "mismatch", "ok"])],
     bounds="originals, supplements, proofs, commitments and messages with 32-bit symbolic content, distinct mixing functions, symbolic failure",
     outside="other types (the default method is generic and treats them as opaque)")

prop("C21", "seal closing",
     quick=[J("h_c21_list", 5, covers=["not included", "client", "published", "ok"]), J("h_c21_long", 300, covers=["not included", "client", "published", "ok"]),
            J("h_c21_single", covers=["not included", "client", "published", "ok"])],
     thorough=[J("h_c21_list", 12, covers=["not included", "client", "published", "ok"]), J("h_c21_long", 1000, covers=["not included", "client", "published", "ok"]),
               J("h_c21_single", covers=["not included", "client", "published", "ok"])],
     bounds="lists of 0..5 and of 300 seals, all content symbolic (32 bit), inclusion depending on seal, message and both witnesses",
     bounds_thorough="lists of 0..12 and of 1000 seals, all content symbolic (32 bit)",
     outside="lists of other lengths; other seal types")

prop("C22", "client-side validation",
     quick=[J("h_c22", 2, 2, 1, covers=["end", "items"], cost=9), J("h_c22", 3, 1, 0, covers=["end", "items"]),
            J("h_c22", 1, 4, 1, covers=["end", "items"])] + [J("h_c22_long", *x) for x in ((12, 300, 8), (300, 4, 300), (40, 3, 1))],
     thorough=[J("h_c22", 2, 3, 1, covers=["end", "items"], cost=9), J("h_c22", 4, 1, 0, covers=["end", "items"]),
               J("h_c22", 3, 2, 0, covers=["end", "items"], cost=9), J("h_c22", 1, 7, 1, covers=["end", "items"])] + [J("h_c22_long", *x) for x in ((12, 300, 8), (300, 4, 300), (40, 3, 1))] + [J("h_c22_long", 70000, 2, 0, cost=9), J("h_c22_long", 3, 70000, 0, cost=9)],
     bounds="0..2 items with 0..2 seals (0..3 items with 0..1, 0..1 items with 0..4), every combination of resolver answers, own status of the data with "
            "0..1 entry per log, one report of any kind per item; 12 items with up to 300 seals and 300 items with up to 4 seals and 0..4 reports each; all contents symbolic",
     bounds_thorough="items x seals: 2x3, 4x1, 3x2, 1x7; 70000 items, an item with 70000 seals",
     outside="other numbers of items, seals and entries")

prop("C23", "validity verdict",
     quick=[J("h_c23_merge", 1), J("h_c23_merge", 2, cost=9), J("h_c23_ops", 3, cost=9)] + [J("h_c23_long", *x) for x in ((300,) * 8, (300, 0, 0, 0, 0, 0, 3, 300), (66000, 0, 0, 0, 66000, 0, 3, 300), (0, 66000, 66000, 66000, 0, 0, 3, 300))],
     thorough=[J("h_c23_merge", 2), J("h_c23_merge", 3, cost=9), J("h_c23_ops", 4, cost=9)] + [J("h_c23_long", *x) for x in ((300,) * 8, (300, 0, 0, 0, 0, 0, 3, 300), (66000, 0, 0, 0, 66000, 0, 3, 300), (0, 66000, 66000, 66000, 0, 0, 3, 300))],
     bounds="all pairs of statuses with 0..2 entries per log (symbolic contents); all sequences of 3 operations after each constructor, merged-in "
            "statuses with 0..1 entry per log; statuses of 300 and 66000 entries, the outer ones symbolic",
     bounds_thorough="pairs with 0..3 entries per log; sequences of 4 operations",
     outside="other lengths of logs and sequences")

prop("C24", "reserved bytes",
     quick=[J("h_c24", k, covers=["accepted"] if k == 0 else ["accepted", "refused"]) for k in range(9)] +
           [J("h_c24_from", k) for k in range(9)],
     thorough=[J("h_c24", k, covers=["accepted"] if k == 0 else ["accepted", "refused"]) for k in range(9)] +
              [J("h_c24_from", k) for k in range(9)],
     bounds="reserved fields of 0, 1, 3, 4, 8, 16, 32, 64 bytes with values 0, 0xFF, 0x5A, 1, 0x80; any byte string of the field length plus one byte, and "
            "every truncation",
     outside="other lengths and values (const generics, instantiated per use)")

prop("C25", "subtree depth tracking",
     quick=[J("h_c25", 3, 0, 0, covers=["end", "surfaced", "zero"], cost=5), J("h_c25", 4, 0, 0, covers=["end", "surfaced", "zero"], cost=9),
            J("h_c25", 3, 1, 0, covers=["end", "surfaced", "zero"], cost=5)] +
           [J("h_c25", 2, k % 2, k, covers=["end", "zero"]) for k in range(1, 8)],
     thorough=[J("h_c25", n, t, 0, covers=["end", "surfaced", "zero"], cost=n) for n in (4, 5, 6) for t in (0, 1)] + [J("h_c25", 3, t, k, covers=["end", "zero"]) for k in range(1, 8) for t in (0, 1)],
     bounds="first node of any depth 1..31 and every sequence of up to 4 further nodes of any depth 0..31 which continue a cross-section; any 2 nodes after 7 cross-sections of 13..300 nodes (combs, equal nodes, mixed)",
     bounds_thorough="up to 6 further nodes; any 3 nodes after the long ones",
     outside="longer cross-sections; depth types other than u5 and u8")


# ---- multi-message commitments -------------------------------------------------------------------------
# arguments of tree harnesses: depth, how the tree comes about (0/1 committed, ids ordered along/against the
# slots; 2/3 the same but deserialized with a cofactor), cofactor, part of the occupancies (parts << 8 | part)
def parts(h, d, mode, cof, n, *more, covers=("end",), cost=3, **kw):
    return [J(h, d, mode, cof, (n << 8 | i) if n > 1 else 0, *more, covers=covers if n == 1 else (), cost=cost, **kw) for i in range(n)]


def trees(h, small, covers=("end",), more=(), cost=3):
    """Trees of a list of (depth, mode, cofactor, parts)."""
    r = []
    for d, m, c, n in small:
        r += parts(h, d, m, c, n, *more, covers=covers if d >= 2 or h in ("h_c01",) else (), cost=cost * (4 if d > 2 else 1))
    return r


D2 = [(0, 0, 0, 1), (1, 0, 0, 1), (1, 1, 0, 1), (2, 0, 0, 1), (2, 1, 0, 1)]
D2C = [(1, 2, 1, 1), (2, 2, 1, 1), (2, 3, 1, 1), (2, 2, 2, 1), (2, 2, 3, 1), (2, 2, 500, 1)]
TREE_OUT1 = "trees deeper than that (proofs of every depth up to 31 are covered by C03, C04, C09 and C16); protocol ids whose first byte is not the ordering byte used"
TREE_OUT = "more messages in trees deeper than 10; protocol ids whose first byte is not the ordering byte used"

# few messages at given slots of wide trees
WIDE = [(5, 0, 0, k) for k in range(8)] + [(5, 2, 3, k) for k in range(8)] + [(6, 0, 0, 4), (6, 2, 20, 4), (7, 2, 1, 6), (8, 0, 0, 3), (8, 2, 200, 5), (9, 0, 0, 1), (9, 0, 0, 4),
        (9, 2, 500, 2), (9, 2, 65535, 0), (10, 2, 1, 4)]
WIDE2 = WIDE + [(d, 2, c, 4) for d in range(5, 12) for c in (2, 5, 7, 16, 31, 100, 499)] + [(11, 0, 0, 4), (12, 0, 0, 6), (13, 0, 0, 4)]
WFEW = [(4, 2, 1, 6), (5, 0, 0, 3), (5, 0, 0, 6), (5, 0, 0, 5), (5, 2, 3, 2), (6, 2, 20, 3), (9, 0, 0, 2)]
WFEW2 = [(d, m, c, k) for d in (4, 5) for m, c in ((0, 0), (2, 1), (2, 6)) for k in range(7)] + [(8, 2, 3, 3), (9, 0, 0, 4), (9, 2, 500, 2), (10, 2, 1, 5)]


def wide(h, some, covers=("end",)):
    return [J(h, *x, covers=covers, cost=1 + (2 ** x[0] >> 5) + (3 if h in ("h_wide_merge", "h_wide_path") else 0)) for x in some]


# many messages: every third slot, all, 40 of each 64
FULL = [(6, 0, 0, 8), (5, 0, 0, 9), (4, 0, 0, 9)]
BIGT = [(9, 0, 0, 8), (9, 0, 0, 10)]


# sets of ids which need a cofactor
COF = [J("h_c05_cofactor", *x, covers=["built", "end"], cost=4) for x in ((2, 2, 1, 2, 0), (3, 2, 1, 2, 0), (2, 2, 1, 1, 0), (2, 3, 1, 3, 0))]
COF2 = COF + [J("h_c05_cofactor", *x, covers=["built", "end"], cost=30) for x in ((3, 3, 1, 3, 0), (4, 3, 1, 3, 0), (2, 4, 1, 4, 0))]
prop("C01", "every message opens",
     quick=trees("h_c01", D2 + D2C[:5] + [(3, 0, 0, 8)], covers=["opened", "end"]) + COF + [J("h_c01_commit", 2, 4, 1, 31, cost=5), J("h_c01_commit", 3, 3, 0, 0, cost=5)] + wide("h_wide_open", WIDE + BIGT, covers=("opened", "end")) + wide("h_wide_proofs", WIDE + FULL),
     thorough=trees("h_c01", D2 + D2C + [(3, 0, 0, 8), (3, 1, 0, 8), (3, 2, 1, 8), (3, 3, 3, 8), (3, 2, 5, 4)], covers=["opened", "end"]) + COF2 +
              [J("h_c01_commit", *x, cost=9) for x in ((2, 4, 1, 31), (3, 4, 0, 31), (3, 4, 2, 16), (3, 4, 0, 0), (2, 8, 1, 0))] +
              wide("h_wide_open", WIDE2 + BIGT, covers=("opened", "end")) + wide("h_wide_proofs", WIDE2 + FULL),
     bounds="every occupancy of trees of depth 0..3 built by committing (ids ordered along and against slots up to depth 2) and of depth 1..2 with "
            "cofactors 1..3; ids (but one byte), messages and entropy symbolic; every set of 2..3 ids (any but two bytes) for which committing takes cofactor 1 at "
            "depth 2..3; 2 ids with any of 4 bits in the first and last byte, 3 ids of 3 bits; trees of depth 5..10 with 1..4 messages at first, middle and last slots, cofactors 0, 1, 3, 20, 200, 500, 65535; 171 and 320 messages in trees of depth 9",
     bounds_thorough="every occupancy of trees of depth 0..3, both id orders, cofactors 0..3, 5, 500; such trees to depth 13, cofactors 2..499",
     outside=TREE_OUT1)

prop("C02", "binding",
     quick=[J("h_c02", a, b, covers=["both", "refused"] if a or b else ["both"], cost=2 + a * b) for a in range(3) for b in range(a, 3)] +
           [J("h_c02_tree", 1, 0, 0, 0, covers=["accepted", "refused"]), J("h_c02_tree", 2, 0, 0, 0, covers=["accepted", "refused"], cost=9),
            J("h_c02_tree", 2, 2, 1, 0, covers=["accepted", "refused"], cost=9)],
     thorough=[J("h_c02", a, b, covers=[], cost=2 + a * b) for a in range(5) for b in range(a, 5) if a + b < 7] +
              [J("h_c02_tree", d, m, c, 0, covers=["accepted", "refused"], cost=9) for d, m, c in ((1, 0, 0), (2, 0, 0), (2, 1, 0), (2, 2, 1), (2, 3, 2))] +
              parts("h_c02_tree", 3, 0, 0, 8, cost=12),
     bounds="any two proofs with paths of 0..2 hashes, any position, every effective cofactor, any ids and messages; any proof with a path of 0..3 hashes "
            "against every tree of depth 1..2",
     bounds_thorough="paths of 0..4 hashes (up to 6 in sum); trees of depth 1..3",
     outside="longer paths")

prop("C03", "slots",
     quick=[J("h_c03", d, covers=["accepted"] + (["refused"]), cost=2 + d) for d in range(4)] +
           [J("h_c03_deep", d, c, covers=["accepted", "refused"], cost=3) for d, c in ((4, 0), (7, 3), (10, 3), (16, 0), (16, 1), (31, 0))] +
           [J("h_c03_same", 0, cost=2)],
     thorough=[J("h_c03", d, covers=["accepted", "refused"], cost=2 + d) for d in range(5)] +
              [J("h_c03_deep", d, c, covers=["accepted", "refused"], cost=3) for d in range(4, 32) for c in (0, 1, 3)] +
              [J("h_c03_deep", d, 500, covers=["accepted", "refused"], cost=9, opts=dict(timeout_ms=300000)) for d in (9, 12, 20, 31)] +
              [J("h_c03_same", 0, cost=2)],
     bounds="any proof with a path of 0..3 hashes, every effective cofactor, any id; paths of 4, 7, 10, 16, 31 hashes with 6 positions on the accepting and any "
            "on the refusing side; slots of trees and blocks of every depth 0..31 with cofactors 0, 1, 3, 500, 65535 (all effective ones to depth 3)",
     bounds_thorough="paths of 0..4 hashes with any position; every depth 4..31 with cofactors 0, 1, 3 and some with 500",
     outside="cofactors of deep trees other than those listed")

prop("C04", "standard value",
     quick=[J("h_c04_proof", d, k, c, 0, cost=1) for d, k, c in
            [(d, d % 7, 0) for d in range(32)] + [(31, k, 0) for k in range(7)] + [(3, k, c) for k in (0, 4) for c in (1, 3)] + [(3, 2, 1), (20, 0, 500), (20, 2, 1)]] +
           trees("h_c04", D2 + D2C[:4]) + [J("h_c04_shape", d, cost=2) for d in range(3)] + wide("h_wide_root", WIDE + BIGT) + wide("h_wide_block", WIDE + BIGT),
     thorough=[J("h_c04_proof", d, k, c, 0, cost=1) for d in range(32) for k in range(7) for c in (0,)] +
              [J("h_c04_proof", d, k, c, 0, cost=1) for d in range(4, 32) for k in (0, 2) for c in (1, 3)] +
              trees("h_c04", D2 + D2C + [(3, 0, 0, 16)]) + [J("h_c04_shape", d, cost=2 + d) for d in range(4)] +
              wide("h_wide_root", WIDE2 + BIGT) + wide("h_wide_block", WIDE2 + BIGT),
     bounds="opened proofs of every depth 0..31 (several positions; ids, messages, paths symbolic); every occupancy and every subset kept of trees of depth 0..2, "
            "cofactors 0..2; every shape of a decoded block of depth 0..2 with any content; trees of depth 5..10 with 1..4 messages at first, middle and last slots, cofactors 0, 1, 3, 20, 200, 500, 65535; 171 and 320 messages in trees of depth 9",
     bounds_thorough="proofs of every depth at 7 position patterns, cofactors 0, 1, 3; trees of depth 0..3; block shapes of depth 0..3; such trees to depth 13, cofactors 2..499",
     outside="larger trees")

MANY = [J("h_c05_many", *x, cost=4) for x in ((60, 1, 0, 3, 59), (60, 2, 0, 3, 59), (200, 3, 0, 2, 199), (15, 5, 0, 4, 14), (8, 6, 2, 8, 7))] + \
       [J("h_c05_many", 0, 0, *x, covers=["target", "end"], cost=3) for x in ((9, 2, 0, 10, 500), (9, 2, 0, 11, 0), (7, 3, 0, 9, 0), (9, 1, 0, 11, 500),
                                                                            (9, 2, 0, 10, 257), (8, 4, 0, 10, 256), (9, 3, 0, 10, 300))]
MANY2 = [J("h_c05_many", *x, cost=9) for x in [(20, 1, 0, 3, 7), (8, 6, 2, 12, 7), (250, 9, 0, 4, 249)] + [(40 + 4 * k, 20 + k, k % 5, 4, 39 + 4 * k) for k in range(12)]] + \
        [J("h_c05_many", 0, 0, *x, covers=["target", "end"], cost=5) for x in ((9, 5, 0, 10, 500), (9, 5, 0, 11, 0), (7, 5, 0, 9, 0), (9, 5, 0, 10, 256), (9, 5, 0, 10, 400))]

LIMIT = [J("h_c05_limit", k, covers=[c, "end"]) for k, c in ((0, "refused"), (1, "built"), (2, "refused"), (3, "built"), (4, "built"), (5, "refused"), (6, "built"))]
prop("C05", "tree construction",
     quick=[J("h_c05", n, b, m, 0, covers=c, cost=1 + n * n) for n, b, m, c in
            [(0, 4, 0, ["empty"]), (0, 4, 2, ["end"]), (1, 4, 0, ["first", "end"]), (1, 4, 3, ["end"]), (2, 4, 0, ["deeper", "end"]), (2, 4, 1, ["end"]),
             (2, 3, 3, ["first", "end"]), (2, 4, 3, ["end"]), (3, 3, 0, ["end"]), (3, 4, 0, ["end"]), (3, 4, 2, ["first", "end"])]] +
           [J("h_c05", n, b, m, 0, covers=["first", "end"]) for n, b, m in ((2, 4, 9), (2, 4, 17), (3, 3, 24), (2, 4, 30), (2, 4, 31))] +
           [J("h_c05_entropy", 3, covers=["drawn", "end"]), J("h_c05", 2, 4, 1, 31, covers=["first", "deeper", "end"], cost=4)] + COF + MANY + LIMIT,
     thorough=[J("h_c05", n, b, m, 0, covers=["end"], cost=1 + n * n) for n, b, m in
               [(0, 4, 2), (1, 4, 0), (2, 6, 0), (2, 5, 2), (3, 5, 0), (3, 5, 2), (3, 4, 3), (4, 4, 0), (4, 3, 2), (4, 3, 3)]] + [J("h_c05_entropy", 3, covers=["drawn", "end"])] + COF2 + MANY + MANY2 + LIMIT +
              [J("h_c05", *x, covers=["end"], cost=9) for x in ((2, 6, 0, 31), (3, 4, 0, 31), (3, 4, 2, 16), (3, 5, 1, 31))],
     bounds="0..3 messages with any distinct ids of 4 bits, minimal depth 0..3, 9, 17, 24, 30 and 31, messages and entropy symbolic, fixed or random entropy; every set of 2..3 ids "
            "(any but two bytes) for which committing takes cofactor 1 at depth 2..3; 2 ids with any of 4 bits in the first and last byte; 8, 15, 60 "
            "and 200 messages, one of whose ids has 2..8 free bits; sets of messages made for which committing takes depth 9..11 and cofactors 0, 256, 257, 300, 500; 3..131 messages with minimal "
            "depth 30..31 made to take every kind of size there or to fit none",
     bounds_thorough="0..4 messages with ids of up to 6 bits; 20..250 messages, one of whose ids has 3..12 free bits",
     outside="more messages; longer ids (the slot of an id of any length is decided by C03); the TooManyMessages error, which needs more "
             "than 2^24 messages")

prop("C06", "concealing keeps the commitment",
     quick=trees("h_c06", [(0, 0, 0, 1), (1, 0, 0, 1), (1, 1, 0, 1)], covers=["concealed", "refused"]) + parts("h_c06", 2, 0, 0, 16, cost=6) +
           parts("h_c06", 2, 2, 1, 4, cost=4) + [J("h_c06_shape", 0, 0), J("h_c06_shape", 1, 0), J("h_c06_shape", 2, 0, cost=20)] + wide("h_wide_conceal", WFEW + FULL),
     thorough=parts("h_c06", 2, 0, 0, 16, cost=6) + parts("h_c06", 2, 1, 0, 16, cost=6) + parts("h_c06", 2, 2, 1, 8, cost=6) + parts("h_c06", 2, 3, 1, 8, cost=6) +
              [J("h_c06_shape", d, 0, cost=20) for d in range(3)] +
              wide("h_wide_conceal", WFEW2 + FULL + BIGT),
     bounds="trees of depth 0..2 (every occupancy), any subset of protocols kept with or without an unknown one at any place, then any subset again; blocks of any "
            "shape of depth 0..2; trees of depth 4..6 and 9 with 2..3 messages at first, middle and last slots, cofactors 0, 1, 3, 20; trees of depth 4..6 with all slots or every third one taken",
     bounds_thorough="as quick; such trees of depth 4..10, 171 and 320 messages in trees of depth 9",
     outside=TREE_OUT)

prop("C07", "concealing hides",
     quick=trees("h_c07", [(0, 0, 0, 1), (1, 0, 0, 1), (1, 1, 0, 1)], covers=["kept", "refused"]) + parts("h_c07", 2, 0, 0, 8, cost=6) + parts("h_c07", 2, 1, 0, 8, cost=6) +
           parts("h_c07", 2, 2, 1, 4, cost=4) + [J("h_c07_one", 2, m, c, 0) for m, c in ((0, 0), (1, 0), (2, 1), (3, 1), (2, 3))] + parts("h_c07_one", 3, 0, 0, 8, cost=4) +
           [J("h_c06_shape", d, 1, cost=1 + 5 * d) for d in range(3)] + wide("h_wide_conceal", WFEW + FULL),
     thorough=parts("h_c07", 2, 0, 0, 8, cost=6) + parts("h_c07", 2, 1, 0, 8, cost=6) + parts("h_c07", 2, 2, 1, 4, cost=4) + parts("h_c07", 2, 3, 2, 4, cost=4) +
              parts("h_c07_one", 3, 0, 0, 16, cost=6) + parts("h_c07_one", 3, 3, 1, 16, cost=6) +
              [J("h_c06_shape", d, 1, cost=1 + 5 * d) for d in range(3)] +
              wide("h_wide_conceal", WFEW2 + FULL + BIGT),
     bounds="trees of depth 0..2 (every occupancy), every subset kept - ids in order, reversed, repeated -, then every subset again; unknown ids first and last; one "
            "protocol kept out of every tree of depth 3; trees of depth 4..6 and 9 with 2..3 messages at first, middle and last slots, cofactors 0, 1, 3, 20; trees of depth 4..6 with all slots or every third one taken",
     bounds_thorough="as quick; such trees of depth 4..10, 171 and 320 messages in trees of depth 9",
     outside=TREE_OUT)

# some of the occupancies of a tree of depth 3, all else as ever
def sample(h, d, mode, cof, of=(0x55, 0x0F, 0x01, 0x68), cost=4):
    return [J(h, d, mode, cof, 128 << 8 | i, covers=(), cost=cost) for i in of]


P4Q = [(d, d % 7, 0) for d in range(32)] + [(31, k, 0) for k in range(7)] + [(3, k, c) for k in (0, 4) for c in (1, 3)] + [(3, 2, 1), (20, 0, 500), (20, 2, 1)]
P9Q = [J("h_c04_proof", *x, 1) for x in P4Q]
P9 = [J("h_c04_proof", d, k, 0, 1) for d in range(32) for k in range(7)] + [J("h_c04_proof", d, k, c, 1) for d in range(4, 32) for k in (0, 2) for c in (1, 3)]
C8 = ["end"]
def shapes(some):
    return [J("h_c08_shapes", d, m, c, n << 8 | i, covers=["block", "path", "end"], cost=5) for d, m, c, n in some for i in range(n)]
prop("C08", "merging",
     quick=trees("h_c08", [(1, 0, 0, 1), (1, 2, 1, 1)], covers=C8, more=(9,)) + parts("h_c08", 2, 0, 0, 8, 9, cost=6) + parts("h_c08", 2, 2, 1, 4, 9, cost=4) +
           parts("h_c08_rev", 2, 0, 0, 8, 9, cost=6) + parts("h_c08_path", 2, 0, 0, 16, cost=6) + shapes([(1, 0, 0, 1), (1, 2, 1, 1), (2, 0, 0, 13)]) + parts("h_c08_unrelated", 2, 0, 0, 16, cost=5) +
           [J("h_c08_params", 1, 0, 0, covers=["cofactor", "position"]), J("h_c08_params", 2, 0, 0, covers=["cofactor", "position"], cost=9)] + wide("h_wide_merge", WFEW + FULL[1:]) + wide("h_wide_path", WFEW + FULL),
     thorough=trees("h_c08", [(1, 0, 0, 1), (1, 2, 1, 1)], covers=C8, more=(9,)) + parts("h_c08", 2, 0, 0, 8, 9, cost=6) + parts("h_c08", 2, 2, 1, 4, 9, cost=4) +
           parts("h_c08_rev", 2, 0, 0, 8, 9, cost=6) + parts("h_c08_path", 2, 0, 0, 16, cost=6) + shapes([(1, 0, 0, 1), (1, 2, 1, 1), (2, 0, 0, 13), (2, 2, 1, 4), (2, 2, 2, 2)]) + parts("h_c08_unrelated", 2, 0, 0, 16, cost=5) +
           [J("h_c08_params", 1, 0, 0, covers=["cofactor", "position"]), J("h_c08_params", 2, 0, 0, covers=["cofactor", "position"], cost=9)] + wide("h_wide_merge", WFEW2 + FULL + BIGT) + wide("h_wide_path", WFEW2 + FULL + BIGT),
     bounds="trees of depth 1..2 (every occupancy), every pair of subsets revealed, in both orders; proofs merged one after another; every pair of revealed subsets of "
            "unrelated blocks with the same protocols; blocks of every shape of one tree of depth 1..2, with or without its entropy, and proofs; other cofactors and positions; trees of depth 4..6 and 9 with 2..3 messages at first, middle and last slots, cofactors 0, 1, 3, 20; trees of depth 4..6 with all slots or every third one taken",
     bounds_thorough="as quick; such trees of depth 4..10, 171 and 320 messages in trees of depth 9",
     outside=TREE_OUT)

prop("C09", "proofs and single-leaf blocks",
     quick=trees("h_c09", D2 + D2C[:4], covers=["proof", "end"]) + sample("h_c09", 3, 0, 0) + parts("h_c09_full", 2, 0, 0, 8, cost=3) + parts("h_c09_full", 2, 2, 1, 2, cost=3) +
           P9Q + wide("h_wide_open", WIDE + BIGT, covers=("opened", "end")) + wide("h_wide_path", WFEW + FULL),
     thorough=P9 + trees("h_c09", D2 + D2C + [(3, 0, 0, 16)], covers=["proof", "end"]) + parts("h_c09_full", 2, 0, 0, 8, cost=3) + parts("h_c09_full", 2, 1, 0, 8, cost=3) +
              parts("h_c09_full", 2, 2, 1, 2, cost=3) +
              wide("h_wide_open", WIDE2 + BIGT, covers=("opened", "end")) + wide("h_wide_path", WFEW2 + FULL + BIGT),
     bounds="trees of depth 0..2 (every occupancy), every subset revealed, merged blocks of every pair of disjoint subsets; proofs rebuilt into blocks and back to depth 31 (by C04); trees of depth 5..10 with 1..4 messages at first, middle and last slots, cofactors 0, 1, 3, 20, 200, 500, 65535; 171 and 320 messages in trees of depth 9",
     bounds_thorough="trees of depth 0..3; such trees to depth 13, cofactors 2..499",
     outside=TREE_OUT)

S16 = [J("h_c16_serde", n, f, covers=["decoded", "end"]) for n, f in ((0, 0), (1, 1), (3, 0), (8, 1), (16, 0), (31, 1), (31, 0))] + \
      [J("h_c16_serde", n, f, covers=["refused"]) for n, f in ((32, 0), (32, 1), (33, 0), (40, 1))]
S17 = [J("h_c17_serde", 0, 0, 0, 0, covers=["refused"]), J("h_c17_serde", 2, 0, 5, 1, covers=["made"], cost=3)] + \
      [J("h_c17_serde", d, c, n, f, covers=["decoded", "end", "refused"], cost=1 + n) for d, c, n, f in ((0, 0, 1, 0), (1, 0, 2, 1), (1, 65535, 2, 0), (2, 0, 3, 0), (2, 1, 3, 1), (30, 1, 2, 0))]
prop("C16", "untrusted proofs",
     quick=[J("h_c16", n, 0, 0, covers=["decoded", "end", "accepted"], cost=1 + n) for n in range(4)] +
           [J("h_c16", n, 1, 0, covers=["decoded", "end"], cost=1) for n in range(0, 32)] + [J("h_c16", 32, 0, 0, covers=[]), J("h_c16", 32, 1, 0, covers=[])] +
           [J("h_c16", n, 0, 1, covers=["decoded", "end", "accepted"], cost=9) for n in (4, 6, 8, 16)] + S16,
     thorough=[J("h_c16", n, 0, 0, covers=["decoded", "end", "accepted"], cost=1 + n) for n in range(5)] +
              [J("h_c16", n, 1, 0, covers=["decoded", "end"], cost=1) for n in range(0, 32)] + [J("h_c16", 32, 0, 0, covers=[]), J("h_c16", 32, 1, 0, covers=[])] +
              [J("h_c16", n, 0, 1, covers=["decoded", "end", "accepted"], cost=9) for n in range(4, 32)] + S16,
     bounds="paths of every length 0..32: parameters for any position and cofactor, opening, rebuilding and merging with any position and every effective cofactor for "
            "lengths 0..3, with 4 positions and 5 cofactors for lengths 4, 6, 8, 16; the same received through serde, "
            "lengths 0..33",
     bounds_thorough="opening, rebuilding and merging for every length",
     outside="positions and cofactors of long paths other than those listed")

D17 = [J("h_c17_deep", d, s & ((1 << d) - 1), c, k, leaf, covers=["decoded", "refused"]) for d, c in ((31, 0), (30, 1), (16, 3), (9, 20), (5, 0)) for s, k, leaf in
       ((0, 0, 0), (0, d, 0), (0x55555555, d // 2, 0), (0x7FFFFFF6, 1, 0), (0x2AAAAAA2, d - 1, 0), (0x0F0F0F0F, 99, 1), (0, 99, 1), (0x6FFFFFF0, 99, 1)) if not (d == 9 and leaf and s & 511 > 491)]
prop("C17", "untrusted blocks",
     quick=[J("h_c17", d, c, n, 0, covers=[]) for d, c, n in ((0, 0, 1), (1, 0, 1), (1, 0, 2), (1, 1, 2), (1, 65535, 2), (31, 0, 2), (30, 3, 2), (16, 0, 2))] +
           [J("h_c17", d, c, n, 1, covers=["decoded", "end"], cost=5) for d, c, n in ((2, 0, 3), (2, 1, 3), (2, 0, 4), (2, 3, 4), (3, 0, 4), (3, 1, 4))] +
           [J("h_c17", 1, 0, 3, 1, covers=["undecodable"])] +
           [J("h_c17_conceal", 1, 0, 2, 0), J("h_c17_conceal", 2, 0, 3, 1, cost=5), J("h_c17_conceal", 2, 1, 3, 1, cost=5)] +
           [J("h_c17_merge", 1, 0, a, b, covers=[], cost=3) for a in (1, 2) for b in (1, 2)] + [J("h_c17_merge", 2, 0, 2, 3, covers=[], cost=6)] +
           [J("h_c17_params", covers=["decoded", "end"], cost=3)] + S17 + D17,
     thorough=[J("h_c17", d, c, n, 0, covers=[]) for d in range(32) for c, n in ((0, 1), (0, 2), (1, 2), (65535, 2))] +
              [J("h_c17", d, c, n, 1, covers=["decoded", "end"], cost=9) for d, c, n in ((2, 0, 3), (2, 1, 3), (2, 0, 4), (2, 3, 4), (3, 0, 4), (3, 1, 4), (3, 0, 5), (3, 2, 5), (4, 0, 5), (5, 0, 6))] +
              [J("h_c17", 2, 0, 3, 0, covers=["decoded", "end"], cost=9)] +
              [J("h_c17_conceal", 1, 0, 2, 0), J("h_c17_conceal", 2, 0, 3, 1, cost=5), J("h_c17_conceal", 2, 1, 3, 1, cost=5), J("h_c17_conceal", 2, 0, 4, 1, cost=30),
               J("h_c17_conceal", 2, 1, 4, 1, cost=30), J("h_c17_conceal", 3, 0, 4, 1, cost=30)] +
              [J("h_c17_merge", 1, 0, a, b, covers=[], cost=3) for a in (1, 2) for b in (1, 2)] +
              [J("h_c17_merge", 2, c, a, b, covers=[], cost=6) for c in (0, 1) for a, b in ((1, 3), (2, 3), (3, 3), (3, 2))] +
              [J("h_c17_params", covers=["decoded", "end"], cost=3)] + S17 + D17,
     bounds="any serialized block of 1..2 nodes (any depth bytes and contents), of 3..4 nodes with depth bytes to one beyond that of the tree, tree depths 0..3, 16, 30, 31; "
            "any kept ids; pairs of blocks of up to 3 nodes; the same received through serde; "
            "paths to a slot in trees of depth 5, 9, 16, 30, 31 with any leaf or any depth of one of the nodes",
     bounds_thorough="up to 6 nodes, every tree depth with 1..2 nodes",
     outside="more nodes; cofactors other than those listed")

prop("C27", "matching",
     quick=trees("h_c27", [(0, 0, 0, 1), (1, 0, 0, 1), (1, 2, 1, 1)], covers=["same", "different"]) + parts("h_c27", 2, 0, 0, 16, cost=5) +
           [J("h_c27_params", d, covers=["same", "different"], cost=3) for d in range(3)] +
           [J("h_c27_proof", d, 0, 0, 0, covers=["end"], cost=2) for d in (1, 2, 3)] + [J("h_c27_proof2", d, covers=["end"], cost=2) for d in range(4)] +
           wide("h_wide_match", WFEW + FULL),
     bounds="trees of depth 0..2 with the same protocols and same or any messages or entropy, any two revealed subsets; blocks of any shape differing in the cofactor; "
            "all pairs of proofs of a tree of depth 1..3; any two proofs with paths of 0..3 hashes; trees of depth 4..6 and 9 with few and many messages, one of which differs",
     outside=TREE_OUT)

prop("C28", "listings",
     quick=trees("h_c28", D2 + D2C[:4], covers=["proof", "end"]) + sample("h_c28", 3, 0, 0) + wide("h_wide_lists", WFEW + FULL),
     thorough=trees("h_c28", D2 + D2C + [(3, 0, 0, 16), (3, 3, 1, 16)], covers=["proof", "end"]) + wide("h_wide_lists", WFEW2 + FULL + [(7, 0, 0, 8)]),
     bounds="trees of depth 0..2 (every occupancy, both id orders, cofactors 0..2), full and with every subset revealed; trees of depth 4..6 and 9 with few and many messages",
     bounds_thorough="trees of depth 0..3; larger ones of depth 4..10",
     outside=TREE_OUT)


# ---- merklization, identifiers, derived encodings -----------------------------------------------------
NP = 20  # kinds of committed parts in ids.rs
prop("C10", "merklization",
     quick=[J("h_c10", n, k) for n in range(18) for k in range(6)] + [J("h_c10", n, k, cost=2) for n in (31, 32, 33, 63, 65, 100, 127, 128, 129, 255) for k in (0, 3)] +
           [J("h_c10", n, k, cost=3) for n in (256, 257, 511, 513, 1000) for k in (1, 5)] + [J("h_c10_more", n) for n in range(1, 9)] + [J("h_c10_long", 65537, cost=99)],
     thorough=[J("h_c10", n, k, cost=1 + n // 99) for n in range(256) for k in (0, 1, 3, 5)] + [J("h_c10", n, k, cost=9) for n in (256, 257, 511, 512, 513, 1000, 1023, 1025, 2048, 4097) for k in (1, 2, 4, 5)] +
              [J("h_c10_more", n, cost=n) for n in range(1, 13)] + [J("h_c10_long", n, cost=99) for n in (65535, 65536, 65537, 131073)],
     bounds="0..17 leaves in lists and sets limited to 8, 16 and 32 bits, and 31..1000 leaves (15 counts around powers of two) in lists and sets; 1..8 multi-message "
            "leaves of both kinds, in two list types; all contents symbolic; 65537 leaves, 7 of which have symbolic content",
     bounds_thorough="every number of leaves to 255 and up to 4097 at edges; 12 multi-message leaves; 65535..131073 leaves, 7 with content",
     outside="other numbers of leaves above 255; leaf types other than those used (generic)")

prop("C11", "merkle root binds leaves",
     quick=[J("h_c11", a, b, (a + b) % 3) for a in range(10) for b in range(a, 10)] + [J("h_c11", a, b, 0, cost=2) for a, b in ((16, 16), (31, 32), (32, 33), (40, 40), (64, 65))] +
           [J("h_c11_leaf", a, b, cost=1 + 2 ** (a + b) // 64) for a in range(4) for b in range(a, 4)] + [J("h_c11_node"), J("h_c11_make")],
     thorough=[J("h_c11", a, b, (a + b) % 3) for a in range(24) for b in range(a, 24)] + [J("h_c11", a, b, 0, cost=2) for a, b in ((31, 32), (32, 33), (40, 40), (64, 65), (128, 128), (127, 128))] +
              [J("h_c11_leaf", a, b, cost=1 + 2 ** (a + b) // 64) for a in range(5) for b in range(a, 5)] + [J("h_c11_node"), J("h_c11_make")],
     bounds="all pairs of lists of 0..9 leaves and some to 65; all pairs of lists of 0..3 multi-message leaves of both kinds; all pairs of nodes; all contents symbolic",
     bounds_thorough="all pairs of lists of 0..23 leaves, 0..4 multi-message leaves, some to 128",
     outside="longer lists; leaf types whose committed form can be that of a node")

BIG = [J("h_c12_big", k, 16400, cost=5) for k in range(8)]
LONG12 = [J("h_c12_long", *x) for x in ((40, 0, 2), (255, 0, 2), (255, 1000, 9))]
BIG2 = BIG + [J("h_c12_big", k, 70000, cost=9) for k in range(8)]

prop("C12", "commitment ids",
     quick=[J("h_c12", n, k, 2, 0, cost=n) for n in (1, 2) for k in range(NP)] + [J("h_c12", 3, k, 1, 0, cost=4) for k in (0, 3, 4, 5, 7, 9, 12, 15)] +
           [J("h_c12_pairs", k, 1, covers=["same", "different"], cost=2) for k in range(NP)] + [J("h_c12_tags"), J("h_c12_type", 0)] + BIG + LONG12,
     thorough=[J("h_c12", n, k, 2, 0, cost=n * n) for n in (1, 2, 3) for k in range(NP)] +
              [J("h_c12_pairs", k, 3, covers=["same", "different"], cost=2) for k in range(NP)] + [J("h_c12_tags"), J("h_c12_type", 0)] + BIG2 + LONG12,
     bounds="every sequence of 1..2 parts of 20 kinds (and of 3 beginning with 8 of them) with collections of 0..2 elements under three tags; all pairs of values of "
            "every sequence of 2 kinds; a type with four parts; all contents symbolic; one collection part of 8 kinds with 16400 elements (the first and last symbolic); 40 and 255 parts of all kinds in two orders",
     bounds_thorough="every sequence of 1..3 parts; collection parts of 70000 elements",
     outside="parts of more than 2^24 bytes; other element types (generic)")

prop("C13", "commitment layout",
     quick=[J("h_c12", n, k, 1, 1, cost=n) for n in (1, 2) for k in range(NP)] + [J("h_c12", 3, k, 0, 1, cost=4) for k in (0, 3, 4, 5, 7, 9, 12, 15)] +
           [J("h_c12_type", 1), J("h_c13_types", covers=["layout", "end"])] + [J("h_c26", k, 1) for k in range(10)] + LONG12,
     thorough=[J("h_c12", n, k, 1, 1, cost=n * n) for n in (1, 2, 3) for k in range(NP)] +
              [J("h_c12_type", 1), J("h_c13_types", covers=["layout", "end"])] + [J("h_c26", k, 1) for k in range(10)] + LONG12,
     bounds="every sequence of 1..2 parts of 20 kinds (and of 3 beginning with 8 of them), collections of 0..1 elements; a type with four parts; the layouts of the "
            "library's own committed types and of derived types; 40 and 255 parts of all kinds in two orders",
     bounds_thorough="every sequence of 1..3 parts",
     outside="longer sequences; collection types and limits other than those used")

prop("C26", "derived encodings",
     quick=[J("h_c26", k, 0) for k in range(11)] + [J("h_c26_pairs")],
     bounds="structs, tuples, enums of constants and with data, wrappers, generic types with every strategy; all field values symbolic, 0..4 leaves",
     outside="other type definitions (the derived code delegates to the generic strategies)")

# ---- serialization ---------------------------------------------------------------------------------
A, R, AR = ["accepted"], ["refused"], ["accepted", "refused"]
C15 = [J("h_c15_ids")] + [J("h_c15_values", k) for k in range(3)] + \
      [J("h_c15_bytes", 0, 70, 1, covers=AR), J("h_c15_bytes", 1, 101, 1, covers=AR), J("h_c15_bytes", 2, 37, 1, covers=AR), J("h_c15_bytes", 3, 3, 1, covers=AR),
       J("h_c15_bytes", 4, 3, 1, covers=AR), J("h_c15_bytes", 5, 8, 1, covers=R), J("h_c15_bytes", 5, 8, 0, covers=AR), J("h_c15_bytes", 5, 40, 0, covers=AR), J("h_c15_bytes", 5, 80, 0, covers=AR)] + \
      [J("h_c15_proof", *x, covers=AR) for x in ((31, 31, 1, 0), (31, 31, 0, 0), (2, 2, 1, 1))] + \
      [J("h_c15_proof", *x, covers=R) for x in ((32, 32, 0, 0), (33, 33, 0, 0), (255, 4, 0, 0), (3, 2, 31, 0), (3, 3, 0, 1), (31, 30, 31, 0))] + \
      [J("h_c15_block", *x, covers=AR, cost=2) for x in ((0, 1, 80), (1, 1, 80))] + [J("h_c15_block", *x, covers=R, cost=2) for x in ((0, 0, 20), (1, 2, 60), (2, 2, 20), (0, 2, 120))] + \
      [J("h_c15_nodes", 1, 2, 1, c, 0, covers=AR, cost=5) for c in (0, 1)] + [J("h_c15_nodes", 2, 3, 0, c, 0, covers=AR, cost=6) for c in (0, 1, 3)] + \
      [J("h_c15_nodes", d, n, 0, c, 1, covers=R, cost=5) for d, n, c in ((1, 2, 1), (2, 2, 0), (0, 1, 0), (0, 2, 3))] + [J("h_c15_nodes", d, 1, 0, 0, 1, covers=R) for d in (31, 32, 40, 128, 255)] + \
      [J("h_c15_entries", *x, covers=AR, cost=2) for x in ((0, 0, 1), (1, 1, 1), (2, 2, 0), (3, 3, 0), (4, 1, 0), (0, 4, 0))] + \
      [J("h_c15_entries", *x, covers=R, cost=2) for x in ((0, 1, 2), (1, 0, 2), (2, 1, 2), (0, 2, 2))]
prop("C15", "strict serialization",
     quick=C15 + [J("h_c15_values", 3, n) for n in (0, 1, 2, 3, 7, 16, 31)] + trees("h_c15_tree", D2 + D2C[:4]) + wide("h_wide_codec", WFEW + FULL + [(7, 0, 0, 8), (9, 0, 0, 10)]),
     thorough=C15 + [J("h_c15_values", 3, n) for n in range(32)] + trees("h_c15_tree", D2 + D2C + [(3, 0, 0, 16)]) + wide("h_wide_codec", WFEW2 + FULL + BIGT) +
              [J("h_c15_block", 1, 2, 140, covers=AR, cost=9), J("h_c15_block", 0, 1, 160, covers=AR, cost=9), J("h_c15_nodes", 2, 3, 1, 0, 0, covers=AR, cost=9),
               J("h_c15_nodes", 2, 4, 0, 0, 0, covers=AR, cost=9), J("h_c15_nodes", 2, 4, 0, 1, 0, covers=AR, cost=9), J("h_c15_nodes", 3, 4, 0, 0, 0, covers=AR, cost=20),
               J("h_c15_nodes", 3, 5, 0, 0, 0, covers=AR, cost=60), J("h_c15_entries", 6, 6, 0, covers=AR, cost=9), J("h_c15_entries", 3, 3, 2, covers=R, cost=9)],
     bounds="any byte string to 101 bytes for ids, leaves, nodes, concealed blocks; proofs of any of 8, 40, 80 bytes and with paths of 31..33 hashes; blocks of 0..3 "
            "nodes of any kind, depth and content (cofactors 0, 1, 2, 65535) with any entropy field, cut anywhere; trees of 0..4 entries with any contents and order, "
            "cut anywhere; trees, full and concealed blocks and proofs of every tree of depth 0..2 and of trees of depth 4..9 with few and many (to 320) messages",
     bounds_thorough="proofs with paths of every length; blocks of up to 5 nodes; trees of up to 6 entries, of depth 3",
     outside="declared numbers of nodes and entries exceeding those listed (the decoder of the dependency reserves memory for them beforehand)")

C29 = [J("h_c29", k, f) for k in (0, 1, 2, 4, 5, 6, 7, 9) for f in range(3)] + [J("h_c29", 8, f, 2) for f in range(3)] + [J("h_c29", 3, 2, 2)]
prop("C29", "serde",
     quick=C29 + [J("h_c29", 3, f, n) for f in (0, 1) for n in (0, 1, 5, 31)] +
           [J("h_c29_block", d, m, c, 0, f, cost=2) for d, m, c in ((0, 0, 0), (1, 0, 0), (1, 2, 1), (2, 0, 0), (2, 2, 1), (2, 3, 3)) for f in (0, 1)] +
           [J("h_wide_serde", *x, f, cost=2) for x in WFEW + FULL for f in (0, 1)],
     thorough=C29 + [J("h_c29", 3, f, n) for f in (0, 1) for n in range(32)] +
              [J("h_c29_block", d, m, c, 0, f, cost=2) for d, m, c in ((0, 0, 0), (1, 0, 0), (1, 2, 1), (2, 0, 0), (2, 1, 0), (2, 2, 1), (2, 3, 3)) for f in (0, 1)] +
              [J("h_c29_block", 3, 0, 0, 16 << 8 | i, f, covers=(), cost=9) for i in range(16) for f in (0, 1)] +
              [J("h_wide_serde", *x, f, cost=2) for x in WFEW2 + FULL + BIGT for f in (0, 1)],
     bounds="all values of ids, hashes, errors, concealed blocks, reserved bytes, seal witnesses; statuses of 0..2 entries per log; proofs with paths to 31; full and "
            "concealed blocks of every tree of depth 0..2 and of trees of depth 4..6 and 9 with few and many messages; a compact and a self-describing format, and a human-readable one with one byte of each hash symbolic",
     bounds_thorough="proofs with every path length; blocks of trees of depth 3",
     outside="other formats; human-readable form of hashes differing in more than one byte (a digit is a path)")

prop("C30", "text and byte forms",
     quick=[J(h, t, covers=c, cost=w) for t in range(5) for h, c, w in (("h_c30_show", ["end"], 5), ("h_c30_parse", ["ok", "refused"], 3), ("h_c30_value", ["end"], 1))] +
           [J("h_c30_slice", 40, covers=["ok", "refused"])],
     thorough=[J(h, t, covers=c, cost=w) for t in range(5) for h, c, w in (("h_c30_show", ["end"], 5), ("h_c30_parse", ["ok", "refused"], 3), ("h_c30_value", ["end"], 1))] +
              [J("h_c30_slice", 300, covers=["ok", "refused"])],
     bounds="protocol ids, messages, commitments, merkle and strict hashes: any one byte shown and parsed at each of the 32 positions; texts of 64 digits with any "
            "character at each of the positions and of 0..70 digits with any character at the first, middle or last one; any pair of values for equality, order and "
            "byte forms; slices of 0..40 bytes",
     bounds_thorough="as quick with slices of 0..300 bytes",
     outside="texts with several non-digits (characters are read one by one); formatting width and precision options")

C31 = [J("h_c31", 0, 0)] + [J("h_c31", 1, k) for k in range(20)] + [J("h_c31_text", k) for k in range(20)] + [J("h_c31_long", 40, 0), J("h_c31_long", 255, 9)]
prop("C31", "layout rendering",
     quick=C31 + [J("h_c31", 2, k, cost=2) for k in range(20)],
     thorough=C31 + [J("h_c31", n, k, cost=n * n) for n in (2, 3) for k in range(20)],
     bounds="sequences of 0..2 committed parts out of 20 kinds (plain, optional, hashed, merklized, concealed values; lists, sets and maps with 11 size limits), with "
            "symbolic contents, under three tags; the text of each kind; 40 and 255 parts of all kinds",
     bounds_thorough="sequences of 0..3 parts",
     outside="names other than those of the sample types (they are passed on)")

prop("C32", "error reports",
     quick=[J("h_c32_seals", covers=["not included", "published", "client"]), J("h_c32_mpc", covers=["position", "unknown", "unrelated", "commit"], cost=3), J("h_c32_schemes")],
     bounds="every kind of error of seals, multi-message commitments and commitment schemes with symbolic causes; positions in a tree of depth 3, ids with any one byte, "
            "message counts 0, 1, 70000, 2^31",
     outside="the wording of the reports")

prop("C33", "seal witness serialization",
     quick=[J("h_c33_values"), J("h_c33_bytes", 30, covers=["accepted", "refused"])],
     thorough=[J("h_c33_values"), J("h_c33_bytes", 200, covers=["accepted", "refused"])],
     bounds="all values of a witness with fixed-size published and client-side parts; any byte string of 0..30 bytes; lists of 0..2 seals closed by it",
     bounds_thorough="any byte string of 0..200 bytes",
     outside="other seal types (their parts are serialized by themselves)")


# few messages in trees of any depth (depth, set of slots, cofactor)
def deep(h, some, covers=("end",), cost=3, parts=1):
    return [J(h, *x, (n << 8 | i) if n > 1 else 0, covers=covers if n == 1 else (), cost=cost) for x in some for n in [parts if x[1] >= 3 else 1] for i in range(n)]


GRID = [(d, k, c) for d, c in ((7, 0), (11, 1), (14, 0), (18, 3), (22, 0), (27, 500), (29, 0), (30, 20), (31, 0), (31, 1)) for k in (0, 1, 2, 3, 5, 6)]
GRID4 = GRID + [(d, 4, c) for d, c in ((10, 0), (17, 3), (24, 500), (31, 0))]
DEEP_BLOCK = [(31, 3, 0), (31, 2, 1), (24, 6, 500), (16, 4, 3), (12, 5, 0)]
DEEP_HIDE = [(31, 0, 1), (31, 3, 0), (20, 5, 2), (12, 6, 500), (16, 1, 0)]
DEEP_MERGE = [(31, 0, 0), (31, 1, 1), (24, 2, 20), (17, 0, 1), (12, 3, 0), (10, 6, 3), (18, 5, 0)]
DEEP_MATCH = [(31, 1, 3), (16, 0, 0), (10, 3, 2)]
for p, h, q, t, kw in (
    ("C04", "h_deep_block", DEEP_BLOCK, GRID4, {}),
    ("C15", "h_deep_block", DEEP_BLOCK, GRID4, {}),
    ("C06", "h_deep_conceal", DEEP_HIDE, GRID4, dict(covers=["kept", "refused"], cost=5)),
    ("C07", "h_deep_conceal", DEEP_HIDE, GRID4, dict(covers=["kept", "refused"], cost=5)),
    ("C08", "h_deep_merge", DEEP_MERGE, GRID, dict(covers=["path", "proof", "end"], cost=9, parts=4)),
    ("C09", "h_deep_merge", DEEP_MERGE, GRID, dict(covers=["path", "proof", "end"], cost=9, parts=4)),
    ("C08", "h_deep_match", DEEP_MATCH, GRID, dict(covers=["same", "unrelated"], cost=9)),
    ("C27", "h_deep_match", DEEP_MATCH, GRID, dict(covers=["same", "unrelated"], cost=9)),
    ("C28", "h_deep_lists", DEEP_BLOCK, GRID4, {}),
):
    d = PROPS[p]
    d["thorough"] = (d.get("thorough") or d["quick"]) + deep(h, t, **kw)
    d["quick"] = d["quick"] + deep(h, q, **kw)
for t in ("quick", "thorough"):
    PROPS["C28"][t] = PROPS["C28"][t] + [J("h_wide_count", 9, 0, 0, 11, cost=90)]
PROPS["C28"]["bounds"] += "; a block of 259 messages"
for k, c in ((3, 0), (6, 500)):
    for f in (0, 1):
        PROPS["C29"]["quick"] = PROPS["C29"]["quick"] + [J("h_deep_serde", 31, k, c, f)]
        PROPS["C29"]["thorough"] = PROPS["C29"]["thorough"] + [J("h_deep_serde", d, k, c, f) for d in (12, 24, 31)]
for p in ("C04", "C06", "C07", "C08", "C09", "C15", "C27", "C28", "C29"):
    PROPS[p]["bounds"] += "; 2..4 messages at near and far slots of trees of depth 10..31 with cofactors 0..500, any subsets revealed, everything else of the tree arbitrary"
    PROPS[p]["bounds_thorough"] = PROPS[p].get("bounds_thorough", "as quick") + "; such messages in trees of 10 depths from 7 to 31"
