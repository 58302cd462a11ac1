"""Which harnesses, with which bounds, decide which property."""

CHECKS = {
    9: "harness set-up",
    10: "keys strictly increasing in tree order", 11: "an item is in the tree twice", 12: "an item was corrupted",
    13: "an item that was not in the tree appeared", 14: "the stored new item is the given one", 15: "an item was lost",
    16: "the new item is stored exactly once", 17: "length", 18: "is_empty",
    20: "the tree is malformed", 21: "a node exceeds its capacity", 22: "a non-root node underflows", 23: "an internal root has no item / a leaf root is empty",
    24: "parent link", 25: "leaves at the same depth", 26: "child count", 27: "root present exactly when non-empty", 28: "a node is reachable twice",
    30: "an item was destroyed twice", 31: "an item was destroyed although it is still owned", 32: "a node was leaked", 33: "a freed node is reachable",
    34: "an item was not destroyed", 35: "something stays allocated",
    40: "lookup before the operation", 41: "insert's result", 42: "lookup after insert", 43: "remove's result", 44: "lookup after remove",
    50: "first item address, root", 51: "next item address", 52: "previous item address", 53: "previous front address", 54: "next back address",
    55: "normalize", 56: "leaf address", 57: "item read at an address", 58: "next item or back address", 59: "a read changed the tree",
    60: "first or last item", 61: "item written at an address", 62: "whether a lookup finds the key", 63: "the address a lookup returns", 64: "the item a lookup returns", 65: "item written by key",
    67: "an item off the key's path was compared", 68: "items of a node compared too often",
    70: "remaining length of an iterator", 71: "an exhausted iterator yields", 72: "item from the front", 73: "item from the back", 74: "what was written through the iterator",
    80: "a cleared or forgotten tree is empty", 81: "a cleared or forgotten tree works as new", 82: "shape of the clone", 83: "items of the clone", 84: "the clone shares a node", 85: "each item is cloned once",
    86: "order of the visit", 87: "node given to the visitor", 88: "the validator rejects a valid tree", 89: "the validator accepts an invalid tree",
    66: "the tree changed by a read", 69: "a node off the key's path was read",
    90: "a node is released that is not active in this storage", 91: "a node is read that is not active in this storage", 92: "a node is written that is not active in this storage",
    93: "a node is dropped that is not active", 94: "a node is dropped one by one by a storage that has no dropper", 95: "nodes are released one by one although the storage drops them itself",
    170: "two mutable references overlap",
    111: "result of the writer", 112: "writing went on after an error", 113: "edges of the graph", 114: "vertices of the graph", 115: "items in a label", 116: "parent in a label", 117: "node in a label", 118: "the graph's frame",
    150: "a node far from the path is accessed", 151: "a node is accessed too often for one operation", 152: "a node is accessed too often in a traversal",
    120: "equality of offsets", 121: "order of offsets", 122: "offsets against integers", 123: "value of an offset", 124: "the next offset", 125: "the previous offset", 126: "order of items", 127: "item against key", 128: "parts of an item",
    131: "comparisons go on without end", 132: "the tree changed although user code panicked", 133: "a panic of user code was swallowed or invented",
    140: "sequence of items after a node operation", 141: "item or offset a node operation returns", 142: "counts and balance of a node", 143: "search in a node", 144: "enumeration of a node", 145: "would-underflow", 146: "children of a node", 147: "parent of a node", 148: "a half of a split underflows",
    180: "the text", 181: "an error of the writer",
    160: "what an array holds, and its length", 161: "what an array operation returns", 162: "whether an array refuses", 163: "remaining length of an array iterator", 164: "an array holds something twice, out of order, or not its own", 165: "the clone of an array",
    45: "replace_at's result", 46: "remove_at's item", 47: "remove_at's next address", 48: "remove_at of no item", 49: "the returned address holds the item",
}
COVERS = {
    1: "key present", 2: "key absent", 3: "address in a leaf", 4: "address in an internal node",
    20: "address of an item", 21: "address of a gap", 22: "no answer", 23: "answer in another node", 24: "answer in the same node",
    10: "a node was split", 11: "a node was merged away", 12: "items moved between siblings", 13: "the tree grew a level", 14: "the tree lost a level",
    25: "a write failed", 26: "all was written", 27: "user code panicked", 28: "user code did not panic",
    30: "insert", 31: "remove", 32: "get", 33: "by address", 34: "ends and neighbours", 35: "clear", 36: "clone",
    15: "the tree became empty", 16: "several new nodes", 17: "several nodes freed",
}
ASSUMPTIONS = [
    "the LLVM IR that rustc emits (no optimisation passes) means what the source means, and rsym implements it (path models are replayed natively as a check)",
    "z3's verdicts (a sample is re-decided by cvc5 and a newer z3)",
    "the items reach the tree only through the caller's comparison, clone and drop, so one strictly increasing labelling stands for every item set of that shape",
    "heap allocation never fails",
]


def job(entry, what, bounds="", covers=(), **kw):
    par = {0: kw.pop("h", 0), 1: kw.pop("op", 0), 2: kw.pop("mask", 7), 3: kw.pop("share", 0), 4: kw.pop("rcap", 0), 5: kw.pop("icap", 0), 6: kw.pop("lcap", 0), 7: kw.pop("x", 0), 8: kw.pop("y", 0), 9: kw.pop("spine", 0)}
    j = {"entry": entry, "what": what, "bounds": bounds, "params": {k: v for k, v in par.items() if v}, "covers": list(covers)}
    j.update(kw)
    return j


OPS = {0: "insert by key", 1: "remove by key", 2: "insert_at", 3: "remove_at", 4: "insert_exactly_at", 5: "replace_at", 6: "remove_at of an address without item", 7: "remove_at, then insert_at at the returned address"}
FULL = "every fill of every node: root 1..7 items, other internal nodes 3..7, leaves 3..8 (root leaf 1..8)"


QUICK3 = ("h_step", "h_nav", "h_look", "h_arb", "h_cost")


def released(jobs, tier):
    """the same without debug assertions and overflow checks, for the smaller trees"""
    r = []
    for j in jobs:
        h, op, e = j["params"].get(0, 0), j["params"].get(1, 0), j["entry"]
        if e.startswith(("h_hist", "h_valid")) or (e.startswith(("h_arb", "h_fault_cmp")) and op == 5):
            continue  # (heights mean something else; the validator exists with debug assertions only)
        if h <= 2 or (h == 3 and e in QUICK3) or tier != "quick":
            r.append(dict(j, rel=True, what=j["what"] + " (release build)"))
    return r


def steps(ops, mask, hs, entry="h_step", **kw):
    r = []
    for h in hs:
        for op in ops:
            cov = []
            if op in (0, 1):
                cov = [2] if h == 0 else [1, 2]
            r.append(job(entry, "%s, height %d" % (OPS[op], h), FULL, h=h, op=op, mask=mask, covers=cov, **kw))
    return r


LOW = dict(rcap=1, icap=4, lcap=4)
def deep(tier, mask, ins=(), rem=(), spines=(3,)):
    """trees of height 4 and 5: all nodes with few items, or one path of nodes with any fill"""
    r = [job("h_step", "%s, height 4" % OPS[op], cap(**LOW), h=4, op=op, mask=mask, **LOW) for op in rem]
    T = tier != "quick"
    for sp in (1, 3, 4) if T else spines:
        for op in list(ins) + (list(rem) if T else []):
            r.append(job("h_step", "%s, height 4" % OPS[op], "nodes reached through children number %d: any fill; nodes beside them: least or one more; all others: least" % (sp - 1), h=4, op=op, mask=mask, spine=sp))
            if T:
                r.append(job("h_step", "%s, height 5" % OPS[op], "root with one item; nodes reached through children number %d: any fill; nodes beside them: least or one more; all others: least" % (min(sp, 2) - 1), h=5, op=op, mask=mask, spine=min(sp, 2), rcap=1))
    return r


TALL = ((4, dict(rcap=2, icap=3, lcap=4)), (5, dict(rcap=1, icap=3, lcap=3)))


def tall(entry, what, op, x=0, hs=(4, 5), covers=(), y=0):
    """trees of height 4 and 5 whose nodes all have few items"""
    return [job(entry, "%s, height %d" % (what, h), cap(**k) + SHARE2, h=h, op=op, x=x, y=y, share=2, covers=covers, **k) for h, k in TALL if h in hs]


def c01(tier):
    return steps([0, 1], 1, [3, 2, 1, 0]) + deep(tier, 1, [0], [1]) + hists("h_hist", tier, 3, 1, top=60, every=False) + hists("h_hist", tier, 3, 2, pats=(0, 2), top=8)


def c06(tier):
    return steps([2, 3, 4, 5, 6, 7], 1, [3, 2, 1, 0]) + deep(tier, 1, [2], [3, 7])


def c02(tier):
    return steps([0, 1, 2, 3], 2, [3, 2, 1, 0]) + steps([7], 2, [2, 1, 0] if tier == "quick" else [3, 2, 1, 0]) + deep(tier, 2, [0], [1, 3])


def c03(tier):
    r = steps([0, 1, 2, 3, 5], 4, [3, 2, 1, 0])
    r += steps([0, 1], 4, [2, 1], "h_step_big") + steps([0, 1], 4, [2, 1], "h_step_pod")
    for e in ("h_end", "h_end_big"):
        for op, nm in enumerate(("clear", "forget", "drop")):
            for h, share, k in ((0, 0, {}), (1, 0, {}), (2, 1, {}), (2, 0, dict(rcap=1)), (3, 2, {})):
                r.append(job(e, "%s, height %d" % (nm, h), cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=op, share=share, **k))
    for op, nm in enumerate(("clear", "forget", "drop")):
        for h, share, k in ((1, 0, {}), (2, 1, {}), (3, 2, {})):
            r.append(job("h_end_pod", "items without destructor: %s, height %d" % (nm, h), cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=op, share=share, **k))
    for e in ("h_end", "h_end_big", "h_end_pod"):
        for op, nm in enumerate(("clear", "forget", "drop")):
            r += tall(e, nm, op)
    for op, nm in enumerate(("insert, any answers", "remove with any answers, then remove_at, insert_at and replace_at at any rank", "IntoIter dropped after any steps from both ends", "clone", "forget", "clear")):
        top = 14 if op == 1 else 24 if op in (0, 2) else 80
        r.append(job("h_zst", "items of size zero with a destructor: " + nm, "0 to %d items, inserted at either end" % top, op=op, x=top, y=0))
    return r + hists("h_hist", tier, 6, 2, pats=(0,), top=8)



PAT = {0: "f from the front, rest from the back", 1: "f from the back, rest from the front", 2: "f front, g back, rest front", 3: "front or back chosen at every step", 4: "f back, g front, rest back"}


def cap(**k):
    n = {"rcap": "root at most %d items", "icap": "inner nodes at most %d", "lcap": "leaves at most %d"}
    return ", ".join(n[x] % v for x, v in k.items() if x in n) or FULL


SHARE2 = "; all leaves have one common fill, all inner nodes one"
SHARE1 = "; two fills per level, alternating"


PROVIDED = "up to 3 items from either end, then nth, nth_back, count, last, fold, rfold, try_fold or rev"


def c04(tier):
    r = []
    for op, nm in ((0, "Iter"), (1, "copies of Iter"), (2, "IterMut")):
        def it(h, pat, share, **k):
            r.append(job("h_iter", "%s, height %d, %s" % (nm, h, PAT[pat]), cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=op, x=pat, share=share, **k))
        it(0, 3, 0)
        if op == 1:
            it(1, 3, 0)
            it(2, 2, 0, rcap=1, lcap=4)
        else:
            it(1, 3, 0)
            it(2, 3, 0, rcap=1, lcap=4 + (tier != "quick"))
            it(2, 2, 0, rcap=1)
            it(2, 4, 1, rcap=2 + (tier != "quick"))
            it(2, 0, 2)
            it(3, 0, 2, rcap=1, icap=4, lcap=4)
            it(3, 1, 2, rcap=2, icap=3, lcap=3)
    for op, nm in ((0, "Iter"), (1, "copies of Iter"), (2, "IterMut")):
        for pat in (0, 1):
            r += tall("h_iter", "%s, %s" % (nm, PAT[pat]), op, x=pat, hs=(4, 5) if op == 0 or tier != "quick" else (4,))
    for op, nm in ((3, "Iter"), (4, "IterMut")):
        for h, share, k in ((0, 0, {}), (1, 0, {}), (2, 2, dict(rcap=1))):
            r.append(job("h_iter", "%s, height %d: %s" % (nm, h, PROVIDED), cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=op, share=share, **k))
    r.append(job("h_iter_pod", "Iter over items without destructor, height 2, " + PAT[2], cap(rcap=1) + SHARE2, h=2, op=0, x=2, rcap=1, share=2))
    for op, nm in ((0, "Iter"), (1, "IterMut")):
        for h in (2, 3):
            r.append(job("h_iter_sym", "%s, height %d: up to 3 from the front, 3 from the back, one from each" % (nm, h), FULL, h=h, op=op, x=3, y=3))
    return r


def c05(tier):
    r = []
    def it(h, op, pat, share, **k):
        r.append(job("h_into", "IntoIter, height %d, %s" % (h, "dropped at any point" if op else PAT[pat]), cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=op, x=pat, share=share, **k))
    it(0, 0, 3, 0)
    it(0, 1, 0, 0)
    it(1, 0, 3, 0)
    it(1, 1, 0, 0)
    it(2, 0, 3, 0, rcap=1, lcap=4 + (tier != "quick"))
    it(2, 0, 2, 0, rcap=1)
    it(2, 0, 0, 2)
    it(2, 1, 0, 0, rcap=1)
    it(2, 1, 0, 1, rcap=2 + (tier != "quick"))
    it(3, 0, 0, 2, rcap=1, icap=4, lcap=4)
    it(3, 0, 1, 2, rcap=2, icap=3, lcap=3)
    it(3, 1, 0, 2, rcap=1, icap=4, lcap=4)
    for pat in (0, 1):
        r += tall("h_into", "IntoIter, " + PAT[pat], 0, x=pat)
    r += tall("h_into", "IntoIter, dropped at any point", 1, hs=(4, 5) if tier != "quick" else (4,))
    for h, share, k in ((0, 0, {}), (1, 0, {}), (2, 2, dict(rcap=1))):
        r.append(job("h_into", "IntoIter, height %d: %s" % (h, PROVIDED), cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=2, share=share, **k))
    for h, share, k in ((1, 0, {}), (2, 2, dict(rcap=2)), (3, 2, dict(rcap=1, icap=3, lcap=3))):
        for op in (0, 1):
            r.append(job("h_into_pod", "items without destructor: IntoIter, height %d, %s" % (h, "dropped at any point" if op else PAT[0]), cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=op, share=share, **k))
    for h in (2, 3):
        r.append(job("h_iter_sym", "IntoIter, height %d: up to 3 from the front, 3 from the back, one from each" % h, FULL, h=h, op=2, x=3, y=3))
    return r


def c20(tier):
    r = []
    T = tier != "quick"
    for e, big in (("h_alias", ""), ("h_alias_big", ", large items")):
        def it(h, pat, share, **k):
            r.append(job(e, "IterMut%s, height %d, %s; every reference kept" % (big, h, PAT[pat]), cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=0, x=pat, share=share, **k))
        it(0, 3, 0)
        it(1, 3, 0)
        it(2, 0, 2)
        if not big or T:
            it(2, 3, 0, rcap=1, lcap=4 + T)
            it(2, 2, 0, rcap=1)
            it(2, 4, 1, rcap=2 + T)
            it(3, 0, 2, rcap=1, icap=4, lcap=4)
            it(3, 1, 2, rcap=2, icap=3, lcap=3)
            r += tall(e, "IterMut%s, %s; every reference kept" % (big, PAT[0]), 0, x=0, hs=(4, 5) if T else (4,))
        for h, share, k in ((0, 0, {}), (1, 0, {}), (2, 2, dict(rcap=1))):
            r.append(job(e, "IterMut%s, height %d: %s; every reference kept" % (big, h, PROVIDED), cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=1, share=share, **k))
        for h in (2, 3):
            r.append(job(e, "IterMut%s, height %d: up to 3 from the front, 3 from the back, one from each; every reference kept" % (big, h), FULL, h=h, op=2, x=3, y=3))
    return r


NAV = {0: "next_item_address", 1: "previous_item_address", 2: "previous_front_address", 3: "next_back_address", 4: "normalize", 5: "leaf_address", 6: "get_at", 7: "next_item_or_back_address", 8: "first_item_address"}


def c07(tier):
    r = []
    for h in (0, 1, 2, 3):
        for op in NAV:
            if h or op == 8:
                r.append(job("h_nav", "%s, height %d" % (NAV[op], h), FULL + "; every address of every node, before-first and past-last included", h=h, op=op, covers=[] if op == 8 else [20, 21]))
    for op in NAV:
        r.append(job("h_nav", "%s, height 4" % NAV[op], cap(**LOW), h=4, op=op, **LOW))
    return r


LOOK = {0: "address_of and get", 1: "get_mut and write", 2: "first, first_mut", 3: "last, last_mut", 4: "get_mut_at and write"}


def c08(tier):
    return [job("h_look", "%s, height %d" % (LOOK[op], h), FULL, h=h, op=op, covers=[1, 2] if h and op in (0, 1, 4) else []) for h in (3, 2, 1, 0) for op in LOOK] + \
           [job("h_look", "%s, height 4" % LOOK[op], cap(**LOW), h=4, op=op, **LOW) for op in LOOK]


def c17(tier):
    return [job("h_look", "%s, height %d" % (LOOK[op], h), FULL, h=h, op=op, covers=[1, 2] if h else []) for h in (3, 2, 1, 0) for op in (0, 1)] + \
           [job("h_look_y", "%s, height %d, every access to a node counted" % (LOOK[op], h), FULL, h=h, op=op, covers=[1, 2] if h else []) for h in (3, 2, 1, 0) for op in (0, 1)] + \
           [job("h_look_y", "%s, height 4, every access to a node counted" % LOOK[op], cap(**LOW), h=4, op=op, **LOW) for op in (0, 1)]


COST = ("insert", "remove", "insert_at", "remove_at", "next_item_address", "previous_item_address", "first, first_mut, first_item_address", "last, last_mut",
        "Iter from the front", "Iter from the back", "IterMut from the front", "IterMut from the back", "leaf-first visit", "mutable leaf-first visit",
        "IntoIter from the front", "IntoIter from the back", "next_back_address", "previous_front_address", "get_at, get_mut_at, replace_at", "clear")
TRAV = (8, 9, 10, 11, 12, 13, 14, 15, 19)


def c21(tier):
    r = []
    for h in (4, 3, 2, 1):
        for op, nm in enumerate(COST):
            if h == 4:
                if op:
                    r.append(job("h_cost", "%s, height 4, every access to a node counted" % nm, cap(**LOW), h=4, op=op, share=2 if op in TRAV else 0, **LOW))
                continue
            share = 0 if op not in TRAV else 1 if h < 3 else 2
            k = dict(rcap=3 if tier == "quick" else 5, icap=4, lcap=5) if op in TRAV and h == 3 else {}
            r.append(job("h_cost", "%s, height %d, every access to a node counted" % (nm, h), cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=op, share=share,
                         covers=[1, 2] if op < 2 else ([3, 4] if h > 1 else [3]) if op < 6 else [], **k))
    return r


def c10(tier):
    r = []
    nm = {0: "clone dropped first", 1: "original dropped first", 2: "an item removed from the clone"}
    for op in nm:
        def it(h, share, **k):
            r.append(job("h_clone", "height %d, %s" % (h, nm[op]), cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=op, share=share, **k))
        it(0, 0)
        it(1, 0)
        it(2, 0, rcap=1)
        if op == 2:
            it(2, 1, rcap=2)
            it(3, 2, rcap=1, icap=3, lcap=3)
        else:
            it(2, 1)
            it(3, 2)
        r += tall("h_clone", nm[op], op, hs=(4, 5) if op < 2 else (4,))
    for op in nm:
        for h, share, k in ((1, 0, {}), (2, 2, dict(rcap=2)), (3, 2, dict(rcap=1, icap=3, lcap=3))):
            r.append(job("h_clone_pod", "items without destructor whose clone is not a copy: height %d, %s" % (h, nm[op]), cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=op, share=share, **k))
    return r


def c16(tier):
    r = []
    for op, nm in enumerate(("visit_from_leaves", "visit_from_leaves_mut", "Node::visit_from_leaves", "Node::visit_from_leaves_mut", "Node::visit_from_leaves_with", "Node::visit_from_leaves_mut_with")):
        for h, share in ((0, 0), (1, 0), (2, 2), (3, 1 if op < 2 else 2)):
            r.append(job("h_visit", "%s, height %d" % (nm, h), FULL + ("", SHARE1, SHARE2)[share], h=h, op=op, share=share))
        r += tall("h_visit", nm, op)
    return r


VALID = {0: "valid tree", 1: "two neighbours of a node out of order", 2: "an item beyond the separator on its right", 3: "an item beyond the separator on its left",
         4: "underflow", 5: "overflow", 6: "wrong parent link", 7: "leaves at different depths", 8: "internal root without items"}


def c15(tier):
    r = []
    for op, nm in VALID.items():
        for h, share in ((0, 0), (1, 0), (2, 2), (3, 2)):
            if (op in (4, 5) and h < 2) or (op in (2, 3) and h < 2) or (op == 6 and h < 1) or (op == 7 and h < 3) or (op == 8 and h < 2) or (op == 1 and h < 1):
                continue
            k = dict(rcap=2, icap=4, lcap=5) if h == 3 and tier == "quick" and op not in (0, 5, 7, 8) else {}
            r.append(job("h_valid", "%s, height %d" % (nm, h), cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=op, share=share, covers=([3, 4] if h == 3 else [3]) if op == 5 else [], **k))
        r += tall("h_valid", nm, op)
    return r



FILL = ("ascending", "descending", "from both ends", "scattered")


def hists(entry, tier, ops, k, pats=(0, 1, 2, 3), top=60, away=0, lo=0, every=True, what=""):
    """histories: a concrete beginning of n keys, some removed again, then k arbitrary operations"""
    names = [COVERS[30 + o] for o in range(ops + 1)]
    return [job(entry, "from the empty tree: n insertions, %s%s, then %d of %s with any keys%s" % (FILL[p], (", any number up to %d removed in another order" % away) if away else "", k, "/".join(names), what),
                "n from %d to %d" % (lo, top), h=p, op=ops, share=k, rcap=lo, icap=top, lcap=away, x=0 if every else 1, covers=range(30, 31 + ops)) for p in pats]


def c09(tier):
    r = []
    T = tier != "quick"
    for s, nm in (("y", "a storage that wants its nodes dropped"), ("n", "a storage that drops its nodes itself")):
        def it(e, what, h, op=0, share=0, **k):
            cov = k.pop("covers", ())
            m = k.pop("mask", 7)
            x, y = k.pop("x", 0), k.pop("y", 0)
            r.append(job("h_%s_%s" % (e, s), "%s: %s, height %d" % (nm, what, h), cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=op, share=share, mask=m, covers=cov, x=x, y=y, **k))
        for h in (2, 1, 0) if not T else (3, 2, 1, 0):
            for op in OPS:
                if h or op not in (1, 6):
                    it("step", OPS[op], h, op, mask=4)
        for h in (1, 2, 3):
            for op in NAV:
                it("nav", NAV[op], h, op)
            for op in LOOK:
                it("look", LOOK[op], h, op)
        for op, w in enumerate(("clear", "forget", "drop")):
            it("end", w, 0, op)
            it("end", w, 1, op)
            it("end", w, 2, op, share=2)
            it("end", w, 3, op, share=2, rcap=2, icap=4, lcap=4)
        for op in (0, 1, 2):
            it("clone", "clone", 1, op)
            it("clone", "clone", 2, op, share=2)
        for op in range(6):
            it("visit", "leaf-first visit", 2, op, share=2)
        it("valid", "validator", 2, 0, share=2)
        it("iter", "Iter", 2, 0, share=2)
        it("iter", "IterMut", 2, 2, share=2)
        it("into", "IntoIter", 1, 0, x=3)
        it("into", "IntoIter", 2, 0, share=2)
        it("into", "IntoIter dropped", 1, 1)
        it("into", "IntoIter dropped", 2, 1, share=2, rcap=2)
        for op in (0, 1):
            it("arb", "any comparison, " + ARB[op], 2, op)
            it("fault_cmp", "panicking comparison, " + ARB[op], 2, op)
        for op in range(4):
            it("fault_drop", "panicking destructor, " + FDROP[op], 1, op)
            it("fault_drop", "panicking destructor, " + FDROP[op], 2, op, share=2, rcap=1)
        it("fault_clone", "panicking clone", 1)
        it("fault_clone", "panicking clone", 2, share=2)
        r += hists("h_hist_" + s, tier, 6, 2, pats=(0,), top=6, what="; " + nm)
        r += hists("h_hist_" + s, tier, 6, 1, pats=(2,), top=40 if not T else 90, every=False, what="; " + nm)
    return r


NODEOP = ("positional reads and enumerations", "search", "insert_by_key", "insert at an offset", "replace", "leaf_remove", "remove", "split", "merge", "append", "push_left", "pop_left", "push_right", "pop_right", "remove_rightmost_leaf", "set_parent and forget")


def c11(tier):
    r = []
    for e, k in (("h_node", ""), ("h_node_big", ", items with drop glue and padding")):
        for h in (0, 1):
            for op, nm in enumerate(NODEOP):
                if h or op not in (4, 8):
                    r.append(job(e, ("internal: " if h else "leaf: ") + nm + k, "every fill from empty to overflowing", h=h, op=op, covers={1: [1, 2], 2: [1, 2], 11: [3, 4], 13: [3, 4]}.get(op, [])))
    return r


def c12(tier):
    return [job("h_offset", w, "all 64-bit offsets", op=op) for op, w in enumerate(("equality and order", "against integers", "value", "increment then decrement", "decrement then increment"))] + \
           [job("h_item", w, "all 64-bit keys and values", op=op) for op, w in enumerate(("order of items", "order and equality operators", "item against key", "key_cmp", "parts"))]


def c23(tier):
    b = "offsets: before-first, 0..120, 998..1001, the two greatest; any letters as parts"
    r = []
    for op, w in enumerate(("an offset", "an address", "an item")):
        r.append(job("h_text", w + " is printed", b, op=op, covers=[26]))
        r.append(job("h_text", w + " is printed, any write fails", b, op=op, x=1, covers=[25, 26]))
    return r


ARB = ("insert", "remove", "get", "get_mut", "address_of", "validate")


def c13(tier):
    r = []
    for op, nm in enumerate(ARB[:5]):
        for h in (3, 2, 1, 0):
            r.append(job("h_arb", "%s, height %d, every answer of every comparison arbitrary" % (nm, h), FULL, h=h, op=op, covers=([1, 2] if h else [2]) if op < 2 else []))
        r.append(job("h_arb", "%s, height 4, every answer of every comparison arbitrary" % nm, cap(**LOW), h=4, op=op, **LOW))
    for h, k in ((0, {}), (1, {}), (2, dict(share=2)), (3, dict(share=2, rcap=1, icap=3, lcap=3))):
        sh = k.pop("share", 0)
        r.append(job("h_arb", "validate, height %d, every answer of every comparison arbitrary" % h, cap(**k) + ("", SHARE1, SHARE2)[sh], h=h, op=5, share=sh, **k))
    return r


FDROP = ("clear", "drop of the tree", "drop of a consuming iterator", "destructor run by the receiver of each item")


def c14(tier):
    r = []
    T = tier != "quick"
    for op, nm in enumerate(ARB):
        for h in ((3,) if op < 5 else ()) + (2, 1, 0):
            if op == 5 and h == 2:
                r.append(job("h_fault_cmp", "any call of the comparison panics, validate, height 2", FULL + SHARE2, h=2, op=5, share=2, covers=[27]))
                continue
            k = dict(rcap=1, icap=4) if h == 3 and not T else {}
            r.append(job("h_fault_cmp", "any call of the comparison panics, %s, height %d" % (nm, h), cap(**k), h=h, op=op, covers=([27, 28] if op < 5 else [27]) if h else [], **k))
    for op, nm in enumerate(ARB[:5]):
        r.append(job("h_fault_cmp", "any call of the comparison panics, %s, height 4" % nm, cap(**LOW), h=4, op=op, covers=[27, 28], **LOW))
    for op, nm in enumerate(FDROP):
        def it(h, share, **k):
            r.append(job("h_fault_drop", "any call of the destructor panics, %s, height %d" % (nm, h), cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=op, share=share, covers=[27, 28] if h else [], **k))
        it(0, 0)
        it(1, 0, **({"rcap": 2} if op == 2 and not T else {}))
        it(2, 2, **({"rcap": 2} if not T and op == 2 else {}))
        it(2, 0, rcap=1, **({"lcap": 4} if not T else {}))
        it(3, 2, rcap=1, icap=3, lcap=3)
        r += tall("h_fault_drop", "any call of the destructor panics, " + nm, op, hs=(4, 5) if op < 2 or T else (4,), covers=[27, 28])
    r += tall("h_fault_clone", "any call of the items' clone panics", 0, hs=(4, 5) if T else (4,), covers=[27, 28])
    for op in (0, 1):
        r += tall("h_fault_visit", "any call of the visitor panics, " + ("visit_from_leaves", "visit_from_leaves_mut")[op], op, covers=[27, 28])
    for h, share, k in ((0, 0, {}), (1, 0, {}), (2, 2, {}), (2, 0, dict(rcap=1, lcap=4)), (3, 2, dict(rcap=1, icap=3, lcap=3))):
        r.append(job("h_fault_clone", "any call of the items' clone panics, height %d" % h, cap(**k) + ("", SHARE1, SHARE2)[share], h=h, share=share, covers=[27, 28] if h else [], **k))
    for op in (0, 1):
        for h, share in ((0, 0), (1, 0), (2, 0), (3, 2)):
            r.append(job("h_fault_visit", "any call of the visitor panics, %s, height %d" % (("visit_from_leaves", "visit_from_leaves_mut")[op], h), FULL + ("", SHARE1, SHARE2)[share], h=h, op=op, share=share, covers=[27, 28] if h else []))
    return r


def c18(tier):
    r = []
    for h, share, k in ((0, 0, {}), (1, 0, {}), (2, 2, {}), (2, 1, {}), (3, 2, dict(rcap=2, icap=3, lcap=4))):
        r.append(job("h_dot", "graph read back, height %d" % h, cap(**k) + ("", SHARE1, SHARE2)[share], h=h, op=0, share=share, **k))
    r += tall("h_dot", "graph read back", 0, hs=(4,))
    for h in (0, 1, 2):
        k = dict(rcap=2)
        r.append(job("h_dot", "any write fails, height %d" % h, cap(**k) + ("", SHARE1, SHARE2)[2 if h == 2 else 0], h=h, op=1, x=80, share=2 if h == 2 else 0, covers=[25, 26] if h < 2 else [25], **k))
    return r


ARRAY = ("reads and writes as a slice", "push", "pop", "insert at any index", "remove at any index", "append", "drain of any part, from both ends, dropped at any point", "drain of a range out of bounds",
         "drain leaked at any point", "clear, then push", "consuming iteration from both ends, dropped at any point", "extend")


def c22(tier):
    r = []
    for h, nm in ((0, "array of a leaf (9)"), (1, "array of an internal node (8 branches)")):
        for op, w in enumerate(ARRAY):
            r.append(job("h_array", "%s: %s" % (nm, w), "every length from empty to full; all 64-bit indices", h=h, op=op, covers=[27, 28] if op in (1, 3, 5, 11) else []))
        for x, w in enumerate(("clear", "drop", "consuming iteration", "drain")):
            r.append(job("h_array", "%s: any call of the destructor panics, %s" % (nm, w), "every length from empty to full", h=h, op=12, x=x, covers=[27, 28]))
    r.append(job("h_array", "array of a leaf: clone, any call of the items' clone panics", "every length from empty to full", h=0, op=13, covers=[27, 28]))
    return r


PROPS = {
    "C01": {"jobs": c01, "bounds": "trees of height 0 to 3 (up to 575 items)"},
    "C02": {"jobs": c02},
    "C03": {"jobs": c03},
    "C04": {"jobs": c04},
    "C05": {"jobs": c05},
    "C06": {"jobs": c06},
    "C07": {"jobs": c07},
    "C08": {"jobs": c08},
    "C09": {"jobs": c09},
    "C10": {"jobs": c10},
    "C11": {"jobs": c11},
    "C12": {"jobs": c12},
    "C13": {"jobs": c13},
    "C14": {"jobs": c14},
    "C15": {"jobs": c15},
    "C16": {"jobs": c16},
    "C17": {"jobs": c17},
    "C18": {"jobs": c18, "features": ("dot",)},
    "C20": {"jobs": c20},
    "C21": {"jobs": c21},
    "C22": {"jobs": c22},
    "C23": {"jobs": c23},
}
