"""What each property's check runs."""
LIMBS = ["u8", "u16", "u32", "u64", "u128", "usize"]
BASE = ["math", "limb", "bitmath", "root"]
ALL = [(l, True) for l in LIMBS]

# property -> configuration
#  verus: list of (template, modules, [config,...]) ; config = (limb, debug?, *defs)
PROPS = {f"P{i:02}": dict(level="exploration") for i in range(1, 27)}
SH = ["shiftmath", "shift"]
BW = ["divmath", "bwmath", "biter"]
PROPS["P01"] = dict(verus=[("main", BASE + ["shrink", "add", "divmath", "bwmath", "bwadd"], ALL)])
PROPS["P02"] = dict(verus=[("main", BASE + ["shrink", "add", "sub", "logic", "divmath", "bwmath", "bwadd"], ALL)])
PROPS["P03"] = dict(verus=[("main", BASE + ["shrink", "add", "mul", "divmath", "bwmath", "bwmul"] + SH, ALL)])
PROPS["P04"] = dict(verus=[("main", BASE + ["shrink", "cmp", "add", "sub", "divmath", "bdiv", "ediv"] + SH, ALL)])
PROPS["P05"] = dict(verus=[("main", BASE + ["shrink", "divmath", "bwmath", "biter", "bwshift"] + SH, ALL)])
PROPS["P06"] = dict(verus=[("main", BASE + ["cmp", "logic", "sub", "biter"], ALL)])
PROPS["P19"] = dict(verus=[("main", BASE, ALL)])
ONE = [("u8", True)]
PROPS["P17"] = dict(verus=[("casts", ["prims", "truncating", "saturating", "checked", "blanket", "floats"], ONE)])
PRIMS = "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize".split()
PROPS["P18"] = dict(verus=[("ops", ["prims", "stdspec", "gcdmath", "factmath", "nonzero"] + ["ops_" + t for t in PRIMS], ONE)])
UNS = "u8 u16 u32 u64 u128 usize".split()
PROPS["P07"] = dict(verus=[("conv", BASE + ["shrink", "convmath", "reverse"] + ["split_" + t for t in UNS] + ["join_" + t for t in PRIMS], ALL),
                           ("casts", ["prims", "truncating", "checked", "blanket"], ONE)])
BOTH = [("u8", True), ("u8", False)]
UMODS = ["u_" + t for t in UNS]
PROPS["P08"] = dict(verus=[("u", BASE + ["shrink", "add", "sub", "logic", "mul", "uid", "uarith", "upow", "u_usize"], BOTH)])
PROPS["P09"] = dict(verus=[("u", BASE + ["shrink", "cmp", "add", "sub", "logic", "divmath", "bdiv", "uid", "udiv", "u_usize"] + SH, BOTH)])
PROPS["P10"] = dict(verus=[("u", BASE + ["cmp", "reverse", "uid", "add"] + UMODS, BOTH)])
for _p in ("P08", "P09", "P10"):
    PROPS[_p]["verus"][0][1].append("uidmath")
PROPS["P11"] = dict(verus=[("i", BASE + ["shrink", "cmp", "add", "sub", "logic", "mul", "divmath", "bdiv", "uidmath", "imath", "iid", "iarith"] + SH, ONE)])
BIG = [("usize", True)]
BREP = ["bstore", "btag", "brep", "bmath", "bcmp", "brefs"]
BDIVS = ["divmath", "bdiv"] + SH
BCONV = ["convmath", "bconvmath"] + ["b_" + t for t in UNS]
PROPS["P12"] = dict(verus=[("b", BASE + ["shrink", "cmp", "add", "sub", "mul"] + BDIVS + BREP + ["barith"] + BCONV + ["split_" + t for t in UNS] + ["bp_" + t for t in PRIMS], BIG)])
PROPS["P13"] = dict(verus=[("b", BASE + ["shrink", "cmp"] + BREP + BCONV + ["split_" + t for t in UNS] + ["join_" + t for t in PRIMS], BIG)])
PROPS["P15"] = dict(verus=[("b", BASE + ["shrink", "cmp", "sub", "mul", "logic"] + BDIVS + BREP + ["barith", "bshift", "bpow"] + BCONV, BIG)])
PROPS["P14"] = dict(verus=[("b", BASE + ["shrink", "cmp", "add", "sub", "mul"] + BDIVS + BREP + ["barith"] + BCONV + ["bp_usize", "bp_u32", "fmtmath", "bround", "bfmt", "bbin", "bparse"], BIG),
                           ("u", BASE + ["shrink", "cmp", "sub", "uid", "uidmath", "udiv", "u_u8", "u_usize", "fmtmath", "ufmt"] + BDIVS, ONE)])
GCD = ("ops", ["prims", "stdspec", "gcdmath"] + ["ops_" + t for t in PRIMS], ONE)
PROPS["P20"] = dict(verus=[("fixed", ["root", "fix", "fixmath", "gcdmath"], ONE)])
PROPS["P21"] = dict(verus=[("rat", ["root", "ratmath", "ratops", "fixmath", "gcdmath"], ONE), GCD])
PROPS["P22"] = dict(verus=[("complex", ["root", "cmath", "cops", "gcdmath"], ONE)])
PROPS["P26"] = dict(verus=[("stat", ["root", "siter", "gcdmath"], ONE)])
CMP = ["root", "siter", "vecs", "mats", "dynm", "gcdmath"]
PROPS["P23"] = dict(verus=[("compounds", CMP, ONE)])
PROPS["P25"] = dict(verus=[("compounds", ["root", "mats", "dynm"], ONE)])
PROPS["P24"] = dict(verus=[("compounds", ["root", "siter", "vecs", "mats", "dynm", "gaussmath", "gauss"], ONE)])
PROPS["P16"] = dict(verus=[("intern", ["root", "linked", "intern"], ONE)])
