"""What each check explores: jobs(property, tier) -> [(build, exploration, time budget)].

The explorations are described in DESIGN.md; every one of them checks everything it can see, and reports
the violations of the property being decided only.
"""
import json
import os

HASH = ["hashtable", "hashdyn", "hashlin"]
TRIE = ["trie", "trie_inplace"]
ARRAY = ["array", "arrayof", "arrayblk", "arrayblkof"]


DATA = ["list", "hashtable", "hashdyn", "hashlin", "tree", "trie", "trie_inplace"]


def data_jobs(tier, *kinds):
    """data pointers of any nature: null, shared, the node itself, integers"""
    return [f"data.any t={k} depth={5 if tier == 'quick' else 6}" for k in kinds or DATA]


def parts(n, s):
    return [f"{s} part={i} parts={n}" for i in range(n)]


# ---- millions of elements ----

M1, M4, M16, M64 = 1048577, 4194305, 16777217, 67108865


def big_sort(tier):
    if tier == "quick":
        return [f"big.sort n=1048576,{M1},2097155", f"big.sort n={M4} s=0,1,4,10,11", f"big.sort n={M16} s=1,4"]
    return [f"big.sort n=1048575-1048577,1500000,2097151-2097153,3000000", f"big.sort n={M4},8388609", f"big.sort n={M16}", *[f"big.sort n={M64} s={x}" for x in (1, 4, 9)]]


def big_list(tier):
    return [f"big.list n={M1},{M4},{M16}"] + ([] if tier == "quick" else [f"big.list n={M64}"])


def big_hash(t, tier):
    z = (lambda n: f" size={n}") if t == "hashtable" else (lambda n: "")
    r = [f"big.hash t={t} n={M1} l=0-3 o=0,2{z(M1)}", f"big.hash t={t} n={M1} g=4 l=0,1 o=2{z(300000)}", f"big.hash t={t} n={M4} l=1 o=2{z(M4)}", f"big.hash t={t} n={M16} l=0 o=2{z(M16)}"]
    if tier == "thorough":
        r += [f"big.hash t={t} n=1048576,2097152,2097153,3000000 l=0-3 o=0-3 g=2{z(M4)}", f"big.hash t={t} n={M4},8388609 l=0-3 o=0,2{z(M4)}", f"big.hash t={t} n={M64} l=1 o=2{z(M64)}"]
    return r


def big_tree(tier):
    return [f"big.tree n={M1} o=0,1", f"big.tree n={M1} o=2,3", f"big.tree n={M4} o=2"] + ([] if tier == "quick" else [f"big.tree n=2097151-2097153 o=0,2", f"big.tree n={M4} o=0,1,3", f"big.tree n={M16} o=0,2"])


def big_trie(t, tier):
    r = [f"big.trie t={t} n={M1} l=0-4 o=0,2", f"big.trie t={t} n={M1} g=3 l=1,4 o=2", f"big.trie t={t} n={M4} l=1 o=2"]
    if tier == "thorough":
        r += [f"big.trie t={t} n=2097153 l=0-4 o=0-3 g=2", f"big.trie t={t} n={M4} l=0-4 o=0", f"big.trie t={t} n={M16} l=1 o=2"]
    return r


# ---- explorations of each container: quick and thorough ----

def list_jobs(t):
    if t == "quick":
        return ["list.closure n=7", "list.closure n=5 k=3", "list.closure n=4 k=4", "list.big"]
    return ["list.closure n=8", "list.closure n=6 k=3", "list.closure n=5 k=4", "list.big n=1,2,3,10,100,1000,65536,300000"]


def sort_jobs(t):
    if t == "quick":
        return ["sort.weak n=0-7 mags=8", *parts(2, "sort.weak n=8"), "sort.alpha a=2 n=16", "sort.alpha a=3 n=10", "sort.alpha a=4 n=8",
                *parts(4, "sort.shapes n=0-1100"), "sort.shapes n=65535,65536,65537,131073,262145", "sort.shapes n=600000", "sort.displaced n=40", "sort.runs n=40"]
    return ["sort.weak n=0-8 mags=8", *parts(16, "sort.weak n=9"), "sort.alpha a=2 n=21", "sort.alpha a=3 n=13", "sort.alpha a=4 n=10", "sort.alpha a=5 n=9",
            *parts(16, "sort.shapes n=0-4200"), *parts(4, "sort.shapes n=8191,8192,8193,16384,32767,32768,65535,65536,65537,131073"),
            "sort.displaced n=90", "sort.runs n=90"]


def LARGE(t):
    """large sizes, walks of one to three turns between them"""
    return [*[f"hash.turns t={t} l={l} turns=2 pts=0,2000,8193,16385,32769,65537,131073" for l in (0, 3, 7, 8, 9)], f"hash.turns t={t} turns=3 pts=0,4097,16385,32769,65537,131073",
            f"hash.turns t={t} turns=1 pts=4096,8192,16384,32768,65536,131072,262145,524289,1000000"]


def hash_fun(t, tier):
    """multimap explorations of one hashtable"""
    r = [f"hash.small t={t} n=5", f"hash.small t={t} n=4 garbage=1", f"hash.small t={t} n=4 garbage=2", f"hash.small t={t} n=4 garbage=3 fill=0",
         f"hash.order t={t}", f"hash.turns t={t}", f"hash.turns t={t} turns=2 l=1", f"hash.turns t={t} turns=2 fifo=1", f"hash.near t={t}"]
    if t == "hashtable":
        r += ["hash.turns t=hashtable turns=1 pts=4096,131073 full=0 size=131072", "hash.turns t=hashtable turns=1 pts=300000 full=0 size=524288", "hash.near t=hashtable size=1024"]
        r += [f"hash.turns t=hashtable turns=1 pts=3000 full=0 size=131072 l={x}" for x in (3, 4, 7, 10)] + [f"hash.turns t=hashtable turns=1 pts=300000 full=0 size=524288 l={x}" for x in (3, 7, 8)]
        r += ["hash.sizes", "hash.small t=hashtable n=4 size=1,2,3,5,8,16,17,33"]
        r += [f"hash.walk t=hashtable l=0-11 max=100 size={s}" for s in (0, 64)] + ["hash.walk t=hashtable l=0-11 max=24 fifo=1"]
    elif t == "hashdyn":
        r += LARGE("hashdyn")
        r += [*[f"hash.walk t=hashdyn l={x} max=150" for x in range(12)], "hash.walk t=hashdyn l=0-11 max=48 fifo=1", "hash.walk t=hashdyn l=0 max=300",
              "hash.small t=hashdyn n=4 pre=6-20", "hash.small t=hashdyn n=3 pre=28-36,60-68 via=40,140"]
    else:
        r += LARGE("hashlin")
        r += [f"hash.walk t=hashlin l={x} max=70" for x in range(12)] + ["hash.walk t=hashlin l=0,3,7,8 max=50 fifo=1", "hash.walk t=hashlin l=0 max=120", "hash.walk t=hashlin l=8 max=120",
              "hash.small t=hashlin n=4 pre=24-40", "hash.small t=hashlin n=3 pre=29-36,60-68 via=40,100,140"]
    if tier == "thorough":
        r += [f"hash.small t={t} n=7", f"hash.small t={t} n=6 a=0-3 garbage=1", *parts(8, f"hash.turns t={t} turns=4"), *parts(4, f"hash.turns t={t} turns=3 l=1"), *parts(2, f"hash.turns t={t} turns=3 fifo=1"),
              f"hash.turns t={t} turns=2 pts=0,2047,2048,2049,4095,4096,4097,8192,16383,16384,16385,32769,65537 full=0", f"hash.order t={t} k=5 pre=0-140 far=1100"]
        if t == "hashdyn":
            r += [*[f"hash.walk t=hashdyn l={x} max=400" for x in range(12)], *[f"hash.walk t=hashdyn l={x} max=100 fifo=1" for x in range(12)], "hash.walk t=hashdyn l=0 max=1100", "hash.small t=hashdyn n=5 pre=0-40 via=0,70,140"]
        elif t == "hashlin":
            r += [f"hash.walk t=hashlin l={x} max=140" for x in range(12)] + ["hash.walk t=hashlin l=0 max=280", "hash.walk t=hashlin l=8 max=280", *[f"hash.walk t=hashlin l={x} max=100 fifo=1" for x in range(12)],
                  "hash.small t=hashlin n=5 pre=0-70 via=0,70,140"]
        else:
            r += [f"hash.sizes sizes=0-5000 n=40", "hash.sizes sizes=65535-65537,1048575-1048577 n=20"]
    return r


def tree_jobs(tier):
    r = ["tree.closure n=14", "tree.closure n=5 ids=1", *[f"tree.closure n=8 mag={m}" for m in range(1, 9)], *[f"tree.closure n=9 garbage={g}" for g in (1, 2, 3)], *parts(2, "tree.runs"),
         "tree.runs n=4096 orders=2", "tree.runs n=65536,70000 orders=1", "tree.sparse h=11", *[f"tree.sparse h={h} from={h} step={s}" for h, s in ((15, 211), (16, 401), (17, 601), (18, 2003), (19, 4001), (20, 4001))], "tree.closure n=16 lite=1"]
    if tier == "thorough":
        r += ["tree.closure n=17", "tree.closure n=19 lite=1", "tree.closure n=6 ids=1", *[f"tree.closure n=12 mag={m}" for m in range(1, 9)], *parts(4, "tree.runs n=0-520 mags=0,1,4"),
              *parts(4, "tree.runs n=4095,4096,65536 orders=4"), *parts(4, "tree.sparse h=15 from=12"), "tree.sparse h=11 mag=3"]
    return r


def trie_fun(t, tier):
    r = [f"trie.closure t={t} n=5", f"trie.combos t={t} k=2 dup=1 all=1", f"trie.many t={t} n=1000", *[f"trie.closure t={t} n=4 garbage={g}" for g in (1, 2, 3)],
         f"trie.near t={t}", f"trie.many t={t} n=20000", f"trie.many t={t} n=300000 l=2 o=0,3",
         *parts(2, f"trie.combos t={t} k=2 dup=2"), *parts(4, f"trie.deep t={t}"), f"trie.deep t={t} pairs=0 dups=1,5 o=0,2,4 lo=1-31"]
    if t == "trie":
        r += ["trie.closure t=trie n=3 tries=2"]
    else:
        r += ["trie.closure t=trie_inplace n=4 tries=2"]
    if tier == "thorough":
        r += [f"trie.closure t={t} n=6", *parts(8, f"trie.combos t={t} k=3 dup=0"), *parts(8, f"trie.combos t={t} k=2 dup=2 all=1"), f"trie.many t={t} n=50000"]
    return r


def trie_m32(t, tier):
    """the 32 bit build, where the nodes of the trie have 16 ways"""
    r = [f"trie.closure t={t} n=4", f"trie.combos t={t} k=2 dup=1 all=1", f"trie.many t={t} n=1000", f"trie.many t={t} n=20000", f"trie.near t={t}", *parts(4, f"trie.deep t={t} dups=1,5 o=0,2,4")]
    if tier == "thorough":
        r += [f"trie.closure t={t} n=6", *parts(4, f"trie.combos t={t} k=2 dup=2 all=1"), f"trie.many t={t} n=300000 l=2 o=0,3", *parts(4, f"trie.deep t={t}"), f"trie.deep t={t} pairs=0 dups=1,5 o=0,2,4 lo=1-31"]
    return r


BIGBLOCKS = ["alloc.sizes sizes=12288,16344-16400,20000,32700-32800,65400-65600,100000,131072 aligns=1,8,64,24,4096 skews=0,8,24 count=3", "alloc.sizes sizes=262144,1000000,1048576,4194304 aligns=8,64,4096,65536 skews=0,8 count=3",
             "alloc.sizes sizes=1-300,4000-4100 aligns=8192,65536 skews=0,24 count=3", "alloc.sizes sizes=4100-8300 aligns=8,16,64 skews=0,24 count=3"]

# over 4 GiB of blocks and of buckets: address space, written only at the ends of the blocks
HUGEBLOCKS = ["alloc.sizes sizes=33554433,268435456,1073741824,2147483648,4294967296,4294967304,5000000000 aligns=8,4096 skews=0 count=5"]
HUGETABLE = ["hash.sizes sizes=268435457 l=2 n=8"]


def alloc_jobs(tier):
    r = ["alloc.closure size=8,24,64,100,1000 align=1,8,64 n=6", *parts(2, "alloc.sizes"), "alloc.many", "alloc.many n=1100000 size=16,48", "alloc.turns", *BIGBLOCKS]
    if tier == "thorough":
        r += ["alloc.closure size=1,8,16,24,64,100,1000,3000,4096 align=1,8,16,64,256 n=8", *parts(8, "alloc.sizes sizes=1-4200 skews=0,8,24,40 count=40"),
              "alloc.many n=200000 size=8,16,24,100"]
    return r


BLK = "sizes=0,1,4095,4096,4097,8192,8193"
BLK_BIG = "sizes=4097,262143,262144,262145,524288,524289"


def array_fun(t, tier):
    r = [f"array.seq t={t}", f"array.many t={t}", f"array.many t={t} n=40000,300000 es=8", f"array.huge t={t} es=1,2,3,4,5,7,8,12,16,24,31,33,64,100 from=6 bits=18"]
    if t.startswith("arrayblk"):
        r += [f"array.seq t={t} {BLK}", f"array.many t={t} n=9000 es=1,8,24", f"array.seq t={t} {BLK_BIG} depth=2", f"array.huge t={t} es=1,257,1000 from=1 bits=13", f"array.huge t={t} es=1,3 from=12 bits=24"]
        if t == "arrayblkof":
            r += ["array.huge t=arrayblkof es=65537,1048576 from=12 bits=13"]
    else:
        r += [f"array.seq t={t} sizes=1,64,511,512,513,1023,1024,1025,4096,4097", f"array.huge t={t}", f"array.huge t={t} es=257,1000,65537 from=1 bits=15"]
    if tier == "thorough":
        r += [f"array.seq t={t} depth=5 sizes=0,1,63,64,65,128,129", f"array.many t={t} n=20000", f"array.seq t={t} {BLK_BIG} depth=3 es=1,8", f"array.seq t={t} depth=4 es=2,5,7,12,31,100"]
    return r


def func_jobs(kind, tier):
    if kind == "mem":
        r = ["func.mem", "func.memhuge d=0"] if tier == "quick" else [*parts(4, "func.mem len=300"), "func.memhuge"]
    elif kind == "str":
        r = ["func.str"] if tier == "quick" else [*parts(4, "func.str len=300 alen=11")]
    elif kind == "int":
        r = [*parts(8, "func.int32"), "func.int64 w=16" if tier == "quick" else "func.int64 w=20"]
        if tier == "thorough":
            r += ["func.int32map"]
    else:
        r = [*parts(8, "func.bits32"), "func.bits64 w=16" if tier == "quick" else "func.bits64 w=20"]
    return r


# ---- small explorations of everything, in the builds that see each access ----

def all_small(tier, what="all", extra=""):
    """every container, every operation, every small history"""
    x = f" {extra}" if extra else ""
    r = []
    q = tier == "quick"
    if what in ("all", "node"):
        r += [f"list.closure n={5 if q else 7}{x}", f"list.closure n={4 if q else 5} k=3{x}"]
        for h in HASH:
            r += [f"hash.near t={h} pre=0,8,33{x}", f"hash.turns t={h} turns=1 done=1 full=0{x}", f"hash.turns t={h} turns=1 pts=8193,16385,70000 done=1 full=0{x}"] if h != "hashtable" else [f"hash.near t={h} pre=0{x}", f"hash.turns t={h} turns=1 pts=1,70000 size=65536 done=1 full=0{x}"]
            r += [f"hash.small t={h} n={4 if q else 6}{x}", f"hash.walk t={h} max={60 if h == 'hashlin' else 70} l=0,1,5,7,8{x}", f"hash.turns t={h} turns=2 full={0 if q else 1}{x}"]
        r += [f"hash.small t=hashdyn n=3 pre=6-18{x}", f"hash.small t=hashlin n=3 pre=29-36,62-66 via=40,100{x}"]
        r += [f"tree.closure n={10 if q else 14}{x}", f"tree.closure n={4 if q else 5} ids=1{x}", f"tree.runs n=0-70{x}", f"tree.runs n=1500 orders=2{x}", f"list.big n=1,2,3,1000,2500{x}", f"hash.turns t=hashtable turns=1 pts=1500,2500 full=0{x}"]
        for h in TRIE:
            r += [f"trie.near t={h} some=1{x}", f"trie.deep t={h} pairs=0 dups=1,4 o=0,2{x}"]
            r += [f"trie.closure t={h} n={4 if q else 5}{x}", f"trie.combos t={h} k=2 dup=1{x}", f"trie.many t={h} n=100,1500{x}"]
        r += [f"trie.closure t=trie n=3 tries=2{x}", f"trie.closure t=trie_inplace n=3 tries=2{x}"]
        if not q:
            r += [*parts(4, f"hash.turns t=hashlin turns=3{x}"), *parts(2, f"hash.turns t=hashdyn turns=3{x}"), f"hash.walk t=hashlin max=130 l=0{x}", *parts(2, f"hash.turns t=hashlin turns=2 l=1{x}"),
                  *parts(2, f"trie.combos t=trie k=2 dup=2{x}"), *parts(2, f"trie.combos t=trie_inplace k=2 dup=2{x}"), f"trie.many t=trie n=3000{x}", f"trie.many t=trie_inplace n=3000{x}",
                  f"tree.sparse h=10{x}"]
    if what in ("all", "heap"):
        r += [f"alloc.closure size=8,24,64 align=8,64 n={4 if q else 6}{x}", f"alloc.sizes count=12{x}" if q else f"alloc.sizes{x}", f"alloc.sizes sizes=8192,16384,65500,65536,100000 aligns=8,64,4096 skews=0,8 count=3{x}"]
        for a in ARRAY:
            r += [f"array.seq t={a} depth={2 if q else 3}{x}", f"array.many t={a} es=1,3,8,24{x}"]
            if a.startswith("arrayblk"):
                r += [f"array.seq t={a} {BLK}{x}"]
        r += ["hash.sizes" + x]
        if not q:
            r += [f"alloc.many{x}", *[f"array.seq t={a} {BLK_BIG} depth=2{x}" for a in ARRAY]]
    return r


def sorts_small(tier):
    q = tier == "quick"
    return [f"sort.weak n=0-{6 if q else 7}", f"sort.alpha a=2 n={12 if q else 16}", *parts(2, f"sort.shapes n={'0-140,255-258,511-514' if q else '0-1100'}")]


def funcs_small(tier):
    return ["func.mem len=40", "func.str len=40 alen=6"] if tier == "quick" else ["func.mem len=100", "func.str len=100 alen=9"]


ALLB = ["o0", "o3", "cxx", "gen", "m32", "m32gen", "m32cxx", "o3g", "c99", "cxx98", "uchar", "cl32", "msc", "msc32"]


def config_jobs(tier):
    q = tier == "quick"
    r = ["list.closure n=5", "sort.weak n=0-6 mags=8", "sort.shapes n=0-140,255-258", "tree.closure n=9", "tree.closure n=7 mag=2", "tree.closure n=6 mag=4", "tree.runs n=0-66", "alloc.closure size=8,24,64 align=8,64 n=4", "alloc.sizes count=8", "hash.sizes"]
    for h in HASH:
        r += [f"hash.small t={h} n=4", f"hash.walk t={h} max={45 if h == 'hashlin' else 40} l=0-11", f"hash.turns t={h} turns=2 full=0", f"hash.order t={h} k=3"]
    for h in TRIE:
        r += [f"trie.closure t={h} n=4", f"trie.combos t={h} k=2 dup=1", f"trie.many t={h} n=300"]
    for a in ARRAY:
        r += [f"array.seq t={a} depth=2", f"array.many t={a} es=1,3,8"]
        if a.startswith("arrayblk"):
            r += [f"array.seq t={a} {BLK} depth=2"]
    r += [*[f"hash.turns t={h} turns=1 pts=0,4097,16385,70000 full=0" for h in HASH[1:]], "hash.turns t=hashtable turns=1 pts=4096,70000 full=0 size=65536", *[f"hash.turns t={h} turns=1 pts=4097,33000 full=0 l=3" for h in HASH[1:]],
          *[f"array.many t={a} n=40000 es=8" for a in ARRAY], *[f"array.huge t={a} from=8 bits=18" for a in ARRAY], *[f"trie.many t={h} n=20000 o=0,3" for h in TRIE], *[f"trie.deep t={h} pairs=0 dups=1,4 o=0" for h in TRIE],
          "sort.shapes n=1023-1025,5000", "tree.runs n=4096 orders=2", "alloc.many n=20000", "list.big n=70000",
          f"big.sort n={M1} s=1,4", f"big.list n={M1}", *[f"big.hash t={h} n={M1} l=1 o=2" + (f" size={M1}" if h == "hashtable" else "") for h in HASH], f"big.tree n={M1} o=2", *[f"big.trie t={h} n={M1} l=1 o=2" for h in TRIE]]
    r += [f"data.any t={k} depth=4" for k in DATA]
    r += ["func.mem len=40", "func.str len=40 alen=6", "func.int64 w=12", "func.bits64 w=12", "func.int32 part=0 parts=64", "func.bits32 part=0 parts=64", "func.int32 part=63 parts=64", "func.bits32 part=63 parts=64", "func.again n=200000"]
    if not q:
        r += ["list.closure n=6", "sort.weak n=7", "tree.closure n=13", "tree.closure n=10 mag=1"]
        for h in HASH:
            r += [f"hash.turns t={h}"]
        for h in TRIE:
            r += [f"trie.closure t={h} n=5", f"trie.combos t={h} k=2 dup=2 part=0 parts=2"]
        r += ["func.mem", "func.str", "func.int64 w=16", "func.bits64 w=16", *parts(8, "func.bits32"), *parts(8, "func.int32")]
    return r


# arrangements of the memory: places and order of nodes, objects and heap blocks, alignments, content of fresh heap memory
PLACES = ["", "rev=1 place=1", "place=1 fill=0", "place=2 stale=1", "rev=1 place=2", "rev=1 place=3 fill=255", "place=3", "pack=1 place=4", "pack=1 rev=1", "place=5"]


def place_jobs(tier):
    q = tier == "quick"
    r = all_small("quick") + sorts_small(tier) + [f"hash.order t={h} k=3" for h in HASH] + data_jobs("quick")
    r += [*[f"hash.turns t={h} turns=1 pts=0,4097,16385,70000 full=0" for h in HASH[1:]], *[f"hash.turns t={h} turns=2 l={x} full=0" for h in HASH for x in (1, 3, 7)], *[f"array.many t={a} n=40000 es=8" for a in ARRAY],
          *[f"trie.many t={h} n=20000 o=0,3" for h in TRIE], "sort.shapes n=1023-1025,5000", "tree.runs n=4096 orders=2", "tree.closure n=12", "list.closure n=6", "alloc.many n=20000"]
    if not q:
        r += [*[f"hash.small t={h} n=6" for h in HASH], *[f"trie.closure t={h} n=5" for h in TRIE], *[f"trie.combos t={h} k=2 dup=2 part=0 parts=2" for h in TRIE], "list.closure n=5 k=3", "list.closure n=7",
              *[f"hash.walk t={h} max={100 if h == 'hashlin' else 150} l={x}" for h in HASH for x in range(12)], *[f"hash.turns t={h} turns=3" for h in HASH], *[f"trie.deep t={h}" for h in TRIE], "tree.closure n=14", "tree.sparse h=11"]
    return list(dict.fromkeys(r))


# earlier lives of the container (elements inserted, removed before the end), and content of its memory before the initialization
LIVES = ["", "sfill=0", "sfill=255", "sfill=1 stale=1", "life=40", "life=70,50 stale=1", "life=33,17 sfill=0", "life=34,33 fill=0", "life=65,1", "life=300,250,1 stale=1", "life=40,20,2 stale=1"]


def life_jobs(tier):
    r = ["list.closure n=5", "list.closure n=4 k=3", "list.big n=1,2,3,1000", "tree.closure n=10", "tree.closure n=4 ids=1", "tree.runs n=0-70", "alloc.closure size=8,24,64 align=8,64 n=4", "alloc.sizes count=12",
         "alloc.many n=5000", "alloc.sizes sizes=8192,16384,65500,65536,100000 aligns=8,64,4096 skews=0,8 count=3", "hash.sizes"] + [j.replace("depth=5", "depth=4") for j in data_jobs("quick")]
    for h in HASH:
        r += [f"hash.small t={h} n=4", f"hash.walk t={h} max={60 if h == 'hashlin' else 70} l=0,1,5,7,8", f"hash.turns t={h} turns=2 full=0", f"hash.turns t={h} turns=2 l=1 full=0", f"hash.near t={h} pre=0,8,33", f"hash.order t={h} k=3"]
    r += ["hash.small t=hashdyn n=3 pre=6-18", "hash.small t=hashlin n=3 pre=29-36,62-66 via=40,100", "hash.turns t=hashtable turns=2 full=0 size=128"]
    for t in TRIE:
        r += [f"trie.closure t={t} n=4", f"trie.combos t={t} k=2 dup=1", f"trie.many t={t} n=100,1500", f"trie.deep t={t} pairs=0 dups=1,4 o=0", f"trie.closure t={t} n=3 tries=2"]
    for a in ARRAY:
        r += [f"array.seq t={a} depth=2", f"array.many t={a} es=1,3,8,24", f"array.huge t={a} from=6 bits=16"] + ([f"array.seq t={a} {BLK} depth=2"] if a.startswith("arrayblk") else [])
    if tier == "thorough":
        r += [*[f"hash.turns t={h} turns=3" for h in HASH], *[f"hash.walk t={h} max={100 if h == 'hashlin' else 150} l={x}" for h in HASH for x in range(12)], *[f"hash.small t={h} n=5" for h in HASH], "tree.closure n=13", "list.closure n=7",
              *[f"trie.closure t={t} n=5" for t in TRIE], *[f"trie.combos t={t} k=2 dup=2" for t in TRIE], *[f"array.seq t={a}" for a in ARRAY], *[f"array.many t={a} n=9000" for a in ARRAY]]
    return r


def everything():
    """the functional explorations of every container, for the builds that see each access"""
    return list_jobs("quick") + tree_jobs("quick") + [j for t in HASH for j in hash_fun(t, "quick")] + [j for t in TRIE for j in trie_fun(t, "quick")]


# builds with other documented parameters of the tries
KEY64 = ["k33", "k48w32", "k64", "k64w16"]
WAYS = ["t8w2", "t4w8", "t16w16", "t32w8", "t32m32", "t8m32"]


def way_jobs(tier, mon=False):
    r = []
    for t in TRIE:
        r += [f"trie.closure t={t} n=4", f"trie.combos t={t} k=2 dup=1" + ("" if mon and tier == "quick" else " all=1"), f"trie.many t={t} n=1000", f"trie.near t={t} some=1", f"trie.deep t={t} pairs=0 dups=1,4 o=0", f"data.any t={t} depth=5"]
        if not mon:
            r += [f"trie.many t={t} n=20000 o=0,3", f"trie.closure t={t} n=3 tries=2", f"big.trie t={t} n={M1} l=1 o=2"]
            if tier == "thorough":
                r += [f"trie.closure t={t} n=5", *parts(4, f"trie.combos t={t} k=2 dup=2"), f"trie.near t={t}", f"trie.deep t={t} dups=1,5 o=0,2,4", f"big.trie t={t} n={M1} l=0-4 o=0,2", f"big.trie t={t} n={M1} l=0-4 o=2 g=3"]
        elif tier == "thorough":
            r += [f"trie.closure t={t} n=5", f"trie.many t={t} n=20000 o=0,3", f"trie.deep t={t} dups=1,5 o=0,2"]
    return r


def jobs(prop, tier):
    q = tier == "quick"
    n = int(prop[1:])
    J = []

    def add(cfg, lst, budget=None):
        for c in ([cfg] if isinstance(cfg, str) else cfg):
            for j in lst:
                J.append((c, j, budget if budget is not None else (240 if q else 600)))

    def again(cfgs):
        """the value of a function is that of its arguments, whatever was called before, however often, and whatever runs at the same time"""
        add("fast", ["func.again n=100000000" if q else "func.again n=4400000000"])
        add(cfgs, ["func.again n=4000000"])
        if n < 25:
            add(["mon", "mon0"], [f"multi.interleave funcs=1 preempt={3 if q else 4}"])

    if n == 1:
        add("fast", list_jobs(tier) + sort_jobs("quick") + [f"list.closure n=5 garbage={g}" for g in (1, 2, 3)])
        add("fast", data_jobs(tier, "list"))
        add("mon", ["list.closure n=6", "list.big n=1,2,3,5000"])
        add("fast", big_list(tier) + big_sort("quick")[:1])
    elif n == 2:
        add("fast", sort_jobs(tier) + list_jobs("quick")[:2])
        add(["o0", "o3g"], ["sort.weak n=0-6 mags=8", "sort.shapes n=0-140,255-258"])
        add("fast", big_sort(tier))
    elif n == 3:
        add("fast", sort_jobs(tier) + big_sort(tier))
    elif n in (4, 5, 6):
        add("fast", hash_fun(HASH[n - 4], tier) + data_jobs(tier, HASH[n - 4]) + big_hash(HASH[n - 4], tier) + (HUGETABLE + ([] if q else ["hash.sizes sizes=536870913 l=0,2,4 n=20"]) if n == 4 else []))
        if not q:
            add("mon", hash_fun(HASH[n - 4], "quick"))
    elif n == 7:
        for t in HASH[1:]:
            add("fast", hash_fun(t, tier) + big_hash(t, tier))
    elif n == 8:
        add("mon", ["hash.walk t=hashlin l=0 max=100", "hash.walk t=hashlin l=8 max=100", "hash.walk t=hashlin l=1 max=70", "hash.walk t=hashlin l=0,8,9 max=45 fifo=1",
                    *parts(4, "hash.turns t=hashlin"), *parts(2, "hash.turns t=hashlin turns=2 l=1"), "hash.turns t=hashlin turns=2 fifo=1", "hash.small t=hashlin n=3 pre=0,29-36,60-68 via=0,40,100,140",
                    "hash.turns t=hashlin turns=1 pts=0,2048,2049,4096,4097,8193,16385,32769,65537,131073 full=0"])
        if not q:
            add("mon", ["hash.walk t=hashlin l=0 max=280", "hash.walk t=hashlin l=8 max=280", "hash.walk t=hashlin l=1 max=140", "hash.walk t=hashlin l=0 max=140 fifo=1", *parts(16, "hash.turns t=hashlin turns=4"),
                        "hash.turns t=hashlin turns=2 pts=0,2047,2048,2049,4095,4096,4097,16384,65536,131072,262144 full=0"])
        add("fast", ["hash.walk t=hashlin l=0 max=120", "hash.turns t=hashlin"])
    elif n in (9, 10):
        add("fast", tree_jobs(tier) + big_tree(tier))
        if n == 9:
            add("fast", data_jobs(tier, "tree"))
            add(["o0", "o3g"], ["tree.closure n=9", *[f"tree.closure n=6 mag={m}" for m in range(1, 9)]])
    elif n in (11, 12):
        add("fast", trie_fun(TRIE[n - 11], tier) + data_jobs(tier, TRIE[n - 11]))
        add("m32", trie_m32(TRIE[n - 11], tier) + [f"big.trie t={TRIE[n - 11]} n={M1} l=1,4 o=2"])
        add("fast", big_trie(TRIE[n - 11], tier))
    elif n == 13:
        for t in TRIE:
            add("fast", trie_fun(t, tier) + big_trie(t, tier))
            add("m32", trie_m32(t, tier) + [f"big.trie t={t} n={M1} l=1,4 o=2"])
    elif n == 14:
        add("fast", data_jobs(tier, *HASH, *TRIE) + [j for t in HASH for j in big_hash(t, tier)[1:3]] + [f"big.trie t={t} n={M1} g=3 l=0-4 o=0,2" for t in TRIE])
        for t in HASH:
            add("fast", LARGE(t) if t != "hashtable" else [])
            add("fast", [f"hash.order t={t}", f"hash.small t={t} n=5 a=0-3", f"hash.near t={t}", f"hash.turns t={t} turns=2 pts=0,100,400,1300 l=5", f"hash.turns t={t} turns=2 pts=0,100,400,1300 l=6", f"hash.turns t={t} turns=2 l=1", f"hash.walk t={t} max={45 if t == 'hashlin' else 50} l=1-7"])
            if not q:
                add("fast", hash_fun(t, tier))
        for t in TRIE:
            add("fast", trie_fun(t, tier))
            add("m32", trie_m32(t, tier))
    elif n == 15:
        add("fast", alloc_jobs(tier) + HUGEBLOCKS)
        add("mon", alloc_jobs("quick"))
    elif n in (16, 17):
        for t in ARRAY:
            add("fast", array_fun(t, tier))
            add("fast", [f"array.seq t={t} depth=2 stale=1", f"array.seq t={t} depth=2 fill=255"])
    elif n == 18:
        add("mon", all_small(tier) + sorts_small(tier) + funcs_small(tier))
        add("asan", [j for j in all_small("quick") if "turns" not in j] + sorts_small("quick") + funcs_small("quick"))
        add("mon", ["hash.turns t=hashlin turns=1 pts=0,4097,65537 full=0", "hash.turns t=hashdyn turns=1 pts=0,4097,65537 full=0",
                    "hash.turns t=hashlin turns=1 done=1 pts=131073,300000 full=0", "hash.turns t=hashdyn turns=1 done=1 pts=131073,300000 full=0", "sort.shapes n=2049,70000,300000",
                    "array.many t=arrayblk n=40000", "array.many t=arrayblkof n=40000 es=1,8", *[f"array.huge t={a} from=8 bits=20" for a in ARRAY], "tree.runs n=65536 orders=1", *[f"trie.many t={t} n=20000 l=2 o=0,3" for t in TRIE], "alloc.many"])
        if not q:
            add("asan32", all_small("quick") + sorts_small("quick") + funcs_small("quick"))
            add("mon", everything() + sort_jobs("quick"))
    elif n == 19:
        add("mon", all_small(tier) + sorts_small(tier)[:1])
        add("mon", ["hash.turns t=hashlin turns=1 pts=0,4097,65537 full=0", "hash.turns t=hashdyn turns=1 pts=0,4097,65537 full=0", "array.huge t=array", "array.huge t=arrayof", "sort.shapes n=2049,5000,70000", "sort.alpha a=3 n=7", "list.big n=5000",
                    "array.many t=arrayblk n=40000", "array.many t=arrayblkof n=40000 es=1,8", "array.huge t=arrayblk from=12 bits=21", "array.huge t=arrayblkof from=12 bits=21", "alloc.many", "tree.runs n=65536 orders=1",
                    *[f"trie.many t={t} n=20000 l=2 o=0,3" for t in TRIE], "hash.turns t=hashlin turns=1 done=1 pts=131073,300000 full=0", "hash.turns t=hashdyn turns=1 done=1 pts=131073,300000 full=0"])
    elif n == 20:
        add("fast", all_small(tier))
        add("fast", ["hash.turns t=hashlin", "hash.turns t=hashdyn", "hash.walk t=hashlin l=0 max=100", "hash.turns t=hashlin turns=1 pts=0,4097,65537 full=0", "hash.turns t=hashdyn turns=1 pts=0,4097,65537 full=0",
                     "array.huge t=array", "array.huge t=arrayof", "alloc.many", *[f"trie.many t={t} n=1000" for t in TRIE], *[f"trie.many t={t} n=300000 l=2 o=0" for t in TRIE], *[x for t in TRIE for x in parts(2, f"trie.deep t={t} pairs=0")],
                     *[f"array.huge t={a} es=1,3,8,24,33,100 from=6 bits=18" for a in ARRAY], "array.huge t=arrayblk from=12 bits=24", "array.huge t=arrayblkof es=1,3 from=12 bits=24", "array.huge t=arrayblkof es=1048576 from=12 bits=13", *LARGE("hashlin")[-1:], *LARGE("hashdyn")[-1:], *[f"array.seq t={a} {BLK_BIG} depth=2" for a in ARRAY]])
        add("fast", [j for t in HASH for j in big_hash(t, tier)[:3]] + big_tree("quick")[1:2] + [j for t in TRIE for j in big_trie(t, tier)[1:]] + ["alloc.many n=1100000 size=16,48"] + HUGEBLOCKS + HUGETABLE)
        add("m32", [x for t in TRIE for x in (f"trie.closure t={t} n=4", f"trie.combos t={t} k=2 dup=1 all=1", f"trie.many t={t} n=20000", *parts(2, f"trie.deep t={t} pairs=0"))])
        if not q:
            for t in HASH[1:]:
                add("fast", hash_fun(t, tier))
            add("m32", all_small("quick"))
    elif n == 21:
        add("fast", data_jobs(tier, "list", "tree", *HASH) + [f"big.list n={M1}", f"big.tree n={M1} o=2", *[big_hash(t, tier)[0] for t in HASH]])
        add("mon", ["list.closure n=6", "list.big n=1,2,1000,65536", "tree.closure n=11", "tree.closure n=4 ids=1", "tree.runs n=0-70,255,1000", "tree.sparse h=8"])
        for t in HASH:
            add("mon", [f"hash.small t={t} n=4", f"hash.walk t={t} max={60 if t == 'hashlin' else 120} l=0,1,3,7,8", f"hash.order t={t} k=3", f"hash.turns t={t} turns=2", f"hash.turns t={t} turns=2 l=8", f"hash.turns t={t} turns=1 l=7 fifo=1"])
        add("mon", ["hash.sizes", "hash.small t=hashdyn n=3 pre=6-18", "hash.small t=hashlin n=3 pre=29-36,62-66 via=40,100"])
        if not q:
            add("mon", ["list.closure n=8", "tree.closure n=15", "tree.closure n=5 ids=1", "tree.runs n=0-300,4096", "tree.sparse h=12"])
            for t in HASH:
                add("mon", [f"hash.small t={t} n=6", *parts(4, f"hash.turns t={t} turns=3"), *[f"hash.walk t={t} max={130 if t == 'hashlin' else 300} l={x}" for x in (0, 1, 3, 7, 8, 9)]])
        add("asan", ["list.closure n=4", "tree.closure n=8", "hash.small t=hashtable n=3", "hash.small t=hashdyn n=3 pre=0,8-17", "hash.small t=hashlin n=3 pre=0,31-34,64"])
    elif n == 22:
        add(["fast", "mon", "gen", "m32"], func_jobs("mem", tier if not q else "quick") if not q else ["func.mem"])
        if q:
            add("fast", ["func.memhuge d=0"])
        add("asan", ["func.mem len=40"])
        add(["msc", "msc32"], ["func.mem len=40"] if q else ["func.mem"])
        again(["mon", "gen", "m32"])
    elif n == 23:
        add(["fast", "mon", "gen", "m32"], func_jobs("str", tier))
        add("asan", ["func.str len=40 alen=6"])
        add(["msc", "msc32"], ["func.str len=40 alen=6"] if q else ["func.str"])
        again(["mon", "gen", "m32"])
    elif n == 24:
        add("fast", func_jobs("int", tier))
        add(["gen", "m32", "msc", "msc32"], ["func.int64 w=12", "func.int32 part=0 parts=64", "func.int32 part=63 parts=64"] if q else func_jobs("int", "quick"))
        again(["mon", "gen", "m32"])
    elif n == 25:
        add(["fast", "gen", "msc"], func_jobs("bits", tier))
        add(["m32", "m32gen", "msc32"], ["func.bits64 w=12", *[f"func.bits32 part={i} parts=64" for i in (0, 31, 32, 63)]] if q else func_jobs("bits", "quick"))
        again(["mon", "gen", "m32", "m32gen"])
    elif n == 26:
        if q:
            add("mon", [*parts(2, "multi.interleave preempt=1 bump=1"), *parts(8, "multi.interleave same=1 preempt=2 bump=1"), "multi.nest all=0", *parts(8, "multi.nest all=0 deep=1")])
            add("mon0", parts(8, "multi.interleave same=1 preempt=2 bump=1"))
            add("fast", [*parts(2, "multi.product n=2 full=0"), *parts(3, "multi.product n=2 arrays=0"), "multi.product kinds=trie_shared+trie_shared n=3", "multi.product kinds=trie_shared+trie_shared+trie_shared n=2",
                         "multi.product kinds=list+hashlin+tree+trie n=2", "multi.product kinds=list+hashdyn+tree+trie_inplace n=2", "multi.product kinds=list+list+list n=3 full=0", "multi.product kinds=hashdyn+hashlin+hashtable n=2",
                         "multi.product kinds=list+hashtable+tree n=3 full=0", "trie.closure t=trie n=3 tries=2", "trie.closure t=trie_inplace n=3 tries=2"])
        else:
            add("mon", [*parts(32, "multi.interleave preempt=2 bump=1"), *parts(32, "multi.interleave all=1 preempt=1 bump=1"), *parts(32, "multi.interleave same=1 preempt=3 bump=1"), "multi.nest all=0", *parts(8, "multi.nest all=1"), *parts(8, "multi.nest all=0 deep=1")])
            add("mon0", [*parts(16, "multi.interleave same=1 preempt=2 bump=1"), *parts(2, "multi.interleave preempt=1 bump=1")])
            add("fast", [*parts(12, "multi.product n=2"), *parts(12, "multi.product n=3 arrays=0"), "multi.product kinds=trie_shared+trie_shared n=4", "multi.product kinds=trie_shared+trie_shared+trie_shared n=3",
                         "multi.product kinds=list+hashlin+tree+trie n=2", "multi.product kinds=list+hashdyn+tree+trie_inplace n=2", "multi.product kinds=list+list+list n=3", "multi.product kinds=hashdyn+hashlin+hashtable n=3 full=0",
                         "multi.product kinds=list+hashdyn+tree+trie_inplace n=3 full=0", "trie.closure t=trie n=3 tries=2", "trie.closure t=trie_inplace n=4 tries=2"])
    elif n == 27:
        add("mon", all_small(tier))
        if not q:
            add("mon", everything() + [j for a in ARRAY for j in array_fun(a, "quick")] + alloc_jobs("quick") + sort_jobs("quick"))
    elif n == 28:
        add("fast", data_jobs(tier))
        add("fast", all_small(tier, "node") + sorts_small(tier) + [f"hash.order t={t} k=3" for t in HASH] + ["hash.sizes"])
        if not q:
            add("fast", sort_jobs("quick") + everything())
            add("mon", everything())
    elif n == 29:
        for g in (0xA5, 1, 2, 3, 4, 5):
            add("mon", all_small("quick", "node", f"garbage={g}") if q else all_small("thorough" if g == 0xA5 else "quick", "node", f"garbage={g}"))
        add("fast", ["list.closure n=6", "list.closure n=6 garbage=2", "tree.closure n=12 garbage=3", "tree.closure n=12 garbage=2"])
        if not q:
            add("mon", everything())
    elif n == 30:
        add("mon", ["list.closure n=6", "list.closure n=4 k=3", "list.big", "list.big n=300000", "alloc.closure size=8,24,64 align=8,64 n=5", "alloc.many", "alloc.many n=300000 size=8,64", *[f"array.huge t={a} from=6 bits=20" for a in ARRAY], *[f"array.many t={a} n=300000 es=8" for a in ARRAY], *[f"array.seq t={a} depth=2" for a in ARRAY], *[f"array.many t={a} n=5000 es=8" for a in ARRAY],
                    *[f"array.seq t={a} {BLK_BIG} depth=2 es=8" for a in ARRAY], *[f"trie.closure t={t} n=4" for t in TRIE], *[f"trie.combos t={t} k=2 dup=1" for t in TRIE], *[f"trie.many t={t} n=100,3000" for t in TRIE],
                    *[f"trie.deep t={t} pairs=0" for t in TRIE], *[f"trie.deep t={t} pairs=0 few=97 dups=3000 o=0,3" for t in TRIE], *[f"trie.deep t={t} pairs=0 few=3001 dups=3000 o=0 lo=1-31" for t in TRIE]])
        if not q:
            add("mon", ["list.closure n=8", "list.big n=300000", "alloc.closure size=8,24,64,1000 align=8,64 n=8", "alloc.many n=300000 size=8,64", *[f"trie.many t={t} n=30000" for t in TRIE], *[f"trie.closure t={t} n=6" for t in TRIE],
                        *[x for t in TRIE for x in parts(4, f"trie.combos t={t} k=3 dup=0")], "array.huge t=array", "array.huge t=arrayof"])
    elif n == 31:
        add(ALLB, config_jobs(tier))
    elif n == 32:
        add("fast", [f"{j} {v}".strip() for v in PLACES + ["noff=8 skew=8"] for j in place_jobs(tier)])
        add("m32", [f"{j} {v}".strip() for v in ["", "rev=1 place=1", "place=2 stale=1", "rev=1 place=2", "place=3 fill=255", "noff=4 skew=4"] for j in place_jobs("quick")])
    elif n == 33:
        add(WAYS + KEY64, way_jobs(tier))
        add(["mont32", "monk64"], way_jobs(tier, True))
    elif n == 34:
        for t in HASH:
            m = 90 if t == "hashlin" else 160
            add("mon", [f"hash.walk t={t} l={x} max={m}" for x in range(12)] + [f"hash.walk t={t} l=0,1,5,7 max=40 fifo=1", f"hash.small t={t} n=4", f"hash.order t={t} k=3"])
            add("mon", [f"hash.turns t={t} turns=2 full=0", f"hash.turns t={t} turns=2 full=0 l=7", f"hash.turns t={t} turns=1 l=1 pts=1500 full=0", *[f"hash.turns t={t} turns=1 l={x} pts=5000 full=0" for x in (2, 3, 5, 10, 11)]])
            add("mon", [f"hash.near t={t} dup=1,200 k=12 pre=0,1,7,8,15,16,20,31,32,33,40,47,48,63,64,65,90,100,127,128 size={z}" for z in (0, *((64, 65536) if t == "hashtable" else ()))])
            if t != "hashtable":
                add("mon", [f"hash.turns t={t} turns=1 pts=4096,16385,65537 full=0 l={x}" for x in (0, 3, 7)])
            else:
                add("mon", [f"hash.turns t={t} turns=1 pts=4096,65537 full=0 size=65536 l={x}" for x in (0, 3, 7)] + ["hash.sizes"])
            if not q:
                add("mon", [f"hash.walk t={t} l={x} max={120 if t == 'hashlin' else 300}" for x in range(12)] + [*parts(4, f"hash.turns t={t} turns=3"), f"hash.turns t={t} turns=2 l=1", f"hash.small t={t} n=6", f"hash.small t={t} n=5 a=0-3", *[f"hash.turns t={t} turns=1 l={x} pts=20000 full=0" for x in (2, 3, 5, 10, 11)],
                        *[f"hash.turns t={t} turns=2 full=0 l={x}" for x in range(12)], *[f"hash.turns t={t} turns=2 fifo=1 full=0 l={x}" for x in (0, 3, 8, 9)], *[f"hash.turns t={t} turns=1 pts=262145,524289 full=0 l={x}" + (" size=524288" if t == "hashtable" else "") for x in (0, 3, 7)]])
    elif n == 35:
        for t in HASH[1:]:
            m = 110 if t == "hashlin" else 400
            add("mon", [f"cost.walk t={t} max={m}", f"cost.walk t={t} max={m * 2 // 3} fifo=1", *[f"cost.walk t={t} max={m // 2} l={x}" for x in (8, 9)], *parts(6, f"cost.turns t={t}")])
            add("mon", [f"cost.turns t={t} n=1-70,127-130,255-258,1023-1026,4095-4098 l={x}" for x in (3, 7, 8, 9)])
            if not q:
                m = 140 if t == "hashlin" else 1100
                add("mon", [f"cost.walk t={t} max={m}", f"cost.walk t={t} max={m * 2 // 3} fifo=1", *parts(12, f"cost.turns t={t} n=1-1100,2040-2056,4090-4104,8186-8200,16380-16390,32764-32774,65532-65542,131070-131078")])
        add("mon", ["cost.turns t=hashtable n=1-40,4096", "alloc.turns", "alloc.turns size=64 n=400-1100:50,5000", "alloc.many", "alloc.sizes count=12", *BIGBLOCKS])
        for a in ARRAY:
            add("mon", [f"array.many t={a}", f"array.many t={a} n=40000,300000 es=8", f"array.seq t={a} depth=3", f"array.huge t={a} es=1,3,8,24,100 from=6 bits=20"])
            if not q:
                add("mon", array_fun(a, "quick"))
        if not q:
            add("mon", alloc_jobs("thorough"))
    elif n == 36:
        for c in ("fast", "m32"):
            add(c, alloc_jobs(tier if c == "fast" else "quick"))
            for a in ARRAY:
                add(c, array_fun(a, tier if c == "fast" else "quick"))
            add(c, ["hash.sizes", "hash.sizes sizes=4095-4097,65535-65537,100000,1048575-1048577,1500000 n=4"])
            t = "trie"
            add(c, [f"trie.closure t={t} n=4", f"trie.combos t={t} k=2 dup=1 all=1", f"trie.many t={t} n=1000,20000", f"trie.near t={t} some=1", *parts(4, f"trie.deep t={t} pairs=0"), f"trie.closure t={t} n=3 tries=2"])
        add("fast", HUGEBLOCKS)
        for t in TRIE[:1]:
            add("fast", [f"trie.many t={t} n=300000 l=2 o=0,3"])
            if not q:
                add("fast", [f"trie.closure t={t} n=5", *parts(4, f"trie.combos t={t} k=2 dup=2"), *parts(4, f"trie.deep t={t}")])
        add(WAYS + KEY64, ["trie.closure t=trie n=3", "trie.combos t=trie k=2 dup=1", "trie.many t=trie n=3000 o=0"])
    elif n == 37:
        r = ["list.closure n=5", "list.big n=65536,300000", "sort.alpha a=3 n=8", "sort.shapes n=0-70,1023-1025", "sort.shapes n=70000,300000", "tree.closure n=11", "tree.runs n=4096,65536 orders=1", "tree.runs n=300000 orders=1", "tree.sparse h=8", "tree.sparse h=16 from=16 step=97", "tree.runs n=4096 orders=6",
             "alloc.closure size=8,64 align=8,64 n=4", "alloc.many n=200000 size=8,64", *BIGBLOCKS]
        for t in HASH:
            sz = " size=131072" if t == "hashtable" else ""
            r += [f"hash.turns t={t} turns=1 pts=4096,131073 full=0{sz}", f"hash.turns t={t} turns=2 l=1 pts=0,3000 full=0", f"hash.turns t={t} turns=2 full=0", f"hash.small t={t} n=4", f"hash.turns t={t} turns=1 done=1 pts=131073 full=0{sz}"]
        for t in TRIE:
            r += [f"trie.closure t={t} n=4", f"trie.combos t={t} k=2 dup=1", f"trie.many t={t} n=20000 o=0", f"trie.deep t={t} pairs=0 few=97 dups=3000 o=0,3", f"trie.many t={t} n=300000 l=2 o=0"]
        for a in ARRAY:
            r += [f"array.many t={a} n=40000,300000 es=8", f"array.seq t={a} depth=2", f"array.huge t={a} from=8 bits={24 if 'blk' in a else 20}"]
        add("mon", r + funcs_small(tier))
        add("mon0", [j for j in r if "300000" not in j])
        if not q:
            add("mon", all_small("thorough") + sorts_small("thorough") + ["list.big n=1000000", "sort.shapes n=1000000", "tree.runs n=1000000 orders=1"])
    elif n == 38:
        lives = LIVES if q else LIVES + ["life=5000,4900 stale=1", "life=1000", "life=129,128 sfill=0 stale=1", "sfill=2", "sfill=170"]
        add("fast", [f"{j} {v}".strip() for v in lives for j in life_jobs(tier)])
        tiny = ["list.closure n=3", "tree.closure n=5", "alloc.closure size=24 align=8 n=2", *[f"hash.small t={h} n=2" for h in HASH], *[f"trie.closure t={t} n=2" for t in TRIE], *[f"array.seq t={a} depth=1" for a in ARRAY]]
        turns = [f"hash.turns t={h} turns=2 pts=0,20,40,60 full=0" for h in HASH]
        # words of the structure zero or not, in each combination of any two of them
        add(["fast", "m32"], [f"{j} sfill={v}" for v in range(256, 264) for j in tiny + turns])
        # short lives, all of them; longer ones of tables
        add("fast", [f"{j} life={x},{y}" for x in range(1, 7 if q else 13) for y in range(x + 1) for j in tiny])
        add("fast", [f"{j} life={x},{x // 2},{z} stale=1" for x in (1, 2, 5, 33, 70) for z in (1, 2) for j in tiny + ["alloc.closure size=8,64 align=8,64 n=3"] + [f"array.seq t={a} depth=2" for a in ARRAY]])
        add("fast", [f"{j} life={x},{y} stale={x & 1}" for x in ([*range(7, 70, 3), 127, 128, 129] if q else range(7, 300)) for y in {0, x // 2, x - 1, x} for j in turns[1:] + tiny[4:6]])
        for c in ("mon", "m32"):
            add(c, [f"{j} {v}".strip() for v in ["", "sfill=0", "life=33,17 stale=1", "life=70,50"] for j in life_jobs("quick") if not j.startswith(("hash.turns", "alloc.sizes"))])
    elif n == 39:
        add("mon", ["list.closure n=6", "list.closure n=4 k=3", "list.big n=1,1000,65536,300000", "sort.weak n=0-7", "sort.alpha a=2 n=14", "sort.alpha a=3 n=9", *parts(4, f"sort.shapes n=0-{300 if q else 1100}"), "sort.shapes n=1023-1025,2047-2049,4095-4097", "sort.shapes n=65535-65537",
                    "sort.shapes n=300000", "sort.displaced n=30", "sort.runs n=30", "tree.closure n=12", *[f"tree.closure n=8 mag={m}" for m in (1, 4, 8)], "tree.runs n=0-200", "tree.runs n=4096,65536 orders=2", "tree.sparse h=10", "tree.sparse h=15 from=15 step=211", "alloc.many", "alloc.many n=200000 size=8,64", "alloc.sizes count=12"])
        for t in HASH:
            add("mon", [f"hash.small t={t} n=4", f"hash.walk t={t} max={60 if t == 'hashlin' else 100} l=0,1,5,7,8", f"hash.turns t={t} turns=2", f"hash.turns t={t} turns=1 l=1 pts=3000", *[f"hash.turns t={t} turns=1 pts=4096,65537 full=0 l={x}" + (" size=65536" if t == "hashtable" else "") for x in (0, 3, 7)]])
        for a in ARRAY:
            add("mon", [f"array.many t={a} n=40000,300000 es=8", f"array.seq t={a} depth=2", f"array.huge t={a} from=6 bits=20"])
        if not q:
            add("mon", tree_jobs("quick") + [f"hash.turns t={t} turns=3" for t in HASH] + parts(8, "sort.weak n=8") + ["sort.alpha a=2 n=19", "sort.alpha a=3 n=13", "sort.alpha a=4 n=9", *parts(16, "sort.weak n=9"), *parts(8, "sort.shapes n=1100-2300"), "sort.displaced n=70", "sort.runs n=70", "tree.closure n=15", "tree.closure n=18 lite=1", *parts(2, "tree.sparse h=14 from=11"),
                "list.closure n=8", "list.closure n=5 k=4", *[f"hash.walk t={t} max={130 if t == 'hashlin' else 300} l={x}" for t in HASH for x in range(12)], *[f"hash.turns t={t} turns=2 l=1" for t in HASH], *[f"hash.small t={t} n=6" for t in HASH]])
    return J


ASSUME = [
    "the explorations are exhaustive within the bounds named in each exploration line (number of elements, keys of the alphabets, sizes of the schedules); outside them nothing is claimed",
    "calls are valid as documented: initialized containers, nodes in one container at a time, elements of the range of the type, consistent comparison functions",
    "the heap never fails (the library does not check the result of its allocation hooks) and returns addresses aligned to a pointer at least",
    "compilers and flags are those of the builds listed; x86, little endian",
]
MORE = {
    "C03": ["the bound is N*ceil(log2(N)) + 3N + 4 comparisons, and 3N + 2 for inputs already ordered, all equal, or strictly decreasing"],
    "C07": ["proportion is: at least 2 buckets per element, at most 16 per element plus 16, or the initial size; an emptied table has its initial size"],
    "C08": ["small constant: 160 memory accesses for an insertion or a removal with evenly spread hashes (63 and 84 measured), accesses to the stack not counted"],
    "C22": ["the reference is lookup3 written from its published description, validated against the published values at every run"],
    "C25": ["64 bit values are all those within a window of w bits over zeros and ones, and all with at most four bits set or clear, not the whole domain"],
    "C24": ["32 bit keys are all enumerated; for 64 bits, windows of w bits and all the keys with at most four bits set or clear are compared with the published function"],
    "C26": ["interleavings are of memory accesses of the monitored build, as on a sequentially consistent machine; where two operations have no conflicting access every interleaving is equivalent to the sequential ones"],
    "C34": ["small multiple means: 160 memory accesses, and 12 for each element of the bucket involved, accesses to the stack not counted; operations resizing the table are the matter of C35"],
    "C35": ["the average is over 150 memory accesses per operation, with a constant of 4096 and, for the histories not starting from the empty table, of one resize more; arrays and allocator: 60 per call and 4 for each word added"],
    "C36": ["the bounds: 2.5 times the blocks and their alignment, and a segment, for the allocator; twice the elements, or 64, for the arrays; twice the requested buckets, or 16, for the fixed table; as many inner nodes as the digits in common of the keys for the tries"],
    "C39": ["linear means 24 accesses per element, 4 per word of table, and 64; sort is 24*N*(ceil(log2 N)+3) + 1000; an operation of the tree is 240 per element that may be on its path, and 240"],
    "C37": ["bounded means: 16 KiB of stack below the caller, for any size (1328 bytes measured)"],
    "C30": ["bounded means: list 40, allocator 40, array 40 and trie 1500 memory accesses per operation, accesses to the stack not counted"],
}


def assumptions(prop):
    return ASSUME + MORE.get(prop, [])


TECH = {
    1: "exhaustive explicit-state exploration (breadth first to the fixpoint) of the real list code over all operation histories, in lockstep with a sequence model",
    2: "exhaustive enumeration of all inputs: every weak ordering of up to 8 (9) elements, every sequence over small alphabets, parametric families at every length, executed on the real sort and compared with a stable reference",
    3: "exhaustive enumeration of sort inputs on the real code, counting comparison calls against the bound",
    4: "explicit-state exploration to the fixpoint of the real hashtable over all operation histories for every size and hash alphabet, in lockstep with a multimap model",
    5: "explicit-state exploration of the real hashdyn through every growth and shrink, in lockstep with a multimap model",
    6: "explicit-state exploration of the real hashlin through every intermediate resize state, in lockstep with a multimap model",
    7: "explicit-state exploration of grow/shrink histories of the real dynamic tables with a size invariant at every state",
    8: "explicit-state exploration of grow/shrink histories with every memory access of the real code counted, in every resize state",
    9: "explicit-state exploration of all operation histories of the real tree (all AVL shapes up to the bound), in lockstep with an ordered set model",
    10: "explicit-state exploration of all reachable tree shapes, the shape reconstructed from the search paths of the real code and checked for balance",
    11: "explicit-state exploration of all operation histories of the real trie over key alphabets covering every digit combination, in lockstep with a multimap model",
    12: "explicit-state exploration of all operation histories of the real inplace trie over key alphabets covering every digit combination, in lockstep with a multimap model",
    13: "explicit-state exploration of trie histories, inner memory of each reached state compared with that of a fresh trie with the same keys",
    14: "explicit-state exploration of histories with equal keys across resizes and reorganizations, order compared with an insertion-ordered model",
    15: "explicit-state exploration of alloc/free histories of the real allocator for every size, alignment and heap address class, with painted blocks and access monitoring",
    16: "exhaustive enumeration of grow/store/insert sequences on the real arrays for every element size class, in lockstep with a map model",
    17: "exhaustive enumeration of grow sequences on the real arrays with every element address and heap call recorded",
    18: "explicit-state exploration of all containers with every memory access of the real code checked against an ownership map, and heap accounting at deinitialization of every state",
    19: "explicit-state exploration of all containers with every heap call intercepted and attributed to the operation in progress",
    20: "explicit-state exploration of all containers with reported memory usage compared with the heap ledger in every state",
    21: "explicit-state exploration of all containers; in every reached state foreach is run with counting callbacks and with callbacks that release the element, under access monitoring",
    22: "exhaustive enumeration of key lengths, alignments, single byte contents and boundary values against a lookup3 reference, under access monitoring",
    23: "exhaustive enumeration of string lengths, alignments, contents over an alphabet and bytes following the terminator, under access monitoring",
    24: "exhaustive enumeration of the whole 32 bit domain against the reference and its inverse; window-exhaustive enumeration for 64 bits",
    25: "exhaustive enumeration of the whole 32 bit domain in every code path; window-exhaustive enumeration for 64 bits",
    26: "controlled scheduler over the real code: all interleavings of memory accesses of operation pairs up to a preemption bound with a conflict analysis, all nestings in callbacks, and product state-space exploration of several containers",
    27: "explicit-state exploration of all containers with writes trapped during read only operations, and memory images compared around unsuccessful updates",
    28: "explicit-state exploration of all containers with every callback invocation checked in every state",
    29: "explicit-state exploration with all node contents before insertion among hostile patterns, and nodes made inaccessible and scribbled at removal",
    30: "explicit-state exploration with memory accesses of every operation counted against a constant",
    32: "explicit-state exploration of every container under every arrangement of the memory (addresses, order, alignment, fresh heap content), in lockstep with the models and with digests of the observations compared among the arrangements",
    33: "explicit-state exploration of trie histories on builds with each documented number of branches and key bits, in lockstep with the multimap model",
    34: "explicit-state exploration of the real tables with the memory accesses of every operation counted, against the number of elements of the bucket involved",
    35: "explicit-state exploration of the real tables as a graph of states with edges weighted by the measured memory accesses: no cycle and no path over the average; exhaustive enumeration of back and forth histories around each size",
    36: "explicit-state exploration of allocator, arrays, tables and tries with the heap ledger compared in every state with a bound computed from the elements",
    37: "explicit-state exploration of all containers with the stack pointer of every function of the library recorded in every operation",
    38: "explicit-state exploration of every container in memory with any content and after earlier lives of the same container, in lockstep with the models and with digests of the observations compared among the lives",
    39: "explicit-state exploration of all containers with the memory accesses of every traversal, release, sort and tree operation counted against the number of elements",
    31: "the same explorations, in lockstep with the same models, on twelve more builds of the library",
}
NOTE = {
    24: "64 bit domain only over windows; all 2^32 keys for 32 bits",
    25: "64 bit domain only over windows; all 2^32 values for 32 bits",
}


def write_manifest(root):
    props = [json.loads(x) for x in open(os.path.join(root, "properties.jsonl"))]
    checks = []
    for p in props:
        n = int(p["id"][1:])
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 vf.py check {p['id']} quick",
            "thorough_cmd": f"python3 vf.py check {p['id']} thorough",
            "level": "model_checking",
            "technique": TECH[n],
            "level_note": NOTE.get(n, "exhaustive within the bounds listed in the evidence, on the real code compiled from the working tree; the model is bound to the code by running both in lockstep on every explored edge"),
        })
    m = {"version": 1, "setup_cmd": "python3 vf.py build", "checks": checks, "not_applicable": [],
         "notes": "No hooks are needed in /repo: the library is compiled from its working tree through mc/shim.c, with its documented heap hooks redefined."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
