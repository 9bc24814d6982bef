# The scopes (bounds) explored for each property.
NOTES = {
    "C26": ("explicit-state exploration of the graph of types (states: types, transitions: type constructors), each type instantiated and the answers compared with <type_traits>",
            "all types of the grammar up to the nesting depths listed in bin/scopes.py (drivers traits*)"),
}
CT = ["-O0", "-g0", "-fno-sanitize=all"]  # everything is decided at compile time
DRIVERS = {
    # name: (source, extra compiler flags)
    "list": ("drv_list.cpp", []),
    "flist": ("drv_slist.cpp", ["-DKIND=1"]),
    "blist": ("drv_slist.cpp", ["-DKIND=2"]),
    "lqueue": ("drv_slist.cpp", ["-DKIND=3"]),
    "map": ("drv_tree.cpp", ["-DKIND=1"]),
    "set": ("drv_tree.cpp", ["-DKIND=2"]),
    "rbtree": ("drv_tree.cpp", ["-DKIND=3"]),
    "vec": ("drv_vec.cpp", ["-DKIND=1"]),
    "fvec": ("drv_vec.cpp", ["-DKIND=2"]),
    "svmap": ("drv_vmap.cpp", ["-DKIND=1"]),
    "vmap": ("drv_vmap.cpp", ["-DKIND=2"]),
    "bitset": ("drv_bitset.cpp", []),
    "algo": ("drv_algo.cpp", []),
    "types": ("drv_types.cpp", []),
    "array": ("drv_util.cpp", []),
    "traits": ("drv_traits.cpp", CT + ["-DBASES=1", "-DDEPTH=3"]),
    "traits2": ("drv_traits.cpp", CT + ["-DBASES=2", "-DDEPTH=5"]),
    "traits3": ("drv_traits.cpp", CT + ["-DBASES=3", "-DDEPTH=5"]),
    "traits4": ("drv_traits.cpp", CT + ["-DBASES=4", "-DDEPTH=5"]),
    "traits5": ("drv_traits.cpp", CT + ["-DBASES=5", "-DDEPTH=3", "-DBOUNDS"]),
    "traits_deep": ("drv_traits.cpp", CT + ["-DBASES=1", "-DDEPTH=4"]),
    "traits2_deep": ("drv_traits.cpp", CT + ["-DBASES=2", "-DDEPTH=7"]),
    "traits3_deep": ("drv_traits.cpp", CT + ["-DBASES=3", "-DDEPTH=6"]),
}

# the other sides of the conditional compilation: C++98, char and wchar_t without a sign
OLD = ["-include", "old.hpp"]
DRIVERS["array_old"] = ("drv_util.cpp", OLD)
DRIVERS["fvec_old"] = ("drv_vec.cpp", ["-DKIND=2", "-DELEM_ALIGN=16"] + OLD)
DRIVERS["traits_old"] = ("drv_traits.cpp", CT + ["-DBASES=1", "-DDEPTH=3"] + OLD)
DRIVERS["traits_uchar"] = ("drv_traits.cpp", CT + ["-DBASES=1", "-DDEPTH=3", "-funsigned-char"])
DRIVERS["traits_uwchar"] = ("drv_traits.cpp", CT + ["-DBASES=1", "-DDEPTH=3", "-fshort-wchar"])

# elements that need an alignment of 16, in objects that are placed where they have only the alignment they ask for
for d_ in ("list", "flist", "blist", "lqueue", "map", "set", "vec", "fvec", "svmap", "vmap", "array"):
    DRIVERS[d_ + "_al"] = (DRIVERS[d_][0], DRIVERS[d_][1] + ["-DELEM_ALIGN=16"])

def S(driver, quick=None, thorough=None, classes=None, **base):
    d = dict(driver=driver, base=base)
    if quick is not None:
        d["quick"] = quick
    d["thorough"] = thorough if thorough is not None else quick
    if classes:
        d["classes"] = classes
    return d

PROPS = {}
PROPS["C10"] = dict(classes="value,stable", scopes=[
    S("list", dict(cap=5), dict(cap=6), grp="seq", alpha=2),
    S("list", dict(cap=3), dict(cap=4), grp="seq", alpha=3, elem="int"),
    S("list", dict(cap=3), dict(cap=4), grp="seq", nobj=2, alpha=1),
    S("list", dict(init=20), dict(init=40), grp="seq", depth=2, alpha=1, cnt=1),
])
PROPS["C11"] = dict(classes="value,stable", scopes=[
    S("list", dict(cap=4), dict(cap=5), grp="xfer,build", nobj=2, alpha=2),
    S("list", dict(cap=3), dict(cap=4), grp="xfer,build", nobj=2, alpha=3),
    S("list", dict(cap=6), dict(cap=7), grp="xfer,build", alpha=2),
])

PROPS["C12"] = dict(classes="value,stable", scopes=[
    S("flist", dict(cap=5), dict(cap=7), grp="seq,xfer", alpha=2),
    S("flist", dict(cap=3), dict(cap=4), grp="seq,xfer", alpha=3, elem="int"),
    S("flist", dict(cap=4), dict(cap=5), grp="seq,xfer", nobj=2, alpha=1),
    S("flist", dict(cap=3), dict(cap=4), grp="seq,xfer", nobj=2, alpha=2),
    S("flist", dict(init=20), dict(init=40), grp="seq,xfer", depth=2, alpha=1, cnt=1),
])
PROPS["C13"] = dict(classes="value,stable", scopes=[
    S("blist", dict(cap=5), dict(cap=7), grp="seq,xfer,copy", alpha=2),
    S("blist", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", alpha=3, elem="int"),
    S("blist", dict(cap=4), dict(cap=5), grp="seq,xfer,copy", nobj=2, alpha=1),
    S("blist", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", nobj=2, alpha=2),
    S("blist", dict(init=20), dict(init=40), grp="seq,xfer", depth=2, alpha=1, cnt=1),
])
PROPS["C14"] = dict(classes="value,stable,cost,life", scopes=[
    S("lqueue", dict(cap=4, pool=3), dict(cap=6, pool=4), grp="seq,xfer,copy", alpha=2),
    S("lqueue", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", alpha=3, elem="int"),
    S("lqueue", dict(cap=3, pool=2), dict(cap=4, pool=3), grp="seq,xfer,copy", nobj=2, alpha=1),
    S("lqueue", dict(cap=2, pool=2), dict(cap=3, pool=3), grp="seq,xfer,copy", nobj=2, alpha=2),
    S("lqueue", dict(init=20), dict(init=40), grp="seq,xfer", depth=2, alpha=1, cnt=1),
])

def TREE(d, cmps, q, t, **kw):
    return [S(d, dict(cap=q, cmp=c), dict(cap=t, cmp=c), mode="rank", **kw) for c in cmps]

for P, D in (("C01", "map"), ("C02", "set")):
    PROPS[P] = dict(classes="value", scopes=[
        S(D, dict(cap=14, cmp=0), dict(cap=18, cmp=0), mode="rank", grp="seq"),
        S(D, dict(cap=11, cmp=1), dict(cap=16, cmp=1), mode="rank", grp="seq"),
        S(D, dict(init=32), dict(init=64), mode="rank", depth=2, grp="seq"),
        S(D, dict(univ=4, cap=4), dict(univ=5, cap=5), mode="univ", grp="seq", cmp=2),
        S(D, dict(univ=4, cap=4), dict(univ=5, cap=5), mode="univ", grp="seq", cmp=3, elem="int"),
        S(D, dict(univ=7, cap=7), dict(univ=9, cap=9), mode="univ", grp="copy", cmp=2, elem="int"),
        S(D, dict(univ=3, cap=3, vals=2), dict(univ=4, cap=4, vals=2), mode="univ", grp="copy", nobj=2, cmp=2),
    ])
    if D == "map":
        PROPS[P]["scopes"].append(S(D, dict(univ=3, cap=3), dict(univ=4, cap=4), mode="univ", grp="seq", vals=3, cmp=2, elem="int"))
PROPS["C03"] = dict(classes="bound", scopes=sum([[
    S(D, dict(cap=14), dict(cap=18), mode="rank", grp="seq"),
    S(D, dict(cap=10), dict(cap=15), mode="rank", grp="seq", cmp=3),
    S(D, dict(init=32), dict(init=64), mode="rank", depth=2, grp="seq"),
    S(D, dict(univ=6, cap=6), dict(univ=9, cap=9), mode="univ", grp="copy", cmp=2, elem="int"),
    S(D, dict(univ=3, cap=3), dict(univ=4, cap=4), mode="univ", grp="copy", nobj=2, cmp=3),
] for D in ("map", "set")], []))
PROPS["C04"] = dict(classes="iter,stable", scopes=sum([[
    S(D, dict(cap=14), dict(cap=18), mode="rank", grp="seq"),
    S(D, dict(cap=10), dict(cap=15), mode="rank", grp="seq", cmp=3),
    S(D, dict(init=32), dict(init=64), mode="rank", depth=2, grp="seq"),
    S(D, dict(univ=6, cap=6), dict(univ=9, cap=9), mode="univ", grp="copy", cmp=2, elem="int"),
    S(D, dict(univ=3, cap=3), dict(univ=4, cap=4), mode="univ", grp="copy", nobj=2, cmp=3),
] for D in ("map", "set")], []))
PROPS["C05"] = dict(classes="bal,cost", scopes=[
    S("rbtree", dict(cap=17), dict(cap=22), mode="rank", grp="seq"),
    S("rbtree", dict(cap=12), dict(cap=18), mode="rank", grp="seq,copy", cmp=1),
    S("rbtree", dict(cap=8), dict(cap=10), mode="rank", grp="seq,copy", dup=1),
    S("rbtree", dict(cap=11, univ=2), dict(cap=16, univ=2), mode="univ", grp="seq", dup=1),
    S("rbtree", dict(init=40), dict(init=80), mode="rank", depth=2, grp="seq"),
    S("rbtree", dict(init=24), dict(init=48), mode="rank", depth=2, grp="seq", dup=1),
    S("rbtree", dict(imin=200, init=200), dict(imin=400, init=402), mode="rank", depth=2, grp="seq"),
    S("map", dict(cap=13), dict(cap=17), mode="rank", grp="seq,copy"),
    S("set", dict(cap=13), dict(cap=17), mode="rank", grp="seq,copy"),
    S("map", dict(imin=128, init=128), dict(imin=300, init=300), mode="rank", depth=2, grp="seq"),
    S("set", dict(imin=128, init=128), dict(imin=300, init=300), mode="rank", depth=2, grp="seq", cmp=1),
])
PROPS["C06"] = dict(classes="value,stable,iter,bound", scopes=[
    S("rbtree", dict(cap=9), dict(cap=11), mode="rank", grp="seq", dup=1),
    S("rbtree", dict(cap=7), dict(cap=9), mode="rank", grp="seq,copy", dup=1, cmp=1),
    S("rbtree", dict(cap=9, univ=4), dict(cap=12, univ=4), mode="univ", grp="seq", dup=1),
    S("rbtree", dict(cap=12, univ=2), dict(cap=17, univ=2), mode="univ", grp="seq", dup=1, cmp=3, elem="int"),
    S("rbtree", dict(cap=16, univ=1), dict(cap=24, univ=1), mode="univ", grp="seq", dup=1),
    S("rbtree", dict(init=24), dict(init=48), mode="rank", depth=2, grp="seq", dup=1),
    S("rbtree", dict(cap=4, univ=2), dict(cap=5, univ=3), mode="univ", grp="copy,seq", nobj=2, dup=1),
    S("rbtree", dict(cap=14), dict(cap=18), mode="rank", grp="seq"),
])

PROPS["C07"] = dict(classes="value", scopes=[
    S("vec", dict(cap=3), dict(cap=4), grp="seq", alpha=2),
    S("vec", dict(cap=4), dict(cap=5), grp="seq", alpha=1, cnt=3, elem="int"),
    S("vec", dict(cap=3), dict(cap=4), grp="seq", alpha=3, cnt=3, elem="char"),
    S("vec", dict(cap=2), dict(cap=3, alpha=1), grp="seq", nobj=2, alpha=2),
    S("vec", dict(init=9), dict(init=16), grp="seq", depth=2, cnt=5, slack=6, alpha=1),
    S("vec", dict(init=6), dict(init=8), grp="seq", depth=3, alpha=1),
    S("vec", dict(init=40), dict(init=80), grp="seq", depth=2, cnt=2, slack=3, alpha=1, elem="int"),
])
PROPS["C08"] = dict(classes="cap", scopes=[
    S("vec", dict(cap=4), dict(cap=5), grp="seq", alpha=1, cnt=3),
    S("vec", dict(cap=3), dict(cap=4), grp="seq", alpha=2, elem="int"),
    S("vec", dict(cap=3), dict(cap=4), grp="copy", nobj=2, alpha=1, elem="int"),
    S("vec", dict(init=9), dict(init=16), grp="seq", depth=2, cnt=5, slack=6, alpha=1),
    S("vec", dict(init=5), dict(init=8), grp="seq", depth=3, alpha=1),
    S("vec", dict(init=40), dict(init=80), grp="seq", depth=2, cnt=2, slack=3, alpha=1, elem="int"),
])
PROPS["C09"] = dict(classes="value,cost,mem", scopes=[
    S("fvec", dict(N=1), grp="seq,copy,alias", alpha=3, cnt=3),
    S("fvec", dict(N=2), grp="seq", nobj=2, alpha=2),
    S("fvec", dict(N=3), grp="seq", alpha=3, cnt=4),
    S("fvec", dict(N=4, elem="int"), dict(N=4, alpha=3), grp="seq", alpha=2, cnt=4),
    S("fvec", dict(N=5, elem="char", alpha=1), dict(N=5, alpha=2), grp="seq", cnt=3),
    S("fvec", dict(N=3), grp="copy", nobj=2, alpha=2, elem="int"),
    S("fvec", dict(N=24, init=24, elem="int"), dict(N=24, init=24), grp="seq", depth=2, cnt=3, alpha=1),
])
PROPS["C17"] = dict(classes="value,bound,stable", scopes=[
    S("svmap", dict(cap=5, univ=5), dict(cap=6, univ=6), grp="seq", vals=1),
    S("svmap", dict(cap=4, univ=4), dict(cap=5, univ=5), grp="seq", vals=2, cmp=3),
    S("svmap", dict(cap=4, univ=4), dict(cap=5, univ=5), grp="seq", vals=2, elem="int"),
    S("svmap", dict(cap=2, univ=2), dict(cap=3, univ=3), grp="seq,copy", nobj=2, vals=1),
    S("svmap", dict(init=20), dict(init=40), grp="seq", depth=2),
    S("svmap", dict(init=6), dict(init=9), grp="seq", depth=3),
])
PROPS["C18"] = dict(classes="value", scopes=[
    S("vmap", dict(cap=3, univ=3), dict(cap=4, univ=3), grp="seq", vals=1),
    S("vmap", dict(cap=3, univ=2), dict(cap=4, univ=2), grp="seq", vals=2),
    S("vmap", dict(cap=4, univ=2), dict(cap=5, univ=2), grp="seq", vals=1, elem="int"),
    S("vmap", dict(cap=2, univ=2), dict(cap=3, univ=2), grp="seq,copy", nobj=2, vals=1),
    S("vmap", dict(init=16), dict(init=30), grp="seq", depth=2),
])

PROPS["C15"] = dict(classes="life,mem", scopes=[
    S("list", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", nobj=2, alpha=1),
    S("list", dict(cap=4), dict(cap=5), grp="seq,alias", alpha=2),
    S("flist", dict(cap=4), dict(cap=5), grp="seq,xfer,copy,alias", alpha=2),
    S("flist", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", nobj=2, alpha=1),
    S("blist", dict(cap=4), dict(cap=5), grp="seq,xfer,copy,alias", alpha=2),
    S("blist", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", nobj=2, alpha=1),
    S("lqueue", dict(cap=3, pool=2), dict(cap=4, pool=3), grp="seq,xfer,copy,alias", alpha=2),
    S("lqueue", dict(cap=2, pool=2), dict(cap=3, pool=2), grp="seq,xfer,copy", nobj=2, alpha=1),
    S("map", dict(cap=10), dict(cap=14), mode="rank", grp="seq,copy"),
    S("map", dict(univ=3, cap=3), dict(univ=4, cap=4), mode="univ", grp="seq,copy,alias", nobj=2, cmp=2),
    S("set", dict(cap=10), dict(cap=14), mode="rank", grp="seq,copy"),
    S("set", dict(univ=3, cap=3), dict(univ=4, cap=4), mode="univ", grp="seq,copy,alias", nobj=2, cmp=2),
    S("rbtree", dict(cap=10), dict(cap=14), mode="rank", grp="seq,copy"),
    S("rbtree", dict(cap=3, univ=3), dict(cap=4, univ=3), mode="univ", grp="seq,copy", nobj=2, dup=1),
    S("rbtree", dict(cap=6), dict(cap=8), mode="rank", grp="seq,copy", dup=1),
    S("vec", dict(cap=3), dict(cap=4), grp="seq,copy,alias", alpha=2),
    S("vec", dict(cap=2), dict(cap=3, alpha=1), grp="seq,copy", nobj=2, alpha=1),
    S("vec", dict(init=7), dict(init=12), grp="seq,alias", depth=2, cnt=4, slack=5, alpha=1),
    S("fvec", dict(N=3), dict(N=4), grp="seq,copy,alias", alpha=2, cnt=4),
    S("fvec", dict(N=2), dict(N=3, alpha=1), grp="seq,copy", nobj=2, alpha=2),
    S("fvec", dict(N=24, init=24), grp="seq,alias", depth=2, cnt=2, alpha=1),
    S("svmap", dict(cap=4, univ=4), dict(cap=5, univ=5), grp="seq,copy,alias", vals=1),
    S("svmap", dict(cap=2, univ=2), dict(cap=3, univ=3), grp="seq,copy", nobj=2, vals=1),
    S("svmap", dict(init=20), dict(init=40), grp="seq,copy", depth=2),
    S("vmap", dict(cap=3, univ=2), dict(cap=4, univ=2), grp="seq,copy,alias", vals=1),
    S("vmap", dict(cap=2, univ=1), dict(cap=2, univ=2), grp="seq,copy", nobj=2, vals=1),
])
PROPS["C16"] = dict(classes="value,life,mem", scopes=[
    S("list", dict(cap=3), dict(cap=4), grp="copy,build", nobj=2, alpha=2),
    S("flist", dict(cap=3), dict(cap=4), grp="copy,build", nobj=2, alpha=2),
    S("blist", dict(cap=3), dict(cap=4), grp="copy,build", nobj=2, alpha=2),
    S("lqueue", dict(cap=2, pool=2), dict(cap=3, pool=2), grp="copy,build", nobj=2, alpha=2),
    S("lqueue", dict(cap=3, pool=3), dict(cap=4, pool=4), grp="copy,build", nobj=2, alpha=1),
    S("map", dict(univ=3, cap=3, vals=2), dict(univ=4, cap=4, vals=2), mode="univ", grp="copy", nobj=2, cmp=2),
    S("map", dict(univ=6, cap=6), dict(univ=8, cap=8), mode="univ", grp="copy", cmp=2, elem="int"),
    S("set", dict(univ=4, cap=4), dict(univ=5, cap=5), mode="univ", grp="copy", nobj=2, cmp=2),
    S("set", dict(univ=6, cap=6), dict(univ=8, cap=8), mode="univ", grp="copy", cmp=3, elem="int"),
    S("rbtree", dict(cap=3, univ=3), dict(cap=4, univ=3), mode="univ", grp="copy", nobj=2, dup=1),
    S("rbtree", dict(cap=10), dict(cap=14), mode="rank", grp="copy"),
    S("vec", dict(cap=3), dict(cap=4, alpha=1), grp="copy,build", nobj=2, alpha=2),
    S("vec", dict(init=5), dict(init=9), grp="copy", nobj=2, depth=3, slack=3, alpha=1),
    S("fvec", dict(N=3), dict(N=4), grp="copy,build", nobj=2, alpha=2),
    S("fvec", dict(N=24, init=6), dict(N=24, init=24), grp="copy", nobj=2, depth=3, alpha=1),
    S("svmap", dict(cap=2, univ=2), dict(cap=3, univ=3), grp="copy", nobj=2, vals=2),
    S("vmap", dict(cap=2, univ=2), dict(cap=3, univ=2), grp="copy", nobj=2, vals=1),
])
PROPS["C27"] = dict(classes="value,life,mem", scopes=[
    S("list", dict(cap=4), dict(cap=6), grp="alias,build", alpha=2),
    S("list", dict(cap=3), dict(cap=4), grp="alias,build", alpha=2, elem="int"),
    S("flist", dict(cap=5), dict(cap=6), grp="alias,build,copy", alpha=2),
    S("blist", dict(cap=5), dict(cap=6), grp="alias,build,copy", alpha=2),
    S("lqueue", dict(cap=4, pool=3), dict(cap=5, pool=4), grp="alias,build,copy", alpha=2),
    S("map", dict(cap=12), dict(cap=16), mode="rank", grp="alias"),
    S("map", dict(cap=10), dict(cap=15), mode="rank", grp="alias", cmp=3),
    S("set", dict(cap=12), dict(cap=16), mode="rank", grp="alias"),
    S("set", dict(cap=10), dict(cap=15), mode="rank", grp="alias", cmp=3),
    S("rbtree", dict(cap=10), dict(cap=14), mode="rank", grp="alias"),
    S("rbtree", dict(cap=7), dict(cap=9), mode="rank", grp="alias", dup=1),
    S("vec", dict(cap=4), dict(cap=5), grp="alias,build", alpha=2, cnt=3),
    S("vec", dict(cap=4), dict(cap=5), grp="alias,build", alpha=3, elem="int"),
    S("vec", dict(init=7), dict(init=10), grp="alias", depth=3, cnt=3, alpha=1),
    S("fvec", dict(N=4), dict(N=5), grp="alias,build", alpha=2, cnt=3),
    S("fvec", dict(N=4), grp="alias,build", alpha=3, elem="int"),
    S("fvec", dict(N=24, init=7), dict(N=24, init=24), grp="alias", depth=2, cnt=3, alpha=1),
    S("svmap", dict(cap=4, univ=4), dict(cap=6, univ=6), grp="alias", vals=2),
    S("svmap", dict(init=20), dict(init=40), grp="alias", depth=2),
    S("vmap", dict(cap=4, univ=3), dict(cap=5, univ=3), grp="alias", vals=1),
    S("vmap", dict(init=8), dict(init=12), grp="alias", depth=2),
])

OPG = "bit,logic,shift"
PROPS["C19"] = dict(classes="value", scopes=[
    S("bitset", dict(N=3), dict(N=4), grp=OPG, nobj=2),
    S("bitset", dict(N=0), grp=OPG, nobj=2),
    S("bitset", dict(N=1), grp=OPG, nobj=2),
    S("bitset", dict(N=2), grp=OPG + ",ctor", ints=0, nobj=2),
    S("bitset", dict(N=6), dict(N=8), grp=OPG),
] + [S("bitset", dict(N=n, init=2, depth=2), grp=OPG) for n in (16, 31, 32, 33, 63, 64, 65)]
  + [S("bitset", dict(N=n, init=1, depth=3, pos="edge"), dict(N=n, init=1, depth=4, pos="edge"), grp=OPG) for n in (16, 33, 63, 64, 65, 66, 127, 128, 129, 130, 192, 200)]
  + [S("bitset", dict(N=n, init=1, depth=2, pos="edge"), dict(N=n, init=1, depth=2), grp=OPG, nobj=2) for n in (33, 64, 65, 128)]
  + [S("bitset", None, dict(N=n, init=2, depth=2), grp=OPG) for n in (66, 127, 128, 129, 130)])
PROPS["C20"] = dict(classes="query", scopes=[
    S("bitset", dict(N=0), grp="bit,logic,shift,ctor,conv", nobj=2),
    S("bitset", dict(N=2), dict(N=3), grp=OPG + ",ctor", ints=0, nobj=2),
    S("bitset", dict(N=3), dict(N=5), grp=OPG + ",ctor,conv", ints=0),
    S("bitset", dict(N=6), dict(N=8), grp=OPG + ",ctor", ints=0),
] + [S("bitset", dict(N=n, init=1, depth=3, pos="edge"), dict(N=n, init=1, depth=4, pos="edge"), grp=OPG) for n in (16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192)]
  + [S("bitset", dict(N=n, init=1, depth=2), dict(N=n, init=2, depth=2), grp="junk,logic,ctor,conv") for n in (31, 33, 64, 65, 130)]
  + [S("bitset", dict(N=n, init=1, depth=2, pos="edge"), grp="logic,shift", nobj=2) for n in (33, 65, 128)])
PROPS["C21"] = dict(classes="conv", scopes=[
    S("bitset", dict(N=0, slen=5), grp="junk,ctor,str,conv", nobj=2),
    S("bitset", dict(N=1, slen=3), dict(N=1, slen=5), grp="junk,ctor,str,conv"),
    S("bitset", dict(N=3), dict(N=4), grp="junk,ctor,conv", ints=0),
    S("bitset", dict(N=3, slen=6), dict(N=3, slen=8), grp="str"),
    S("bitset", dict(N=5, slen=6), dict(N=5, slen=8), grp="str"),
] + [S("bitset", dict(N=n, init=1, depth=2, slen=3), dict(N=n, init=2, depth=2, slen=4), grp="junk,ctor,str,conv") for n in (8, 16, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 192)]
  + [S("bitset", dict(N=n, init=1, depth=3), dict(N=n, init=1, depth=4), grp="junk,conv") for n in (33, 65, 130)])

def ALL(d, q, t=None, elems=("KT", "int", "char"), **kw):
    return [S(d, dict(elem=e, **q), dict(elem=e, **(t or q)), **kw) for e in elems]

PROPS["C22"] = dict(classes="value", scopes=ALL("algo", dict(len=5), dict(len=7), grp="find", alpha=2)
    + ALL("algo", dict(len=4), dict(len=5), grp="find", alpha=3)
    + ALL("algo", dict(len=5, len2=4), dict(len=6, len2=5), grp="match", nobj=2, alpha=2)
    + ALL("algo", dict(len=3, len2=3), dict(len=4, len2=3), grp="match", nobj=2, alpha=3)
    + [S("algo", dict(len=9, len2=3), dict(len=11, len2=4), grp="match", nobj=2, alpha=2)])
PROPS["C23"] = dict(classes="value", scopes=ALL("algo", dict(len=6), dict(len=8), grp="mod", alpha=2)
    + ALL("algo", dict(len=4), dict(len=5), grp="mod", alpha=3)
    + ALL("algo", dict(len=5), dict(len=6), grp="mod2", nobj=2, alpha=2)
    + ALL("algo", dict(len=3), dict(len=4), grp="mod2", nobj=2, alpha=3)
    + [S("array", dict(N=n, elem=e), sys="array") for n in (0, 1, 2, 3) for e in ("Elem", "int")])
PROPS["C24"] = dict(classes="value,cost", scopes=ALL("algo", dict(len=9), dict(len=12), grp="bound,sort", sorted=1, alpha=3)
    + ALL("algo", dict(len=7), dict(len=9), grp="sort", alpha=3)
    + ALL("algo", dict(len=6), dict(len=8), grp="bound,sort", alpha=2)
    + ALL("algo", dict(len=5), dict(len=7), grp="merge", sorted=1, nobj=2, alpha=3)
    + ALL("algo", dict(len=4), dict(len=5), grp="minmax", alpha=3)
    + [S("algo", dict(len=70, alpha=80), dict(len=140, alpha=150), grp="bound,sort", sorted=2),
       S("algo", dict(len=14), dict(len=24), grp="merge", nobj=2, sorted=2, alpha=30),
       S("algo", dict(), grp="virt")])
PROPS["C25"] = dict(classes="value,life,mem", scopes=
    [S("array", dict(N=n, elem=e), sys="array") for n in (0, 1, 2, 3) for e in ("Elem", "int", "char")]
    + [S("array", dict(N=4, elem=e, alpha=1), dict(N=4, elem=e), sys="array") for e in ("Elem", "int", "char")]
    + [S("array", dict(N=n, elem=e, nobj=1, alpha=a), sys="array") for n, a in ((4, 4), (5, 3), (8, 1)) for e in ("Elem", "int")]
    + [S("array", dict(N=n, elem=e, depth=2), dict(N=n, elem=e, depth=3), sys="array") for n in (8, 17) for e in ("Elem", "char")]
    + [S("array", dict(N=300, elem=e, depth=1, nobj=1, alpha=1), sys="array") for e in ("Elem", "char")]
    + [S("array", dict(N=300, elem="int", depth=1, alpha=1), sys="array")]
    + [S("array", dict(elem=e), dict(elem=e, alpha=4), sys="pair") for e in ("Elem", "int", "ec", "ie")]
    + [S("array", dict(elem=e, alpha=4), dict(elem=e, alpha=4), sys="pair") for e in ("id", "de", "dd")]
    + [S("array", dict(N=n, elem="double", alpha=3), sys="array") for n in (1, 2)] + [S("array", dict(N=3, elem="double", alpha=2), dict(N=3, elem="double", alpha=3), sys="array")]
    + [S("array", dict(N=5, elem="double", nobj=1, alpha=3), sys="array")]
    + [S("array", dict(), sys="func")])
PROPS["C26"] = dict(classes="value", scopes=[
    S("traits", dict()), S("traits2", dict()), S("traits3", dict()), S("traits4", dict()), S("traits5", dict())])
PROPS["C26"]["scopes"] += [dict(driver="traits_deep", base={}, thorough=dict()), dict(driver="traits2_deep", base={}, thorough=dict()), dict(driver="traits3_deep", base={}, thorough=dict())]
PROPS["C28"] = dict(classes="value,life,mem", scopes=[S("array", dict(), sys="func"), S("array", dict(elem="Elem"), sys="pair"), S("array", dict(elem="int"), sys="pair")])

# Sizes around 2^8 (and, for vectors of char, 2^16): counters that are too narrow, blockwise loops.
BIG = dict(imin=255, init=257, depth=2)
def add(p, *scopes): PROPS[p]["scopes"] += list(scopes)
add("C10", S("list", dict(big=300, depth=1), dict(big=1000, depth=2), grp="seq", alpha=1),
    S("list", BIG, grp="seq", alpha=2), S("list", dict(imin=256, init=256, depth=2), BIG, grp="seq", nobj=2, alpha=1, cnt=1))
add("C11", S("list", dict(imin=256, init=256, depth=2), BIG, grp="xfer", nobj=2, alpha=1), S("list", BIG, grp="xfer"))
for P_, D_ in (("C12", "flist"), ("C13", "blist"), ("C14", "lqueue")):
    add(P_, S(D_, dict(big=300, depth=1), dict(big=1000, depth=2), grp="seq", alpha=1),
        S(D_, BIG, grp="seq,xfer", alpha=2), S(D_, dict(imin=256, init=256, depth=2), BIG, grp="xfer,copy", nobj=2, alpha=1, cnt=1))
for P_, D_ in (("C01", "map"), ("C02", "set")):
    add(P_, S(D_, BIG, mode="rank", grp="seq", thin=1))
for P_ in ("C03", "C04"):
    add(P_, S("map", BIG, mode="rank", grp="seq", thin=1), S("set", BIG, mode="rank", grp="seq", thin=1))
add("C06", S("rbtree", BIG, mode="rank", grp="seq", thin=1, dup=1))
for P_ in ("C07", "C08"):
    add(P_, S("vec", dict(big=300, depth=2, init=2), dict(big=1000, depth=2, init=4), grp="seq", alpha=1),
        S("vec", dict(big=32769, depth=1), dict(big=65535, depth=1, hang=60), grp="seq", alpha=1, elem="char"),
        S("vec", dict(imin=65535, init=65535, depth=2, hang=60), grp="seq", alpha=1, cnt=1, slack=1, elem="char"),
        S("vec", BIG, grp="seq", alpha=1, cnt=1, slack=1),
        S("vec", dict(imin=256, init=256, depth=2), BIG, grp="seq", nobj=2, alpha=1, cnt=0, slack=0, elem="int"))
add("C09", S("fvec", dict(N=300, big=300, depth=1), grp="seq", alpha=1, cnt=1),
    S("fvec", dict(N=300, imin=255, init=257, depth=2), grp="seq", alpha=1, cnt=1, big=300),
    S("fvec", dict(N=300, imin=299, init=300, depth=2), grp="seq", alpha=1, cnt=1, elem="char"))
add("C17", S("svmap", BIG, grp="seq"))
add("C18", S("vmap", dict(imin=256, init=256, depth=2), BIG, grp="seq"))
add("C22", *ALL("algo", dict(len=9, len2=5), dict(len=11, len2=6), grp="search", nobj=2, alpha=2)
    + ALL("algo", dict(len=5, len2=4), dict(len=7, len2=5), grp="search", nobj=2, alpha=3)
    + [S("algo", dict(lmin=256, len=256), dict(lmin=255, len=257), grp="find", sorted=3, elem=e) for e in ("KT", "char")]
    + [S("algo", dict(lmin=256, len=256, lmin2=256, len2=256), dict(lmin=256, len=257, lmin2=256, len2=257), grp="match", sorted=3, nobj=2),
       S("algo", dict(lmin=257, len=257, lmin2=0, len2=4), dict(lmin=257, len=257, lmin2=0, len2=6), grp="match", sorted=3, nobj=2)])
add("C23", *[S("algo", dict(lmin=257, len=257, depth=2), dict(lmin=254, len=258, depth=2), grp="mod", sorted=3, elem=e) for e in ("KT", "int", "char")]
    + [S("algo", dict(lmin=256, len=256, lmin2=256, len2=257, depth=2), dict(lmin=254, len=257, lmin2=254, len2=257, depth=2), grp="mod2", sorted=3, nobj=2)])
add("C24", S("algo", dict(lmin=255, len=257), grp="bound,sort", sorted=3, alpha=2), S("algo", dict(lmin=255, len=257), grp="merge", nobj=2, sorted=3, alpha=2))
add("C15", S("list", dict(BIG), grp="seq,copy", alpha=1), S("blist", BIG, grp="seq,copy", alpha=1), S("vec", BIG, grp="seq,copy", alpha=1, cnt=1, slack=1),
    S("map", BIG, mode="rank", grp="seq", thin=1), S("svmap", BIG, grp="seq,copy"))
add("C16", *[S(d_, dict(imin=256, init=256, depth=2), BIG, grp="copy", nobj=2, alpha=1) for d_ in ("list", "flist", "blist", "lqueue")]
    + [S("vec", dict(imin=256, init=257, depth=2), BIG, grp="copy", nobj=2, alpha=1, slack=1)])

# sizes around 2^10
K1, K3 = dict(imin=1024, init=1024, depth=2), dict(imin=1023, init=1025, depth=2)
add("C10", S("list", K3, dict(imin=4095, init=4097, depth=2, hang=60), grp="seq", alpha=1, cnt=1))
add("C11", S("list", K1, K3, grp="xfer", alpha=1))
for P_, D_ in (("C12", "flist"), ("C13", "blist"), ("C14", "lqueue")):
    add(P_, S(D_, K1, dict(imin=4095, init=4097, depth=2, hang=60), grp="seq", alpha=1, cnt=1), S(D_, K1, K3, grp="xfer", alpha=1))
for P_ in ("C01", "C03", "C04"):
    add(P_, S("map", K1, K3, mode="rank", grp="seq", thin=1))
for P_ in ("C02", "C03", "C04"):
    add(P_, S("set", K1, K3, mode="rank", grp="seq", thin=1))
add("C05", S("rbtree", K1, K3, mode="rank", grp="seq", thin=1))
add("C06", S("rbtree", K1, K3, mode="rank", grp="seq", thin=1, dup=1))
add("C17", S("svmap", K1, K3, grp="seq"))
add("C18", S("vmap", K1, K3, grp="copy", elem="int"))
add("C15", S("list", K1, grp="seq,copy", alpha=1, cnt=1), S("blist", K1, grp="seq,copy", alpha=1, cnt=1), S("map", K1, mode="rank", grp="seq", thin=1), S("svmap", K1, grp="copy"))
add("C16", *[S(d_, K1, grp="copy", nobj=2, alpha=1) for d_ in ("list", "flist", "blist", "lqueue")] + [S("svmap", K1, grp="copy")])
add("C23", S("algo", dict(lmin=1025, len=1025, depth=2), dict(lmin=1023, len=1025, depth=2), grp="mod", sorted=3, elem="int"))
add("C24", S("algo", dict(lmin=1023, len=1025), grp="bound,sort", sorted=3, alpha=2, elem="int"))

# ---- element types that shortcuts get wrong
TYPES = ("double", "float", "ldouble", "llong", "ullong", "unsigned", "short", "ushort", "uchar", "char", "wchar", "bool", "ptr", "enum", "eclass", "padded", "keyed")
for P_, G_ in (("C22", "find"), ("C23", "mod"), ("C24", "order")):
    add(P_, *[S("types", dict(len=3, len2=2), dict(len=5, len2=3), grp=G_, elem=e) for e in TYPES])

# ---- elements whose == is not the identity (0.0 == -0.0, NaN != NaN)
for P_ in ("C07", "C16"):
    add(P_, S("vec", dict(cap=2), dict(cap=3), grp="seq,copy", nobj=2, alpha=3, elem="double"))
for P_ in ("C09", "C16"):
    add(P_, S("fvec", dict(N=2), dict(N=3), grp="seq,copy", nobj=2, alpha=3, elem="double"))
for P_, D_ in (("C10", "list"), ("C12", "flist"), ("C13", "blist"), ("C14", "lqueue")):
    add(P_, S(D_, dict(cap=3), dict(cap=4), grp="seq", alpha=3, elem="double"))
    add("C16", S(D_, dict(cap=2), dict(cap=2 if D_ == "lqueue" else 3), grp="copy", nobj=2, alpha=3, elem="double"))
add("C10", S("list", dict(cap=3), dict(cap=4), grp="seq", alpha=3, elem="keyed"))
add("C11", S("list", dict(cap=3), dict(cap=4), grp="xfer,build", nobj=2, alpha=3, elem="keyed"), S("list", dict(cap=3), dict(cap=4), grp="xfer,build", alpha=3, elem="double"))

# ---- alignment
add("C15", S("list_al", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", alpha=1),
    S("flist_al", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", alpha=1), S("blist_al", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", alpha=1),
    S("lqueue_al", dict(cap=3, pool=2), dict(cap=4, pool=3), grp="seq,xfer,copy", alpha=1),
    S("map_al", dict(cap=6), dict(cap=10), mode="rank", grp="seq,copy"), S("set_al", dict(cap=6), dict(cap=10), mode="rank", grp="seq,copy"),
    S("vec_al", dict(cap=3), dict(cap=4), grp="seq,copy", alpha=1), S("vec_al", dict(cap=2), dict(cap=3), grp="copy", nobj=2, alpha=1),
    S("fvec_al", dict(N=1), grp="seq,copy", nobj=2, alpha=1), S("fvec_al", dict(N=3), dict(N=4), grp="seq,copy", alpha=1),
    S("svmap_al", dict(cap=3, univ=3), dict(cap=4, univ=4), grp="seq,copy"), S("vmap_al", dict(cap=3, univ=2), dict(cap=4, univ=2), grp="seq,copy"),
    *[S("array_al", dict(N=n), sys="array") for n in (0, 1, 2)])

# ---- iterators
PROPS["C29"] = dict(classes="itop", scopes=[
    S("list", dict(cap=6), dict(cap=8), grp="build,xfer", alpha=1), S("list", dict(cap=3), dict(cap=4), grp="build,xfer", nobj=2, alpha=1, elem="int"), S("list", dict(init=20), dict(init=40), grp="build,xfer", depth=2, alpha=1),
    S("flist", dict(cap=6), dict(cap=8), grp="seq,xfer,copy", alpha=1), S("flist", dict(cap=3), dict(cap=4), grp="seq,xfer", nobj=2, alpha=1, elem="int"), S("flist", dict(init=20), dict(init=40), grp="xfer", depth=2, alpha=1),
    S("blist", dict(cap=6), dict(cap=8), grp="seq,xfer,copy", alpha=1), S("blist", dict(cap=3), dict(cap=4), grp="seq,xfer", nobj=2, alpha=1, elem="int"), S("blist", dict(init=20), dict(init=40), grp="xfer", depth=2, alpha=1),
    S("lqueue", dict(cap=4, pool=2), dict(cap=6, pool=3), grp="seq,xfer,copy", alpha=1), S("lqueue", dict(cap=3, pool=1), dict(cap=4, pool=2), grp="seq,xfer", nobj=2, alpha=1), S("lqueue", dict(init=20), dict(init=40), grp="xfer", depth=2, alpha=1),
    S("map", dict(cap=14), dict(cap=18), mode="rank", grp="seq"), S("map", dict(univ=6, cap=6), dict(univ=9, cap=9), mode="univ", grp="copy", elem="int"), S("map", dict(univ=3, cap=3), dict(univ=4, cap=4), mode="univ", grp="copy", nobj=2, cmp=3), S("map", dict(init=32), dict(init=64), mode="rank", depth=2, grp="seq"), S("map", BIG, mode="rank", grp="seq", thin=1),
    S("set", dict(cap=14), dict(cap=18), mode="rank", grp="seq"), S("set", dict(univ=6, cap=6), dict(univ=9, cap=9), mode="univ", grp="copy", elem="int"), S("set", dict(univ=3, cap=3), dict(univ=4, cap=4), mode="univ", grp="copy", nobj=2, cmp=3), S("set", dict(init=32), dict(init=64), mode="rank", depth=2, grp="seq"), S("set", BIG, mode="rank", grp="seq", thin=1),
    S("vec", dict(cap=4), dict(cap=6), grp="build,copy", alpha=1), S("fvec", dict(N=3), dict(N=5), grp="seq,copy", alpha=1),
    S("svmap", dict(cap=5, univ=5), dict(cap=6, univ=6), grp="seq"), S("svmap", dict(cap=4, univ=4), dict(cap=5, univ=5), grp="seq,copy", elem="int"), S("svmap", dict(init=20), dict(init=40), grp="seq", depth=2),
    S("vmap", dict(cap=4, univ=2), dict(cap=5, univ=2), grp="seq,copy"),
])

# ---- memory held and allocated
PROPS["C30"] = dict(classes="alloc", scopes=[
    S("list", dict(cap=4), dict(cap=5), grp="seq,xfer,copy,alias", alpha=1), S("list", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", nobj=2, alpha=1), S("list", dict(cap=3), dict(cap=4), grp="seq,xfer", alpha=2, elem="int"),
    S("flist", dict(cap=5), dict(cap=6), grp="seq,xfer,copy,alias", alpha=1), S("flist", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", nobj=2, alpha=1),
    S("blist", dict(cap=5), dict(cap=6), grp="seq,xfer,copy,alias", alpha=1), S("blist", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", nobj=2, alpha=1),
    S("lqueue", dict(cap=4, pool=3), dict(cap=5, pool=4), grp="seq,xfer,copy,alias", alpha=1), S("lqueue", dict(cap=2, pool=2), dict(cap=4, pool=3), grp="seq,xfer,copy", nobj=2, alpha=1),
    S("map", dict(cap=10), dict(cap=14), mode="rank", grp="seq,copy,alias"), S("map", dict(univ=3, cap=3), dict(univ=4, cap=4), mode="univ", grp="seq,copy", nobj=2, cmp=2), S("map", dict(univ=4, cap=4), dict(univ=5, cap=5), mode="univ", grp="seq,copy", vals=2, cmp=3, elem="int"),
    S("set", dict(cap=10), dict(cap=14), mode="rank", grp="seq,copy,alias"), S("set", dict(univ=3, cap=3), dict(univ=4, cap=4), mode="univ", grp="seq,copy", nobj=2, cmp=2), S("set", dict(univ=5, cap=5), dict(univ=6, cap=6), mode="univ", grp="seq,copy", cmp=3, elem="int"),
    S("vec", dict(cap=3), dict(cap=4), grp="seq,copy,alias", alpha=2), S("vec", dict(cap=4), dict(cap=5), grp="seq,copy,alias", alpha=1, cnt=3, elem="int"), S("vec", dict(cap=2), dict(cap=3), grp="seq,copy", nobj=2, alpha=1), S("vec", dict(init=9), dict(init=16), grp="seq", depth=2, cnt=5, slack=6, alpha=1),
    S("fvec", dict(N=3), dict(N=4), grp="seq,copy,alias", alpha=1, cnt=4), S("fvec", dict(N=2), dict(N=3), grp="seq,copy", nobj=2, alpha=1),
    S("svmap", dict(cap=4, univ=4), dict(cap=5, univ=5), grp="seq,copy,alias"), S("svmap", dict(cap=2, univ=2), dict(cap=3, univ=3), grp="seq,copy", nobj=2), S("svmap", dict(init=20), dict(init=40), grp="seq", depth=2),
    S("vmap", dict(cap=3, univ=3), dict(cap=4, univ=3), grp="seq,copy,alias"), S("vmap", dict(cap=2, univ=2), dict(cap=3, univ=2), grp="seq,copy", nobj=2), S("vmap", dict(init=12), dict(init=20), grp="seq", depth=2),
    *[S(d_, dict(imin=256, init=256, depth=2), BIG, grp="seq", alpha=1, cnt=1) for d_ in ("list", "flist", "blist", "lqueue")], S("vec", BIG, grp="seq", alpha=1, cnt=1, slack=1),
    S("map", BIG, mode="rank", grp="seq", thin=1), S("set", BIG, mode="rank", grp="seq", thin=1),
])

# ---- queries change nothing
PROPS["C32"] = dict(classes="pure", scopes=[
    S("list", dict(cap=4), dict(cap=6), grp="seq,xfer", alpha=1), S("list", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", nobj=2, alpha=1), S("list", dict(cap=3), dict(cap=4), grp="seq", alpha=2, elem="int"),
    S("flist", dict(cap=5), dict(cap=7), grp="seq,xfer", alpha=1), S("flist", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", nobj=2, alpha=1),
    S("blist", dict(cap=5), dict(cap=7), grp="seq,xfer", alpha=1), S("blist", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", nobj=2, alpha=1),
    S("lqueue", dict(cap=4, pool=3), dict(cap=5, pool=4), grp="seq,xfer", alpha=1), S("lqueue", dict(cap=2, pool=2), dict(cap=3, pool=3), grp="seq,xfer,copy", nobj=2, alpha=1),
    S("map", dict(cap=11), dict(cap=15), mode="rank", grp="seq"), S("map", dict(univ=3, cap=3), dict(univ=4, cap=4), mode="univ", grp="seq,copy", nobj=2, cmp=2), S("map", dict(univ=4, cap=4), dict(univ=5, cap=5), mode="univ", grp="seq", vals=2, cmp=3, elem="int"),
    S("set", dict(cap=11), dict(cap=15), mode="rank", grp="seq"), S("set", dict(univ=3, cap=3), dict(univ=4, cap=4), mode="univ", grp="seq,copy", nobj=2, cmp=2), S("set", dict(univ=5, cap=5), dict(univ=6, cap=6), mode="univ", grp="seq", cmp=3, elem="int"),
    S("rbtree", dict(cap=8), dict(cap=10), mode="rank", grp="seq", dup=1), S("rbtree", dict(cap=3, univ=3), dict(cap=4, univ=3), mode="univ", grp="seq,copy", nobj=2, dup=1),
    S("vec", dict(cap=3), dict(cap=4), grp="seq", alpha=2), S("vec", dict(cap=4), dict(cap=5), grp="seq", alpha=1, cnt=3, elem="int"), S("vec", dict(cap=2), dict(cap=3), grp="seq,copy", nobj=2, alpha=1),
    S("fvec", dict(N=3), dict(N=4), grp="seq", alpha=2, cnt=4), S("fvec", dict(N=2), dict(N=3), grp="seq,copy", nobj=2, alpha=2, elem="char"),
    S("svmap", dict(cap=4, univ=4), dict(cap=6, univ=6), grp="seq"), S("svmap", dict(cap=2, univ=2), dict(cap=3, univ=3), grp="seq,copy", nobj=2, elem="int"), S("svmap", dict(init=12), dict(init=24), grp="seq", depth=2),
    S("vmap", dict(cap=3, univ=3), dict(cap=4, univ=3), grp="seq"), S("vmap", dict(cap=2, univ=2), dict(cap=3, univ=2), grp="seq,copy", nobj=2, elem="int"), S("vmap", dict(init=8), dict(init=16), grp="seq", depth=2),
    S("bitset", dict(N=0), grp=OPG + ",ctor", nobj=2), S("bitset", dict(N=3), dict(N=5), grp=OPG + ",ctor,conv", ints=0), *[S("bitset", dict(N=n, init=1, depth=2), dict(N=n, init=2, depth=2), grp="junk,logic,ctor,conv") for n in (31, 33, 64, 65, 130)],
    *[S("array", dict(N=n, elem=e), sys="array") for n in (0, 1, 2, 3) for e in ("Elem", "int")],
])

# ---- element operations
PROPS["C31"] = dict(classes="work", scopes=[
    S("algo", dict(len=6), dict(len=8), grp="find", alpha=2), S("algo", dict(len=4), dict(len=5), grp="find", alpha=3),
    S("algo", dict(len=9, len2=4), dict(len=11, len2=5), grp="search", nobj=2, alpha=2),
    S("algo", dict(len=4, len2=4), dict(len=5, len2=5), grp="match", nobj=2, alpha=2),
    S("algo", dict(len=5), dict(len=7), grp="mod", alpha=2), S("algo", dict(len=4), dict(len=5), grp="mod2", nobj=2, alpha=2),
    S("algo", dict(len=7), dict(len=9), grp="sort", alpha=3), S("algo", dict(len=5), dict(len=7), grp="merge", sorted=1, nobj=2, alpha=3), S("algo", dict(len=3), dict(len=4), grp="minmax", alpha=3),
])
PROPS["C31"]["scopes"] += [
    S("list", dict(cap=4), dict(cap=6), grp="seq,xfer,copy,alias,build", alpha=2), S("list", dict(cap=3), dict(cap=4), grp="xfer,build,copy", nobj=2, alpha=2), 
    S("flist", dict(cap=4), dict(cap=6), grp="seq,xfer,copy,alias", alpha=2), S("flist", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", nobj=2, alpha=1),
    S("blist", dict(cap=4), dict(cap=6), grp="seq,xfer,copy,alias", alpha=2), S("blist", dict(cap=3), dict(cap=4), grp="seq,xfer,copy", nobj=2, alpha=1),
    S("lqueue", dict(cap=3, pool=2), dict(cap=5, pool=3), grp="seq,xfer,copy,alias", alpha=2), S("lqueue", dict(cap=2, pool=2), dict(cap=3, pool=3), grp="seq,xfer,copy", nobj=2, alpha=1),
]
PROPS["C31"]["scopes"] += [
    S("vec", dict(cap=3), dict(cap=4), grp="seq,copy,alias", alpha=1), S("vec", dict(cap=2), dict(cap=3), grp="seq,copy", nobj=2, alpha=1), S("vec", dict(init=9), dict(init=16), grp="seq,alias", depth=2, cnt=5, slack=6, alpha=1),
    S("fvec", dict(N=3), dict(N=4), grp="seq,copy,alias", alpha=1, cnt=4), S("fvec", dict(N=2), dict(N=3), grp="seq,copy", nobj=2, alpha=1), S("fvec", dict(N=24, init=24), grp="seq,alias", depth=2, cnt=2, alpha=1),
]
PROPS["C31"]["scopes"] += [
    S("map", dict(cap=10), dict(cap=14), mode="rank", grp="seq,copy,alias"), S("map", dict(univ=3, cap=3), dict(univ=4, cap=4), mode="univ", grp="seq,copy,alias", nobj=2, cmp=2),
    S("set", dict(cap=10), dict(cap=14), mode="rank", grp="seq,copy,alias"), S("set", dict(univ=3, cap=3), dict(univ=4, cap=4), mode="univ", grp="seq,copy,alias", nobj=2, cmp=2),
    S("rbtree", dict(cap=7), dict(cap=9), mode="rank", grp="seq,copy,alias", dup=1), S("rbtree", dict(cap=3, univ=3), dict(cap=4, univ=3), mode="univ", grp="seq,copy", nobj=2, dup=1),
    S("svmap", dict(cap=4, univ=4), dict(cap=6, univ=6), grp="seq,copy,alias"), S("svmap", dict(cap=2, univ=2), dict(cap=3, univ=3), grp="seq,copy", nobj=2), S("svmap", dict(init=20), dict(init=40), grp="seq,alias", depth=2), S("svmap", dict(imin=256, init=256, depth=2), BIG, grp="seq"),
    S("vmap", dict(cap=3, univ=2), dict(cap=4, univ=2), grp="seq,copy,alias", vals=1), S("vmap", dict(cap=2, univ=2), dict(cap=3, univ=2), grp="seq,copy", nobj=2), S("vmap", dict(init=12), dict(init=20), grp="seq", depth=2),
]

# the C++98 side of the headers
add("C25", S("array_old", dict(N=3, elem="Elem"), sys="array"), S("array_old", dict(elem="Elem"), sys="pair"), S("array_old", dict(elem="ie"), sys="pair"))
add("C28", S("array_old", dict(), sys="func"))
add("C26", S("traits_old", dict()), S("traits_uchar", dict()), S("traits_uwchar", dict()))
add("C09", S("fvec_old", dict(N=3), dict(N=4), grp="seq", alpha=2))
add("C15", S("fvec_old", dict(N=3), dict(N=4), grp="seq,copy", alpha=2, nobj=1))

# work that grows with the size shows beyond a constant number of temporaries
for D_ in ("list", "flist", "blist", "lqueue"):
    add("C31", S(D_, dict(init=20), dict(init=40), grp="seq,xfer,copy,alias", depth=2, alpha=1, cnt=1), S(D_, dict(imin=14, init=14), dict(imin=20, init=20), grp="copy,xfer", depth=2, nobj=2, alpha=1))
add("C31", S("map", dict(imin=20, init=21), dict(init=40), mode="rank", depth=2, grp="seq,copy,alias"), S("set", dict(imin=20, init=21), dict(init=40), mode="rank", depth=2, grp="seq,copy,alias"), S("rbtree", dict(imin=20, init=21), dict(init=32), mode="rank", depth=2, grp="seq,copy,alias", dup=1),
    S("vec", dict(imin=20, init=20), dict(init=32), grp="seq,copy,alias", depth=2, cnt=2, slack=3, alpha=1), S("vmap", dict(imin=20, init=20), dict(init=32), grp="seq,copy,alias", depth=2))
