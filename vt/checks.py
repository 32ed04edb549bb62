"""Which drivers, trace specifications, models and generated test graphs decide which property."""
import json


def T(driver, trace, mode, n, shards, **kw):
    return dict(driver=driver, trace=trace, mode=mode, n=n, shards=shards, **kw)


def G(module, driver, trace, start, header, **kw):
    return dict(module=module, driver=driver, trace=trace, start=start, header=header, **kw)


def M(module, **kw):
    return dict(module=module, **kw)


CHECKS = {}

CHECKS["S01"] = dict(
    traces=[T("bitstream", "T_BitStream", "rt", 5000, 8)],
    models=[M("MC_BitStream"), M("MC_ReaderCache")])
CHECKS["S02"] = dict(
    traces=[T("bitstream", "T_BitStream", "bounds", 6000, 4)],
    gens=[G("G_BitStream", "bitstream", "T_BitStream", "[0, 0]", "NewR 80", env={"CAP": "80", "GMODE": "r"}, shards=3),
          G("G_BitStream", "bitstream", "T_BitStream", "[0, 0]", "NewW 80", env={"CAP": "80", "GMODE": "w"}, shards=2),
          G("G_BitStream", "bitstream", "T_BitStream", "[0, 0]", "NewR 61", env={"CAP": "61", "GMODE": "r"}, shards=3)]
         + [G("G_BitStream", "bitstream", "T_BitStream", "[0, 0]", "New%s %d" % (m.upper(), c),
              env={"CAP": str(c), "GMODE": m}, shards=8, thorough=True)
            for c in (1, 7, 9, 33, 63, 64, 65, 127, 128, 130, 200) for m in "rw"],
    models=[M("MC_ReaderCache")])
CHECKS["S03"] = dict(traces=[T("bitstream", "T_BitStream", "var", 5000, 8)], models=[M("MC_ZBits")])
CHECKS["S05"] = dict(traces=[T("bitstream", "T_BitStream", "float", 4096, 16, thorough_shards=64)], models=[M("MC_ZBits", cfg="MC_Half", workers=4)])
CHECKS["S04"] = dict(
    traces=[T("ranges", "T_Ranges", "fixed", 16, 2), T("ranges", "T_Ranges", "dyn", 16, 2), T("ranges", "T_Ranges", "var", 150, 2),
            T("bitstream", "T_BitStream", "rt", 4000, 2)],
    models=[M("MC_Ranges")])
CHECKS["V01"] = dict(
    traces=[T("bitbuf", "T_BitBuf", m, 12000, 3) for m in ("std", "pmr", "ppmr")], models=[M("MC_BitBuf")])

_Z = '{"0": [0, 0, false], "1": [0, 0, false]}'
_ZV = '{"0": [0, 1, false], "1": [0, 1, false]}'


def _HF(a):
    return ("-DVT_ALLOC_", "-DVT_ALLOC_" + a)


def _H(cont, alloc, shards, full="0", **kw):
    return G("G_Holder", "holders", "T_Holder", _ZV if cont == "var" else _Z, "Begin", mode="%s-%s" % (cont, alloc),
             env={"CONT": cont, "ALLOC": alloc, "FULL": full}, shards=shards, flags=_HF(alloc), **kw)


_AL = ("cnt", "pmr", "ppmr", "mca", "mma", "msw")
CHECKS["C01"] = dict(
    traces=[T("holders", "T_Holder", "%s-%s" % (c, a), 1500, 1, flags=_HF(a)) for c in ("optS", "optB", "optT", "optR") for a in ("pmr", "ppmr", "cnt")],
    gens=[_H("optB", "pmr", 2), _H("optS", "pmr", 2), _H("optB", "ppmr", 2), _H("optT", "cnt", 1)]
         + [_H(c, a, 3, "1", thorough=True) for c in ("optS", "optB", "optT", "optR") for a in _AL])
CHECKS["C02"] = dict(
    traces=[T("holders", "T_Holder", "var-%s" % a, 3000, 1, flags=_HF(a)) for a in _AL],
    gens=[_H("var", "pmr", 4), _H("var", "ppmr", 4)] + [_H("var", a, 8, "1", thorough=True) for a in _AL])
CHECKS["C03"] = dict(
    traces=[T("holders", "T_Holder", "any-%s" % a, 3000, 1, flags=_HF(a)) for a in _AL],
    gens=[_H("any", "pmr", 8)] + [_H("any", a, 16, "1", thorough=True) for a in _AL])
CHECKS["C04"] = dict(
    traces=[T("holders", "T_Holder", "%s-%s" % (c, a), 1000, 1, flags=_HF(a)) for c in ("optS", "optB", "var", "any") for a in ("pmr", "ppmr", "mca", "mma", "msw")]
           + [T("pmrobjects", "T_ObjectMemory", m, 4000, 2, objects=("pmr_allocator", "ppmr_allocator")) for m in ("pmr", "ppmr")]
           + [T("bitbuf", "T_BitBuf", m, 3000, 1) for m in ("pmr", "ppmr")],
    gens=[_H("uptr", a, 1) for a in ("cnt", "ppmr", "mca", "mma", "msw")] + [_H("optB", "msw", 2)]
         + [_H("any", a, 16, "1", thorough=True) for a in ("mca", "mma", "msw")],
    models=[M("MC_ObjectMemory")])

_AO = ("std_allocator",)


def _A(mode, n, shards=1, parts="ABCDEF"):
    lohi = {"A": (0, 5), "B": (6, 10), "C": (11, 15), "D": (16, 19), "E": (20, 23), "F": (24, 29)}
    return [T("arrays", "T_Arrays", mode, n, shards, objects=_AO, flags=("-DVT_LO=%d" % lohi[p][0], "-DVT_HI=%d" % lohi[p][1]))
            for p in parts]


CHECKS["A01"] = dict(
    traces=_A("plain", 1200) + _A("packed", 700, parts="ABCDE"),
    models=[M("MC_Arrays", cfg="MC_ArraysT", workers=8, nocov=True, thorough=True)])
CHECKS["A02"] = dict(
    traces=_A("packed", 1000, parts="ABCDE") + _A("decode", 700, parts="ABCDE"),
    models=[M("MC_Arrays", workers=3, nocov=True), M("MC_Arrays", cfg="MC_ArraysT", workers=8, nocov=True, thorough=True)])
CHECKS["A03"] = dict(traces=_A("decode", 2500, 2))
CHECKS["N01"] = dict(traces=[T("text", "T_NumText", "num", 6000, 8, objects=_AO)], models=[M("MC_NumText")])
CHECKS["X01"] = dict(traces=[T("text", "T_Message", "exc", 8000, 8, objects=_AO)], models=[M("MC_Message")])
CHECKS["P01"] = dict(traces=[T("windows", "T_Window", "x", 8000, 8)], models=[M("MC_Window")])
CHECKS["T01"] = dict(traces=[T("objects", "T_Object", "ser", 6000, 8, objects=_AO)], models=[M("MC_Object", nocov=True)],
                     known=[T("objects", "T_Object", "stale", 8, 1, objects=_AO, probe="stale-choice-branch")])
CHECKS["V02"] = dict(traces=[T("objects", "T_Object", "cmp", 7000, 5, objects=_AO), T("objects", "T_Object", "prim", 9000, 4, objects=_AO)],
                     models=[M("MC_Object", nocov=True)])
CHECKS["E01"] = dict(traces=[T("items", "T_Items", "x", 9000, 6, objects=_AO)] + [
    T("arrays", "T_Arrays", m, 600, 1, objects=_AO, flags=("-DVT_LO=22", "-DVT_HI=23")) for m in ("packed", "decode")],
    models=[M("MC_Items", nocov=True)])
CHECKS["F01"] = dict(traces=[T("files", "T_File", "x", 8000, 6, objects=_AO)], models=[M("MC_File", nocov=True)])
CHECKS["J01"] = dict(
    traces=[T("json", "T_JsonText", "tok", 5000, 4), T("json", "T_JsonText", "parse", 5000, 4), T("json", "T_JsonText", "all", 4096, 8),
            T("json", "T_JsonText", "all", 65536, 8, thorough=True, thorough_shards=8)],
    models=[M("MC_JsonText", nocov=True, workers=3), M("MC_JsonText", cfg="MC_JsonTextT", nocov=True, workers=8, thorough=True, timeout=3000)])
CHECKS["J02"] = dict(
    traces=[T("json", "T_JsonText", "dec", 8000, 5), T("json", "T_JsonText", "enc", 8000, 4)], models=[M("MC_Decimal")])
CHECKS["W01"] = dict(
    traces=[T("walk", "T_Walk", "x", 8000, 8, objects=_AO)],
    models=[M("MC_Walk", nocov=True, workers=3), M("MC_Walk", cfg="MC_WalkT", nocov=True, workers=8, thorough=True, timeout=1800)])


def _R1(root, **kw):
    return G("G_Creator", "creator", "T_Creator", "[]", "Begin", mode=root, env={"ROOT": root}, objects=_AO, **kw)


CHECKS["R01"] = dict(
    traces=[T("creator", "T_Creator", "x", 15000, 8, objects=_AO)],
    gens=[_R1(r) for r in ("CreatorObject", "WalkerObject", "ReflectableObject", "ReflectableUtilUnion")],
    models=[M("MC_Creator", nocov=True, workers=3)])
CHECKS["J03"] = dict(
    traces=[T("jsonobj", "T_JsonObject", "x", 6000, 8, objects=_AO)],
    models=[M("MC_JsonObject", nocov=True, workers=3)])


def _R2(root, start, **kw):
    return G("G_Reflect", "reflectobj", "T_Reflect", start, "Begin", mode=root, env={"ROOT": root}, objects=_AO, **kw)


CHECKS["R02"] = dict(
    traces=[T("reflectobj", "T_Reflect", "x", 9000, 8, objects=_AO)],
    gens=[_R2("ReflectableUtilUnion", '["c",0,[]]', shards=2), _R2("WalkerUnion", '["c",0,[]]')],
    models=[M("MC_Reflect", nocov=True, workers=3)],
    known=[T("reflectobj", "T_Reflect", "owner", 1, 1, objects=_AO, probe="const-owner-any-value")])

CHECKS["R03"] = dict(
    traces=[T("introspect", "T_Introspect", "x", 8000, 8, objects=_AO), T("typeinfo", "T_TypeInfo", "x", 4000, 2)],
    models=[M("MC_Introspect", nocov=True), M("MC_TypeInfo", nocov=True)])



def _X2(k, d):
    return G("G_Extended", "extended", "T_Extended", '{"0": [true, %d, 0], "1": [true, %d, 0]}' % (d, d), "Begin", mode=k, env={"KIND": k}, shards=2)


CHECKS["X02"] = dict(
    traces=[T("extended", "T_Extended", "all", 6000, 4), T("dataview", "T_DataView", "x", 5000, 8, objects=_AO)],
    gens=[_X2("int", 0), _X2("opt", -1), _X2("text", 0)],
    models=[M("MC_Extended")])


def _Q1(nc, nh, ns, shards, **kw):
    return G("G_SqlConn", "sqlconn", "T_SqlConn", json.dumps([{str(i): [False, 0, False] for i in range(nc)}, [["none", True, "none", False, []]] * nh,
             {str(i): [0, "none"] for i in range(ns)}, []]), "Begin", mode="x", env={"NCONN": str(nc), "NHANDLE": str(nh), "NSTMT": str(ns)}, shards=shards, sqlite=True, **kw)


CHECKS["Q01"] = dict(
    traces=[T("sqlconn", "T_SqlConn", "x", 12000, 8, sqlite=True)],
    gens=[_Q1(1, 1, 1, 3), _Q1(2, 1, 1, 8, thorough=True), _Q1(1, 2, 1, 8, thorough=True), _Q1(2, 2, 0, 8, thorough=True)],
    models=[M("MC_SqlConn", nocov=True, workers=3), M("MC_SqlConn", cfg="MC_SqlConnT", nocov=True, workers=8, thorough=True, timeout=3000)])
CHECKS["Q02"] = dict(
    traces=[T("sqlvalue", "T_SqlValue", "val", 5000, 6, sqlite=True, objects=_AO), T("sqlvalue", "T_SqlSchema", "schema", 12000, 3, sqlite=True, objects=_AO)],
    models=[M("MC_SqlValue", nocov=True, workers=2), M("MC_SqlSchema", nocov=True, workers=2)])
CHECKS["N02"] = dict(traces=[T("wrappers", "T_Wrappers", "x", 8000, 6)], models=[M("MC_Wrappers", nocov=True, workers=2)])
CHECKS["U01"] = dict(traces=[T("services", "T_Service", "x", 6000, 6, objects=_AO)], models=[M("MC_Service", nocov=True)])
