import glob
import os
"""Which translation units decide which property."""
PROPERTIES = {}

def P01(tier):
    t = [dict(src="p01_layout.cpp")]
    for k in range(4):
        t.append(dict(src="p01_layout.cpp", defs=["MINDIM=4", "MAXDIM=4", "PART=%d" % k]))
    t.append(dict(src="p01_layout.cpp", defs=["HUGE_SHAPES"], flavour="plain1"))
    for some in ((1234, 43210), (40123, 12340), (13024, 20314)):
        t.append(dict(src="p01_layout.cpp", defs=["MINDIM=5", "MAXDIM=5", "PART=1", "NPARTKEY=(" + "||".join("v[0]*10000+v[1]*1000+v[2]*100+v[3]*10+v[4]==%d" % p for p in some) + ")"]))
    t += [dict(src="p01_types.cpp", defs=["LEN=%d" % k], flavour="plain1") for k in (1, 2, 3, 4)]
    if tier == "thorough":
        t.append(dict(src="p01_types.cpp", defs=["LEN=5"], flavour="plain1"))
        for k in range(5):
            for l in range(5):
                if l != k:
                    t.append(dict(src="p01_layout.cpp", defs=["MINDIM=5", "MAXDIM=5", "PART=%d" % (k * 5 + l), "NPARTKEY=v[0]*5+v[1]"]))
    return t
PROPERTIES["P01"] = dict(tus=P01)

PROPERTIES["P03"] = dict(tus=[dict(src="p03_vector.cpp", flavour="asan1"), dict(src="p03_vector.cpp", flavour="asan1", defs=["BIG"]), dict(src="p03_vector.cpp", flavour="plain1", defs=["HUGE_SIZES"])])
def P02(tier):
    t = [dict(src="p02_resize.cpp", flavour="asan1", defs=["NDIMS=1", "QDEPTH=6"]),
         dict(src="p02_resize.cpp", flavour="asan1", defs=["NDIMS=2", "QDEPTH=5"])]
    for k in range(3):
        t.append(dict(src="p02_resize.cpp", flavour="asan1", defs=["NDIMS=3", "PART=%d" % k, "EXTMAX=3", "QDEPTH=4", "TDEPTH=4"]))
    t.append(dict(src="p02_resize.cpp", flavour="asan1", defs=["NDIMS=2", "ELEM=elem::Movable", "QDEPTH=4"]))
    t.append(dict(src="p02_resize.cpp", flavour="asan1", defs=["NDIMS=2", "ELEM=elem::CopyOnly", "EXTMAX=2", "QDEPTH=4"]))
    t.append(dict(src="p02_resize.cpp", flavour="asan1", defs=["NDIMS=1", "ELEM=signed char", "QDEPTH=5"]))
    t.append(dict(src="p02_resize.cpp", flavour="asan1", defs=["NDIMS=2", "ELEM=short", "QDEPTH=4"]))
    for k in range(4):
        t.append(dict(src="p02_resize.cpp", flavour="asan1", defs=["NDIMS=4", "PART=%d" % (3 - k), "EXTMAX=2", "QDEPTH=2", "TDEPTH=3"]))
    t.append(dict(src="p02_resize.cpp", flavour="asan1", defs=["BIG", "NDIMS=2", "EXTMAX=9", "QDEPTH=2", "TDEPTH=3"]))
    t.append(dict(src="p02_resize.cpp", flavour="asan1", defs=["BIG", "NDIMS=3", "EXTMAX=9", "QDEPTH=1", "TDEPTH=2"]))
    return t
PROPERTIES["P02"] = dict(tus=P02)
NOT_APPLICABLE = {}
def P08(tier):
    return [dict(src="p08_aoa.cpp", flavour="asan1"),
            dict(src="p08_aoa.cpp", flavour="asan1", defs=["ROWS=2", "LEN=2", "QDEPTH=5", "TDEPTH=6"]),
            dict(src="p08_aoa.cpp", flavour="asan1", defs=["ROWS=2", "LEN=3", "QDEPTH=3", "TDEPTH=4", "INDEXT=int", "ELEM=elem::Movable"]),
            dict(src="p08_aoa.cpp", flavour="asan1", defs=["ROWS=2", "LEN=3", "QDEPTH=3", "TDEPTH=4", "ELEM=elem::CopyOnly"]),
            dict(src="p08_aoa.cpp", flavour="asan1", defs=["BIG", "ROWS=14", "LEN=20", "QDEPTH=2", "TDEPTH=2"]),
            dict(src="p08_aoa.cpp", flavour="asan1", defs=["BIG", "ROWS=14", "LEN=20", "QDEPTH=1", "TDEPTH=2", "INDEXT=int", "ELEM=elem::Movable"])]
PROPERTIES["P08"] = dict(tus=P08)
def P10(tier):
    return [dict(src="p10_aos.cpp", flavour="asan1"),
            dict(src="p10_aos.cpp", flavour="asan1", defs=["ROWS=3", "NVALS=3", "QDEPTH=3", "TDEPTH=4", "INDEXT=int"]),
            dict(src="p10_aos.cpp", flavour="asan1", defs=["ROWS=2", "NVALS=3", "QDEPTH=3", "TDEPTH=4", "ELEM=elem::Movable"]),
            dict(src="p10_aos.cpp", flavour="asan1", defs=["ROWS=1", "NVALS=5", "QDEPTH=3", "TDEPTH=5"]),
            dict(src="p10_aos.cpp", flavour="asan1", defs=["ROWS=2", "NVALS=3", "QDEPTH=3", "TDEPTH=4", "ELEM=elem::CopyOnly"]),
            dict(src="p10_aos.cpp", flavour="asan1", defs=["BIG", "ROWS=14", "NVALS=20", "QDEPTH=2", "TDEPTH=2"]),
            dict(src="p10_aos.cpp", flavour="asan1", defs=["BIG", "ROWS=14", "NVALS=20", "QDEPTH=1", "TDEPTH=2", "INDEXT=int", "ELEM=elem::Movable"])] + [
            dict(src="p10_aos.cpp", flavour="asan1", defs=["WIDE_VALUES", "ROWS=2", "NVALS=7", "QDEPTH=1", "TDEPTH=2", "ELEM=" + e]) for e in ("int", "unsigned", "double")]
PROPERTIES["P10"] = dict(tus=P10)
PROPERTIES["P07"] = dict(tus=[dict(src="p07_sorted_algorithms.cpp", flavour="asan1", defs=["LARGE"]),
    dict(src="p07_sorted_algorithms.cpp", flavour="asan1", defs=["ELEM=elem::Movable", "LARGE", "NSIZES=3"]),
    dict(src="p07_sorted_algorithms.cpp", flavour="asan1", defs=["ELEM=elem::CopyOnly"]),
    dict(src="p07_sorted_algorithms.cpp", flavour="asan1", defs=["ELEM=std::string"])]
    + [dict(src="p07_sorted_algorithms.cpp", flavour="asan1", defs=["ELEM=" + e, "WIDE_VALUES", "UNIVERSE=6"] + d) for e, d in (("int", ["LARGE", "NSIZES=1"]), ("long", []), ("unsigned", []), ("short", []), ("double", []), ("unsigned char", ["SMALLTYPE"]))])

PROPERTIES["P06"] = dict(tus=[dict(src="p06_sorted.cpp", flavour="asan1"),
    dict(src="p06_sorted.cpp", flavour="asan1", defs=["NVALS=4", "ELEM=elem::Movable", "INDEXT=int"]),
    dict(src="p06_sorted.cpp", flavour="asan1", defs=["NVALS=4", "ELEM=elem::CopyOnly"]),
    dict(src="p06_sorted.cpp", flavour="asan1", defs=["NVALS=4", "ELEM=std::string"]),
    dict(src="p06_sorted.cpp", flavour="asan1", defs=["NVALS=8", "QDEPTH=2", "TDEPTH=3"]),
    dict(src="p06_sorted.cpp", flavour="asan1", defs=["WIDE_VALUES", "NVALS=8", "QDEPTH=2", "TDEPTH=3"]),
    dict(src="p06_sorted.cpp", flavour="asan1", defs=["WIDE_VALUES", "ELEM=long", "QDEPTH=3", "TDEPTH=20"]),
    dict(src="p06_sorted.cpp", flavour="asan1", defs=["WIDE_VALUES", "ELEM=double", "QDEPTH=3", "TDEPTH=20", "INDEXT=int"]),
    dict(src="p06_sorted.cpp", flavour="asan1", defs=["WIDE_VALUES", "ELEM=unsigned", "QDEPTH=3", "TDEPTH=20"]),
    dict(src="p06_sorted.cpp", flavour="asan1", defs=["BIG", "NVALS=30", "QDEPTH=2", "TDEPTH=3"]),
    dict(src="p06_sorted.cpp", flavour="asan1", defs=["BIG", "NVALS=30", "QDEPTH=1", "TDEPTH=2", "ELEM=elem::Movable", "INDEXT=int"])])

WIDE_COLS = (("long", "long"), ("unsigned", "long"), ("int", "int"), ("unsigned char", "int"), ("unsigned short", "long"), ("signed char", "short"))
PROPERTIES["P11"] = dict(tus=[dict(src="p11_crs.cpp", flavour="asan1"),
    dict(src="p11_crs.cpp", flavour="asan1", defs=["ROWS=3", "COLS=3", "INDEXT=int", "COLT=unsigned"]),
    dict(src="p11_crs.cpp", flavour="asan1", defs=["BIG", "ROWS=14", "COLS=20", "QDEPTH=2", "TDEPTH=2"])] + [dict(src="p11_wide.cpp", flavour="asan1", defs=["COLT=" + c, "INDEXT=" + i] + (["LONG_ROW"] if c in ("int", "long") else [])) for c, i in WIDE_COLS])
PROPERTIES["P12"] = dict(tus=[dict(src="p11_crs.cpp", flavour="asan1", defs=["ENTRY=int", "COLS=3", "QDEPTH=4", "TDEPTH=5"]),
    dict(src="p11_crs.cpp", flavour="asan1", defs=["ENTRY=double", "ROWS=3", "COLS=3", "INDEXT=int", "COLT=long", "QDEPTH=2", "TDEPTH=3"]),
    dict(src="p11_crs.cpp", flavour="asan1", defs=["ENTRY=elem::Movable", "COLS=3", "INDEXT=int"]),
    dict(src="p11_crs.cpp", flavour="asan1", defs=["ENTRY=elem::CopyOnly", "COLS=3"]),
    dict(src="p11_crs.cpp", flavour="asan1", defs=["BIG", "ENTRY=double", "ROWS=14", "COLS=20", "QDEPTH=2", "TDEPTH=2"]),
    dict(src="p11_crs.cpp", flavour="asan1", defs=["BIG", "ENTRY=elem::Movable", "ROWS=14", "COLS=19", "QDEPTH=1", "TDEPTH=2", "INDEXT=int"]),
    dict(src="p12_add.cpp", flavour="asan1"), dict(src="p12_add.cpp", flavour="asan1", defs=["ENTRY=int"])] + [dict(src="p11_wide.cpp", flavour="asan1", defs=["COLT=" + c, "INDEXT=" + i] + (["LONG_ROW"] if c in ("int", "long") else [])) for c, i in WIDE_COLS])

PROPERTIES["P09"] = dict(tus=[dict(src="p09_capacity.cpp", flavour="asan1", defs=["CONTAINER=%d" % c, "DEPTH=%d" % d, "INDEXT=" + i] + e)
    for c, d, i, e in [(0, 5, "int", []), (1, 5, "int", []), (2, 5, "int", []), (3, 5, "int", []), (4, 4, "int", []), (5, 5, "int", []), (0, 3, "long", ["ELEM=elem::Movable"]), (1, 3, "long", ["ELEM=elem::CopyOnly"]), (3, 3, "long", ["ELEM=elem::Movable"])]] + [dict(src="p09_huge.cpp", flavour="plain1")])
PROPERTIES["P04"] = dict(tus=[dict(src="p04_lifetimes.cpp", flavour="asan1", defs=["CONTAINER=%d" % c, "DEPTH=%d" % d, "ELEM=" + e])
    for e in ("elem::Movable", "elem::CopyOnly") for c, d in ((0, 7), (1, 5), (2, 3), (3, 3), (4, 3), (5, 5), (6, 3))]
    + [dict(src="p04_lifetimes.cpp", flavour="asan1", defs=["BIG", "CONTAINER=%d" % c, "DEPTH=1", "ELEM=" + e]) for c, e in ((0, "elem::Movable"), (0, "elem::CopyOnly"), (1, "elem::Movable"), (2, "elem::Movable"), (3, "elem::CopyOnly"), (4, "elem::Movable"), (5, "elem::Movable"))]
    + [dict(src="p05_copies.cpp", flavour="asan1", defs=["CONTAINER=%d" % c, "ELEM=" + e]) for c, e in ((0, "elem::CopyOnly"), (0, "elem::Movable"), (1, "elem::Movable"), (2, "elem::Movable"), (3, "elem::CopyOnly"), (4, "elem::CopyOnly"), (6, "elem::CopyOnly"))])

PROPERTIES["P05"] = dict(tus=[dict(src="p05_copies.cpp", flavour="asan1", defs=["CONTAINER=%d" % c, "DEPTH=%d" % d]) for c, d in ((0, 2), (1, 2), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 1))]
    + [dict(src="p05_copies.cpp", flavour="asan1", defs=["CONTAINER=%d" % c, "ELEM=" + e]) for c, e in ((0, "elem::Movable"), (1, "std::string"), (2, "elem::CopyOnly"), (3, "elem::Movable"), (4, "elem::Movable"), (6, "elem::Movable"))] + [dict(src="p05_views.cpp", flavour="asan1")]
    + [dict(src="p05_copies.cpp", flavour="asan1", defs=["BIG", "CONTAINER=%d" % c, "DEPTH=0", "ELEM=" + e]) for c, e in ((0, "int"), (1, "int"), (2, "int"), (3, "int"), (4, "double"), (5, "int"), (6, "int"))])

RT = dict(flavour="mctsan", own=[("lib/sched_rt.cpp", "plain1")], supflavour="plain1")
SCHED = "stateless exploration of all interleavings of the real code under a controlled scheduler, with a happens-before race monitor"
def conc(src, *deflists):
    return [dict(RT, src=src, defs=list(d)) for d in (deflists or [[]])]
PROPERTIES["P13"] = dict(technique=SCHED, tus=conc("p13_emplace_atomic.cpp", [], ["ELEM=thr::Wide", "INDEXT=int"]))
PROPERTIES["P14"] = dict(technique=SCHED, tus=conc("p14_add_atomic.cpp", [], ["ENTRY=int", "COLT=long"]))
PROPERTIES["P15"] = dict(technique=SCHED, tus=conc("p15_rows.cpp", *([["PART=%d" % k] for k in range(5)] + [["PART=%d" % k, "ELEM=thr::Wide", "INDEXT=int"] for k in range(5)] + [["LONGROWS", "PART=%d" % k] for k in range(4)])))
PROPERTIES["P16"] = dict(technique=SCHED, tus=conc("p16_bulk.cpp", [], ["ELEM=elem::Movable", "INDEXT=int"]))
PROPERTIES["P34"] = dict(technique=SCHED, tus=[dict(RT, src="p34_readers.cpp", defs=["PART=%d" % k], support=["src/system.cpp", "src/umpireInterface.cpp"], supflavour="mctsan") for k in range(5)]
    + [dict(RT, src="p34_readers.cpp", defs=["PART=%d" % k, "INDEXT=int"], support=["src/system.cpp", "src/umpireInterface.cpp"], supflavour="mctsan") for k in range(3)])
INPUTS = "exhaustive enumeration of all bounded inputs on the real code against a reference"
PROPERTIES["P18"] = dict(technique=INPUTS, tus=[dict(src="p18_limits.cpp", defs=["SMALL"]), dict(src="p18_limits.cpp", flavour="plain1"), dict(src="p18_limits.cpp", flavour="plain2")])
PROPERTIES["P25"] = dict(technique=INPUTS, tus=[dict(src="p25_macros.cpp"), dict(src="p25_macros.cpp", flavour="asan1", defs=["NDEBUG"]), dict(src="p25_macros.cpp", defs=["LVARRAY_BOUNDS_CHECK"])])
PROPERTIES["P26"] = dict(technique=INPUTS, tus=[dict(src="p26_system.cpp", flavour="plain1")])
PROPERTIES["P27"] = dict(technique=INPUTS, tus=[dict(src="p27_diagnostics.cpp", libs=["-rdynamic"], support=["src/system.cpp", "src/umpireInterface.cpp", "src/totalview/tv_data_display.c"]), dict(src="p27_moves.cpp", flavour="asan1", support=["src/system.cpp"])]
    + [dict(src="p27_locations.cpp", flavour="plain0", defs=["WHERE=%d" % w, "LVARRAY_ADDR2LINE_EXEC=" + exe], extra=extra, libs=["-rdynamic", pie], support=[])
       for w, exe, extra, pie in [(0, "/usr/bin/addr2line", ["-g", "-fno-pie"], "-no-pie"), (0, "/usr/bin/addr2line", ["-g", "-fPIE"], "-pie"), (2, "/usr/bin/addr2line", ["-fno-pie"], "-no-pie"), (2, "/nonexistent/addr2line", ["-g", "-fno-pie"], "-no-pie")]])
PROPERTIES["P28"] = dict(technique=INPUTS, tus=[dict(src="p28_math.cpp", flavour="plain1", support=[])])

def P17(tier):
    t = [dict(src="p17_bounds.cpp", defs=["PART=%d" % k]) for k in range(4)]
    t += [dict(src="p17_bounds.cpp", defs=["PART=%d" % k, "INDEXT=int"] + (["COLT=unsigned"] if k == 3 else [])) for k in range(4)]
    t += [dict(src="p17_bounds.cpp", defs=["PART=4"] + d) for d in ([], ["INDEXT=int"])]
    t += [dict(src="p17_bounds.cpp", defs=["PART=0", "NDEBUG"])]
    # valid histories are never reported
    B = "LVARRAY_BOUNDS_CHECK"
    t += [dict(src="p08_aoa.cpp", flavour="asan1", defs=["ROWS=2", "LEN=2", "QDEPTH=3", "TDEPTH=4", B]),
          dict(src="p10_aos.cpp", flavour="asan1", defs=["ROWS=2", "NVALS=3", "QDEPTH=3", "TDEPTH=4", B]),
          dict(src="p11_crs.cpp", flavour="asan1", defs=["ROWS=2", "COLS=3", "QDEPTH=2", "TDEPTH=3", B]),
          dict(src="p11_crs.cpp", flavour="asan1", defs=["ENTRY=int", "ROWS=2", "COLS=3", "QDEPTH=2", "TDEPTH=3", B]),
          dict(src="p06_sorted.cpp", flavour="asan1", defs=["NVALS=4", "QDEPTH=2", "TDEPTH=3", B]),
          dict(src="p12_add.cpp", flavour="asan1", defs=[B]),
          dict(src="p03_vector.cpp", flavour="asan1", defs=[B]),
          dict(src="p02_resize.cpp", flavour="asan1", defs=["NDIMS=2", "QDEPTH=4", B])]
    return t
PROPERTIES["P17"] = dict(technique=INPUTS, tus=P17)

PROPERTIES["P19"] = dict(tus=[dict(src="p19_stack.cpp", flavour="plain1", defs=["PART=%d" % k]) for k in (0, 1, 2)] + [dict(src="p19_stack.cpp", flavour="asan1", defs=["PART=%d" % k]) for k in (0, 1)])
PROPERTIES["P21"] = dict(technique=INPUTS, tus=[dict(src="p21_text.cpp", flavour="plain1", defs=["PART=%d" % k]) for k in (0, 1, 2)] + [dict(src="p21_text.cpp", flavour="asan1", defs=["PART=%d" % k]) for k in (1, 2)])
PROPERTIES["P22"] = dict(technique=INPUTS, tus=[dict(src="p22_slices.cpp", flavour="asan1", defs=["PART=%d" % k]) for k in range(4)])
PROPERTIES["P24"] = dict(technique=INPUTS, tus=[dict(src="p24_inverse.cpp", flavour="plain1", defs=["PART=%d" % k]) for k in range(4)])
PROPERTIES["P32"] = dict(technique=INPUTS, tus=[dict(src="p32_fill.cpp", flavour="asan1")])
PROPERTIES["P33"] = dict(tus=[dict(src="p33_buffers.cpp", flavour="asan1", defs=d) for d in ([], ["LVARRAY_BOUNDS_CHECK"])]
    + [dict(src="p33_buffers.cpp", flavour="asan1", defs=["CHAI"] + d, support=["src/system.cpp"]) for d in ([], ["LVARRAY_BOUNDS_CHECK"])])
PROPERTIES["P35"] = dict(tus=[dict(src="p35_growth.cpp", flavour="asan1", defs=["PART=%d" % k] + d) for k in range(3) for d in ([], ["INDEXT=int"])])
PROPERTIES["P23"] = dict(technique=INPUTS, tus=[dict(src="p23_tensor.cpp", flavour="plain0", defs=["PART=%d" % k]) for k in range(5)] + [dict(src="p23_tensor.cpp", flavour="plain1", defs=["PART=4", "VALT=double"])])

PROPERTIES["P20"] = dict(tus=[dict(src="p20_spaces.cpp", flavour="asan1", defs=["WHAT=%d" % k], support=["src/system.cpp"]) for k in range(4)]
    + [dict(src="p20_host.cpp", flavour="asan1", support=["src/system.cpp"])])

NP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/numpy/_core/include"
PYINC = ["-I/usr/include/python3.12", "-I" + NP]
def P36(tier):
    repo = os.environ.get("VERIF_REPO", "/repo")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    extra = ["-g", "-fstandalone-debug", '-DREPO="%s"' % repo, '-DDRIVER="%s/lib/gdb_driver.py"' % here]
    return [dict(src="p36_debugger.cpp", flavour="plain0", extra=extra), dict(src="p36_debugger.cpp", flavour="plain0", defs=["CHAI"], extra=extra, support=["src/system.cpp"])]
PROPERTIES["P36"] = dict(technique=INPUTS, hang=200, tus=P36)
def py(src, *deflists):
    repo = os.environ.get("VERIF_REPO", "/repo")
    sup = sorted(glob.glob(repo + "/src/python/*.cpp")) + ["src/system.cpp", "src/umpireInterface.cpp"]
    return [dict(src=src, flavour="asan1", defs=list(d), extra=PYINC, supextra=PYINC, support=sup, libs=["-lpython3.12"]) for d in deflists]
PROPERTIES["P30"] = dict(tus=lambda tier: py("p30_python.cpp", *[["WHAT=%d" % k] for k in range(5)]))
PROPERTIES["P31"] = dict(technique=INPUTS, tus=lambda tier: py("p31_arguments.cpp", *[["PART=%d" % k] for k in range(6)]))
PROPERTIES["P29"] = dict(tus=lambda tier: [dict(src="p29_views.cpp", flavour="asan1", defs=["PART=%d" % k]) for k in range(5)] + [dict(src="p29_views.cpp", flavour="asan1", defs=["PART=%d" % k, "INDEXT=int"]) for k in (1, 3)])
