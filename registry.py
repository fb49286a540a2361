import os
from check import Unit

def parts(prefix, src, n, **kw):
    defs = kw.pop("defs", [])
    return [Unit("%s_p%d" % (prefix, i), src, defs=defs + ["PART=%d" % i], **kw) for i in range(n)]

CHECKS = {}

CHECKS["C01"] = dict(units=lambda: parts("c01", "c01_array.cpp", 4) + [
    Unit("c01_p3_nobounds", "c01_array.cpp", defs=["PART=3"], bounds=False),
    Unit("c01_p0_nobounds", "c01_array.cpp", defs=["PART=0"], bounds=False, opt="-O2"),
    Unit("c01_p4", "c01_array.cpp", defs=["PART=4"], tier="thorough", opt="-O0")])

CHECKS["C02"] = dict(units=lambda: parts("c02", "c02_alias.cpp", 4) + [
    Unit("c02_san_p2", "c02_alias.cpp", defs=["PART=2"], flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=all"], link=["-fsanitize=address,undefined"]),
    Unit("c02_nobounds", "c02_alias.cpp", defs=["PART=1"], bounds=False, opt="-O2")])

CHECKS["C03"] = dict(units=lambda: parts("c03", "c03_bounds.cpp", 4) + [
    Unit("c03_p3_clang", "c03_bounds.cpp", defs=["PART=3"], cxx="clang++"),
    Unit("c03_p3_clang20", "c03_bounds.cpp", defs=["PART=3"], cxx="clang++", std="20"),
    Unit("c03_p3_nobounds", "c03_bounds.cpp", defs=["PART=3"], bounds=False),
    Unit("c03_p1_O3", "c03_bounds.cpp", defs=["PART=1"], opt="-O3"),
    Unit("c03_p1_nobounds", "c03_bounds.cpp", defs=["PART=1"], bounds=False, opt="-O2")])

CHECKS["C04"] = dict(py=["c04"])

CHECKS["C05"] = dict(units=lambda: parts("c05", "c05_linear.cpp", 4) + [
    Unit("c05_p2_clang", "c05_linear.cpp", defs=["PART=2"], cxx="clang++", std="20", opt="-O2"),
    Unit("c05_p3_ub", "c05_linear.cpp", defs=["PART=3"], flags=["-fsanitize=undefined", "-fno-sanitize-recover=all"], link=["-fsanitize=undefined"])])

CHECKS["C06"] = dict(units=lambda: parts("c06", "c06_range.cpp", 4) + [
    Unit("c06_p0_clang", "c06_range.cpp", defs=["PART=0"], cxx="clang++", std="20", opt="-O2"),
    Unit("c06_p5", "c06_range.cpp", defs=["PART=5"]),
    Unit("c06_p5_O3", "c06_range.cpp", defs=["PART=5"], opt="-O3", bounds=False),
    Unit("c06_p4", "c06_range.cpp", defs=["PART=4"], tier="thorough")])

CHECKS["C07"] = dict(units=lambda: parts("c07", "c07_seq.cpp", 5) + [
    Unit("c07_p0_clang20", "c07_seq.cpp", defs=["PART=0"], cxx="clang++", std="20"),
    Unit("c07_p1_gcc20", "c07_seq.cpp", defs=["PART=1"], std="20", opt="-O2"),
    Unit("c07_p3_clang", "c07_seq.cpp", defs=["PART=3"], cxx="clang++", opt="-O2"),
    Unit("c07_p4_clang", "c07_seq.cpp", defs=["PART=4"], cxx="clang++", std="20", opt="-O0")])

CHECKS["C08"] = dict(units=lambda: [
    Unit("c08", "c08_spacing.cpp"), Unit("c08_O3", "c08_spacing.cpp", opt="-O3", bounds=False),
    Unit("c08_clang20", "c08_spacing.cpp", cxx="clang++", std="20", opt="-O0")], py=["c08"])

CHECKS["C09"] = dict(units=lambda: [
    Unit("c09", "c09_quadrature.cpp", opt="-O2", shards=3), Unit("c09_clang", "c09_quadrature.cpp", cxx="clang++", std="20", opt="-O1", bounds=False, shards=3)])

def lagrange(prop, defs):
    return lambda: parts(prop, "c10_lagrange.cpp", 3, defs=defs) + [
        Unit(prop + "_gcc20", "c10_lagrange.cpp", defs=defs + ["PART=0"], std="20", opt="-O2"),
        Unit(prop + "_clang", "c10_lagrange.cpp", defs=defs + ["PART=1"], cxx="clang++", opt="-O0", bounds=False),
        Unit(prop + "_clang20", "c10_lagrange.cpp", defs=defs + ["PART=0"], cxx="clang++", std="20", opt="-O2", bounds=False)]

CHECKS["C10"] = dict(units=lagrange("c10", []))
CHECKS["C11"] = dict(units=lagrange("c11", ["GRAD"]))

CHECKS["C12"] = dict(units=lambda: parts("c12", "c12_product.cpp", 6) + [
    Unit("c12_p1_gcc20", "c12_product.cpp", defs=["PART=1"], std="20", bounds=False),
    Unit("c12_p1_clang", "c12_product.cpp", defs=["PART=1"], cxx="clang++", opt="-O0"),
    Unit("c12_p3_clang20", "c12_product.cpp", defs=["PART=3"], cxx="clang++", std="20")])


CHECKS["C13"] = dict(units=lambda: parts("c13", "c13_interp.cpp", 6) + [
    Unit("c13_p2_clang20", "c13_interp.cpp", defs=["PART=2"], cxx="clang++", std="20", opt="-O2", bounds=False),
    Unit("c13_p1_gcc20", "c13_interp.cpp", defs=["PART=1"], std="20", opt="-O2")])

CHECKS["C14"] = dict(units=lambda: parts("c14", "c14_jacobian.cpp", 8) + [
    Unit("c14_p2_clang20", "c14_jacobian.cpp", defs=["PART=2"], cxx="clang++", std="20", bounds=False)])

CHECKS["C15"] = dict(units=lambda: parts("c15", "c15_inverse.cpp", 3) + [
    Unit("c15_p0_clang", "c15_inverse.cpp", defs=["PART=0"], cxx="clang++", opt="-O3", bounds=False),
    Unit("c15_p2_clang20", "c15_inverse.cpp", defs=["PART=2"], cxx="clang++", std="20", opt="-O2")])

CHECKS["C16"] = dict(units=lambda: [Unit("c16", "c16_scaling.cpp"), Unit("c16_clang20", "c16_scaling.cpp", cxx="clang++", std="20", opt="-O2", bounds=False)])

CHECKS["C17"] = dict(units=lambda: parts("c17", "c17_shapes.cpp", 3, std="20") + [Unit("c17_p0_clang17", "c17_shapes.cpp", defs=["PART=0"], cxx="clang++", opt="-O0", bounds=False)])

CHECKS["C18"] = dict(units=lambda: parts("c18", "c18_math.cpp", 4) + [
    Unit("c18_p2_clang20", "c18_math.cpp", defs=["PART=2"], cxx="clang++", std="20", opt="-O0"),
    Unit("c18_p5_O3", "c18_math.cpp", defs=["PART=5"], cxx="clang++", opt="-O3"),
    Unit("c18_p1_O3", "c18_math.cpp", defs=["PART=1"], cxx="clang++", opt="-O3", tier="thorough")])

CHECKS["C19"] = dict(units=lambda: [Unit("c19", "c19_assert.cpp"), Unit("c19_ndebug", "c19_assert.cpp", defs=["NDEBUG"], opt="-O3", bounds=False),
                                    Unit("c19_clang20", "c19_assert.cpp", cxx="clang++", std="20", opt="-O2")])

def c20():
    kw = dict(flags=["-fsanitize=thread"], nosan_src=["mc/sched.cpp"], args=["--isolate"])
    return [Unit("c20_p0", "c20_pure.cpp", defs=["PART=0"], shards=8, **kw), Unit("c20_p1", "c20_pure.cpp", defs=["PART=1"], shards=6, **kw),
            Unit("c20_p2", "c20_pure.cpp", defs=["PART=2"], shards=4, **kw), Unit("c20_p3", "c20_pure.cpp", defs=["PART=3"], **kw),
            Unit("c20_p4", "c20_pure.cpp", defs=["PART=4"], nosan_src=["mc/sched.cpp"], args=["--isolate"], opt="-O2", shards=4),
            Unit("c20_p3_clang20", "c20_pure.cpp", defs=["PART=3"], cxx="clang++", std="20", opt="-O2", bounds=False, **kw)]

CHECKS["C20"] = dict(units=c20)
CHECKS["C21"] = dict(py=["c21"])
CHECKS["C22"] = dict(py=["c22"])
CHECKS["C23"] = dict(py=["c23"])
def c25():
    emu = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/emu")
    kw = dict(emulated=True)
    cuda = dict(defs=["DEVICE"], options=["-DSHIVA_ENABLE_CUDA=ON"], flags=["-include", emu + "/cuda_runtime.h"], **kw)
    hip = dict(defs=["DEVICE"], options=["-DSHIVA_ENABLE_HIP=ON"], **kw)
    return [Unit("c25_host", "c25_pmpl.cpp", **kw), Unit("c25_host_asan", "c25_pmpl.cpp", cxx="clang++", flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=all"], link=["-fsanitize=address,undefined"], **kw),
            Unit("c25_cuda", "c25_pmpl.cpp", shards=4, **cuda), Unit("c25_hip", "c25_pmpl.cpp", cxx="clang++", std="20", opt="-O2", shards=4, **hip)]

CHECKS["C24"] = dict(py=["c24"])
CHECKS["C27"] = dict(py=["c27"])
CHECKS["C25"] = dict(units=c25)
CHECKS["C26"] = dict(units=lambda: [Unit("c26_p%d" % i, "c26_integrals.cpp", defs=["PART=%d" % i], opt="-O2", shards=2 if i in (1, 3) else 1) for i in range(6)] + [
    Unit("c26_p2_clang20", "c26_integrals.cpp", defs=["PART=2"], cxx="clang++", std="20", bounds=False)])

CHECKS["C28"] = dict(py=["c28"])
CHECKS["C29"] = dict(py=["c29"])
