#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py: python3-vt tools/gen_manifest.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import registry
EXP = "exhaustive stateless exploration of the real code against a reference model"
T = {
 "C01": ("exhaustive operation sequences on real containers against a map model", "Every sequence of the operation alphabet up to the stated depth on every listed array shape; element values come from a small alphabet."),
 "C02": ("exhaustive operation sequences over aliasing handles against a shared-storage model", "Every interleaving of operations through all handles of one storage up to the stated depth, in three build modes and under address/UB sanitizers."),
 "C03": ("exhaustive enumeration of access paths and index tuples with process-outcome monitoring", "Every index tuple of a window around each extent and the integer limits, for every access form, in run-time and constant evaluation."),
 "C04": ("exhaustive enumeration of ill-formed and well-formed programs against the compilers", "Every program of a small grammar of misuse is compiled by g++ and clang++; each misuse has a neighbouring correct program that must compile."),
 "C05": ("exhaustive exploration of index tuples against integer reference arithmetic", "Every shape and every multi-index of the listed ranges, both template and run-time forms, all base types."),
 "C06": ("exhaustive exploration of iteration traces against a nested-loop model", "All range shapes with extents of a small alphabet up to the listed number of dimensions; the complete visit trace is compared."),
 "C07": ("exhaustive exploration of sequence/callable shapes against a reference evaluator", "All sequences up to the listed lengths, callable kinds, argument orders and value categories."),
 "C08": ("exhaustive enumeration of point sets against 50-digit reference values", "Every supported spacing, number of points, precision and index, run-time and constant-evaluated."),
 "C09": ("exhaustive enumeration of quadrature rules against exact monomial integrals", "Every rule and every monomial up to its degree of exactness, and sharpness one degree further."),
 "C10": ("exhaustive enumeration of basis, order and evaluation points against exact polynomial arithmetic", "All spacings and orders; points on a fine grid with nodes, endpoints and neighbours in floating point."),
 "C11": ("exhaustive enumeration of basis, order and evaluation points against exact derivative arithmetic", "As C10 for gradients, with consistency between value and gradient."),
 "C12": ("exhaustive enumeration of products of bases against tensor-product reference", "Listed mixes of orders and spacings in 1-6 directions, all support indices, grid points."),
 "C13": ("exhaustive enumeration of elements, fields and points against reference interpolation", "Listed elements of 1-5 directions, all unit fields and small-integer fields, grid points and points close to the zeros of the functions."),
 "C14": ("exhaustive exploration of call histories on transforms against reference Jacobians", "All sequences of setter/query calls up to a depth, over corner alphabets, with prefilled outputs."),
 "C15": ("exhaustive enumeration of matrices and transforms against exact rational inverses", "All matrices over a small integer alphabet plus scaled variants."),
 "C16": ("exhaustive exploration of call histories on scaling transforms against reference", "All sequences up to a depth over alphabets of lengths, with prefilled outputs."),
 "C17": ("exhaustive enumeration of shapes against combinatorial reference counts", "All dimensions whose counts fit, all entity dimensions and coordinate types."),
 "C18": ("exhaustive enumeration of arguments against 128-bit reference arithmetic", "Every base/exponent/argument whose result fits for small types and all near the limits for wide ones."),
 "C19": ("exhaustive enumeration of failing and passing assertions with process-outcome monitoring", "Every assertion form, condition kind and message arity in child processes."),
 "C20": ("preemption-bounded exploration of all thread schedules of the instrumented library with a vector-clock race detector", "Every memory access and callback is a scheduling point; all schedules up to the preemption bound, all re-entrant nestings and all repeated evaluations."),
 "C21": ("exhaustive enumeration of build configurations of one program, compared trace by trace", "Compilers, standards, optimization, bounds-check settings, compile-time versus run-time; all outputs compared."),
 "C22": ("exhaustive enumeration of include orders and translation-unit links", "Every header alone, doubled, every ordered pair, in two compilers and standards; multi-unit links; macro sets; probes of the code that follows."),
 "C23": ("exhaustive enumeration of include graphs run through the real script against a graph model", "All include graphs of up to three headers with self and missing includes, all of four, all acyclic of five; plus the library's own headers."),
 "C24": ("exhaustive enumeration of option combinations and tool failures of the real script with stand-in tools", "All option combinations, pre-existing directory states and tool exit statuses inside scratch directories as an unprivileged user."),
 "C25": ("exhaustive fault enumeration on an emulated device runtime against a shadow-memory model", "Host configuration and emulated CUDA and HIP: every single and double failing runtime call, buffer length, element type and abort setting."),
 "C26": ("exhaustive enumeration of mapped cells against exact rational integrals", "All corner perturbations over a small alphabet, axis permutations, stretches and translations; exact dyadic reference integrals."),
 "C27": ("exhaustive enumeration of configuration-file pairs against a reference parser", "All pairs of files with up to the listed number of lines over an alphabet of line forms."),
 "C29": ("exhaustive fault enumeration of the real scripts with stand-in tools against a plan of steps", "All sets of options, orders of the working ones, failing steps, settings; the recorded container call is carried out on the inner script; both schedules of report writer and reader."),
 "C28": ("exhaustive enumeration of CMake option sets and consumption routes", "All option combinations configured; header parsed; consumers built as subdirectory, from the build tree and from the installed package."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in registry.CHECKS:
        t, note = T[p]
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique="model checking: " + t, level=registry.CHECKS[p].get("level", "model_checking"),
                           level_note=note + " Nothing is claimed beyond these bounds. Trusted: the compilers, the reference model in the harness and the explorer."))
    else:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 -m py_compile check.py registry.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo. Checks build /repo's headers and scripts themselves in /verif/build (ignored by git). See DESIGN.md.")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
