#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties (run by hand, committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": ("PBT: generated rotations against a long-double Rodrigues/log reference", "All angles including 0, pi and the internal approximation boundaries; the reference is an independent long double implementation."),
 "P02": ("model-based PBT: random increment/set histories against a reference pose", "Histories of pose and rotation variables against an independent quaternion/matrix model."),
 "P03": ("model-based PBT: random increment/set histories against reference variables", "Histories of every non-pose variable kind against a reference model, value by value."),
 "P04": ("stateful PBT: clone/set/reject programs, differential against an untouched twin", "Clone independence, round trips and rejection of wrong sizes for all ten variable kinds."),
 "P05": ("PBT: residuals of all factor kinds against an independent error model", "Residuals recomputed by a model written from the documentation; both overloads; no side effects."),
 "P06": ("PBT: analytic Jacobians against high-order differences of the reference model", "Five-point differences of the model along the variables' own increments; shapes and empty blocks exact."),
 "P07": ("metamorphic PBT: truth gives zero residual; rigid world motions and whole turns change nothing", "Relations that need no error model; independent of P05's oracle."),
 "P08": ("stateful PBT: graph programs, residual against stacked factor residuals", "Random edit/evaluate programs on graphs; the stack is assembled by the harness."),
 "P09": ("stateful PBT: dense and sparse Jacobians against blocks assembled by the harness", "Random edit/flag/re-finalize/copy/evaluate programs; every entry compared."),
 "P10": ("stateful PBT: set/get/increment programs against a per-variable model", "Vector access and increments on graphs with constants, including wrong sizes."),
 "P11": ("model-based PBT: structure programs against two insertion-ordered lists", "Every addition, lookup, finalize and premature evaluation predicted by the model."),
 "P12": ("metamorphic PBT: constants against the problem with those values eliminated", "Bitwise unmoved constants, and comparison with a substituted problem."),
 "P13": ("PBT: optimizer histories, statistics recomputed by the harness", "chi2 per iteration limit, statistics and damping bounds for arbitrary graphs and settings."),
 "P14": ("differential PBT: linear problems against a QR least-squares solution", "Random full-rank linear graphs from any start."),
 "P15": ("PBT: generated observable scenes with known truth, both methods", "Reference spectrum guards well-posedness; agreement of both methods and stationarity."),
 "P16": ("fault-injecting PBT: singular scenes and factors that throw or return NaN", "Injected errors at a chosen evaluation, unconstrained variables, unobservable directions."),
 "P17": ("stateful PBT: covariances against the inverse information computed by the harness", "Optimizer reuse, graph changes, both methods, zero and more iterations."),
 "P18": ("mutation-style PBT: self-test verdict on correct and deliberately wrong factors", "One wrong entry, shape, count or constant block in a randomly placed factor."),
 "P19": ("metamorphic PBT: renumbered, permuted, repeated, reused and verbose runs", "Bitwise where nothing is reordered, tolerance where summation order changes."),
 "P20": ("PBT: robustified residual and numerical derivative of it", "Kernel applied to random vectors and to library factors' Jacobians."),
 "P21": ("model-based PBT: random Python API programs against a numpy model", "Every constructor argument form, value, residual, Jacobian, graph query, optimizer setting, statistic, estimate and covariance reached through the Python bindings."),
 "P22": ("stateful PBT of Python call histories with the extension under AddressSanitizer, against a mirror", "Random programs of creating, keeping, dropping, collecting, fetching, changing and misusing every kind of Python object."),
 "P23": ("PBT: drawn graphs plotted with drawn flags, every artist on the axis against the model", "Markers, arrows, lines, covariance outlines, legend, limits and the graph's own values, in 2D and 3D."),
 "P24": ("model-based PBT: stopwatch histories under an interposed clock", "The stopwatch reads a clock that the harness controls, so its sums are known exactly; any start/stop/reset history."),
 "P25": ("stateful PBT and coverage-guided fuzzing (libFuzzer) of C++ API programs under ASan and UBSan", "Random valid programs over the whole C++ API; the oracle is the sanitizers, the clock and the type of the exceptions."),
 "P26": ("differential PBT: every iteration of generated runs recomputed from its starting state", "Long double QR/LDLT steps, the damping sequence, the tolerances and the prefix relation, for every iteration limit."),
 "P27": ("schedule PBT: generated programs alone, interleaved and threaded, bitwise differential, half under ThreadSanitizer", "Drawn interleavings and real threads over separate graphs; concurrent readers of shared ones."),
 "P28": ("PBT: captured output of generated graphs and runs against the objects' own values", "Every printed number parsed and compared with what it claims to describe."),
 "P29": ("type-directed PBT: arguments generated from the stubs' annotations, call forms compared with each other", "Constructors, methods, properties, functions and enums of the .pyi stubs called with generated values of the declared types in every form."),
}
NA = {}
if __name__ == "__main__":
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks = []
    for p in ids:
        if p in T:
            checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s thorough" % p,
                           "technique": T[p][0], "level": "exploration",
                           "level_note": T[p][1] + " Generated search: absence of a counterexample is not proof."})
    na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in ids if p not in T]
    json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
               "notes": "No hooks: the checks compile /repo's sources as they are."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
