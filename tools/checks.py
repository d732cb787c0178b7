"""What each check runs."""
from vp import SEED, THOROUGH, ToolError, Violation

CHECKS = {}


def check(prop, level):
    def reg(fn):
        CHECKS[prop] = (level, fn)
        return fn
    return reg


def runs(name, n, *args):
    """n driver runs with different seeds derived from VERIF_SEED"""
    return [("%s%d" % (name, i), [SEED * 1000 + i] + list(args)) for i in range(n)]


@check("C01", "model_checking")
def c01(c):
    c.assumptions += ["std::mutex works", "the engine shim (harness/rng_shim.hpp) yields inside the engine's step; it does not change its values"]
    c.model_check("Rng", "MCRngThorough.cfg" if THOROUGH else "MCRng.cfg")
    c.model_check("Rng", "MCRngBroken.cfg", expect="NoRepetition")
    exe = c.build("drv_rng", ["drv_rng.cpp", "drv_rng2.cpp"],
                  flags=["-include", "rng_shim.hpp"], pagmo=False, libs=["-lpthread"])
    k = 6 if THOROUGH else 1
    c.record_and_validate(exe, runs("seq", 2 * k, "seq", 12) + runs("par", 4 * k, "par", 12) + runs("mix", 6 * k, "mix", 15), "RngTrace")


def wrapper_scripts(c):
    """One script per transition of the design's state graph (TLC), plus longer random ones (TLC simulation)."""
    import json, os, random, re
    out = []
    rc, o = c.tlc("Wrapper", "MCWrapper3Emit.cfg" if THOROUGH else "MCWrapperEmit.cfg", timeout=300, heap="4g")
    if rc != 0:
        raise ToolError("script generation: " + o[-1500:])
    scripts = re.findall(r'"SCRIPT (.*)"$', o, re.M)
    rc, o = c.tlc("Wrapper", "MCWrapper3Emit.cfg", timeout=120,
                  extra=["-simulate", "num=%d" % (400 if THOROUGH else 60), "-depth", "25", "-seed", str(SEED)])
    sim, prev = [], None
    for s in re.findall(r'"SCRIPT (.*)"$', o, re.M):
        # keep the longest history of each behaviour
        if prev is not None and len(s) <= len(prev):
            sim.append(prev)
        prev = s
    sim.append(prev)
    rnd = random.Random(SEED)
    sim = [s for s in sim if s and s.count("op") > 8]
    rnd.shuffle(sim)
    scripts += sim[:4000 if THOROUGH else 400]
    if len(scripts) < 1000:
        raise ToolError("too few scripts: %d" % len(scripts))
    res = []
    for s in scripts:
        ops = json.loads(s.replace('\\"', '"'))
        res.append(";".join("%s %d %d %s %d" % (x["op"], x["a"], x["b"], x["t"] or "-", x["v"]) for x in ops))
    n = 8
    files = []
    for i in range(n):
        f = os.path.join(c.work, "scripts%d" % i)
        open(f, "w").write("\n".join(res[i::n]) + "\n")
        files.append(f)
    c.cov["scripts"] = len(res)
    return files


def wrapper(c):
    c.model_check("Wrapper", "MCWrapper3.cfg")
    exe = c.build("drv_wrapper", ["drv_wrapper.cpp"])
    fs = wrapper_scripts(c)
    c.record_and_validate(exe, [("w%d" % i, [f, SEED * 100 + i]) for i, f in enumerate(fs)], "WrapperTrace")


@check("C02", "model_checking")
def c02(c):
    c.assumptions += ["Boost.Serialization and libstdc++ work", "callable types beyond those of the driver behave like them"]
    wrapper(c)


PAGMO = "pagmo (population, problem, batch evaluation, non-dominated sorting) does what its documentation says"
AUDI = "the stand-ins for AuDi and SymEngine in harness/standin behave as the real libraries where dcgp uses them (the repository's own test suite passes with them)"


def kernel_driver(c):
    return c.build("drv_kernel", ["drv_kernel_hd.cpp", "drv_kernel_hg.cpp", "drv_kernel_num.cpp", "drv_kernel_sym.cpp", "drv_kernel.cpp", "kernels.cpp"],
                   opt="-O0", s11n=True)


def kernel_histories(c, exe):
    k = 8 if THOROUGH else 1
    c.model_check("MCKernel", "MCKernel.cfg")
    c.record_and_validate(exe, runs("hd", 5 * k, "hd", 12), "KernelTrace", "KernelTrace_d.cfg")
    c.record_and_validate(exe, runs("hg", 3 * k, "hg", 12), "KernelTrace", "KernelTrace_g.cfg")


@check("C04", "model_checking")
def c04(c):
    c.assumptions += [AUDI]
    kernel_histories(c, kernel_driver(c))


@check("C05", "model_checking")
def c05(c):
    c.assumptions += [AUDI, "Java's StrictMath and the platform's libm agree within the error bounds carried by Dbl"]
    exe = kernel_driver(c)
    k = 8 if THOROUGH else 1
    c.record_and_validate(exe, runs("num", 4 * k, "num", 14) + runs("sym", 4 * k, "sym", 60), "KernelTrace", "KernelTrace_d.cfg")


@check("C03", "model_checking")
def c03(c):
    c.assumptions += [AUDI]
    wrapper(c)
    kernel_histories(c, kernel_driver(c))
    c.record_and_validate(reg_driver(c), runs("reg", 12 if THOROUGH else 3, 10), "RegTrace")


def reg_driver(c):
    return c.build("drv_reg", ["drv_reg.cpp", "reg.cpp", "cgp.cpp", "kernels.cpp"], s11n=True)


def reg(c):
    c.model_check("Reg", "MCReg.cfg")
    c.model_check("Reg", "MCRegDiv.cfg")
    c.model_check("Reg", "MCRegBrokenPc.cfg", expect="FitInv")
    c.model_check("Reg", "MCRegBrokenDiv.cfg", expect="FitInv")
    c.record_and_validate(reg_driver(c), runs("reg", 64 if THOROUGH else 8, 10), "RegTrace")


for _p in ("C19", "C20", "C21"):
    @check(_p, "model_checking")
    def _f(c):
        c.assumptions += [AUDI]
        reg(c)


def evolve_driver(c):
    return c.build("drv_evolve", ["drv_evolve.cpp", "evolve.cpp", "reg.cpp", "cgp.cpp", "kernels.cpp"], s11n=True)


EVOLVE = {
    "C22": (["MCEvolveEs.cfg", "MCEvolveMes.cfg"], [("MCEvolveBrokenFinal.cfg", "Returned"), ("MCEvolveBrokenLast.cfg", "Incumbent")]),
    "C23": (["MCEvolveMoThorough.cfg" if THOROUGH else "MCEvolveMo.cfg"], [("MCEvolveBrokenSel.cfg", "Kept")]),
    "C24": ([], []), # MCGd below
    "C25": (["MCEvolveEs.cfg"], []),
}


def _evo(p):
    @check(p, "model_checking")
    def f(c):
        c.assumptions += [AUDI, PAGMO]
        good, bad = EVOLVE[p]
        for g in good:
            c.model_check("MCEvolve", g)
        for g, inv in bad:
            c.model_check("MCEvolve", g, expect=inv)
        if p == "C24":
            c.model_check("MCGd", "MCGd.cfg")
            c.model_check("MCGd", "MCGdBroken.cfg", expect="Best")
        c.record_and_validate(evolve_driver(c), runs("evolve", 96 if THOROUGH else 12, 12), "EvolveTrace")
    return f


for _p in EVOLVE:
    _evo(_p)


@check("C26", "model_checking")
def c26(c):
    c.assumptions += ["the certified parameters and residuals of the NIST data sets in MCGym are the published ones"]
    c.model_check("MCGym", "MCGym.cfg")
    for b in ("Append", "Alias", "Engine"):
        c.model_check("MCGym", "MCGymBroken%s.cfg" % b, expect="Fresh")
    exe = c.build("drv_gym", ["drv_gym.cpp"], pagmo=False, libs=["-lpthread"])
    c.record_and_validate(exe, runs("gym", 32 if THOROUGH else 6, 240), "GymTrace")


def inter_schedules(c):
    """Every schedule of the small configurations of Interleave, and simulated ones of the larger."""
    import os, re
    out = []
    for cfg, sim in (("MCInterEmit.cfg", 0), ("MCInterEmitNested.cfg", 0), ("MCInterEmit3.cfg", 1)):
        extra = ["-simulate", "num=%d" % (4000 if THOROUGH else 400), "-depth", "30", "-seed", str(SEED)] if sim else []
        rc, o = c.tlc("MCInter", cfg, timeout=300, heap="4g", extra=extra)
        got = sorted(set(re.findall(r'"SCHED <<(.*)>>"$', o, re.M)))
        if len(got) < 10:
            raise ToolError("schedules: " + o[-1500:])
        out += [g.replace(",", " ") for g in got]
    f = os.path.join(c.work, "schedules")
    open(f, "w").write("\n".join(out) + "\n")
    c.cov["schedules"] = len(out)
    return f


@check("C28", "model_checking")
def c28(c):
    c.assumptions += [AUDI, "std::mutex, std::condition_variable and oneTBB work", "kernels are the points at which calls under way can be told apart"]
    for w in ("distinct", "same", "nested", "three"):
        c.model_check("MCInter", "MCInter_%s.cfg" % w)
    for b in ("Process", "Program", "Thread"):
        c.model_check("MCInter", "MCInterBroken%s.cfg" % b, expect="Undisturbed")
    exe = c.build("drv_inter", ["drv_inter.cpp", "cgp.cpp", "kernels.cpp"], s11n=True)
    f = inter_schedules(c)
    c.record_and_validate(exe, runs("inter", 64 if THOROUGH else 8, f, 300), "InterTrace")


def py_driver(c):
    """The Python files of the package over the real classes: a shared library and a wrapper that runs py_driver.py."""
    import os
    import vp
    lib = c.build("pylib.so", ["pylib.cpp", "cgp.cpp", "kernels.cpp"], flags=["-fPIC", "-shared"])
    w = os.path.join(c.work, "py_driver")
    open(w, "w").write("#!/bin/sh\nexec python3-vt -B -W ignore %s %s %s \"$2\" \"$1\" \"$3\" \"$4\"\n" % (
        os.path.join(vp.VERIF, "harness", "py_driver.py"), lib, vp.REPO))
    os.chmod(w, 0o755)
    return w


PYTHON = ["the extension module's classes behave as their C++ namesakes (py_driver.py replaces them by thin ones over the same C++ code)"]


@check("C29", "model_checking")
def c29(c):
    import os, re
    c.assumptions += PYTHON
    c.model_check("MCEncode", "MCEncode3.cfg" if THOROUGH else "MCEncode.cfg", timeout=800)
    for b in ("kernel", "base"):
        c.model_check("MCEncode", "MCEncodeBroken_%s.cfg" % b, expect="Network")
    rc, o = c.tlc("MCEncode", "MCEncodeEmit3.cfg" if THOROUGH else "MCEncodeEmit.cfg", timeout=300, heap="4g")
    cases = sorted(set(re.findall(r'^"CASE (\{.*\})"$', o, re.M)))
    if len(cases) < 1000:
        raise ToolError("requests: " + o[-1500:])
    import json
    cases = [json.loads(x.replace('\\"', '"')) for x in cases]
    k = 24 if THOROUGH else 6
    rs = []
    for i in range(k):
        f = os.path.join(c.work, "cases%d" % i)
        with open(f, "w") as h:
            for q in cases[i::k]:
                h.write(json.dumps([q["n"], q["m"], list(q["layers"]), list(q["ks"]), q["lb"]]) + "\n")
        rs.append(("enc%d" % i, [SEED * 1000 + i, "encode", 0, f]))
    c.cov["requests"] = len(cases)
    c.record_and_validate(py_driver(c), rs + runs("rnd", 24 if THOROUGH else 4, "encode_random", 150), "PyTrace")


@check("C30", "model_checking")
def c30(c):
    c.assumptions += PYTHON + ["sympy, graphviz and matplotlib do what they document (the last two are replaced by recorders of what is drawn)"]
    k = 12 if THOROUGH else 1
    c.record_and_validate(py_driver(c), runs("simp", 6 * k, "simplify", 60) + runs("draw", 3 * k, "draw", 150)
                          + runs("net", 3 * k, "netdraw", 120), "PyTrace")


@check("C31", "model_checking")
def c31(c):
    c.assumptions += [AUDI, PAGMO]
    exe = c.build("drv_text", ["drv_text.cpp", "evolve.cpp", "reg.cpp", "cgp.cpp", "kernels.cpp"], s11n=True)
    c.record_and_validate(exe, runs("text", 48 if THOROUGH else 8, 160), "TextTrace")


TECH = {}
NOTES = {
    "C01": "Model checked: every interleaving of 2-3 threads over small seed spaces. Bound to the code: recorded "
           "histories of next/set_seed under real threads (an instrumented engine yields inside its step) checked against "
           "the TLA+ model of MT19937. Trusts std::mutex, TLC and the trace writer.",
    "C02": "One script per transition of the wrapper design's state graph plus simulated longer ones, run on the real "
           "wrapper with four kinds of callable, every live object observed after every step.",
    "C03": "Levels of wrappers, kernels and kernel sets after every step of generated histories, against the level the "
           "specification derives from the callables.",
    "C04": "Histories of kernels and kernel sets (make, copy, move, assign, archive, push, index), every live object's "
           "name, values and symbolic form observed after every step.",
    "C05": "Values, first and second derivatives and printed forms of every basis function against formulas written in "
           "TLA+ over IEEE doubles with running error bounds. Sampled inputs, including signed zeros, huge and tiny.",
}
_H = ("Random and (small geometries) exhaustive histories of up to three live programs, plain, weighted and neural, on doubles "
      "and Taylor numbers; every program observed after every call and the recorded trace checked against Cgp.tla by TLC. ")
NOTES.update({
    "C06": _H + "Genes, bounds, positions, rejected calls without effect. Design: bounds mean what they should on every chromosome of small geometries.",
    "C07": _H + "Active nodes and genes. Design: the sweep equals the declarative closure on every chromosome of small geometries.",
    "C08": _H + "Values against the graph the chromosome encodes, over IEEE doubles with error bounds.",
    "C09": _H + "Printed formulas parsed back and evaluated at the observed constants, weights and biases.",
    "C10": _H + "Each mutation against the relation of its operator; outcomes of many trials against all reachable ones. Design: relations equal N single steps.",
    "C11": _H + "Engine states are tokens; equal tokens and programs must give equal outcomes, through copy, move, archive and re-seeding.",
    "C12": _H + "Losses against the mean of the per-point losses; rejected data.",
    "C13": _H + "Six corrections. Two known findings: weighted and neural programs ignore corrections.",
    "C14": _H + "Constants as the last inputs; names, values, setters, losses, formulas.",
    "C15": _H + "Weights by address in values, formulas, setters and getters.",
    "C16": _H + "Weights and biases by address in values, formulas, setters, getters, random initialisers; active weights; output activations.",
    "C17": _H + "Gradients against forward-mode derivatives of the specification's own evaluation, one weight at a time.",
    "C18": _H + "Each epoch replayed by the specification from the points as shuffled, batch by batch.",
})


NOTES["C28"] = ("Design: evaluations of several threads and nested ones, every interleaving, model checked; three broken placements of the "
                "scratch refuted. The schedules TLC enumerates are imposed on the real code kernel by kernel (gated kernels), and what "
                "every call returned is checked against the specification and against what the call gives alone.")
NOTES["C26"] = ("Calls in any order, on outputs with any content, buffers scribbled on between calls and calls from several threads: every "
                "result checked against Gym.tla (functions and boxes of the papers cited, published tables). Design: calls and callers "
                "model checked, broken variants included; the tables reproduce the certified residuals of the NIST models.")
_E = ("Evolutions of small populations with every evaluation of the problem recorded (fitness, gradients, Hessians), replayed by "
      "the specification event by event and checked by TLC, with the returned population and the log. ")
NOTES.update({
    "C22": _E + "Design: every population, table of losses and offspring sequence of small sizes; broken variants included.",
    "C23": _E + "Design: every union of parents and offspring of small sizes; broken variant included.",
    "C24": _E + "Steps checked against the gradient the problem gave, over IEEE doubles with error bounds.",
    "C25": _E + "Each run repeated from copies, archives, new seeds, other verbosities, batch evaluation, unwrapped problem.",
})


CGP_TU = ["drv_cgp.cpp", "cgp.cpp", "kernels.cpp"]


_R = ("Histories of a regression problem (fitness, derivatives, predictions, models, setters, copies, archives) with every "
      "result logged and checked against Reg.tla by TLC. Design: the caches are model checked, broken variants included. ")
NOTES.update({
    "C19": _R + "Fitness against the specification's own evaluation of the program, whatever was called before.",
    "C20": _R + "Gradients and Hessians against second-order forward-mode derivatives of the specification's evaluation.",
    "C21": _R + "Predictions, printed models and the exposed program.",
})


def cgp_driver(c):
    return c.build("drv_cgp", ["drv_cgp_%s.cpp" % k for k in ("pd", "pg", "wd", "wg", "an")] + CGP_TU, s11n=True)


def cgp(c, plan):
    """plan: (kind, mode, size, number of runs)"""
    exe = cgp_driver(c)
    k = 8 if THOROUGH else 1
    rs = []
    for kind, mode, size, n in plan:
        rs += runs("%s_%s_" % (kind, mode), n * k, kind, mode, size)
    c.record_and_validate(exe, rs, "CgpTrace")


# the design's share of each property: invariants of MCCgp, and the broken variant that shows they can fail
DESIGN = {
    "C06": ("ValidInv Tables BoundsMean OutBounds", "", None),
    "C07": ("ActiveInv GenesInv ActiveMatters", "", None),
    "C08": ("InactiveInv ActiveMatters", "", ("active", "InactiveInv")),
    "C10": ("Relations InactiveInv", "Inert", ("active", "InactiveInv")),
    "C15": ("Tables", "", None),
    "C16": ("Tables", "", None),
}


def mccgp(c, inv, prop, broken):
    import os

    def cfg(name, geo, n, br, inv, prop):
        f = os.path.join(c.work, name)
        open(f, "w").write("SPECIFICATION Spec\nCONSTANTS GEO = {%s}\n N = %d\n BROKEN = \"%s\"\nINVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n" % (
            geo, n, br, inv, "PROPERTY %s\n" % prop if prop else ""))
        return f
    c.model_check("MCCgp", cfg("mccgp.cfg", "1, 2, 3, 4, 5, 6, 7, 8" if THOROUGH else "1, 2, 3, 4, 5, 6",
                               3 if THOROUGH else 2, "no", inv, prop), timeout=800)
    if broken:
        c.model_check("MCCgp", cfg("mccgpb.cfg", "1, 2", 1, broken[0], broken[1], ""), expect=broken[1])


PLANS = {
    "C06": [("pd", "h", 6, 4), ("an", "h", 6, 2), ("wd", "h", 6, 2), ("pg", "h", 4, 1), ("pd", "x", 2, 2)],
    "C07": [("pd", "h", 6, 3), ("an", "h", 6, 2), ("wd", "h", 6, 2), ("pd", "x", 3, 4), ("an", "x", 1, 1)],
    "C08": [("pd", "h", 6, 4), ("pg", "h", 5, 3), ("pd", "x", 3, 3), ("pg", "x", 1, 1)],
    "C09": [("pd", "h", 6, 3), ("pg", "h", 4, 2), ("wd", "h", 6, 3), ("wg", "h", 4, 1), ("an", "h", 6, 2), ("pd", "x", 2, 1), ("pd", "t0", 3, 1), ("pd", "t1", 3, 1), ("pd", "t2", 3, 1), ("wd", "t0", 6, 1), ("an", "t0", 2, 1), ("pg", "t0", 9, 1)],
    "C10": [("pd", "h", 8, 4), ("an", "h", 6, 2), ("wd", "h", 6, 2), ("pd", "r", 60, 4), ("wd", "r", 30, 1), ("an", "r", 30, 2)],
    "C11": [("pd", "h", 8, 4), ("pg", "h", 4, 1), ("wd", "h", 6, 2), ("wg", "h", 4, 1), ("an", "h", 6, 3)],
    "C12": [("pd", "h", 8, 4), ("wd", "h", 6, 3), ("an", "h", 6, 3), ("pd", "l", 12, 4), ("wd", "l", 12, 2), ("an", "l", 12, 2)],
    "C13": [("pd", "h", 10, 4), ("pg", "h", 6, 2), ("wd", "h", 5, 1), ("an", "h", 5, 1)],
    "C14": [("pd", "h", 10, 5), ("pg", "h", 6, 3)],
    "C15": [("wd", "h", 10, 5), ("wg", "h", 6, 3)],
    "C16": [("an", "h", 10, 8)],
    "C17": [("an", "h", 8, 8)],
    "C18": [("an", "h", 8, 8)],
}


def _reg(p):
    @check(p, "model_checking")
    def f(c):
        c.assumptions += [AUDI]
        if p in DESIGN:
            mccgp(c, *DESIGN[p])
        cgp(c, PLANS[p])
    return f


for _p in PLANS:
    _reg(_p)

NOTES["C29"] = ("The encoder as a machine, model checked for every request of small size with two broken variants refuted; the same requests, "
                "and larger random ones, put to the real encoder, its answer checked wherever it places the neurons.")
NOTES["C30"] = "Every expression and drawing recorded is compared with the specification's value and graph of the program, for random programs, names and options."
NOTES["C31"] = ("What is printed of programs, kernel sets, algorithms and problems, line by line, against their state; the parameters of an algorithm "
                "as last told, through setters, copies, archives and evolutions.")
