"""One function per property: what is built, run and required of the observation."""
from vlib.core import SAN_ENV
CHECKS = {}
def check(f):
    CHECKS[f.__name__] = f
    return f

@check
def C01(c):
    b = [c.impl("rel", i) for i in ("std", "naive", "red", "asm")]
    d = c.driver("rel", "prod.c", b)
    c.run(d)
    c.finish("each case is one pair (a,b) run through all 20 procedures of its size and compared with the schoolbook product; "
             "non-trivial: the product is not the zero polynomial; distinct: by hash of (n,a,b)",
             require=["products_checked_std", "products_checked_naive", "products_checked_red", "products_checked_asm", "class_adversarial", "class_spectral", "class_targeted_result"])

@check
def C02(c):
    d = c.driver("rel", "xform.c", [c.impl("rel", i) for i in ("std", "naive", "red", "asm")])
    c.run(d, "std")
    c.finish("each case is one (n, psi, input vector) run through the 17 default and naive transforms and compared entry by entry with the NTT "
             "(own recursive evaluation, one output per case re-derived by Horner's rule); all 4094 (n,psi) pairs are visited; non-trivial: input not all zero; distinct by hash",
             require=["transforms_checked_std", "transforms_checked_naive", "class_spectral", "class_basis", "roots_n2", "roots_n2048"])

@check
def C03(c):
    d = c.driver("rel", "xform.c", [c.impl("rel", i) for i in ("std", "naive", "red", "asm")])
    c.run(d, "red")
    c.finish("each case is one (n, psi, input vector in [-21499,21499]^n) run through the 8 C and (n>=16) 8 AVX2 transforms and compared modulo Q with the NTT; "
             "all 4094 (n,psi) pairs are visited; adversarial inputs follow the sign pattern that maximises one output of the real-coefficient model; distinct by hash",
             require=["transforms_checked_red", "transforms_checked_asm", "class_adversarial", "class_spectral", "class_basis", "roots_n2", "roots_n2048"])

@check
def C17(c):
    d = c.driver("rel", "wraps.c", [c.impl("rel", i) for i in ("std", "naive", "red", "asm")])
    c.run(d)
    c.finish("each case is one polynomial of one size: all 48 wrappers (4 implementations x 12) are checked against the transform they document with the declared psi, "
             "and forward outputs are fed to every inverse of matching order; non-trivial: non-zero polynomial; distinct by hash",
             require=["wrapper_calls_checked", "round_trips_checked"])

@check
def C06(c):
    d = c.driver("rel", "elem.c", [c.impl("rel", i) for i in ("std", "naive", "red", "asm")])
    c.run(d)
    c.finish("each case is one (operation, operand or operand pair) compared with its integer definition: all 2^32 values for the six unary reductions/normalisations, all of [0,12288]^2 for the six "
             "modular products, full domains of centring and correction, the documented domains of reduced products, products placed at the 32-bit limits, "
             "and calls of every length with sentinels; enumerated blocks are counted as distinct, random blocks by hash",
             require=["values32_each_of_6_operations", "product_rows_mod", "product_rows_red", "limit_products", "length_calls"])

@check
def C04(c):
    b = [c.impl("trunc", i) for i in ("std", "naive", "red")]
    d = c.driver("trunc", "ub.c", b)
    c.run(d)
    c.finish("each case is one in-contract call of one C routine (of all products, wrappers, transforms and elementwise routines) executed in a build with UndefinedBehaviorSanitizer and assertions; "
             "the result is also checked against the exact one; non-trivial: non-empty arrays; distinct by hash of routine and arguments",
             require=["routines", "calls_monitored", "limit_calls", "adversarial_transforms", "adversarial_products"])

@check
def C05(c):
    d = c.driver("rel", "asmcmp.c", [c.impl("rel", i) for i in ("std", "naive", "red", "asm")])
    c.run(d)
    c.finish("each case is one call of an AVX2 routine and of its C counterpart on the same data at independent random placements, arrays compared bit for bit; plus sweeps: all 2^32 values for the reductions "
             "(the value's lane rotates), full domains of centring and correction in all 16 lanes, random products; and the AVX2 query single-stepped with its CPUID and XGETBV instructions answered for simulated processors; sweeps count as distinct, calls by hash",
             require=["asm_routines", "call_pairs_compared", "values_swept_unary", "products_swept", "adversarial", "avx2_query"])

@check
def C07(c):
    d = c.driver("rel", "guard.c", [c.impl("rel", i) for i in ("std", "naive", "red", "asm")], extra_src=["tramp.S"])
    c.run(d)
    for v in ("asan", "msan"):
        d = c.driver(v, "sanmem.c", [c.impl(v, i) for i in ("std", "naive", "red")])
        c.run(d)
    for v in ("rel", "asan", "msan"):  # sorting and the interval analysis
        d = c.driver(v, "auxmem.c", [_iv(c, v), c.impl(v, "red"), c.bundle(v, "sort", ["sort"], "shim_sort.c", ["sort_api"])])
        c.run(d, env={"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")} if v == "asan" else None)
    c.finish("each case is one in-contract call of one routine at one placement of its arrays, executed between guard pages / in read-only pages / with canaries and with register, flag and stack snapshots, "
             "or in an AddressSanitizer or MemorySanitizer build on exactly sized blocks; results are checked too; distinct by hash of routine, arguments and placement",
             require=["routines", "calls_guarded", "calls_with_readonly_arguments", "register_snapshots", "calls_under_address_sanitizer", "calls_under_memory_sanitizer", "sorts", "interval_operations", "abstract_transforms", "abstract_elementwise", "bound_queries"])

@check
def C08(c):
    d = c.driver("rel", "pure.c", [c.impl("rel", i) for i in ("std", "naive", "red", "asm")])
    c.run(d, "history")
    c.run(d, "nearby")
    c.run(d, "threads", shards=2)
    c.run(d, "cold")
    d = c.driver("tsan", "pure.c", [c.impl("tsan", i) for i in ("std", "naive", "red")])
    c.run(d, "threads", shards=2)
    c.run(d, "cold")
    c.finish("cases are recorded calls of every routine plus the histories and overlapping routine pairs under which they were replayed: a replay in permuted order (same or different addresses, other stale output contents, "
             "dirty vector registers, other rounding modes) or from 8 threads at once must give the recorded result; in nearby histories consecutive calls at the same addresses differ in one or two elements, in the second operand, the table or the length, and every result is compared with the oracle; further, in fresh processes the first calls ever made of each routine (and of mixes of routines) are concurrent; the C implementations also run under ThreadSanitizer; distinct: by hash of the call or permutation, and routine pairs observed in flight together",
             require=["routines", "replays_under_permuted_history", "concurrent_calls", "concurrent_calls_under_tsan", "overlapping_call_observations", "cold_starts", "cold_starts_under_tsan", "nearby_calls", "nearby_results_changed"])

def _gen(c, mode, shards=8, san=False):
    import os
    sc = os.path.join(c.work, "scratch"); os.makedirs(sc, exist_ok=True); os.chmod(sc, 0o755)
    src = c.src()
    pre = os.path.join(c.work, "genfault.so")
    from vlib.core import sh, DRV, REPO
    sh(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", pre, os.path.join(DRV, "genfault.c"), "-ldl"])
    d = c.driver("rel", "gen_tables.c", [c.impl("rel", i) for i in ("std", "naive")], libs=["-ldl"])
    env = None; more = []
    if san:
        src = os.path.join(c.work, "sangen"); os.makedirs(src)
        for g in ("make_tables", "make_red_tables", "make_bitrev_table"):
            sh(["clang", "-g", "-O1", "-w", "-std=c99", "-D_DEFAULT_SOURCE", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-o", os.path.join(src, g), os.path.join(c.src(), g + ".c")])
        env = {"ASAN_OPTIONS": "exitcode=77:detect_leaks=0", "UBSAN_OPTIONS": "exitcode=77"}
        more = ["--stride", "97"]
    c.run(d, mode, shards=shards, env=env, label=mode + ("-sanitized" if san else ""), args=more + ["--gendir", src, "--scratch", sc, "--preload", pre, "--shipped", os.path.join(c.work, "shipped"), "--srcdir", os.path.join(REPO, "src"), "--datadir", os.path.join(REPO, "data")])

@check
def C09(c):
    _gen(c, "tables")
    _gen(c, "tables", san=True)
    c.finish("each case is one run of one generator on one of the 4094 valid (n,psi) pairs: every entry of its 12 or 13 tables and its 5 or 8 parameters is compared with the definition (a sample of every size, and every disagreement, "
             "is also compiled and read back through the compiler); plus the shipped 32-point tables and the three lists of roots; distinct by parameters",
             require=["generator_runs", "generator_runs_under_sanitizers", "tables_read", "outputs_compiled_and_read_back", "shipped_tables_checked", "listed_roots_checked"])

@check
def C10(c):
    _gen(c, "bad")
    _gen(c, "fault")
    c.finish("each case is one run of one generator in its own scratch directory: with inadmissible arguments (status and a digest of names, contents, inodes and times of all files there are compared before and after) or with a fault "
             "(file size limit at an offset, failing fopen/write/close/malloc, unusable files; exit status 0 requires both files byte-identical to the fault-free ones, themselves checked by C09/C11); distinct by arguments and fault",
             require=["rejections_checked", "wrong_argument_counts", "faults_file_size_limit", "faults_injected_in_library_calls", "faults_unusable_files", "faulted_runs_reporting_failure", "faulted_runs_reporting_success"])

@check
def C11(c):
    _gen(c, "bitrev")
    c.finish("each case is one pair of one table (generated for all 15 sizes, or shipped) or one shuffle of one array, every element of which is traced to its bit-reversed index; shuffles are applied twice; distinct by table pair or array contents",
             require=["generator_runs", "tables_checked", "shipped_tables", "pairs_checked", "table_shuffles", "generic_shuffles"])

def _iv(c, variant, full=True):
    return c.bundle(variant, "iv", ["intervals", "red_bounds", "ntt_red_interval"], "shim_iv.c", ["iv_api"])

@check
def C12(c):
    for v in ("rel", "ubsan"):
        d = c.driver(v, "ivals.c", [_iv(c, v), c.impl(v, "red")])
        c.run(d, "ops")
    c.finish("each case is one abstract operation on random, edge or limit operands whose result is compared with the exact extremes over one period of the concrete operation and with its value at up to 4096 members of the operands; "
             "operations whose exact bounds leave 64 bits run in a child process that must stop with a message; the second build has UndefinedBehaviorSanitizer and assertions; distinct by operands",
             require=["abstract_operations", "concrete_values_compared", "overflows_expected", "unordered_constructions"])

@check
def C13(c):
    for v in ("rel", "ubsan"):
        d = c.driver(v, "ivals.c", [_iv(c, v), c.impl(v, "red")])
        c.run(d, "bounds")
    c.finish("each case is one query (range of x, w or range of w, or one-round/whole-transform bound) compared with the exact extreme found by evaluating a full period of the reduction in 128-bit arithmetic, and with its reported argument; "
             "whole-transform bounds are also compared with concrete runs of ntt_red; all w in [-6144,6144] are visited; distinct by query",
             require=["bounds_compared", "w_values", "plain_reduction_bounds", "attained_interval_bounds", "one_round_bounds", "transform_rounds", "concrete_transforms"])

@check
def C15(c):
    for v in ("rel", "asan"):
        d = c.driver(v, "sorting.c", [c.bundle(v, "sort", ["sort"], "shim_sort.c", ["sort_api"])])
        c.run(d)
    c.finish("each case is one array sorted in place against a guard page on one side and canaries on the other, on a 512 KiB stack, and compared with an independently sorted copy (order and contents): all arrays over small alphabets, all permutations of 9 and 10, "
             "18 shapes for every length to 1200 and long arrays, unbalanced-partition arrays; repeated under AddressSanitizer; enumerated blocks count as distinct, others by hash",
             require=["enumerated_arrays", "shaped_arrays", "sort_calls"])

@check
def C14(c):
    for v in ("asan",):
        d = c.driver(v, "absint.c", [_iv(c, v), c.impl(v, "red")])
        c.run(d)
    c.finish("each case is one concrete execution (inputs and constants drawn from the intervals: random, extreme, sign patterns that maximise an output; point intervals make every report exact) compared after every round with the intervals the abstract transform printed, "
             "and at the end with the real ntt_red routine; warnings are matched with the reported intervals; everything runs under Address-, Leak- and UndefinedBehaviorSanitizer; distinct by inputs and constants",
             require=["rounds_compared", "concrete_runs", "real_runs", "warnings_seen", "elementwise_runs"])

@check
def C19(c):
    d = c.driver("rel", "tight.c", [_iv(c, "rel"), c.impl("rel", "red")])
    c.run(d)
    c.finish("each case is one abstract operation, bound query or abstract transform whose result is compared with the exact extremes (evaluated over a full period of the reduction in 128-bit arithmetic, or enumerated for the remainders): "
             "nothing may be wider; the printed intervals of every transform round are compared with exact interval arithmetic applied round by round, and inputs in the documented range must produce no overflow warning; distinct by operands",
             require=["operations", "one_round_bounds", "transform_rounds", "rounds_compared", "certified_runs", "elementwise_runs"])

@check
def C20(c):
    d = c.driver("rel", "refuse.c", [_iv(c, "rel")], libs=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=posix_memalign"])
    c.run(d)
    c.finish("each case is one attempt in a child process: an interval out of order, a correction outside its domain, a sum, difference or negation leaving 64 bits (alone or inside a one-round abstract transform), or any operation with one of its allocations failing; "
             "the child must end with a failure status and a message, not return, not end successfully and not crash; cases exactly at the limits must return the exact interval; distinct by operands and fault",
             require=["refusals_checked", "limit_cases_accepted", "allocation_faults", "allocations_failed"])

HARNESSES = ["intt_red1024", "intt_red1024b", "ntt_red1024", "ntt_red1024b", "ntt_red1024c", "ntt_red1024d", "ntt_red1024e", "ntt_red1024f"]

def _vsrc(c):
    """A scratch copy of the verifier's benchmarks with the tables their Makefile generates."""
    import os, shutil
    from vlib.core import sh, REPO
    v = os.path.join(c.work, "vsrc")
    shutil.copytree(os.path.join(REPO, "verifier", "vstte20-benchmarks"), v, ignore=shutil.ignore_patterns("*.o", "*.bc"))
    for g in ("make_tables", "make_red_tables", "make_bitrev_table"):
        sh(["gcc", "-O1", "-g", "-w", "-std=c99", "-D_DEFAULT_SOURCE", "-o", os.path.join(v, g), os.path.join(v, g + ".c")])
    return v

def _tables_of(path):
    import re
    s = re.sub(r"/\*.*?\*/", "", open(path).read(), flags=re.S)
    return {m.group(1): [int(x) for x in re.findall(r"-?\d+", m.group(2))] for m in re.finditer(r"(\w+)\s*\[[^\]]*\](?:\[\d+\])?\s*=\s*\{(.*?)\};", s, re.S)}

def _params_of(path):
    import re
    s = re.sub(r"/\*.*?\*/", "", open(path).read(), flags=re.S)
    return {m.group(1): int(m.group(2)) for m in re.finditer(r"(\w+)\s*=\s*(-?\d+)\s*;", s)} | {m.group(1): int(m.group(2)) for m in re.finditer(r"#define\s+(\w+)\s+(-?\d+)", s)}

def _compare_generators(c, v):
    """Run the generators of the benchmarks and of the library on the same arguments."""
    import os, subprocess, shutil, random
    from concurrent.futures import ThreadPoolExecutor
    rnd = random.Random(c.seed); lib = c.src()
    jobs = []
    roots = {}
    for l in range(1, 12):
        n = 1 << l
        roots[n] = [p for p in range(1, 12289) if pow(p, n, 12289) == 12288]
    for n, ps in sorted(roots.items()):
        for p in (ps if c.thorough else rnd.sample(ps, min(len(ps), 6))):
            jobs += [("make_tables", (n, p)), ("make_red_tables", (n, p))]
    jobs += [("make_bitrev_table", (1 << l,)) for l in range(1, 16)]
    bad = [(0, 1), (3, 5), (1, 12288), (1024, 1), (1024, 0), (1024, 12289), (1024, 12288 + 1014), (4096, 3), (-4, 7), ("x", "y"), (16,), ()]
    jobs += [(g, b) for g in ("make_tables", "make_red_tables") for b in bad] + [("make_bitrev_table", b) for b in ((0,), (3,), (1,), (65536,), ("x",), (), (4, 5))]
    def one(ix):
        g, args = jobs[ix]
        res = []
        for side, d in (("copy", v), ("library", lib)):
            w = os.path.join(c.work, "gen_%d_%s" % (ix, side)); os.makedirs(w)
            r = subprocess.run([os.path.join(d, g)] + [str(a) for a in args], cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            t, p = {}, {}
            for f in sorted(os.listdir(w)):
                t.update(_tables_of(os.path.join(w, f))); p.update(_params_of(os.path.join(w, f)))
            res.append((r.returncode, sorted(os.listdir(w)), t, p)); shutil.rmtree(w)
        (r1, f1, t1, p1), (r2, f2, t2, p2) = res
        what = "%s %s" % (g, " ".join(map(str, args)))
        p1 = {(k + "8" if g == "make_red_tables" and k.endswith("_rescale") else k): x for k, x in p1.items()}
        if (r1 == 0) != (r2 == 0) or f1 != f2: return ("generator copies disagree", "%s: status %d files %s, library %d %s" % (what, r1, f1, r2, f2)), 0
        miss = [k for k in t1 if t1[k] != t2.get(k)] + [k for k in p1 if p1[k] != p2.get(k)]
        if miss: return ("generator copies disagree", "%s: %s" % (what, ", ".join(miss[:5]))), 0
        if r1 == 0 and not t1: return ("generator output without tables", what), 0
        return None, len(t1) + len(p1)
    with ThreadPoolExecutor(8) as ex:
        for ix, (bad_, k) in enumerate(ex.map(one, range(len(jobs)))):
            c.count("generator_runs_compared", 1); c.count("tables_and_parameters_compared", k)
            c.add_case(1, 1)
            if bad_: c.viol(bad_[0], bad_[1], "%s %s" % (jobs[ix][0], " ".join(map(str, jobs[ix][1]))))

@check
def C16(c):
    v = _vsrc(c)
    _compare_generators(c, v)
    from vlib.core import HarnessError, sh
    try:
        sh([v + "/make_red_tables", "1024", "1014"], cwd=v)
        for var, fl, mode in (("rel", ["-DSAFE", "-DUSE_CRAB_INTRINSICS"], ""), ("asan", ["-DSAFE"], ""), ("rel", ["-DSAFE"], "sweep")):
            hs = [c.bundle(var, "h_" + mode + h, ["ntt_red", "ntt_red1024_tables"], "shim_harness.c", ["H_" + h], srcdir=v, shim_flags=fl + ["-DHARNESS=\"harness_%s.c\"" % h, "-DHNAME=H_" + h], mod_flags=fl) for h in HARNESSES]
            cp = c.bundle(var, "vcopy" + mode, ["ntt", "ntt_red", "ntt_red1024", "ntt_red1024_tables", "bitrev1024_table", "sort"], "shim_vcopy.c",
                          ["vimpl_red", "vimpl_std", "vsort_api", "vbitrev_table", "vbitrev_pairs"], srcdir=v, shim_flags=fl, mod_flags=fl)
            vb = c.bundle(var, "vbounds", ["red_bounds"], "shim_bounds.c", ["viv_api"], srcdir=v, shim_flags=["-Div_api=viv_api"])
            lb = c.bundle(var, "lbounds", ["red_bounds"], "shim_bounds.c", ["iv_api"])
            d = c.driver(var, "vcopy.c", name="vcopy_%s%s" % (var, mode), bundles=hs + [cp, vb, lb, c.bundle(var, "sort", ["sort"], "shim_sort.c", ["sort_api"])] + [c.impl(var, i) for i in ("std", "naive", "red")])
            c.run(d, mode)
    except HarnessError:
        if not c.viols: raise  # otherwise the generators already disagree, and what they emit need not build
    c.finish("each case is one run of one of the 8 harnesses on one admitted input (every verifier assertion is an event that must hold), one call of a copied routine, bound or sort compared with the library's on the same arguments, "
             "or one run of a copied table generator compared with the library's; built with the Makefile's configuration (reduction as an intrinsic) and again with the C reduction under Address- and UndefinedBehaviorSanitizer; the elementwise copies are also swept against the library over all 2^32 values, all pairs of [0,12288]^2 and all table constants; distinct by inputs, sweeps count as distinct",
             require=["harness_runs", "assertion_events", "intrinsic_reductions", "routine_calls_compared", "bound_queries_compared", "sorts_compared", "values_swept", "products_swept", "generator_runs_compared", "tables_and_parameters_compared"])

@check
def C18(c):
    import os
    from vlib.core import sh, DRV, REPO
    w = os.path.join(c.work, "crabdom")
    src = os.path.join(c.work, "verifier_src")
    import shutil; shutil.copytree(os.path.join(REPO, "verifier", "src"), src)
    fl = ["-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-omit-frame-pointer", "-D_GNU_SOURCE"]
    sh(["clang"] + fl + ["-std=gnu11", "-DH_SANITIZED", "-I", DRV, "-c", os.path.join(DRV, "h.c"), "-o", w + "_h.o"])
    sh(["clang++"] + fl + ["-std=c++17", "-DH_SANITIZED", "-I", DRV, "-I", os.path.join(DRV, "crab_stub"), "-I", src, "-DNTT_INTERVALS=\"%s\"" % os.path.join(src, "ntt_intervals.cpp"), "-c", os.path.join(DRV, "crabdom.cpp"), "-o", w + "_d.o"])
    sh(["clang++"] + fl + ["-o", w, w + "_h.o", w + "_d.o", "-lpthread", "-lm"])
    c.run(w, label="crabdom")
    c.assumptions.append("the Crab library is not installed: its interval domain and numbers are replaced by executable stand-ins (128-bit integers, flooring right shift); the domain's own code is the repository's")
    c.finish("each case is one reduction of one interval (all combinations of ends near multiples of 4096 at 13 magnitudes, random intervals up to 90 bits, half-bounded, unbounded and unreachable ones; into another variable or in place) compared with the exact extremes, "
             "or one random sequence of operations executed in lockstep with the plain interval domain, all states compared after each step; distinct by interval or sequence",
             require=["boundary_reductions", "random_reductions", "unbounded_reductions", "unreachable_reductions", "lockstep_steps"])
