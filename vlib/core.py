"""Check runner: builds the monitored binaries from /repo's working tree, runs
sharded drivers, collects what the monitors observed, filters listed findings,
writes the evidence file and the verdict."""
import os, re, sys, json, time, shutil, signal, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DRV = os.path.join(VERIF, "drivers")
NPROC = min(8, os.cpu_count() or 1)
SIZES = [16, 256, 512, 1024]

CPP = ["-D_DEFAULT_SOURCE"]
# compiler, flags for the code under test, link flags, sanitized?
VARIANTS = {
    "rel":   ("gcc",   ["-O3", "-std=c99", "-DNDEBUG"], [], False),
    "clang": ("clang", ["-O3", "-std=c99", "-DNDEBUG"], [], False),
    "dbg":   ("gcc",   ["-O1", "-std=c99", "-g"], [], False),
    "ubsan": ("clang", ["-O1", "-g", "-std=c99", "-fsanitize=undefined", "-fno-sanitize=function"], ["-fsanitize=undefined"], True),
    "trunc": ("clang", ["-O1", "-g", "-std=c99", "-fsanitize=undefined", "-fsanitize=implicit-signed-integer-truncation", "-fno-sanitize=function"], ["-fsanitize=undefined"], True),
    "asan":  ("clang", ["-O1", "-g", "-std=c99", "-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-address-globals-dead-stripping", "-fno-omit-frame-pointer"], ["-fsanitize=address,undefined"], True),
    "msan":  ("clang", ["-O1", "-g", "-std=c99", "-DNDEBUG", "-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-omit-frame-pointer"], ["-fsanitize=memory"], True),
    "tsan":  ("clang", ["-O1", "-g", "-std=c99", "-DNDEBUG", "-fsanitize=thread"], ["-fsanitize=thread"], True),
}
SAN_ENV = {
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0",
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=1:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1",
    "LSAN_OPTIONS": "exitcode=77",
    "MSAN_OPTIONS": "exitcode=77",
    "TSAN_OPTIONS": "exitcode=77:halt_on_error=0",
}

class HarnessError(Exception):
    pass

def sh(cmd, cwd=None, env=None, timeout=600, check=True):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)   # make and what it started
        p.communicate()
        raise HarnessError("command did not end: %s" % " ".join(cmd))
    r = subprocess.CompletedProcess(cmd, p.returncode, out)
    if check and r.returncode != 0:
        raise HarnessError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r

IMPL_MODULES = {
    "std":   ["ntt"] + ["ntt%d" % n for n in SIZES] + ["ntt%d_tables" % n for n in SIZES],
    "naive": ["naive_ntt"] + ["naive_ntt%d" % n for n in SIZES] + ["ntt%d_tables" % n for n in SIZES],
    "red":   ["ntt_red"] + ["ntt_red%d" % n for n in SIZES] + ["ntt_red%d_tables" % n for n in SIZES],
    "asm":   ["ntt_asm"] + ["ntt_red_asm%d" % n for n in SIZES] + ["ntt_red%d_tables" % n for n in SIZES],
}
IMPL_EXPORT = {"std": ["impl_std"], "naive": ["impl_naive"], "red": ["impl_red"], "asm": ["impl_asm_", "impl_asm_full"]}

class Check:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv: self.tier = "thorough"
        if "--quick" in sys.argv: self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "build", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.viols = []          # (key, detail, replay cmd)
        self.adds, self.maxs, self.mins = {}, {}, {}
        self.samples = []
        self.runs = []
        self.assumptions = []
        self.extra = {}
        self._src = None
        self._objs = {}

    @property
    def thorough(self): return self.tier == "thorough"

    # ---------- building from /repo ----------
    def src(self):
        """A scratch copy of /repo/src with the generated tables, built as the Makefile does."""
        if self._src: return self._src
        d = os.path.join(self.work, "src")
        shutil.copytree(os.path.join(REPO, "src"), d, ignore=shutil.ignore_patterns("*.o", "*.a"))
        env = dict(os.environ, CC="gcc"); env.pop("MAKEFLAGS", None)
        # shipped tables are kept aside before make regenerates them
        os.makedirs(os.path.join(self.work, "shipped"))
        for f in os.listdir(d):
            if re.match(r"bitrev\d+_table\.[ch]$", f): shutil.copy(os.path.join(d, f), os.path.join(self.work, "shipped", f))
        gens = ["make_tables", "make_red_tables", "make_bitrev_table"]
        for g in gens:
            p = os.path.join(d, g)
            if os.path.exists(p): os.remove(p)
        t = []
        for n in SIZES:
            t += ["ntt%d_tables.c" % n, "ntt_red%d_tables.c" % n, "bitrev%d_table.c" % n]
        for f in t:
            if not f.startswith("bitrev"):
                for e in (f, f[:-1] + "h"):
                    if os.path.exists(os.path.join(d, e)): os.remove(os.path.join(d, e))
        sh(["make", "-C", d, "-j1"] + gens, env=env)
        sh(["make", "-C", d, "-j1"] + t, env=env)
        self._src = d
        return d

    def _is_program(self, path):
        try:
            s = open(path, errors="replace").read()
        except OSError:
            return True
        return re.search(r"^\s*(int|void)\s+main\s*\(", s, re.M) is not None

    def obj(self, variant, mod, srcdir=None, extra=()):
        """Compile one module of the code under test; returns the object path."""
        d = srcdir or self.src()
        key = (variant, mod, d, tuple(extra))
        if key in self._objs: return self._objs[key]
        cc, fl, _, _ = VARIANTS[variant]
        tag = hashlib.sha1(repr(key).encode()).hexdigest()[:8]
        o = os.path.join(self.work, "%s_%s_%s.o" % (variant, mod, tag))
        s = os.path.join(d, mod + ".c")
        if not os.path.exists(s):
            s = os.path.join(d, mod + ".S")
            if not os.path.exists(s): raise HarnessError("source of module %s not found" % mod)
            cmd = ["gcc", "-c", s, "-o", o, "-I", d]
        else:
            cmd = [cc] + CPP + fl + list(extra) + ["-w", "-c", s, "-o", o, "-I", d]
        sh(cmd)
        self._objs[key] = o
        return o

    def _spare_archive(self, variant, have, d):
        """Remaining library modules, so that code split into new files still links."""
        mods = []
        for f in sorted(os.listdir(d)):
            m, e = os.path.splitext(f)
            if e not in (".c", ".S") or m in have: continue
            if re.match(r"(test_|kat_|speed_|make_|data_poly|harness_)", m): continue
            if e == ".c" and self._is_program(os.path.join(d, f)): continue
            mods.append(m)
        os_ = [self.obj(variant, m, d) for m in mods]
        a = os.path.join(self.work, "spare_%s_%s.a" % (variant, hashlib.sha1(repr((sorted(have), d)).encode()).hexdigest()[:8]))
        if os.path.exists(a): os.remove(a)
        sh(["ar", "rcs", a] + os_)
        return a

    def bundle(self, variant, name, mods, shim, exports, srcdir=None, shim_flags=(), mod_flags=()):
        """Link modules + shim into one relocatable object exporting only the shim's symbols."""
        d = srcdir or self.src()
        cc, fl, _, _ = VARIANTS[variant]
        with ThreadPoolExecutor(NPROC) as ex:
            objs = list(ex.map(lambda m: self.obj(variant, m, d, mod_flags), mods))
        so = os.path.join(self.work, "shim_%s_%s.o" % (variant, name))
        sh([cc] + CPP + fl + list(shim_flags) + ["-w", "-c", os.path.join(DRV, shim), "-o", so, "-I", d, "-I", DRV])
        out = os.path.join(self.work, "bundle_%s_%s.o" % (variant, name))
        r = sh(["ld", "-r", "-o", out, so] + objs)
        undef = self._undefined(out)
        if undef:
            arc = self._spare_archive(variant, set(mods), d)
            sh(["ld", "-r", "-o", out, so] + objs + [arc])
        sh(["objcopy"] + ["--keep-global-symbol=" + e for e in exports] + [out])
        return out

    def _undefined(self, o):
        r = sh(["nm", "-u", o])
        names = [l.split()[-1] for l in r.stdout.decode().splitlines() if l.split() and l.split()[0] == "U"]
        lib = set()
        d = self._src or ""
        bad = []
        for n in names:
            if re.match(r"(__(asan|ubsan|msan|tsan|sanitizer)|_GLOBAL_OFFSET|__stack_chk|__tls)", n): continue
            if n in LIBC: continue
            bad.append(n)
        return bad

    def impl(self, variant, name):
        return self.bundle(variant, name, IMPL_MODULES[name], "shim_%s.c" % name, IMPL_EXPORT[name])

    def driver(self, variant, source, bundles, name=None, flags=(), libs=(), extra_src=()):
        """Compile a driver with the monitor runtime and link it with the bundles."""
        cc, fl, lf, san = VARIANTS[variant]
        out = os.path.join(self.work, name or ("%s_%s" % (os.path.splitext(os.path.basename(source))[0], variant)))
        cf = ["-O2", "-g", "-mavx2", "-std=gnu11", "-D_GNU_SOURCE", "-w", "-I", DRV] + list(flags)
        if san: cf += [f for f in fl if (f.startswith("-fsanitize") and "implicit" not in f) or f.startswith("-fno-")] + ["-DH_SANITIZED"]
        os_ = []
        for s in ["h.c", source] + list(extra_src):
            o = out + "_" + os.path.basename(s).replace(".", "_") + ".o"
            p = s if os.path.isabs(s) else os.path.join(DRV, s)
            sh([cc] + cf + (["-O3"] if s == "h.c" else []) + ["-c", p, "-o", o])
            os_.append(o)
        sh([cc] + lf + ["-o", out] + os_ + list(bundles) + ["-lm", "-lpthread"] + list(libs))
        return out

    # ---------- running ----------
    def run(self, binary, mode="", shards=NPROC, timeout=840, env=None, wrap=(), args=(), cwd=None, label=None, san_ignore=()):
        label = label or (os.path.basename(binary) + (":" + mode if mode else ""))
        t0 = time.time()
        def one(i, attempt=0):
            e = dict(os.environ); e.update(SAN_ENV)
            sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
            if env: e.update(env)
            base = os.path.join(self.work, "out_%s_%d" % (re.sub(r"\W+", "_", label), i))
            cmd = list(wrap) + [binary, "--seed", str(self.seed), "--tier", self.tier, "--shard", "%d/%d" % (i, shards)] + (["--mode", mode] if mode else []) + list(args)
            with open(base + ".out", "wb") as fo, open(base + ".err", "wb") as fe:
                p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=e, cwd=cwd, start_new_session=True)
                try:
                    rc = p.wait(timeout=max(10, timeout - (time.time() - t0)))
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = None
            return i, rc, cmd, base
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(one, range(shards)))
        nd = 0
        for i, rc, cmd, base in res:
            st = self._collect(rc, cmd, base, label)
            if st == "again":
                i, rc, cmd, base = one(i, 1)
                st = self._collect(rc, cmd, base, label)
                if st == "again":
                    if rc is not None and rc < 0 and rc != -9:
                        self.viols.append(("%s:signal%d" % (label, -rc), "process died by signal %d" % -rc, " ".join(cmd)))
                    else:
                        raise HarnessError("%s shard %d: no result (rc=%s)\n%s" % (label, i, rc, open(base + ".err", errors="replace").read()[-2000:]))
            nd += 1
        self.runs.append({"run": label, "shards": shards, "wall_s": round(time.time() - t0, 1)})

    def _collect(self, rc, cmd, base, label):
        out = open(base + ".out", errors="replace").read()
        err = open(base + ".err", errors="replace").read()
        done = False; nv = 0
        adds = {}; mx = {}; mn = {}; smp = []; vs = []
        for line in out.split("\n"):
            f = line.split("\t")
            if f[0] == "VIOL" and len(f) >= 3:
                vs.append((f[1], f[2], " ".join(cmd)))
            elif f[0] == "STAT" and len(f) == 4:
                v = int(f[3])
                if f[1] == "add": adds[f[2]] = adds.get(f[2], 0) + v
                elif f[1] == "max": mx[f[2]] = max(mx.get(f[2], v), v)
                else: mn[f[2]] = min(mn.get(f[2], v), v)
            elif f[0] == "SAMPLE": smp.append("\t".join(f[1:]))
            elif f[0] == "DONE": done = True
        # sanitizer reports
        for m in re.finditer(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", err, re.M):
            fn = os.path.basename(m.group(1))
            if os.path.exists(os.path.join(DRV, fn)) and not os.path.exists(os.path.join(REPO, "src", fn)):
                raise HarnessError("undefined behaviour in the harness itself: " + m.group(0))
            k = re.sub(r"-?\d+", "#", m.group(3))
            vs.append(("ubsan:%s:%s" % (fn, k[:60]), m.group(0), " ".join(cmd)))
        m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([^\n]*)", err)
        if m: vs.append(("asan:%s" % re.sub(r"0x[0-9a-f]+|\d+", "#", m.group(2))[:80], (m.group(0) + " | " + self._frames(err))[:900], " ".join(cmd)))
        m = re.search(r"WARNING: MemorySanitizer: ([^\n]*)", err)
        if m: vs.append(("msan:%s" % m.group(1)[:60], (m.group(0) + " | " + self._frames(err))[:900], " ".join(cmd)))
        for m in list(re.finditer(r"WARNING: ThreadSanitizer: ([^\n]*)", err))[:3]:
            vs.append(("tsan:%s" % re.sub(r"\(pid=\d+\)", "", m.group(1))[:60], (m.group(0) + " | " + self._frames(err[m.start():]))[:900], " ".join(cmd)))
        m = re.search(r"^(.*Assertion `.*' failed.*)$", err, re.M)
        if m: vs.append(("assert:" + re.sub(r"^.*?(\w+\.[ch]):\d+:", r"\1:", m.group(1))[:120], m.group(1)[:500], " ".join(cmd)))
        if not done and not vs:
            return "again"
        seen = {v[0] for v in self.viols}
        for v in vs:
            if v[0] not in seen or len(self.viols) < 20: self.viols.append(v); seen.add(v[0])
        for k, v in adds.items(): self.adds[k] = self.adds.get(k, 0) + v
        for k, v in mx.items(): self.maxs[k] = max(self.maxs.get(k, v), v)
        for k, v in mn.items(): self.mins[k] = min(self.mins.get(k, v), v)
        if len(self.samples) < 24: self.samples += smp[:4]
        return "ok"

    def _frames(self, err):
        fr = re.findall(r"^\s+#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", err, re.M)
        return "; ".join("%s %s" % (a, os.path.basename(b)) for a, b in fr[:4])

    def add_case(self, n, distinct=None):
        self.adds["evaluations"] = self.adds.get("evaluations", 0) + n
        self.adds["distinct"] = self.adds.get("distinct", 0) + (n if distinct is None else distinct)

    def count(self, name, v=1): self.adds[name] = self.adds.get(name, 0) + v

    def viol(self, key, detail, replay=""):
        self.viols.append((key, detail, replay))

    # ---------- verdict ----------
    def known(self):
        res = []
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"finding: property=(\S+) key=/(.*)/ (.*)$", l.strip())
                if m and m.group(1) == self.prop: res.append((re.compile(m.group(2)), m.group(3)))
        return res

    def finish(self, rule, require=(), exhaustive=None):
        ev, di = self.adds.pop("evaluations", 0), self.adds.pop("distinct", 0)
        self.adds.pop("violations", None)
        known = self.known(); new = []; hit = {}
        for v in self.viols:
            for rx, what in known:
                if rx.search(v[0] + " " + v[1]): hit[what] = hit.get(what, 0) + 1; break
            else: new.append(v)
        cov = {"evaluations": ev, "distinct_nontrivial": di, "rule": rule,
               "samples": self.samples[:24] or ["(none)"],
               "observed": self.adds, "observed_max": self.maxs, "observed_min": self.mins, "runs": self.runs}
        if exhaustive is not None: cov["exhaustive"] = exhaustive
        cov.update(self.extra)
        evd = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rc = 0
        if new:
            rp = os.path.join(VERIF, "evidence", "%s-replay.txt" % self.prop)
            with open(rp, "w") as f:
                f.write("property %s tier %s seed %d\n" % (self.prop, self.tier, self.seed))
                f.write("replay: cd %s && VERIF_SEED=%d python3 check.py %s --%s   (all cases derive from the seed)\n\n" % (VERIF, self.seed, self.prop, self.tier))
                for k, d, c in new[:60]: f.write("%s\n  %s\n  command: %s\n" % (k, d, c))
            evd["coverage"]["violating"] = [{"key": k, "detail": d[:400]} for k, d, _ in new[:10]]
            rc = 1
        else:
            if ev <= 0 or di < 2: raise HarnessError("the monitors observed nothing (evaluations=%d distinct=%d)" % (ev, di))
            for r in require:
                if self.adds.get(r, 0) <= 0: raise HarnessError("required event class %s was never observed" % r)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(evd, f, indent=1)
        for what, n in hit.items(): print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        for k, d, _ in new[:10]: print("  %s: %s" % (k, d[:300]))
        if new: print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        else: print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs" % (self.prop, self.tier, ev, di, time.time() - self.t0))
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(self.work, ignore_errors=True)
        sys.exit(rc)

LIBC = set("""abort exit malloc free calloc realloc printf fprintf puts putchar fputs fputc fwrite stderr stdout memcpy memset memmove memcmp
__assert_fail random srandom clock atol strtol snprintf fopen fclose perror fflush ferror
__errno_location time strcmp strlen __printf_chk __fprintf_chk""".split())

def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print("usage: check.py PROPERTY [--quick|--thorough]"); sys.exit(2)
    try:
        checks[sys.argv[1]](Check(sys.argv[1]))
    except HarnessError as e:
        print("ERROR (harness): %s" % e); sys.exit(2)
