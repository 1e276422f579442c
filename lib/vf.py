"""Contract-verification runner: compiles real /repo code together with a
contract harness, lets the verifier (CBMC) discharge every obligation, replays
counterexamples natively, and writes the evidence file.  See DESIGN.md."""
import hashlib, json, os, re, resource, shlex, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
PROBES = os.path.join(VERIF, "probes")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VF_JOBS", "8"))
CDEFS = ['-DCXY_VERSION="0.1.0"', "-DYAML_DECLARE_STATIC", "-D_GNU_SOURCE",
         "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]
CINC = [f"-I{REPO}/src/cxy", f"-I{REPO}/src/3rdParty", f"-I{REPO}/src",
        f"-I{REPO}/src/3rdParty/msgpack/include", f"-I{REPO}/src/3rdParty/libyaml/include",
        "-I/usr/lib/llvm-18/include", f"-I{HARN}"]
CLANG = "/usr/bin/clang-18"
T0 = time.time()
LOCK = threading.Lock()


def left(budget):
    return budget - (time.time() - T0)


def run(cmd, timeout=None, cwd=None, env=None, mem_gb=None, stdin=None):
    """returns rc, stdout, stderr, seconds; rc=-999 on timeout"""
    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env, preexec_fn=pre, text=True, errors="replace",
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        rc = -999
    return rc, o, e, time.time() - t


# --------------------------------------------------------------------------
class Compiler:
    """the cxy compiler built from /repo's current tree, outside /repo"""

    def __init__(self, scratch):
        self.dir = os.path.join(scratch, "build")
        self.scratch = scratch
        self.exe = None
        self.err = None
        self.wall = 0

    def build(self):
        t = time.time()
        given = os.environ.get("VF_CXY")
        if given:
            self.exe = given
            return True
        os.makedirs(self.dir)
        rc, o, e, _ = run(["cmake", "-S", REPO, "-B", self.dir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
                           "-DLLVM_ROOT_DIR=/usr/lib/llvm-18", f"-DCMAKE_C_COMPILER={CLANG}",
                           "-DCMAKE_CXX_COMPILER=/usr/bin/clang++-18", "-DCMAKE_C_FLAGS=-O1 -g0",
                           "-DCMAKE_CXX_FLAGS=-g0"], timeout=120)
        if rc == 0:
            rc, o, e, _ = run(["ninja", "-C", self.dir, "cxy"], timeout=400)
        self.wall = time.time() - t
        if rc != 0:
            self.err = (o + e)[-3000:]
            return False
        self.exe = os.path.join(self.dir, "cxy")
        return True

    def compile(self, cxyfile, extra=(), tries=3, run_it=False):
        """-> dict(ok, c (path of generated C), log, dir)"""
        last = None
        for k in range(tries):
            d = tempfile.mkdtemp(prefix="cx.", dir=self.scratch)
            shutil.copy(cxyfile, d)
            f = os.path.join(d, os.path.basename(cxyfile))
            env = dict(os.environ, HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8")
            for v in ("CXY_OS", "CXY_ROOT", "CXY_STDLIB_DIR"):
                env.pop(v, None)
            cmd = ["setarch", "x86_64", "-R"] if fixed_addr() else []
            cmd += [self.exe, "dev", "--no-progress", "--stdlib", REPO + "/src/cxy", "--with-mm", *extra, f]
            rc, o, e, w = run(cmd, timeout=90, cwd=d, env=env)
            c = os.path.join(d, "app.c")
            last = dict(ok=os.path.exists(c) and os.path.exists(os.path.join(d, "app")), c=c, rc=rc,
                        log=(o + e)[-6000:], dir=d, cmd=" ".join(cmd), wall=w)
            if last["ok"]:
                return last
        return last


_fixed = None


def fixed_addr():
    global _fixed
    if _fixed is None:
        _fixed = run(["setarch", "x86_64", "-R", "true"])[0] == 0
    return _fixed


FIX = [(re.compile(r"\(([A-Za-z_][A-Za-z0-9_ ]*\**)\) \{\}"), r"(\1){0}"),
       (re.compile(r"__attribute__ *\(\(constructor\)\)"), ""),
       (re.compile(r"= *\{\};"), "= {0};"), (re.compile(r"= *\{\},"), "= {0},")]


def normalise(cfile, out):
    """mechanical: preprocess, and spell clang's empty initialisers {} as {0}"""
    rc, o, e, _ = run([CLANG, "-E", "-P", "-w", cfile], timeout=60)
    if rc != 0:
        return e
    for r, s in FIX:
        o = r.sub(s, o)
    open(out, "w").write(o)
    return None


def aliases(cfile, sufs):
    """#define G_<suffix> the generated function whose name ends in that suffix"""
    txt = open(cfile).read()
    out = []
    for x in sufs:
        m = re.findall(r"^[a-z][^\n;=]*?\b(\w*%s)\([^;]*?\) *\{" % re.escape(x), txt, re.M)
        if m:
            out.append(f"#define G_{x} {m[0]}")
    return "\n".join(out) + "\n"


def wrapper_types(cfile, names):
    """T_<wrapper>_<k> for the parameter types of each probe wrapper"""
    txt = open(cfile).read()
    out = []
    for n in names:
        m = re.search(r"^([^\n;{}]*?)\b(_?%s)\(([^)]*)\)" % re.escape(n), txt, re.M)
        if not m:
            continue
        if m.group(2) != n:
            out.append(f"#define {n} {m.group(2)}")
        ret = m.group(1).replace("static", "").replace("inline", "").strip()
        ret = re.sub(r"__attribute__\(\(.*?\)\)", "", ret).strip()
        if ret and ret != "void":
            out.append(f"#define R_{n} {ret}")
        ps = [p.strip() for p in m.group(3).split(",") if p.strip() and p.strip() != "void"]
        for i, p in enumerate(ps):
            q = re.sub(r"\b[A-Za-z_0-9]+$", "", p).strip() or p
            out.append(f"#define T_{n}_{i} {q}")
    return "\n".join(out) + "\n"


# --------------------------------------------------------------------------
OPT = re.compile(r"/\*@(.*?)\*/\s*void\s+(h_\w+)\s*\(void\)", re.S)


def parse_harness(path):
    """entries with their annotations"""
    res = []
    txt = open(path).read()
    for m in OPT.finditer(txt):
        o = {}
        for part in m.group(1).split(";"):
            if "=" in part:
                k, v = part.split("=", 1)
                o[k.strip()] = v.strip()
            elif part.strip():
                o[part.strip()] = "1"
        res.append((m.group(2), o))
    return res


def expand_cases(spec):
    if not spec:
        return [[]]
    out = [[]]
    for item in spec.split():
        k, v = item.split("=")
        vals = []
        for piece in v.split(","):
            if ".." in piece:
                a, b = piece.split("..")
                vals += [str(x) for x in range(int(a), int(b) + 1)]
            else:
                vals.append(piece)
        out = [o + [f"-D{k}={x}"] for o in out for x in vals]
    return out


class Job:
    """one verifier run: unit x entry x case"""

    def __init__(self, unit, entry, opts, case):
        self.unit, self.entry, self.opts, self.case = unit, entry, opts, case
        self.status = "notrun"    # proved | failed | undecided | vacuous
        self.props = []
        self.secs = 0.0
        self.note = ""
        self.obl = self.dis = 0
        self.bounded = opts.get("kind", "complete") != "complete"
        self.undefined = []

    @property
    def name(self):
        c = "".join("," + x[2:] for x in self.case)
        return f"{self.unit['name']}.{self.entry}{c}"


class Check:
    def __init__(self, prop, units, budget=600, level="proof", assumptions=()):
        self.prop, self.units, self.budget, self.level = prop, units, budget, level
        self.assumptions = list(assumptions)
        base = "/tmp"
        self.scratch = tempfile.mkdtemp(prefix=f"vf.{prop}.", dir=base)
        self.replay = os.path.join(VERIF, "evidence", "replay", prop)
        shutil.rmtree(self.replay, ignore_errors=True)
        self.violations, self.known, self.undecided, self.jobs = [], [], [], []
        self.native = {}
        self.errors = []
        self.compiler = None
        self.programs = []
        self.findings = load_findings(prop)

    # ---- violations -------------------------------------------------------
    def violation(self, key, text, files=None, data=None, found=True):
        for f in self.findings:
            if f["key"] == key:
                self.known.append(f)
                return
        os.makedirs(self.replay, exist_ok=True)
        path = os.path.join(self.replay, re.sub(r"[^A-Za-z0-9_.-]", "_", key)[:80] + ".txt")
        with open(path, "w") as fp:
            fp.write(f"property: {self.prop}\nobligation: {key}\n{text}\n")
            if data:
                fp.write(data + "\n")
            for n, p in (files or {}).items():
                try:
                    fp.write(f"---- {n}\n{open(p, errors='replace').read()[:20000]}\n")
                except OSError:
                    pass
        self.violations.append((key, path, found))

    # ---- compile ----------------------------------------------------------
    def prepare(self, u):
        """goto-cc all sources of a unit -> u['gb'] (per define set compiled lazily)"""
        u["dir"] = os.path.join(self.scratch, u["name"])
        os.makedirs(u["dir"], exist_ok=True)
        u["flags"] = list(u.get("defs", []))
        u["ok"] = True
        if u.get("probe"):
            if not self.compiler.exe:
                u["ok"] = False
                u["why"] = "compiler did not build"
                return
            src = u["probe"] if os.path.isabs(u["probe"]) else os.path.join(PROBES, u["probe"])
            r = self.compiler.compile(src)
            self.programs.append(os.path.basename(src))
            if not r["ok"]:
                u["ok"] = False
                u["why"] = "probe did not compile"
                if u.get("must_compile", True):
                    self.violation(f"compile.{u['name']}",
                                   "The compiler built from this tree no longer turns this valid program into a working "
                                   f"executable (exit {r['rc']}).\ncommand: {r['cmd']}\n{r['log']}", {"program": src})
                return
            u["gen"] = r["c"]
            norm = os.path.join(u["dir"], "gen.c")
            err = normalise(r["c"], norm)
            if err:
                u["ok"] = False
                u["why"] = "generated C not preprocessable: " + err[-300:]
                return
            names = re.findall(r"\bfunc\s+(\w+)", open(src).read())
            open(os.path.join(u["dir"], "gen_types.h"), "w").write(wrapper_types(norm, names) + aliases(norm, u.get("alias", ())))
            u["flags"] += [f"-I{u['dir']}", "-DVF_GEN"]
        # common part: repo sources
        objs = []
        for s in u.get("src", []):
            p = s if os.path.isabs(s) else os.path.join(REPO, s)
            o = os.path.join(u["dir"], re.sub(r"[^A-Za-z0-9]", "_", s) + ".gb")
            rc, out, err, _ = run(["goto-cc", "-std=gnu11", "-DVF_CBMC", *CDEFS, *CINC, *u["flags"], "-c", p, "-o", o], timeout=120)
            if rc != 0:
                u["ok"] = False
                u["why"] = f"goto-cc {s}: " + (out + err)[-800:]
                return
            objs.append(o)
        u["objs"] = objs

    def make_jobs(self, u):
        path = u["harness"] if os.path.isabs(u["harness"]) else os.path.join(HARN, u["harness"])
        u["hpath"] = path
        js = []
        for e, o in parse_harness(path):
            if u.get("entries") and e not in u["entries"]:
                continue
            if o.get("tier") == "thorough" and TIER != "thorough":
                continue
            if o.get("tier") == "quick" and TIER == "thorough":
                continue
            cs = o.get("cases")
            if TIER == "thorough" and o.get("tcases"):
                cs = o["tcases"]
            for c in expand_cases(cs):
                js.append(Job(u, e, o, c))
        return js

    # ---- verify -----------------------------------------------------------
    def harness_gb(self, j):
        u = j.unit
        tag = hashlib.sha1(" ".join(j.case).encode()).hexdigest()[:8] if j.case else "base"
        out = os.path.join(u["dir"], f"h_{j.entry}_{tag}.gb")
        stubs = [os.path.join(HARN, s) for s in u.get("stubs", [])]
        cmd = ["goto-cc", "-std=gnu11", "-DVF_CBMC", *CDEFS, *CINC, *u["flags"], *j.case,
               f"-DENTRY_{j.entry}", "-o", out, j.unit["hpath"], *stubs, *u["objs"], "--function", j.entry]
        rc, o, e, _ = run(cmd, timeout=120)
        if rc != 0:
            return None, (o + e)[-1200:]
        rep = j.opts.get("replace") or u.get("replace")
        if rep:
            for ab in rep.split(","):
                if ab.strip().startswith("~"):   # ~suffix:stub  every function of the generated program with that suffix
                    suf, to = ab.strip()[1:].split(":")
                    names = set(re.findall(r"\b(\w*%s)\(" % suf, open(os.path.join(u["dir"], "gen.c")).read()))
                    if not names:
                        continue
                    ab = names.pop() + ":" + to
                rc, o, e, _ = run(["goto-instrument", "--replace-calls", ab.strip(), out, out + ".r"], timeout=60)
                if rc != 0:
                    return None, "replace-calls " + ab + ": " + (o + e)[-600:]
                os.replace(out + ".r", out)
        if j.opts.get("dfcc"):
            # dfcc="enforce f/c; replace g/d"  (comma separated)
            cmd = ["goto-instrument", "--dfcc", j.entry]
            for item in j.opts["dfcc"].split(","):
                k, v = item.split()
                cmd += [f"--{k}-contract" if k != "loop" else "--apply-loop-contracts"] + ([v] if k != "loop" else [])
            rc, o, e, _ = run(cmd + [out, out + ".d"], timeout=120)
            if rc != 0:
                return None, "dfcc: " + (o + e)[-1200:]
            os.replace(out + ".d", out)
        return out, None

    def cbmc_cmd(self, j, gb, unwind):
        o = j.opts
        cmd = ["cbmc", gb, "--no-malloc-may-fail", "--drop-unused-functions", "--verbosity", "4", "--json-ui"]
        ck = o.get("checks", "none")
        if ck == "none":
            cmd += ["--no-standard-checks"]
        elif ck == "mem":
            cmd += ["--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check"]
        elif ck == "all":
            cmd += []
        cmd += ["--unwinding-assertions", "--unwind", str(unwind)]
        if o.get("unwindset"):
            cmd += ["--unwindset", o["unwindset"]]
        if o.get("objbits"):
            cmd += ["--object-bits", o["objbits"]]
        s = o.get("solver", "cadical")
        cmd += {"cadical": ["--sat-solver", "cadical"], "minisat": [], "z3": ["--z3"], "cvc5": ["--cvc5"]}[s]
        if o.get("cbmc"):
            cmd += shlex.split(o["cbmc"])
        return cmd

    def verify(self, j):
        tmo = float(j.opts.get("timeout", 120)) * (3 if TIER == "thorough" else 1)
        gb, err = self.harness_gb(j)
        if gb is None:
            j.status, j.note = "undecided", "harness does not build against this tree: " + err
            return j
        unwind = int(j.opts.get("tunwind" if TIER == "thorough" and j.opts.get("tunwind") else "unwind", "1"))
        tries = [unwind, unwind * 2 + 1, unwind * 4 + 2] if unwind > 0 else [1]
        for n, uw in enumerate(tries):
            lim = min(tmo, left(self.budget))
            if lim < 3:
                j.status, j.note = "undecided", "out of time budget"
                return j
            cmd = self.cbmc_cmd(j, gb, uw)
            rc, out, e, secs = run(cmd, timeout=lim, mem_gb=float(j.opts.get("mem", 8)))
            j.secs += secs
            j.cmd = " ".join(cmd)
            res = parse_cbmc(out)
            if rc == -999:
                j.status, j.note = "undecided", f"verifier timed out after {lim:.0f}s (unwind {uw})"
                return j
            if res is None:
                j.status, j.note = "undecided", f"verifier error rc={rc}: " + (out + e)[-500:]
                return j
            bad = [p for p in res if p["status"] == "FAILURE" and not p["desc"].startswith("REACH")]
            unw = [p for p in bad if ".unwind." in p["id"] or ".recursion" in p["id"] or "unwinding assertion" in p["desc"]]
            real = [p for p in bad if p not in unw]
            if real or not unw:
                break
        j.props = res
        j.unwind = uw
        obl = [p for p in res if not p["desc"].startswith("REACH")]
        j.obl = len(obl)
        j.dis = sum(p["status"] == "SUCCESS" for p in obl)
        reach = [p for p in res if p["desc"].startswith("REACH")]
        ens = [p for p in obl if p["desc"].startswith("ENSURES")]
        if real:
            j.status = "failed"
            j.failed = real
            for p in real[:4]:
                self.triage(j, gb, uw, p)
        elif unw:
            j.status, j.note = "undecided", f"loop bound {uw} not enough: {unw[0]['id']}"
            self.triage(j, gb, uw, unw[0])   # an endless loop is reported when the real code hangs on the input
        elif not ens:
            j.status, j.note = "undecided", "no postcondition obligation was generated"
        elif not reach or not any(p["status"] == "FAILURE" for p in reach) or \
                (j.opts.get("reach", "all") == "all" and not all(p["status"] == "FAILURE" for p in reach)):
            j.status, j.note = "vacuous", "end of the harness is not reachable"
        else:
            j.status = "proved"
        return j

    def triage(self, j, gb, uw, p):
        """counterexample -> replay natively on the real code"""
        key = f"{j.name}:{p['desc']}"
        cmd = self.cbmc_cmd(j, gb, uw) + ["--property", p["id"], "--trace"]
        rc, out, e, _ = run(cmd, timeout=300, mem_gb=10)
        vals = trace_inputs(out)
        base = os.path.join(j.unit["dir"], "replay_" + hashlib.sha1(key.encode()).hexdigest()[:10])
        txt = f"verifier: {' '.join(cmd)}\nfailed obligation: {p['id']} [{p['desc']}] at {p['loc']}\n"
        if vals is not None:
            open(base, "w").write("\n".join(map(str, vals)) + "\n")
            exe, err = self.native_exe(j.unit, j.case)
            if exe:
                rc, o, e2, _ = run([exe, j.entry, "replay", base], timeout=25, env=san_env())
                if rc in (10, 11, -999) or rc < 0 or (rc == 1 and "Sanitizer" in e2):
                    self.violation(key, txt + f"native replay (real code, clang+sanitizers): exit {rc}\n{e2[-3000:]}"
                                   f"\nharness inputs in order: {vals[:400]}",
                                   data=f"# replay: compile {j.unit['harness']} natively ({' '.join(j.case)}), run `{j.entry} replay FILE` with these inputs, one per line")
                    return
                txt += f"native replay of the counterexample did not fail (exit {rc}) {e2[-500:]}\ninputs: {vals[:200]}\n"
            else:
                txt += f"native replay not built: {err}\n"
        # fall back on directed search with the same contract
        r = self.native_random(j.unit, j.entry, j.case, secs=20, count=400000, seed=SEED + 17)
        if r and r.get("rc") in (10, 11):
            self.violation(key, txt + f"search with the same contract found a failing input on the real code: {r['log'][-3000:]}\ninputs: {r['inputs'][:400]}")
            return
        if "needreplay" in j.opts and vals is not None and exe and rc == 0:
            self.undecided.append(f"{key}: the verifier's counterexample is not reproduced by the real code")
        elif p["desc"].startswith("ENSURES") or p["desc"].startswith("assertion") or j.opts.get("strictmem"):
            self.violation(key, txt + "no-failing-input-found", data="verifier output:\n" + out[-6000:], found=False)
        else:
            self.undecided.append(f"{key}: side obligation failed, not reproduced natively")

    # ---- native -----------------------------------------------------------
    def native_exe(self, u, case):
        tag = hashlib.sha1(" ".join(case).encode()).hexdigest()[:8]
        cache = u.setdefault("nat", {})
        with LOCK:
            lock = u.setdefault("natlock", {}).setdefault(tag, threading.Lock())
        with lock:
            if tag not in cache:
                cache[tag] = self.native_build(u, case, tag)
        return cache[tag]

    def native_build(self, u, case, tag):
        ents = [e for e, o in parse_harness(u["hpath"]) if o.get("native", "1") != "0"]
        xs = " ".join(f"X({e})" for e in ents)
        exe = os.path.join(u["dir"], "native_" + tag)
        san = u.get("san", "address")
        srcs = [s if os.path.isabs(s) else os.path.join(REPO, s) for s in u.get("src", []) + u.get("nsrc", [])]
        hd = [os.path.join(HARN, s) for s in u.get("nstubs", [])]
        cmd = [CLANG, "-std=gnu11", "-O1", "-g", "-w", f"-fsanitize={san}", "-fno-sanitize-recover=all", "-DVF_NATIVE",
               *CDEFS, *CINC, *u["flags"], *u.get("nflags", []), *case, f"-DVF_ENTRIES={xs}", u["hpath"], *hd, os.path.join(HARN, "vf_native.c"),
               *srcs, "-no-pie", "-fno-pie",
               "-ffunction-sections", "-fdata-sections", "-Wl,--gc-sections", "-Wl,-z,lazy",
               "-Wl,--allow-multiple-definition", "-Wl,--unresolved-symbols=ignore-all", "-lm", "-lpthread", "-o", exe]
        rc, o, e, _ = run(cmd, timeout=180)
        return (exe, None) if rc == 0 else (None, e[-1500:])

    def native_random(self, u, entry, case, secs, count, seed):
        exe, err = self.native_exe(u, case)
        if not exe:
            return {"rc": None, "err": err}
        outf = os.path.join(u["dir"], f"rnd_{entry}_{seed}_{hashlib.sha1(' '.join(case).encode()).hexdigest()[:6]}")
        rc, o, e, w = run([exe, entry, "random", str(seed), str(count), str(secs), outf], timeout=secs + 60, env=san_env())
        try:
            d = json.loads(o.strip().splitlines()[-1])
        except Exception:
            d = {"rc": rc if rc in (10, 11) else None}
        d["log"] = e
        d["inputs"] = open(outf).read().split() if os.path.exists(outf) else []
        return d

    # ---- all ---------------------------------------------------------------
    def execute(self):
        try:
            self._execute()
            rc = self.finish()
        finally:
            if not os.environ.get("VF_KEEP"):
                shutil.rmtree(self.scratch, ignore_errors=True)
        return rc

    def _execute(self):
        only = os.environ.get("VF_ONLY")
        units = [u for u in self.units if not (u.get("tier") == "thorough" and TIER != "thorough")]
        if any(u.get("probe") or u.get("needs_compiler") for u in units):
            self.compiler = Compiler(self.scratch)
            if not self.compiler.build():
                self.errors.append("the compiler does not build: " + self.compiler.err)
                return
        pyunits = [u for u in units if u.get("py")]
        units = [u for u in units if not u.get("py")]
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(self.prepare, units))
            for u in units:
                if not u["ok"]:
                    self.undecided.append(f"{u['name']}: {u.get('why', '')[:600]}")
            jobs = []
            for u in units:
                if u["ok"]:
                    jobs += self.make_jobs(u)
            if only:
                jobs = [j for j in jobs if only in j.name]
            self.jobs = jobs
            jobs.sort(key=lambda j: -float(j.opts.get("timeout", 120)))
            every, jobs = jobs, [j for j in jobs if j.opts.get("verify", "1") != "0"]
            self.jobs = jobs
            futs = [ex.submit(self.guard, self.verify, j) for j in jobs]
            nat = []
            for u in units:
                if u["ok"] and u.get("native", True):
                    seen = set()
                    for j in every:
                        if j.unit is u and j.entry not in seen and j.opts.get("native", "1") != "0":
                            seen.add(j.entry)
                            nat.append(ex.submit(self.guard, self.sample, j))
            pys = [ex.submit(self.guard, u["py"], self) for u in pyunits]
            for f in futs + nat + pys:
                f.result()

    def guard(self, f, *a):
        try:
            return f(*a)
        except Exception as ex:   # machinery problem, never an alarm
            import traceback
            self.undecided.append("machinery: " + "".join(traceback.format_exception(ex))[-800:])

    def sample(self, j):
        if left(self.budget) < 10:
            return
        secs = float(j.opts.get("nsecs", 2)) * (5 if TIER == "thorough" else 1)
        r = self.native_random(j.unit, j.entry, j.case, secs=secs, count=int(j.opts.get("ncount", 20000)) * (10 if TIER == "thorough" else 1), seed=SEED)
        self.native[j.name] = {k: r.get(k) for k in ("cases", "completed", "skipped", "rc", "err")}
        if r.get("rc") in (10, 11):
            m = re.search(r"VF-FAIL: (.*?) \(", r["log"])
            key = f"{j.name}:ENSURES {m.group(1)}" if m else f"{j.name}:crash"
            self.violation(key, f"running the contract on the real code (clang+sanitizers) fails:\n{r['log'][-3000:]}\n"
                           f"inputs in order: {r['inputs'][:400]}")

    def finish(self):
        viol = {}
        for k, p, f in self.violations:
            if k not in viol or (f and not viol[k][1]):
                viol[k] = (p, f)
        proved = [j for j in self.jobs if j.status == "proved"]
        for j in self.jobs:
            if j.status in ("undecided", "vacuous", "notrun"):
                self.undecided.append(f"{j.name}: {j.status} {j.note}")
        complete = [j for j in proved if not j.bounded]
        bounded = [j for j in proved if j.bounded]
        fns = {}
        for j in self.jobs:
            for f in (j.opts.get("fn") or "").split():
                fns.setdefault(f, set()).add(("bounded" if j.bounded else "proved") if j.status == "proved" else j.status)
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
            "coverage": {
                "explanation": f"Contracts on the real code, discharged by CBMC: {len(complete)} verifier runs hold for all inputs without a bound, "
                               f"{len(bounded)} hold within the bound stated per run under bounds (labelled bounded, not proved), {len(self.jobs) - len(proved)} undecided; "
                               "the same contracts were also executed natively on the real code (sampling).",
                "obligations": sum(j.obl for j in self.jobs if not j.bounded),
                "discharged": sum(j.dis for j in complete),
                "bounded_obligations": sum(j.obl for j in self.jobs if j.bounded),
                "bounded_discharged": sum(j.dis for j in bounded),
                "bounds": {j.name: j.opts.get("bound", "") for j in self.jobs if j.bounded},
                "checker_cmd": "goto-cc (CBMC 6.11) on /repo's current sources, then cbmc --unwinding-assertions per harness; "
                               + (getattr(self.jobs[0], "cmd", "") if self.jobs else ""),
                "trusted_base": ["CBMC 6.11 (C front end, symbolic execution, library models)", "SAT/SMT back ends: "
                                 + ", ".join(sorted({j.opts.get("solver", "cadical") for j in self.jobs})),
                                 "harness preconditions and specification text in /verif/harness and /verif/probes"],
                "functions_under_contract": {k: sorted(v) for k, v in sorted(fns.items())},
                "verifier_runs": [{"name": j.name, "status": j.status, "obligations": j.obl, "discharged": j.dis,
                                   "bounded": j.bounded, "unwind": getattr(j, "unwind", None), "secs": round(j.secs, 2),
                                   "backend": j.opts.get("solver", "cadical"), "note": j.note[:300]} for j in self.jobs],
                "solver_seconds": round(sum(j.secs for j in self.jobs), 2),
                "native_runs_of_the_same_contracts": self.native,
                "undecided": self.undecided,
                "programs": len(self.programs),
                "probe_programs": self.programs,
                **getattr(self, "extra", {}),
            },
            "assumptions": self.assumptions + ["malloc never fails (--no-malloc-may-fail)"],
            "wall_s": round(time.time() - T0, 2),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        seen = set()
        for f in self.known:
            if f["key"] not in seen:
                seen.add(f["key"])
                print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        for u in self.undecided:
            print("UNDECIDED", u[:400].replace("\n", " "))
        c = ev["coverage"]
        print(f"{self.prop}: {len(proved)}/{len(self.jobs)} verifier runs proved; obligations {c['discharged']}/{c['obligations']} "
              f"(+{c['bounded_discharged']}/{c['bounded_obligations']} bounded), solver {c['solver_seconds']}s, wall {ev['wall_s']}s")
        for k, (p, found) in viol.items():
            print(f"# {k}")
            print(f"VIOLATION property={self.prop} replay={p}" + ("" if found else " no-failing-input-found"))
        if viol:
            return 1
        if self.errors or (not proved and not getattr(self, "py_ok", 0)):
            for e in self.errors:
                print("ERROR", e[-1500:])
            return 2
        return 0


def san_env():
    return dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=11:allocator_may_return_null=1",
                UBSAN_OPTIONS="print_stacktrace=0:exitcode=11")


def parse_cbmc(out):
    try:
        d = json.loads(out)
    except Exception:
        return None
    res = None
    for x in d:
        if isinstance(x, dict) and "result" in x:
            res = []
            for p in x["result"]:
                l = p.get("sourceLocation") or {}
                res.append({"id": p["property"], "desc": p.get("description", ""), "status": p["status"],
                            "loc": f"{l.get('file', '')}:{l.get('line', '')} {l.get('function', '')}"})
    return res


def trace_inputs(out):
    try:
        d = json.loads(out)
    except Exception:
        return None
    for x in d:
        if isinstance(x, dict) and "result" in x:
            for p in x["result"]:
                if p.get("trace"):
                    vals = []
                    for s in p["trace"]:
                        if s.get("stepType") == "input" and s.get("inputID") == "vf":
                            v = (s.get("values") or [{}])[0]
                            b = v.get("binary")
                            vals.append(int(b, 2) if b and set(b) <= {"0", "1"} else int(re.sub(r"[^0-9]", "", str(v.get("data", "0"))) or 0))
                    return vals
    return None


def load_findings(prop):
    """known-findings.txt: `known: {"property":..,"key":..,"what":..}` lines suppress exactly that obligation key;
    `fixed: property=.. commit what` lines suppress nothing"""
    p = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                d = json.loads(l[7:])
                if d.get("property") == prop:
                    res.append(d)
    return res
