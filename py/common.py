"""Builds the Python extension from /repo's working tree, and drives generated cases against it.

A property module defines
    PID, FLAVOUR ("rel" | "asan"), PLAN {tier: (cases, seconds)}, RULE,
    case(s, tier, fg): one generated case; draws every choice from s, reports its description with s.note(),
                       its class with s.label(), sets s.nontrivial, and raises Fail (or any other exception) when
                       the property is broken, Discard when the case is outside the property.
and ends with  common.main(module globals).
"""
import fcntl, glob, hashlib, json, math, os, random, shutil, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import check  # build helpers, evidence, known findings

REPO = check.REPO
BUILD = check.BUILD
JOBS = check.JOBS
PY = "/usr/bin/python3"


class Fail(Exception):
    pass


class Discard(Exception):
    pass


# ---------------------------------------------------------------------------------------------- extension
FLAVOURS = {
    "rel": ("-std=c++17 -O1 -DNDEBUG -w -fPIC -fvisibility=hidden".split(), []),
    "asan": ("-std=c++17 -O1 -g1 -w -fPIC -fvisibility=hidden -fno-omit-frame-pointer -fsanitize=address".split(),
             ["-fsanitize=address"]),
}


def build_ext(flavour):
    """Directory to put on sys.path so that `import factorama` is /repo's working tree"""
    flags, link = FLAVOURS[flavour]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        pkg = os.path.join(REPO, "python_bindings", "python", "factorama")
        lib = sorted(glob.glob(os.path.join(REPO, "src", "factorama", "**", "*.cpp"), recursive=True))
        ext = sorted(glob.glob(os.path.join(pkg, "*.cpp")))
        heads = sorted(p for e in ("hpp", "h", "hh", "hxx", "inl", "ipp", "tpp", "inc")
                       for d in (os.path.join(REPO, "src"), os.path.join(REPO, "python_bindings", "python"))
                       for p in glob.glob(os.path.join(d, "**", "*." + e), recursive=True))
        pyfiles = sorted(glob.glob(os.path.join(pkg, "*.py")))
        if not lib or not ext or not pyfiles:
            raise check.CheckError("no sources of the Python package in %s" % REPO)
        inc = subprocess.check_output([PY + "-config", "--includes"]).decode().split() if os.path.exists(PY + "-config") else \
            ["-I/usr/include/python3.12"]
        suffix = subprocess.check_output([PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"]).decode().strip()
        flags = flags + ["-I/usr/include/eigen3", "-I" + os.path.join(REPO, "src")] + inc
        hkey = check.sha("g++", *flags, *[x for p in heads for x in (p, check.read(p))])
        objdir = os.path.join(BUILD, "obj-py" + flavour)
        os.makedirs(objdir, exist_ok=True)
        jobs = [(p, os.path.join(objdir, check.sha(hkey, p, check.read(p)) + ".o"))
                for p in ext + sorted(lib, key=lambda p: -os.path.getsize(p))]

        def compile_one(job):
            p, o = job
            if os.path.exists(o):
                os.utime(o)
                return None
            rc, out = check.run_cmd(["g++", *flags, "-c", p, "-o", o + ".tmp.o"])
            if rc != 0:
                return "%s:\n%s" % (p, out[-3000:])
            os.replace(o + ".tmp.o", o)
            return None

        with ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(compile_one, jobs) if e]
        if errs:
            raise check.CheckError("does not compile: " + errs[0])
        key = check.sha(*[o for _, o in jobs], *[x for p in pyfiles for x in (p, check.read(p))])
        root = os.path.join(BUILD, "py-%s-%s" % (flavour, key))
        if not os.path.exists(os.path.join(root, "ok")):
            d = os.path.join(root, "factorama")
            os.makedirs(d, exist_ok=True)
            for p in pyfiles:
                shutil.copy(p, d)
            rc, out = check.run_cmd(["g++", "-shared", *[o for _, o in jobs], *link, "-o", os.path.join(d, "_factorama" + suffix)])
            if rc != 0:
                raise check.CheckError("link: " + out[-3000:])
            open(os.path.join(root, "ok"), "w").close()
        os.utime(root)
        old = sorted(glob.glob(os.path.join(BUILD, "py-%s-*" % flavour)), key=os.path.getmtime)
        for p in old[:-6]:
            shutil.rmtree(p, ignore_errors=True)
        old = sorted(glob.glob(os.path.join(objdir, "*.o")), key=os.path.getmtime)
        for p in old[:-150]:
            os.unlink(p)
        return root
    finally:
        lock.close()


def worker_env(flavour, root):
    env = dict(os.environ, PYTHONPATH=root, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLCONFIGDIR=os.path.join(BUILD, "mpl"))
    if flavour == "asan":
        asan = subprocess.check_output(["g++", "-print-file-name=libasan.so"]).decode().strip()
        stdcxx = subprocess.check_output(["g++", "-print-file-name=libstdc++.so"]).decode().strip()
        env.update(LD_PRELOAD="%s %s" % (os.path.realpath(asan), os.path.realpath(stdcxx)), PYTHONMALLOC="malloc",
                   ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096:"
                                "quarantine_size_mb=64:malloc_context_size=8:detect_odr_violation=0:max_free_fill_size=65536:free_fill_byte=85",
                   ASAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer-18")
    return env


# ---------------------------------------------------------------------------------------------- choices
class Src:
    """Every choice of a case is a draw from here: recorded, replayable, shrinkable (smaller is simpler)"""

    def __init__(self, rng=None, choices=None):
        self.rng, self.given, self.pos, self.out = rng, choices, 0, []
        self.text, self.labels, self.nontrivial = [], {}, False
        self.known = {}

    def draw(self, n):
        """0 .. n-1"""
        n = int(n)
        if n <= 1:
            return 0
        if self.given is not None:
            v = self.given[self.pos] % n if self.pos < len(self.given) else 0
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        self.out.append(v)
        return v

    def chance(self, num, den):
        """True with probability num/den; False is simpler"""
        return self.draw(den) >= den - num

    def pick(self, xs):
        return xs[self.draw(len(xs))]

    def unit(self):
        return self.draw(1 << 30) / float(1 << 30)

    def real(self, lo, hi):
        """Mostly few-digit numbers, sometimes full-precision ones"""
        if self.chance(1, 2):
            return lo + (hi - lo) * self.unit()
        k = self.draw(41)
        return lo + (hi - lo) * k / 40.0

    def sym(self, m):
        k = self.draw(2)
        v = self.real(0, m)
        return -v if k else v

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1, 0, -1):
            j = i - self.draw(i + 1)  # 0: stays
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def note(self, t):
        self.text.append(str(t))

    def label(self, t):
        self.labels[t] = self.labels.get(t, 0) + 1

    def describe(self):
        return "; ".join(self.text)


def run_case(mod, tier, src, fg):
    """'ok' | 'discard' | failure message"""
    try:
        mod["case"](src, tier, fg)
        return "ok"
    except Discard:
        return "discard"
    except Fail as e:
        return "fail: " + str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-3:])
        return "fail: unexpected %s: %s (%s)" % (type(e).__name__, e, where)


def seed_of(pid, seed, index):
    return int(hashlib.sha256(("%s/%d/%d" % (pid, seed, index)).encode()).hexdigest()[:15], 16)


def shrink(mod, tier, choices, fg, budget, bad=None):
    bad = bad or (lambda c: run_case(mod, tier, Src(choices=c), fg).startswith("fail"))
    t0 = time.time()
    best = list(choices)
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() - t0 < budget:
            i = len(best) - size
            while i >= 0 and time.time() - t0 < budget:
                cand = best[:i] + best[i + size:]
                if len(cand) < len(best) and bad(cand):
                    best, improved = cand, True
                i -= size
            size //= 2
        for i in range(len(best)):
            if time.time() - t0 > budget:
                break
            if i < len(best) and best[i]:
                for v in (0, best[i] // 2, best[i] - 1):
                    if v < best[i]:
                        cand = best[:i] + [v] + best[i + 1:]
                        if bad(cand):
                            best, improved = cand, True
                            break
    return best


# ---------------------------------------------------------------------------------------------- worker side
def worker(mod, args):
    start, stride, count, seconds, seed, tier, out = int(args[0]), int(args[1]), int(args[2]), float(args[3]), int(args[4]), args[5], args[6]
    import factorama as fg
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    res = {"evaluations": 0, "discards": 0, "labels": {}, "samples": [], "failed": False, "out_of_time": False, "max_choices": 0, "sigs": []}
    sigs = set()
    t0 = time.time()
    prog = open(out + ".at", "w")
    i = start
    while i < count:
        if time.time() - t0 > seconds:
            res["out_of_time"] = True
            break
        prog.seek(0)
        prog.write("%d\n" % i)
        prog.flush()
        src = Src(rng=random.Random(seed_of(mod["PID"], seed, i)))
        r = run_case(mod, tier, src, fg)
        res["evaluations"] += 1
        if r == "discard":
            res["discards"] += 1
        elif r == "ok":
            for k, v in src.labels.items():
                res["labels"][k] = res["labels"].get(k, 0) + v
            res["max_choices"] = max(res["max_choices"], len(src.out))
            if src.nontrivial:
                sigs.add(hashlib.sha256(repr(src.out).encode()).hexdigest()[:16])
                if len(res["samples"]) < 2 and len(sigs) % 7 == 3:
                    res["samples"].append(src.describe()[:1500])
        else:
            res["failed"] = True
            res["choices"] = shrink(mod, tier, src.out, fg, 15)
            break
        i += stride
    res["sigs"] = sorted(sigs)
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)
    os._exit(0)


def replayer(mod, args):
    """one case, from choices or from (seed, index); the answer goes to a file"""
    tier, inp, out = args
    import factorama as fg
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    d = json.load(open(inp))
    src = Src(choices=d["choices"]) if "choices" in d else Src(rng=random.Random(seed_of(mod["PID"], d["seed"], d["index"])))
    if "choices" not in d:
        # the choices of a case that kills the process are written as they are drawn
        class Tee(list):
            def append(self, v, f=open(out + ".choices", "w")):
                list.append(self, v)
                f.write("%d\n" % v)
                f.flush()
        src.out = Tee()
    r = run_case(mod, tier, src, fg)
    with open(out, "w") as f:
        json.dump({"result": r, "case": src.describe(), "choices": list(src.out)}, f)
    os._exit(0)


# ---------------------------------------------------------------------------------------------- driver side
class Driver:
    def __init__(self, mod, tier, seed):
        self.mod, self.tier, self.seed, self.pid = mod, tier, seed, mod["PID"]
        self.root = build_ext(mod["FLAVOUR"])
        self.env = worker_env(mod["FLAVOUR"], self.root)
        self.work = os.path.join(BUILD, "work-%s-%d" % (self.pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.n = 0

    def child(self, *args, **kw):
        return subprocess.Popen([PY, self.mod["__file__"], *map(str, args)], env=self.env, cwd=self.work, **kw)

    def replay(self, d, timeout=120):
        self.n += 1
        inp, out = os.path.join(self.work, "in-%d" % self.n), os.path.join(self.work, "re-%d" % self.n)
        with open(inp, "w") as f:
            json.dump(d, f)
        p = self.child("--replay-one", self.tier, inp, out, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        try:
            _, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return True, "hangs: no result after %d s" % timeout, "", self.partial(d, out)
        if p.returncode == 0 and os.path.exists(out):
            r = json.load(open(out))
            return r["result"].startswith("fail"), r["result"], r["case"], r["choices"]
        err = err.decode(errors="replace")
        msg = "fail: the interpreter died (exit %d)" % p.returncode
        for line in err.splitlines():
            if "ERROR: AddressSanitizer" in line or "Fatal Python error" in line or "terminate called" in line or "what():" in line:
                msg += ": " + line.strip()[:300]
        frames = [l.strip() for l in err.splitlines() if "factorama" in l and l.strip().startswith("#")][:4]
        if frames:
            msg += " | " + " | ".join(x[:200] for x in frames)
        return True, msg, "", self.partial(d, out)

    @staticmethod
    def partial(d, out):
        if "choices" in d:
            return d["choices"]
        try:
            return [int(x) for x in open(out + ".choices").read().split()]
        except Exception:
            return []

    def main(self):
        t0 = time.time()
        count, seconds = self.mod["PLAN"][self.tier]
        procs = []
        for w in range(JOBS):
            out = os.path.join(self.work, "w-%d.json" % w)
            err = open(os.path.join(self.work, "err-%d" % w), "w")
            procs.append([self.child("--worker", w, JOBS, count, seconds, self.seed, self.tier, out, stdout=subprocess.DEVNULL, stderr=err),
                          out, None, time.time()])
        results, fails = [], []
        live = list(procs)
        stop = None
        while live:
            time.sleep(0.05)
            for w in list(live):
                rc = w[0].poll()
                if rc is not None:
                    live.remove(w)
                    if rc == 0 and os.path.exists(w[1]):
                        r = json.load(open(w[1]))
                        results.append(r)
                        if r["failed"]:
                            fails.append({"choices": r["choices"]})
                    elif w[2] != "killed":
                        idx = self.at(w[1])
                        if idx is None:
                            raise check.CheckError("worker did not start: " + open(w[0].args and os.path.join(self.work, "err-%d" % procs.index(w))).read()[-2000:])
                        fails.append({"seed": self.seed, "index": idx})
                    if fails and stop is None:
                        stop = time.time() + 18
                    continue
                idx = self.at(w[1])
                if idx != w[2]:
                    w[2], w[3] = idx, time.time()
                elif idx is not None and time.time() - w[3] > 90:
                    fails.append({"seed": self.seed, "index": idx})
                    w[2] = "killed"
                    w[0].kill()
                    stop = stop or time.time()
            if stop and time.time() > stop:
                for w in live:
                    w[2] = "killed"
                    w[0].kill()
        path = self.report(fails)
        labels, sigs, samples = {}, set(), []
        for r in results:
            sigs.update(r["sigs"])
            samples += r["samples"]
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
        cov = {"evaluations": sum(r["evaluations"] for r in results), "distinct_nontrivial": len(sigs), "rule": self.mod["RULE"],
               "samples": samples[:6] or ["no sample: the search ended before one was written"], "classes": dict(sorted(labels.items())),
               "discarded": sum(r["discards"] for r in results), "max_choices": max([r["max_choices"] for r in results] or [0]),
               "planned_cases": count, "out_of_time": any(r["out_of_time"] for r in results),
               "failures_not_reproduced": len(fails) if not path else 0}
        if not results and not fails:
            raise check.CheckError("no worker finished")
        check.write_evidence(self.pid, self.tier, self.seed, cov, time.time() - t0, 1 if path else 0,
                             ["CPython, numpy, pybind11 and the compiler are correct", "generated cases stand for the input space; absence of a violation is not proved",
                              "py/model.py states the documented semantics"])
        shutil.rmtree(self.work, ignore_errors=True)
        if path:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (self.pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
        return 0

    @staticmethod
    def at(out):
        try:
            return int(open(out + ".at").read().split()[0])
        except Exception:
            return None

    def report(self, fails):
        fails.sort(key=lambda f: ("choices" not in f, len(f.get("choices", []))))
        for f in fails:
            bad, msg, case, choices = self.replay(f)
            if not bad:
                continue
            if "choices" not in f:
                bad2, _, _, _ = self.replay({"choices": choices})
                if not bad2:
                    continue
                choices = self.shrink_outside(choices)
            runs = [self.replay({"choices": choices}) for _ in range(3)]
            if not all(r[0] for r in runs):
                continue
            os.makedirs(check.REPLAYS, exist_ok=True)
            path = os.path.join(check.REPLAYS, "%s-%s.json" % (self.pid, check.sha(self.tier, *choices)[:12]))
            with open(path, "w") as o:
                json.dump({"property": self.pid, "tier": self.tier, "message": runs[0][1], "case": runs[0][2], "choices": choices,
                           "how": "check.py --replay <this file>"}, o, indent=1)
            print("%s: %s" % (self.pid, runs[0][1][:800]))
            if runs[0][2]:
                print("case: %s" % runs[0][2][:1500])
            return path
        return None

    def shrink_outside(self, choices, budget=60):
        """Candidates die with their process: run several at a time"""
        t0 = time.time()
        best = list(choices)
        with ThreadPoolExecutor(JOBS) as ex:
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() - t0 < budget:
                starts = list(range(len(best) - size, -1, -size))
                hit = False
                for k in range(0, len(starts), JOBS):
                    if time.time() - t0 > budget:
                        break
                    cands = [best[:i] + best[i + size:] for i in starts[k:k + JOBS]]
                    good = [c for c, r in zip(cands, ex.map(lambda c: self.replay({"choices": c}, 60), cands)) if r[0]]
                    if good:
                        best, hit = good[0], True
                        break
                if not hit:
                    size //= 2
        return best


def replay_file(mod, d):
    """check.py --replay"""
    n = Driver(mod, d["tier"], 0)
    bad, msg, case, _ = n.replay({"choices": d["choices"]})
    print("fails" if bad else "passes", msg)
    print(case)
    shutil.rmtree(n.work, ignore_errors=True)
    return 1 if bad else 0


def main(mod):
    if len(sys.argv) > 1 and sys.argv[1] == "--worker":
        worker(mod, sys.argv[2:])
    if len(sys.argv) > 1 and sys.argv[1] == "--replay-one":
        replayer(mod, sys.argv[2:])
    tier, seed = sys.argv[1], int(sys.argv[2])
    try:
        sys.exit(Driver(mod, tier, seed).main())
    except check.CheckError as e:
        print("check error: %s" % e, file=sys.stderr)
        sys.exit(2)
