#!/usr/bin/env python3
"""Decide one property of /repo:  check.py P07   |   check.py --replay replays/P07-xxxx.json

Builds the harness from /repo's current working tree, searches generated cases for one that violates the
property, shrinks it, replays it three times and writes it to replays/.  Exit 0: held on everything
explored; exit 1 and a VIOLATION line: broken; any other exit: the check itself could not run.
"""
import fcntl, glob, hashlib, json, mmap, os, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
JOBS = max(2, min(8, os.cpu_count() or 8))

# property: (harness source, build flavour, cases quick, cases thorough, seconds quick, seconds thorough)
PROPS = {
    "P01": ("props_var.cpp", "rel", 400000, 8000000, 25, 330),
    "P02": ("props_var.cpp", "rel", 60000, 1000000, 25, 330),
    "P03": ("props_var.cpp", "rel", 2000000, 6000000, 25, 330),
    "P04": ("props_var.cpp", "rel", 600000, 4000000, 25, 330),
    "P05": ("props_fac.cpp", "rel", 1500000, 30000000, 25, 330),
    "P06": ("props_fac.cpp", "rel", 800000, 15000000, 25, 330),
    "P07": ("props_fac.cpp", "rel", 1500000, 30000000, 25, 330),
    "P08": ("props_graph.cpp", "rel", 400000, 8000000, 25, 330),
    "P09": ("props_graph.cpp", "rel", 400000, 8000000, 25, 330),
    "P10": ("props_graph.cpp", "rel", 500000, 10000000, 25, 330),
    "P11": ("props_graph.cpp", "rel", 500000, 10000000, 25, 330),
    "P12": ("props_opt.cpp", "rel", 150000, 2500000, 25, 330),
    "P13": ("props_opt.cpp", "rel", 150000, 2500000, 25, 330),
    "P14": ("props_opt.cpp", "rel", 150000, 2500000, 25, 330),
    "P15": ("props_opt.cpp", "rel", 150000, 2500000, 25, 330),
    "P16": ("props_opt.cpp", "rel", 150000, 2500000, 25, 330),
    "P17": ("props_opt.cpp", "rel", 150000, 2500000, 25, 330),
    "P18": ("props_opt.cpp", "rel", 150000, 2500000, 25, 330),
    "P19": ("props_opt.cpp", "rel", 150000, 2500000, 25, 330),
    "P20": ("props_fac.cpp", "rel", 2000000, 40000000, 25, 330),
    "P21": ("py/p21.py", "python", 0, 0, 0, 0),
    "P22": ("py/p22.py", "python", 0, 0, 0, 0),
    "P23": ("py/p23.py", "python", 0, 0, 0, 0),
    "P24": ("props_var.cpp", "rel", 150000, 1500000, 20, 200),
    "P25": ("props_prog.cpp", "asan+rel", 250000, 4000000, 25, 330),
    "P26": ("props_traj.cpp", "rel", 150000, 2500000, 25, 330),
    "P27": ("props_thread.cpp", "tsan+rel", 150000, 2500000, 25, 330),
    "P28": ("props_traj.cpp", "rel", 150000, 2500000, 25, 330),
    "P29": ("py/p29.py", "python", 0, 0, 0, 0),
}

FLAVOURS = {
    "rel": ("g++", "-std=c++17 -O1 -DNDEBUG -w".split(), []),
    # Assertions on: an index Eigen would refuse is undefined behaviour in a release build
    "asan": ("clang++", "-std=c++17 -O1 -g1 -w -fno-omit-frame-pointer -fsanitize=address,undefined "
             "-fno-sanitize=function,vptr -fno-sanitize-recover=all".split(),
             ["-fsanitize=address,undefined"]),
    "tsan": ("clang++", "-std=c++17 -O1 -g1 -w -DNDEBUG -fno-omit-frame-pointer -fsanitize=thread".split(), ["-fsanitize=thread"]),
    "fuzz": ("clang++", "-std=c++17 -O1 -g1 -w -DPBT_FUZZER -fno-omit-frame-pointer "
             "-fsanitize=fuzzer-no-link,address,undefined -fno-sanitize=function,vptr -fno-sanitize-recover=all".split(),
             ["-fsanitize=fuzzer,address,undefined"]),
}
PCH = """#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <cmath>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
"""


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run_cmd(cmd, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


def build(flavour, source):
    """Compile the library's sources and one harness file; returns the path of the executable."""
    cxx, flags, link = FLAVOURS[flavour]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        lib = sorted(glob.glob(os.path.join(REPO, "src", "factorama", "**", "*.cpp"), recursive=True))
        heads = sorted(p for e in ("hpp", "h", "hh", "hxx", "inl", "ipp", "tpp", "inc")
                       for p in glob.glob(os.path.join(REPO, "src", "**", "*." + e), recursive=True))
        if not lib:
            raise CheckError("no sources in %s/src/factorama" % REPO)
        base = sha(cxx, *flags, PCH)
        hkey = sha(base, *[x for p in heads for x in (p, read(p))])
        hh = sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp")))
        tkey = sha(hkey, *[x for p in hh for x in (p, read(p))])
        objdir = os.path.join(BUILD, "obj-" + flavour)
        os.makedirs(objdir, exist_ok=True)
        pchdir = os.path.join(BUILD, "pch-%s-%s" % (flavour, base))
        inc = ["-I/usr/include/eigen3", "-I" + os.path.join(REPO, "src")]
        if not os.path.exists(os.path.join(pchdir, "ok")):
            os.makedirs(pchdir, exist_ok=True)
            with open(os.path.join(pchdir, "pch.h"), "w") as f:
                f.write(PCH)
            ext = ".gch" if cxx == "g++" else ".pch"
            rc, out = run_cmd([cxx, *flags, *inc, "-x", "c++-header", os.path.join(pchdir, "pch.h"), "-o",
                               os.path.join(pchdir, "pch.h" + ext)])
            if rc != 0:
                raise CheckError("precompiled header:\n" + out[-3000:])
            open(os.path.join(pchdir, "ok"), "w").close()
        use_pch = ["-include", os.path.join(pchdir, "pch.h")] if cxx == "g++" else \
                  ["-include-pch", os.path.join(pchdir, "pch.h.pch")]
        jobs = []
        # biggest first
        for p in [os.path.join(VERIF, "harness", source), os.path.join(VERIF, "harness", "main.cpp")] + \
                sorted(lib, key=lambda p: -os.path.getsize(p)):
            key = sha(tkey if p.startswith(VERIF) else hkey, p, read(p))
            o = os.path.join(objdir, key + ".o")
            jobs.append((p, o))

        def compile_one(job):
            p, o = job
            if os.path.exists(o):
                os.utime(o)
                return None
            tmp = o + ".tmp.o"
            rc, out = run_cmd([cxx, *flags, *inc, "-I" + os.path.join(VERIF, "harness"), *use_pch, "-c", p, "-o", tmp])
            if rc != 0:
                return "%s:\n%s" % (p, out[-3000:])
            os.replace(tmp, o)
            return None

        with ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(compile_one, jobs) if e]
        if errs:
            raise CheckError("does not compile: " + errs[0])
        exe = os.path.join(BUILD, "%s-%s-%s" % (flavour, os.path.splitext(source)[0], sha(*[o for _, o in jobs])))
        if not os.path.exists(exe):
            rc, out = run_cmd([cxx, *[o for _, o in jobs], *link, "-o", exe + ".tmp", "-pthread"])
            if rc != 0:
                raise CheckError("link: " + out[-3000:])
            os.replace(exe + ".tmp", exe)
        os.utime(exe)
        for pat in ("obj-*/*.o", "rel-*", "asan-*", "tsan-*", "fuzz-*"):  # bound the cache
            old = sorted((p for p in glob.glob(os.path.join(BUILD, pat)) if os.path.isfile(p)), key=os.path.getmtime)
            for p in old[:-400 if "obj" in pat else -12]:
                os.unlink(p)
        return exe
    finally:
        lock.close()


REC_SIZE = 8 * 3 + 4 * (1 << 16)


def read_record(path):
    """(case index, progress, choices drawn so far)"""
    try:
        with open(path, "rb") as f:
            b = f.read(REC_SIZE)
        idx, prog, n = struct.unpack_from("<QQQ", b, 0)
        n = min(n, 1 << 16)
        return idx, prog, list(struct.unpack_from("<%dI" % n, b, 24))
    except Exception:
        return 0, 0, []


def known_findings(pid):
    """{key: text} of the listed, unrepaired findings of this property"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + pid and w[2].startswith("key="):
                out[w[2][4:]] = w[3].strip()
    return out


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096:"
                    "detect_stack_use_after_return=1:strict_init_order=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:report_signal_unsafe=0:history_size=4",
    "TSAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
    "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
}


class Native:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.source, self.flavour, nq, nt, sq, st = PROPS[pid]
        self.count, self.seconds = (nt, st) if tier == "thorough" else (nq, sq)
        self.env = dict(os.environ, PBT_KNOWN=",".join(known_findings(pid)), **SAN_ENV)
        self.work = os.path.join(BUILD, "work-%s-%d" % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        # asan+rel: half of the workers search each build, and a failure in either counts
        self.exes = [build(f, self.source) for f in self.flavour.split("+")]

    def replay(self, choices, timeout=120):
        """(failed?, message, case, choices used)"""
        for exe in self.exes:
            r = self.replay_on(exe, choices, timeout)
            if r[0]:
                break
        return r

    def replay_on(self, exe, choices, timeout, tag="r"):
        f = os.path.join(self.work, "choices-" + tag)
        out = os.path.join(self.work, "replay-" + tag + ".json")
        rec = os.path.join(self.work, "rec-" + tag)
        with open(f, "w") as w:
            w.write(" ".join(map(str, choices)))
        for p in (out, rec):
            if os.path.exists(p):
                os.unlink(p)
        try:
            r = subprocess.run([exe, "replay", "--id", self.pid, "--choices", f, "--out", out, "--rec", rec, "--tier", self.tier],
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=dict(self.env, PBT_ROUNDS="40"))
        except subprocess.TimeoutExpired:
            return True, "hangs: no result after %d s" % timeout, "", choices
        if r.returncode in (0, 1) and os.path.exists(out):
            d = json.load(open(out))
            return d["outcome"] == "fail", d["message"], d["case"], choices
        err = r.stderr.decode(errors="replace")
        msg = "crashed (exit %d)" % r.returncode
        for line in err.splitlines():
            if "runtime error:" in line or "ERROR: AddressSanitizer" in line or "ThreadSanitizer:" in line or "Assertion" in line:
                msg += ": " + line.strip()[:300]
                break
        frames = [l.strip() for l in err.splitlines() if "/factorama/" in l or "factorama::" in l][:4]
        if frames:
            msg += " | " + " | ".join(x[:200] for x in frames)
        return True, msg, "", choices

    def shrink_outside(self, choices, budget=40):
        """Minimise a crashing or hanging case by replaying candidates in child processes."""
        t0 = time.time()
        best = list(choices)

        def bad(cand):
            return self.replay(cand, timeout=30)[0]

        size = max(1, len(best) // 2)
        while size >= 1 and time.time() - t0 < budget:
            i = len(best) - size
            changed = False
            while i >= 0 and time.time() - t0 < budget:
                cand = best[:i] + best[i + size:]
                if bad(cand):
                    best, changed = cand, True
                i -= size
            if not changed or size > len(best):
                size //= 2
        for i in range(len(best)):
            if time.time() - t0 > budget:
                break
            if best[i]:
                cand = best[:i] + [0] + best[i + 1:]
                if bad(cand):
                    best = cand
        return best

    def search(self):
        procs = []
        t_end = time.time() + self.seconds
        for w in range(JOBS):
            out = os.path.join(self.work, "out-%d.json" % w)
            rec = os.path.join(self.work, "rec-%d" % w)
            err = open(os.path.join(self.work, "err-%d" % w), "w")
            p = subprocess.Popen([self.exes[w % len(self.exes)], "run", "--id", self.pid, "--seed", str(self.seed), "--start", str(w), "--stride", str(JOBS),
                                  "--count", str(self.count), "--seconds", str(self.seconds), "--tier", self.tier, "--out", out,
                                  "--rec", rec], stdout=subprocess.DEVNULL, stderr=err, env=self.env)
            procs.append(dict(p=p, out=out, rec=rec, prog=None, since=time.time()))
        failures = []  # (choices, crashed)
        results = []
        live = list(procs)
        stop_at = None
        while live:
            time.sleep(0.05)
            for w in list(live):
                rc = w["p"].poll()
                if rc is not None:
                    live.remove(w)
                    if rc in (0, 1) and os.path.exists(w["out"]):
                        d = json.load(open(w["out"]))
                        w["d"] = d
                        results.append(w)
                        if d["failed"]:
                            failures.append((d["choices"], False))
                    elif w.get("killed"):
                        pass
                    else:
                        failures.append((read_record(w["rec"])[2], True))
                    if failures and stop_at is None:
                        stop_at = time.time() + 3
                    continue
                _, prog, _ = read_record_head(w["rec"])
                if prog != w["prog"]:
                    w["prog"], w["since"] = prog, time.time()
                elif time.time() - w["since"] > 120:
                    failures.append((read_record(w["rec"])[2], True))
                    w["killed"] = True
                    w["p"].kill()
                    stop_at = stop_at or time.time()
            if stop_at and time.time() > stop_at:
                for w in live:
                    w["killed"] = True
                    w["p"].kill()
        return results, failures

    def report(self, failures):
        """Confirm, minimise, and save the failures; returns the path of the replay file, or None."""
        failures.sort(key=lambda f: (f[1], len(f[0]), f[0]))
        for choices, crashed in failures:
            bad, msg, case, _ = self.replay(choices)
            if not bad:
                continue
            if crashed:
                choices = self.shrink_outside(choices)
            # a hang has been seen twice by now, and each more costs two minutes
            runs = [self.replay(choices) for _ in range(1 if msg.startswith("hangs") else 3)]
            if not all(r[0] for r in runs):
                continue
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "%s-%s.json" % (self.pid, sha(self.tier, *choices)[:12]))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "tier": self.tier, "message": runs[0][1], "case": runs[0][2], "choices": choices,
                           "how": "check.py --replay <this file>"}, f, indent=1)
            print("%s: %s" % (self.pid, runs[0][1][:600]))
            if runs[0][2]:
                print("case: %s" % runs[0][2][:1500])
            return path
        return None

    def fuzz(self, seconds):
        """Coverage-guided search over the same choice sequences, under ASan and UBSan."""
        exe = build("fuzz", self.source)
        corpus = os.path.join(self.work, "corpus")
        os.makedirs(corpus, exist_ok=True)
        arts = os.path.join(self.work, "art-")
        # seeds: a few random choice sequences next to the empty one
        import random
        rnd = random.Random(self.seed * 7919 + 13)
        for i in range(24):
            n = rnd.choice([8, 40, 150, 400])
            with open(os.path.join(corpus, "seed%d" % i), "wb") as f:
                f.write(struct.pack("<%dI" % n, *[rnd.getrandbits(30) for _ in range(n)]))
        env = dict(self.env, PBT_ID=self.pid)
        log = open(os.path.join(self.work, "fuzz.log"), "w")
        p = subprocess.Popen([exe, corpus, "-seed=%d" % (self.seed + 1), "-max_total_time=%d" % seconds, "-max_len=8192", "-len_control=20",
                              "-fork=%d" % JOBS, "-ignore_crashes=0", "-timeout=120", "-rss_limit_mb=6000", "-print_final_stats=1",
                              "-artifact_prefix=" + arts], stdout=log, stderr=log, env=env, cwd=self.work, start_new_session=True)
        try:
            p.wait(timeout=seconds + 90)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        txt = open(os.path.join(self.work, "fuzz.log"), errors="replace").read()
        execs = cov = 0
        for line in txt.splitlines():
            if line.startswith("#") and "cov:" in line:
                try:
                    execs = max(execs, int(line[1:].split(":")[0].split()[0]))
                    cov = max(cov, int(line.split("cov:")[1].split()[0]))
                except ValueError:
                    pass
        fails = []
        for a in glob.glob(arts + "*"):
            if os.path.basename(a).startswith(("art-crash", "art-timeout")):
                b = read(a)
                fails.append((list(struct.unpack("<%dI" % (len(b) // 4), b[:len(b) // 4 * 4])), True))
        return {"executions": execs, "coverage_edges": cov, "corpus": len(os.listdir(corpus)), "seconds": seconds}, fails

    def main(self):
        t0 = time.time()
        results, failures = self.search()
        evals = sum(w["d"]["evaluations"] for w in results)
        sigs = set()
        for w in results:
            b = read(w["out"] + ".sigs")
            sigs.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        labels, known, samples = {}, {}, []
        for w in results:
            for k, v in w["d"]["labels"].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in w["d"]["known"].items():
                known[k] = known.get(k, 0) + v
            samples += w["d"]["samples"]
        path = self.report(failures) if failures else None
        unconfirmed = len(failures) if failures and not path else 0
        cov = {
            "evaluations": evals,
            "distinct_nontrivial": len(sigs),
            "rule": results[0]["d"]["rule"] if results else "",
            "samples": samples[:8] or ["no sample: the search ended before one was written"],
            "classes": dict(sorted(labels.items())),
            "discarded": sum(w["d"]["discards"] for w in results),
            "max_choices": max([w["d"]["max_choices"] for w in results] or [0]),
            "planned_cases": self.count,
            "out_of_time": any(w["d"]["out_of_time"] for w in results),
            "failures_not_reproduced": unconfirmed,
            "not_reproduced": [w["d"]["message"][:600] for w in results if w["d"]["failed"]] if unconfirmed else [],
        }
        if self.tier == "thorough" and not path:
            secs = int(os.environ.get("VERIF_FUZZ_SECONDS", "150"))
            if secs > 0 and self.pid != "P24":
                stats, ffails = self.fuzz(secs)
                cov["fuzzing"] = stats
                if ffails:
                    # a sanitizer finding may need the sanitizer build to show
                    path = self.report(ffails)
                    if not path:
                        self.exes = [build("asan", self.source)]
                        path = self.report(ffails)
        listed = known_findings(self.pid)
        for k in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, listed.get(k, k)))
        cov["known_findings_met"] = known
        if not path and not results and not failures:
            raise CheckError("no worker finished")
        shutil.rmtree(self.work, ignore_errors=True)
        return path, cov, time.time() - t0


def read_record_head(path):
    try:
        with open(path, "rb") as f:
            return struct.unpack("<QQQ", f.read(24))
    except Exception:
        return 0, 0, 0


def write_evidence(pid, tier, seed, cov, wall, violations, assumptions):
    os.makedirs(EVIDENCE, exist_ok=True)
    d = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assumptions,
         "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(EVIDENCE, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, pid + ".json"))


ASSUME = ["the compiler, libstdc++ and Eigen are correct", "generated cases stand for the input space; absence of a violation is not proved",
          "the reference model in harness/model.hpp and harness/ref.hpp states the documented semantics"]


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        pid = d["property"]
        if PROPS[pid][1] == "python":
            import importlib
            sys.path.insert(0, os.path.join(VERIF, "py"))
            return importlib.import_module(pid.lower()).replay(d)
        n = Native(pid, d["tier"], 0)
        bad, msg, case, _ = n.replay(d["choices"])
        print("fails" if bad else "passes", msg)
        print(case)
        shutil.rmtree(n.work, ignore_errors=True)
        return 1 if bad else 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if PROPS[pid][1] == "python":
        os.execv("/usr/bin/python3", ["/usr/bin/python3", os.path.join(VERIF, PROPS[pid][0]), tier, str(seed)])
    t0 = time.time()
    n = Native(pid, tier, seed)
    path, cov, _ = n.main()
    write_evidence(pid, tier, seed, cov, time.time() - t0, 1 if path else 0, ASSUME)
    if path:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("check error: %s" % e, file=sys.stderr)
        sys.exit(2)
