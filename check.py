#!/usr/bin/env python3
"""Driver: builds what one property needs from /repo's working tree, runs its
generated-input search and writes evidence/<id>.json.

usage: check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]
       check.py --self-check
Environment: VERIF_SEED, VERIF_TIER, VERIF_REPO (default /repo, development only).
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "distributed_vector_ole")
HARNESS = os.path.join(VERIF, "harness")
ENGINE = os.path.join(VERIF, "engine")
SHIMS = os.path.join(VERIF, "shims")
NCPU = os.cpu_count() or 8
CRYPTO = "/usr/lib/x86_64-linux-gnu/android/libcrypto.so"

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

INCLUDES = ["-I/usr/include/android", "-I" + SHIMS, "-I" + ENGINE, "-I" + HARNESS,
            "-I" + REPO, "-I/usr/include/eigen3"]
BASE = ["-std=c++17", "-Wno-ignored-attributes", "-w"]
VARIANTS = {
    # optimised, as the repository builds it
    "main": ["g++", "-O2", "-fopenmp", "-DUSE_ASM"],
    # the portable field arithmetic
    "portable": ["g++", "-O2", "-fopenmp"],
    # memory errors and undefined behaviour become failures
    "asan": ["g++", "-O1", "-g1", "-fopenmp", "-DUSE_ASM", "-DVERIF_SANITIZED",
             "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-sanitize=alignment,vptr", "-fno-omit-frame-pointer"],
    # The protocols multiply uint16_t through Eigen, where the promoted product can
    # exceed int; gcc wraps it, and the result is reduced to 16 bits again.
    "asanp": ["g++", "-O1", "-g1", "-fopenmp", "-DUSE_ASM", "-DVERIF_SANITIZED",
              "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
              "-fno-sanitize=alignment,vptr,signed-integer-overflow", "-fno-omit-frame-pointer"],
    # data races: with a small OpenMP runtime that the sanitizer can see through
    # (shims/omp_sched) and that varies which thread does which piece of work
    "race": ["g++", "-O1", "-g1", "-fopenmp", "-DUSE_ASM", "-DVERIF_SANITIZED", "-DVERIF_RACE", "-fsanitize=thread",
             "-fno-omit-frame-pointer"],
    # coverage-guided
    "fuzz": ["clang++", "-O1", "-g1", "-DUSE_ASM", "-DVERIF_SANITIZED",
             "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all",
             "-fno-sanitize=alignment,vptr", "-I" + os.path.join(SHIMS, "omp_stub")],
}
ABSL = ["hash", "raw_hash_set", "strings", "int128", "city", "low_level_hash", "throw_delegate", "raw_logging_internal", "base",
        "hashtablez_sampler", "strings_internal", "bad_optional_access", "bad_variant_access", "bad_any_cast_impl", "cord",
        "status", "statusor", "str_format_internal", "synchronization", "time", "spinlock_wait", "random_distributions",
        "random_seed_sequences", "random_internal_randen", "random_internal_pool_urbg", "random_internal_platform"]
LIBDIRS = ("/usr/lib/x86_64-linux-gnu/", "/usr/lib/", "/usr/local/lib/")
LIBS = [CRYPTO, "-Wl,-rpath," + os.path.dirname(CRYPTO), "-Wl,--start-group", "-lntl", "-lgmp", "-lboost_serialization"] + \
       ["-labsl_" + n for n in ABSL if any(os.path.exists("%slibabsl_%s.%s" % (d, n, e)) for d in LIBDIRS for e in ("so", "a"))] + \
       ["-Wl,--end-group", "-lpthread", "-ldl"]


def repo_sources():
    r = []
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp") and not f.endswith(("_test.cpp", "_benchmark.cpp")):
                r.append(os.path.relpath(os.path.join(root, f), SRC))
    return r


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def tree_files(d, exts):
    r = []
    for root, dirs, files in os.walk(d):
        for f in files:
            if f.endswith(exts):
                r.append(os.path.join(root, f))
    return r


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        hdr = tree_files(SRC, (".h", ".hpp")) + tree_files(SHIMS, (".h", ".hpp")) + \
            tree_files(ENGINE, (".h",)) + tree_files(HARNESS, (".h",))
        self.base = file_hash(hdr) + REPO
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.jobs = {}
        self.optional = set()  # objects that only optional runs need
        self.leave_out = set()  # objects that are left out when they do not compile

    def obj(self, src, variant, defs=()):
        cmd = VARIANTS[variant] + BASE + INCLUDES + ["-D" + d for d in defs]
        key = hashlib.sha256((self.base + file_hash([src]) + src + " ".join(cmd)).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, key + ".o")
        if out not in self.jobs:
            self.jobs[out] = self.pool.submit(self._compile, cmd, src, out)
        return out

    def _compile(self, cmd, src, out):
        if os.path.exists(out):
            return None
        tmp = "%s.%d.tmp.o" % (out, os.getpid())
        c = list(cmd)
        if "fuzzer" in " ".join(c):
            c = [x.replace("fuzzer,", "fuzzer-no-link,") for x in c]
        p = subprocess.run(c + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            return "compiling %s failed:\n%s" % (src, p.stdout.decode(errors="replace")[-4000:])
        os.rename(tmp, out)
        return None

    def wait(self):
        for out, j in self.jobs.items():
            err = j.result()
            if err and out not in self.optional and out not in self.leave_out:
                print(err)
                print("BUILD-ERROR")
                sys.exit(2)

    def binary(self, name, variant, srcs, defs=(), repo_defs=(), repo_defs_if=None, optional=False):
        """Compiles srcs (harness) and all repo sources; returns a link thunk.
        repo_defs apply to the repo sources that mention repo_defs_if."""
        objs = []
        for s in srcs:
            d = list(defs)
            if isinstance(s, tuple):
                s, extra = s
                d += list(extra)
            objs.append(self.obj(os.path.join(HARNESS, s), variant, d))
            if s.endswith("_opt.cc"):
                self.leave_out.add(objs[-1])
        if variant == "race":
            objs.append(self.obj(os.path.join(SHIMS, "omp_sched", "gomp.cc"), variant))
        eng = [self.obj(os.path.join(ENGINE, "pbt.cc"), variant)]
        eng.append(self.obj(os.path.join(ENGINE, "pbt_fuzz.cc" if variant == "fuzz" else "pbt_main.cc"), variant))
        lib = []
        for s in repo_sources():
            path = os.path.join(SRC, s)
            use = repo_defs if not repo_defs_if or repo_defs_if in open(path, errors="replace").read() else ()
            lib.append(self.obj(path, variant, use))
        key = hashlib.sha256(" ".join(objs + eng + lib).encode()).hexdigest()[:16]
        out = os.path.join(BUILD, "%s-%s-%s" % (name, variant, key))

        def link():
            if os.path.exists(out):
                return out
            use = [o for o in objs if o not in self.leave_out or not self.jobs[o].result()]
            if optional and any(self.jobs[o].result() for o in use + eng + lib):
                return None
            ar = out + ".a"
            tmp = out + ".%d.tmp" % os.getpid()
            if os.path.exists(ar):
                os.unlink(ar)
            subprocess.run(["ar", "crs", ar] + lib, check=True)
            cmd = VARIANTS[variant] + use + eng + [ar, "-Wl,--allow-multiple-definition"] + LIBS + ["-o", tmp]
            if variant == "race":  # never mix two OpenMP runtimes
                cmd.remove("-fopenmp")
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            os.unlink(ar)
            if p.returncode != 0 and optional:
                return None
            if p.returncode != 0:
                print("linking %s failed:\n%s" % (name, p.stdout.decode(errors="replace")[-4000:]))
                print("BUILD-ERROR")
                sys.exit(2)
            os.rename(tmp, out)
            return out
        return link


def prune_build(max_bytes=3 << 30):
    try:
        fs = [(os.stat(p).st_mtime, os.stat(p).st_size, p)
              for p in (os.path.join(BUILD, f) for f in os.listdir(BUILD)) if os.path.isfile(p)]
        total = sum(f[1] for f in fs)
        for _, size, p in sorted(fs):
            if total <= max_bytes:
                break
            os.unlink(p)
            total -= size
    except OSError:
        pass


def mine_constants():
    """Integer literals of the sources under test: extra boundary values."""
    vals = set()
    for f in tree_files(SRC, (".h", ".cpp", ".hpp")):
        if f.endswith(("_test.cpp", "_benchmark.cpp")):
            continue
        text = open(f, errors="replace").read()
        for m in re.finditer(r"\(?\b1(?:ull|ll|ul|u|l|ULL|LL|UL|U|L)?\)?\s*<<\s*\(?(\d{1,2})\b", text):
            if int(m.group(1)) < 64:
                vals.add(1 << int(m.group(1)))
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|0[bB][01']+|\d[\d']*)(?:ull|ll|ul|u|l|ULL|LL|UL|U|L)?(?![\w.])", text):
            t = m.group(1).replace("'", "")
            try:
                v = int(t, 0) if t[:2].lower() in ("0x", "0b") else int(t, 10)
            except ValueError:
                continue
            if v < 1 << 64:
                vals.add(v)
    return sorted(vals)[:400]


def run_fuzz(binary, check, seed, runs, max_len, tmp, constants, max_time):
    """Coverage-guided search over one registered check."""
    rep = os.path.join(tmp, "fuzz-%s.json" % check)
    corpus = os.path.join(tmp, "corpus-" + check)
    os.makedirs(corpus, exist_ok=True)
    env = dict(os.environ, VERIF_FUZZ_CHECK=check, VERIF_FUZZ_OUT=rep, VERIF_CONSTANTS=constants,
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1")
    cmd = [binary, "-seed=%d" % (seed % 2147483646 + 1), "-runs=%d" % runs, "-max_len=%d" % max_len,
           "-max_total_time=%d" % max_time, "-timeout=120", "-rss_limit_mb=4096", "-print_final_stats=1",
           "-artifact_prefix=" + tmp + "/", corpus]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp)
    out = p.stdout.decode(errors="replace")
    m = re.search(r"stat::number_of_executed_units:\s*(\d+)", out)
    n = int(m.group(1)) if m else 0
    cov = re.findall(r"cov: (\d+)", out)
    info = {"check": check, "executed_inputs": n, "requested_runs": runs,
            "edges_covered": int(cov[-1]) if cov else 0, "corpus_inputs": len(os.listdir(corpus))}
    fail = None
    if p.returncode != 0:
        if os.path.exists(rep):
            fail = json.load(open(rep))
            fail["message"] = fail.get("message", "") + " | " + out[-1500:]
        else:
            info["error"] = out[-1500:]
    return info, fail


def known_findings(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    r = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) check=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                r.append({"check": m.group(2), "re": re.compile(m.group(3), re.S), "text": m.group(4)})
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--self-check", action="store_true")
    ap.add_argument("--only", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.self_check:
        for t in ("g++", "clang++", "ar"):
            if not shutil.which(t):
                print("missing tool: " + t)
                sys.exit(1)
        for f in (CRYPTO, "/usr/include/eigen3/Eigen/Dense", "/usr/include/NTL/ZZ_p.h", "/usr/include/absl/numeric/int128.h"):
            if not os.path.exists(f):
                print("missing: " + f)
                sys.exit(1)
        b = Builder()
        b.obj(os.path.join(ENGINE, "pbt.cc"), "main")
        b.wait()
        print("ok")
        return
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    start = time.time()
    cfg = CHECKS[a.prop]
    builder = Builder()
    thunks = {}
    # Locks of libraries that were not built for it are invisible to race detection.
    unseen = any("absl/synchronization" in open(p, errors="replace").read() for p in tree_files(SRC, (".h", ".cpp", ".hpp")))
    # Runs whose build relies on more than the language and the library (race
    # detection replaces the OpenMP runtime) are left out when they do not build.
    for run in sorted(cfg["runs"], key=lambda r: bool(r.get("optional"))):
        if run.get("tier") and run["tier"] != a.tier and not a.replay:
            continue
        if run.get("optional") and unseen:
            continue
        before = set(builder.jobs)
        thunks[run["name"]] = builder.binary(run["bin"], run.get("variant", "main"), run["srcs"], run.get("defs", ()),
                                             run.get("repo_defs", ()), run.get("repo_defs_if"), run.get("optional"))
        if run.get("optional"):
            builder.optional |= set(builder.jobs) - before
    builder.wait()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        bins = dict(zip(thunks, ex.map(lambda t: t(), thunks.values())))
    bins = {k: v for k, v in bins.items() if v}
    build_s = time.time() - start

    tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    try:
        rc = run_all(a, cfg, bins, tmp, start, build_s)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prune_build()
    sys.exit(rc)


def san_env():
    return dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0",
                UBSAN_OPTIONS="print_stacktrace=1", OMP_WAIT_POLICY="passive",
                TSAN_OPTIONS="halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0:report_thread_leaks=0:detect_deadlocks=0:history_size=4")


def run_all(a, cfg, bins, tmp, start, build_s):
    constants = os.path.join(tmp, "constants.txt")
    with open(constants, "w") as f:
        f.write("\n".join(map(str, mine_constants())) + "\n")
    if a.replay:
        text = open(a.replay).read()
        rep = json.loads(text)
        name = rep.get("run") or list(bins)[0]
        p = subprocess.run([bins[name], "--replay", a.replay, "--constants", constants], env=san_env())
        return p.returncode
    results, failures, errors, fuzz_infos = [], [], [], []
    skipped = [r["name"] for r in cfg["runs"] if r.get("optional") and r["name"] not in bins]
    budget = cfg.get("budget", {}).get(a.tier, 420 if a.tier == "quick" else 3000)
    active = [r for r in cfg["runs"] if r["name"] in bins]

    def one(run):
        left = max(30.0, budget - (time.time() - start - build_s))
        if run.get("variant") == "fuzz":
            out = []
            for check, n in run["fuzz"].items():
                runs = n * (20 if a.tier == "thorough" else 1)
                out.append((run, run_fuzz(bins[run["name"]], check, a.seed, int(runs * a.scale) or 1, run.get("max_len", 4096), tmp,
                                          constants, 120 if a.tier == "quick" else 900)))
            return ("fuzz", out)
        outf = os.path.join(tmp, run["name"] + ".json")
        cmd = [bins[run["name"]], "--seed", str(a.seed), "--tier", a.tier, "--workers", str(run.get("workers", NCPU)),
               "--budget", str(left), "--scale", str(run.get("scale", 1.0) * a.scale), "--out", outf,
               "--tmp", os.path.join(tmp, "w-" + run["name"]), "--constants", constants]
        if a.only or run.get("only"):
            cmd += ["--only", a.only or run["only"]]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=san_env(),
                             start_new_session=bool(run.get("background")))
        if run.get("background"):
            running.append(p)
        out = p.communicate()[0]
        if run.get("background") and cancelled:
            return ("skipped", run["name"])
        if not os.path.exists(outf):
            if run.get("optional"):
                return ("skipped", run["name"])
            return ("error", "%s: no result (exit %d): %s" % (run["name"], p.returncode, out.decode(errors="replace")[-2000:]))
        r = json.load(open(outf))
        r["run"] = run["name"]
        r["variant"] = run.get("variant", "main")
        return ("result", r)

    # Heavy multi-process runs go one after another; fuzz runs share the cores.
    outcomes = []
    serial = [r for r in active if r.get("variant") != "fuzz"]
    fuzzers = [r for r in active if r.get("variant") == "fuzz"]
    running, cancelled = [], []
    # Long single-threaded runs share the machine with the others.
    background = cf.ThreadPoolExecutor(NCPU)
    pending = [background.submit(one, r) for r in serial if r.get("background")]
    for r in serial:
        if r.get("background"):
            continue
        outcomes.append(one(r))
        if outcomes[-1][0] == "result" and any(f.get("reproduced") or "ThreadSanitizer: data race" in f.get("message", "") for f in outcomes[-1][1]["failures"]):
            cancelled.append(True)  # a violation was found; no need to look further
            break
    for p in running if cancelled else []:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
    outcomes += [f.result() for f in pending]
    found = any(o[0] == "result" and o[1]["failures"] for o in outcomes)
    if fuzzers and not found:
        with cf.ThreadPoolExecutor(NCPU) as ex:
            outcomes += list(ex.map(one, fuzzers))
    for kind, o in outcomes:
        if kind == "error":
            errors.append(o)
        elif kind == "result":
            results.append(o)
            for f in o["failures"]:
                f["run"] = o["run"]
                if "ThreadSanitizer: data race" in f.get("message", ""):
                    f["reproduced"] = True  # the report itself is the evidence
                failures.append(f)
        elif kind == "skipped":
            skipped.append(o)
        else:
            for run, (info, fail) in o:
                info["run"] = run["name"]
                fuzz_infos.append(info)
                if info.get("error"):
                    errors.append("fuzz %s: %s" % (info["check"], info["error"]))
                if fail:
                    # confirm and shrink through the plain runner is done by replaying
                    rp = os.path.join(tmp, "fz.json")
                    json.dump(fail, open(rp, "w"))
                    plain = run.get("confirm", serial[0]["name"] if serial else None)
                    ok = 0
                    if plain:
                        for _ in range(3):
                            p = subprocess.run([bins[plain], "--replay", rp, "--constants", constants], stdout=subprocess.PIPE,
                                               stderr=subprocess.STDOUT, env=san_env())
                            if p.returncode == 1:
                                ok += 1
                                fail["case"] = p.stdout.decode(errors="replace")[-3000:]
                    fail["run"] = plain if ok else run["name"]
                    fail["reproduced"] = True
                    fail["replays"] = "%d/3" % ok
                    fail["status"] = "fuzz"
                    failures.append(fail)

    known = known_findings(a.prop)
    reported, seen_known, unconfirmed = [], [], []
    for f in failures:
        if not f.get("reproduced"):
            unconfirmed.append(f)
            continue
        k = next((k for k in known if k["check"] == f["check"] and k["re"].search(f.get("message", "") + "\n" + f.get("case", ""))), None)
        (seen_known if k else reported).append((k, f))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["text"]))

    ev_checks = []
    samples = []
    for r in results:
        for c in r["checks"]:
            ev_checks.append({"run": r["run"], "variant": r["variant"], "check": c["name"], "planned": c["planned"],
                              "enumerated": c["enumerated"], "evaluations": c["evaluations"], "nontrivial": c["nontrivial"],
                              "discarded": c["discarded"], "labels": c["labels"]})
            for s in c["samples"][:2]:
                if len(samples) < 24:
                    samples.append("%s: %s" % (c["name"], s))
    evidence = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results) + sum(i["executed_inputs"] for i in fuzz_infos),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": cfg["rule"],
            "samples": samples,
            "checks": ev_checks,
            "coverage_guided": fuzz_infos,
            "planned_cases": sum(r["planned"] for r in results),
            "stopped_by_budget": any(r["budget_hit"] for r in results),
            "unconfirmed_failures": [{"check": f["check"], "message": f.get("message", "")[:500]} for f in unconfirmed],
            "errors": errors,
            "skipped_runs": skipped,
            "build_s": round(build_s, 1),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - start, 1),
        "violations": len(reported),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
    for e in errors:
        print("ERROR: " + e)
    for f in unconfirmed:
        print("unconfirmed (not reproducible) failure in %s: %s" % (f["check"], f.get("message", "")[:600]))
    if reported:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for n, (_, f) in enumerate(reported):
            path = os.path.join(rdir, "%s-%s-%d.json" % (a.prop, re.sub(r"\W+", "_", f["check"]), n))
            with open(path, "w") as fh:
                # keys that precede "check" hold earlier cases of the sequence
                ordered = {}
                if f.get("prefix"):
                    ordered["prefix"] = f["prefix"]
                ordered["check"] = f["check"]
                ordered["choices"] = f.get("choices", [])
                for k in f:
                    if k not in ordered and k != "original_choices":
                        ordered[k] = f[k]
                ordered["property"] = a.prop
                ordered["seed"] = a.seed
                ordered["tier"] = a.tier
                json.dump(ordered, fh)
            print("check=%s status=%s replays=%s" % (f["check"], f.get("status"), f.get("replays")))
            print("  " + f.get("message", "")[:1500].replace("\n", "\n  "))
            if f.get("case"):
                print("  case: " + f["case"][:1500].replace("\n", "\n  "))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    print("%s %s seed=%d: held on %d cases (%d distinct non-trivial), %.1f s (%.1f s build)%s" % (
        a.prop, a.tier, a.seed, evidence["coverage"]["evaluations"], evidence["coverage"]["distinct_nontrivial"],
        evidence["wall_s"], build_s, " [stopped by budget]" if evidence["coverage"]["stopped_by_budget"] else ""))
    return 2 if errors else 0


if __name__ == "__main__":
    main()
