#!/usr/bin/env python3
"""Builds and runs the generated-input checks of /verif against the working tree of /repo.

  run.py check P01 [--tier quick|thorough] [--cases N] [--budget S]   decide a property; seed from VERIF_SEED
  run.py replay FILE                                                  run the history in a replay file again
  run.py setup                                                        check the tools and build the engine
"""
import argparse
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, HARNESS)
sys.dont_write_bytecode = True
import gen  # noqa: E402

BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
CXX = "clang++"
JOBS = min(8, os.cpu_count() or 8)

# configurations of the model-based machine: (what they support, safety checks, weight in the plan)
CONFIGS = {
    "mapstr": ("OSN", True, 0.5), "map": ("OISNX", True, 1), "dflt": ("ISNX", True, 0.6), "dfltmap": ("OIS", False, 0.7),
    "ptr": ("OINX", True, 0.7), "tuple": ("OISN", False, 1), "i16": ("ISN", False, 1), "big": ("ISX", True, 0.6),
    "u8": ("ISNX", True, 1), "vec": ("ISNX", True, 1.2), "trk": ("OISN", True, 1), "set": ("OSN", True, 1), "omap": ("O", True, 1.2),
    "rpair": ("OSX", True, 1), "triple": ("OINX", True, 0.7),
    "shallow": ("OSN", True, 1), "shallowv": ("IX", True, 1), "deque": ("", True, 1),
}
# unusual shapes, for some checks only (they take long to compile or to run)
SHAPES = {"deep": ("OI", True, 0.06), "wide": ("ISN", True, 0.1), "broad": ("IX", True, 0.08), "huge": ("ISN", True, 0.015)}
THREAD_CONFIGS = ["mapstr", "map", "vec", "dflt", "omap", "set", "trk", "deque"]
TSAN_WRAP = ["-Wl,--wrap=__tsan_atomic%d_%s" % (b, n) for b in (16, 32, 64)
             for n in ("exchange", "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor", "load",
                       "compare_exchange_strong", "compare_exchange_weak")] + ["-Wl,--wrap=__tsan_atomic_thread_fence"]

ALL = list(CONFIGS)
CONFIGS.update(SHAPES)


def having(caps):
    return [c for c in ALL if any(x in CONFIGS[c][0] for x in caps)]


# what decides each property: configurations of the machine, further unit families, cases per unit at weight 1 (quick);
# need: the mixins of which a generated configuration has at least one (None: no generated configurations)
CHECKS = {
    "P01": dict(machine=ALL, cases=4000, need="", shapes="deep wide broad huge"),
    "P02": dict(machine=ALL, cases=3500, need="", shapes="wide"),
    "P03": dict(machine=ALL, cases=3500, need="", shapes="broad"),
    "P04": dict(machine=having("O"), cases=5000, need="O", shapes="deep"),
    "P05": dict(machine=having("O"), cases=5000, need="O", shapes="deep"),
    "P06": dict(machine=having("I"), cases=4000, need="I", shapes="deep wide broad huge"),
    "P07": dict(machine=having("S"), cases=4000, need="S", shapes="wide huge"),
    "P08": dict(machine=having("S"), cases=4000, need="S", shapes="wide"),
    "P09": dict(machine=having("NX"), cases=4000, need="NX", shapes="wide broad"),
    "P10": dict(machine=ALL, cases=3500, need="", shapes="deep wide broad huge"),
    "P11": dict(machine=ALL, cases=4000, need="", shapes="deep wide"),
    "P12": dict(machine=ALL, cases=3500, need="", proxies=True),
    "P13": dict(machine=ALL, cases=3500, need=""),
    "P14": dict(family="cost", cases=7000),
    "P15": dict(family="threads", cases=3000, budget=150),
    "P16": dict(machine=[c for c in ALL if CONFIGS[c][1]], cases=4000, need="", safe=True),
    "P17": dict(machine=["trk", "tuple", "i16", "dfltmap", "u8"], family="lock", cases=2500, need="", shapes="deep wide broad"),
    "P18": dict(machine=ALL, cases=3500, need=""),
    "P19": dict(family="index", cases=9000),
    "P20": dict(machine=ALL, cases=3500, need=""),
    "P21": dict(family="options", cases=700),
}
GENERATED = {"quick": 3, "thorough": 14}                # generated configurations of the machine
OPTIONS = {"quick": (36, 12), "thorough": (144, 24)}      # generated option sequences, translation units

MACHINE_RULE = ("a case is a random history of edits, conversions, copies, iterator moves and queries on a family of up to 3 transient and 5 persistent trees of one "
                "configuration, compared with std::vector models; swarm-style operation weights, tree sizes, key and value ranges are drawn per case. ")
NONTRIVIAL = "non-trivial: some tree had several levels, something was erased or an edit was made to a persistent tree, and the queries of this property ran%s; counted distinct by the sequence of choices"
RULES = {
    "P12": MACHINE_RULE + NONTRIVIAL % ", and a proxy or algorithm was used",
    "P16": MACHINE_RULE + NONTRIVIAL % ", and an operation was rejected or failed",
    "P18": MACHINE_RULE + NONTRIVIAL % ", and an argument referred to an element of the tree",
    "P14": "a case grows a tree in a drawn order and then edits, copies, converts and queries it while allocations and comparator and extractor calls are counted per operation; non-trivial: the tree had several levels; counted distinct by the sequence of choices",
    "P15": "a case builds versions that share nodes, then 2 to 4 threads run random histories on copies and transients of them under ThreadSanitizer, each compared with its own model; non-trivial: a shared tree had several levels and was edited; counted distinct by the sequence of choices",
    "P17": "a case drives all vector or all map configurations in lockstep with one history and compares every observation between them and with a model, or drives one configuration of the model-based machine; non-trivial: versions were taken and the tree was not tiny (lockstep), several levels and erasures or persistent edits (machine); counted distinct by the sequence of choices",
    "P21": "each unit is a drawn sequence of options (every option at least once, some repeated, any order) compiled into a tree, next to a tree that is given the same parameters directly; a case drives both in lockstep with one history and compares contents, allocations, comparator calls, depth, aggregates and what a throwing user function does; non-trivial: several levels or more than 20 elements; counted distinct by the sequence of choices",
    "P19": "a case is a random history of insertions, conversions, copies and queries on a family of transient and persistent inverted indexes compared with std::map<term, std::set<document>>; non-trivial: the term list had several levels and several versions existed; counted distinct by the sequence of choices",
}

ASSUMPTIONS = ["clang 18, libstdc++, x86-64 Linux; sanitizers report what they are documented to report",
               "histories, sizes and values outside the generated ranges are not covered",
               "the reference models (std::vector with linear scans) are right"]


def repo_files(dirs):
    for d in dirs:
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in sorted(files):
                yield os.path.join(root, f)


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


class BuildError(Exception):
    pass


class Builder:
    def __init__(self, opt, tsan):
        self.flags = ["-std=c++17", opt, "-g0", "-w", "-fno-omit-frame-pointer", "-I" + HARNESS, "-I" + os.path.join(REPO, "include"),
                      "-I" + os.path.join(REPO, "examples"), "-fsanitize=thread" if tsan else "-fsanitize=address"]
        if tsan:
            self.flags.append("-DPBT_MT")
        self.tsan = tsan
        harness = [os.path.join(HARNESS, f) for f in sorted(os.listdir(HARNESS)) if os.path.isfile(os.path.join(HARNESS, f))]
        self.src_key = digest(harness) + digest(repo_files(["include", "examples"]))
        self.jobs = []
        self.broken = []        # units that do not compile: (name, source, diagnostics)

    def add(self, src, *defs, safety=True, opt=None):
        flags = list(self.flags) + list(defs)
        if opt:
            flags[1] = opt
        if safety:
            flags.append("-DBPPTREE_SAFETY_CHECKS")
        key = hashlib.sha256((self.src_key + "\0".join([CXX, src] + flags)).encode()).hexdigest()[:40]
        self.jobs.append((src, flags, os.path.join(CACHE, key + ".o")))

    def add_text(self, text, work, *defs, **kw):
        """A generated source; the object is cached by its text."""
        src = os.path.join(work, "gen%d.cpp" % len(self.jobs))
        with open(src, "w") as f:
            f.write(text)
        self.add(src, *defs, **kw)
        flags = self.jobs[-1][1]
        key = hashlib.sha256((self.src_key + "\0".join([CXX, text] + flags)).encode()).hexdigest()[:40]
        self.jobs[-1] = (src, flags, os.path.join(CACHE, key + ".o"))

    def compile_one(self, job):
        src, flags, obj = job
        if os.path.exists(obj):
            os.utime(obj)
            return obj
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        r = subprocess.run([CXX] + flags + ["-c", os.path.join(HARNESS, src), "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            errors = r.stdout[:6000]
            name = " ".join([os.path.basename(src)] + [f for f in flags if f.startswith(("-D", "-O"))])
            # these do not use trees, or a compiler that was killed says nothing about the tree
            if os.path.basename(src) in ("engine.cpp", "memhook.cpp", "profiles.cpp", "lock_unit.cpp", "tsan_wrap.cpp") or not re.search(r":\d+:\d+: error: ", r.stdout) or r.returncode < 0:
                raise BuildError("%s does not compile:\n%s" % (name, errors))
            self.broken.append((name, src, errors))
            return None
        os.replace(tmp, obj)
        return obj

    def build(self, exe):
        os.makedirs(CACHE, exist_ok=True)
        with concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
            objs = [o for o in pool.map(self.compile_one, self.jobs) if o]
        base = sum(os.path.basename(j[0]) in ("engine.cpp", "memhook.cpp", "profiles.cpp", "lock_unit.cpp", "tsan_wrap.cpp") for j in self.jobs)
        if self.broken and len(objs) == base:
            raise BuildError("no unit compiles; %s:\n%s" % (self.broken[0][0], self.broken[0][2]))
        link = [CXX] + (["-fsanitize=thread"] + TSAN_WRAP if self.tsan else ["-fsanitize=address"]) + objs + ["-lpthread", "-o", exe]
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("linking failed:\n" + r.stdout[-6000:])


def prune_cache(limit=3 << 30):
    try:
        files = [(os.path.getmtime(p), os.path.getsize(p), p) for p in (os.path.join(CACHE, f) for f in os.listdir(CACHE))]
    except OSError:
        return
    total = sum(f[1] for f in files)
    for _, size, p in sorted(files):
        if total <= limit:
            break
        try:
            os.unlink(p)
            total -= size
        except OSError:
            pass


def build_check(check, tier, exe, seed, count=0):
    spec = CHECKS[check]
    opt = "-O1" if tier == "thorough" else "-O0"
    fam = spec.get("family")
    b = Builder(opt, fam == "threads")
    for c in spec.get("shapes", "").split() + spec.get("machine", []):
        b.add("machine_tu.cpp", "-DCFG_" + c, safety=CONFIGS[c][1])
    if spec.get("need") is not None:
        n = GENERATED[tier] * (2 if check == "P17" else 1)
        for text in gen.machine_sources(check, seed, max(n, count), spec["need"], spec.get("safe", False)):
            b.add_text(text, os.path.dirname(exe), safety=False)
    if spec.get("proxies"):
        b.add("proxy_tu.cpp", "-DCFG_NONE")
    if fam == "cost":
        for i in range(3):
            b.add("cost_tu.cpp", "-DCFG_COST=%d" % i, "-fsanitize-coverage=trace-pc")
    elif fam == "lock":
        for i in (7, 1, 8, 9, 6, 4, 5, 3, 2, 0):
            b.add("lock_tu.cpp", "-DLOCK_PART=%d" % i, safety=i not in (4, 9))
        b.add("lock_unit.cpp", opt="-O1")
    elif fam == "index":
        b.add("inv_tu.cpp", "-fno-access-control")
    elif fam == "options":
        n, files = OPTIONS[tier]
        n = max(n, count)
        for text in gen.option_sources(seed, n, files):
            b.add_text(text, os.path.dirname(exe))
    elif fam == "threads":
        b.flags[1] = "-O1"        # ThreadSanitizer without optimization is very slow
        for c in THREAD_CONFIGS:
            b.add("conc_tu.cpp", "-DCFG_" + c)
        b.add("tsan_wrap.cpp", opt="-O1")
    for src in ("engine.cpp", "memhook.cpp", "profiles.cpp"):
        b.add(src, opt="-O1")
    b.build(exe)
    return b.broken


def command(exe, tsan):
    """ThreadSanitizer may not start under some address space layouts."""
    if tsan:
        for pre in ([], ["setarch", "-R"]):
            try:
                r = subprocess.run(pre + [exe, "list"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if r.returncode == 0:
                    return pre + [exe]
            except OSError:
                pass
        raise BuildError("the ThreadSanitizer binary does not start here")
    return [exe]


def plan(check, tier, units, cases):
    spec = CHECKS[check]
    out = []
    for u in units:
        w = CONFIGS[u][2] if u in CONFIGS else 1.0
        if u.startswith("lockstep"):
            w = 0.8
        elif u in ("threads-mapstr", "threads-dflt"):
            w = 0.5
        n = cases if cases else spec["cases"] * (60 if tier == "thorough" else 1)
        out.append("%s=%d" % (u, max(1, int(n * w))))
    return ",".join(out)


def env():
    e = {k: v for k, v in os.environ.items() if not k.endswith("SAN_OPTIONS")}
    return e


def do_check(a):
    t0 = time.time()
    check, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") if a.seed is None else a.seed
    spec = CHECKS[check]
    tsan = spec.get("family") == "threads"
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replays = os.path.join(VERIF, "out", "replays")
    os.makedirs(replays, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        exe = os.path.join(work, "harness")
        broken = build_check(check, tier, exe, seed)
        built = time.time() - t0
        cmd = command(exe, tsan)
        units = subprocess.run(cmd + ["list"], stdout=subprocess.PIPE, text=True, env=env()).stdout.split()
        budget = a.budget or (spec.get("budget", 200) if tier == "quick" else 560)
        result = os.path.join(work, "result.json")
        replay = os.path.join(replays, "%s-%s-%d.replay" % (check, tier, seed))
        if os.path.exists(replay):
            os.unlink(replay)
        args = ["run", "--check", check, "--seed", str(seed), "--tier", tier, "--workers", str(JOBS), "--budget", str(budget), "--workdir", work,
                "--result", result, "--replay-out", replay, "--shrink", "40" if tier == "quick" else "60", "--cases", plan(check, tier, units, a.cases)]
        args += ["--tries", "6", "--case-cpu", "60"] if tsan else ["--case-cpu", "20"]
        r = subprocess.run(cmd + args, stdout=subprocess.PIPE, text=True, env=env())
        sys.stdout.write(r.stdout)
        if r.returncode not in (0, 1):
            print("the harness ended with status %d" % r.returncode, file=sys.stderr)
            return 2
        with open(result) as f:
            res = json.load(f)
        coverage = {
            "evaluations": res["evaluations"],
            "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": RULES.get(check, MACHINE_RULE + NONTRIVIAL % ""),
            "samples": res["samples"],
            "operations": res["operations"],
            "oracle_evaluations": res["oracle_evaluations"],
            "longest_history": res["longest_history"],
            "cases_per_unit": res["cases_per_unit"],
            "operation_counts": res["labels"],
            "planned": res["planned"],
            "workers_out_of_time": res["workers_out_of_time"],
            "build_s": round(built, 1),
        }
        evidence = {"property": check, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage, "assumptions": ASSUMPTIONS,
                    "wall_s": round(time.time() - t0, 2), "violations": res["violations"] + (len(broken) if not res["violations"] else 0)}
        if r.returncode == 0 and res["evaluations"] == 0:
            print("no case was run", file=sys.stderr)
            return 2
        tmp = os.path.join(work, "evidence.json")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(VERIF, "evidence", check + ".json"))
        known_findings(check, work)
        if broken and r.returncode == 0:
            # the other units found nothing, but uses of the trees that are part of the property are rejected by the compiler
            with open(replay, "w") as f:
                f.write("check %s\ndoes-not-compile %s\nseed %d tier %s\n\n%s" % (check, broken[0][0], seed, tier, broken[0][2]))
            print("%d of the units that use the trees as the property describes do not compile; %s:\n%s" % (len(broken), broken[0][0], broken[0][2][:1500]))
            print("VIOLATION property=%s replay=%s" % (check, replay))
            return 1
        print("%s %s seed %d: %s, %d cases, %d distinct non-trivial, built in %.0f s, ran in %.0f s" % (
            check, tier, seed, "VIOLATED" if r.returncode else "held", res["evaluations"], res["distinct_nontrivial"], built, res["run_s"]))
        return r.returncode
    except BuildError as e:
        print("build error: %s" % e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
        prune_cache()


def known_findings(check, work):
    """Prints the listed findings of this property that the current tree still shows.  Each is one fixed program."""
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        entries = [line.split(None, 4)[1:] for line in f if line.startswith("finding: property=%s " % check)]
    for _, kind, src, what in entries:
        exe = os.path.join(work, "finding")
        r = subprocess.run([CXX, "-std=c++17", "-w", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "examples"),
                            os.path.join(HARNESS, src.split("=", 1)[1]), "-o", exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if kind == "does-not-compile":
            shown = r.returncode != 0
        else:
            shown = r.returncode == 0 and subprocess.run([exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env()).returncode == 1
        if shown:
            print("KNOWN-FINDING: property=%s %s" % (check, what.strip()))


def do_replay(a):
    path = os.path.abspath(a.file)
    check, seed, count, uncompilable = None, 1, 0, None
    with open(path) as f:
        for line in f:
            if line.startswith("does-not-compile "):
                uncompilable = line.split(None, 1)[1].strip()
                seed, a.tier = (lambda w: (int(w[1]), w[3]))(next(f).split())
                break
            if line.startswith("check "):
                check = line.split()[1]
            elif line.startswith(("unit opt-", "unit gen-")):
                seed, count = (int(x) for x in line.split()[1].split("-")[1:3])
                count += 1
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        exe = os.path.join(work, "harness")
        broken = build_check(check, a.tier, exe, seed, count)
        if uncompilable:
            for name, _, errors in broken:
                print("%s does not compile:\n%s" % (name, errors))
            return 1 if broken else 0
        tsan = CHECKS[check].get("family") == "threads"
        e = env()
        e["ASAN_OPTIONS"] = e["TSAN_OPTIONS"] = "symbolize=1"
        r = subprocess.run(command(exe, tsan) + ["replay", "--file", path, "--workdir", work, "--tries", "6" if tsan else "1", "--case-cpu", "60"], env=e)
        return r.returncode
    except BuildError as e:
        print("build error: %s" % e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def do_setup(a):
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run([CXX, "--version"], stdout=subprocess.PIPE, text=True)
    print(r.stdout.splitlines()[0])
    work = tempfile.mkdtemp(prefix="setup-", dir=BUILD)
    try:
        b = Builder("-O0", False)
        for src in ("engine.cpp", "memhook.cpp", "profiles.cpp"):
            b.add(src, opt="-O1")
        b.build(os.path.join(work, "harness"))
    except BuildError as e:
        print(e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0


def main():
    p = argparse.ArgumentParser()
    sub = p.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property", choices=sorted(CHECKS))
    c.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int)
    c.add_argument("--cases", type=int, default=0)
    c.add_argument("--budget", type=float, default=0)
    r = sub.add_parser("replay")
    r.add_argument("file")
    r.add_argument("--tier", choices=["quick", "thorough"], default="quick")
    sub.add_parser("setup")
    a = p.parse_args()
    return {"check": do_check, "replay": do_replay, "setup": do_setup}[a.cmd](a)


if __name__ == "__main__":
    sys.exit(main())
