#!/usr/bin/env python3
"""Driver of the checks: python3 check.py C01 [--tier quick|thorough] ; python3 check.py --replay FILE

Builds the harnesses of a property from /repo's working tree, explores, replays every violation before reporting it,
honours known_findings.txt and writes evidence/<property>.json."""
import argparse, concurrent.futures, hashlib, importlib, json, os, re, shutil, subprocess, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class Unit:
    """One harness executable: a source of /verif/harness compiled in one configuration."""

    def __init__(self, name, src, defs=(), cxx="g++", std="17", opt="-O1", bounds=True, flags=(), link=(), shards=1, args=(),
                 run_timeout=600, tier="quick", nosan_src=(), options=(), emulated=False):
        self.name, self.src, self.defs, self.cxx, self.std, self.opt, self.bounds = name, src, list(defs), cxx, std, opt, bounds
        self.flags, self.link, self.shards, self.args, self.run_timeout, self.tier = list(flags), list(link), shards, list(args), run_timeout, tier
        self.nosan_src = list(nosan_src)   # extra sources compiled without self.flags
        self.options = list(options)       # CMake options of the configuration
        self.emulated = emulated           # on the emulated device runtime of harness/emu


class CheckError(Exception):
    pass


def sh(cmd, timeout=None, cwd=None, env=None, input=None):
    """Runs cmd in its own process group; returns (rc, output). rc None on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL if input is None else subprocess.PIPE,
                         cwd=cwd, env=env, start_new_session=True)
    try:
        out, _ = p.communicate(input, timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, ""


class Ctx:
    """Everything a check needs: scratch directory, configuration headers, results so far."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.dir = os.path.join(BUILD, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations = []          # dicts: key, msg, replay (dict)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.extra = {}
        self.exhaustive = True
        self.assumptions = []
        self.lock = threading.Lock()
        self.t0 = time.time()
        self._cfg = {}
        self.canary_ok = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def config_dir(self, bounds, options=()):
        """Include directory holding the ShivaConfig.hpp that /repo's own CMake generates."""
        with self.lock:
            key = (bounds,) + tuple(options)
            if key not in self._cfg:
                d = os.path.join(self.dir, "cfg-" + "-".join([("on" if bounds else "off")] + [re.sub(r"\W+", "_", o) for o in options]))
                for attempt in range(2):
                    rc, out = sh(["cmake", "-S", REPO, "-B", d, "-DSHIVA_ENABLE_BOUNDS_CHECK=" + ("ON" if bounds else "OFF")] + list(options), timeout=300)
                    if rc == 0 and os.path.exists(os.path.join(d, "include/shiva/ShivaConfig.hpp")):
                        break
                else:
                    self.add_violation("configure", "CMake cannot configure the library: " + out[-800:], dict(kind="configure"))
                    raise CheckError("configure")
                self._cfg[key] = os.path.join(d, "include")
            return self._cfg[key]

    def emulated_include(self):
        """A copy of the headers in which kernel launches call the emulated device runtime."""
        with self.lock:
            d = os.path.join(self.dir, "emulated-include")
            if not os.path.exists(d):
                shutil.copytree(os.path.join(REPO, "include"), d)
                launch = re.compile(r"((?:::)?[A-Za-z_][\w:]*(?:\s*<[^<>;]*(?:<[^<>;]*>[^<>;]*)*>)?)\s*<<<(.*?)>>>\s*\((\s*\))?", re.S)
                for p, _, fs in os.walk(d):
                    for f in fs:
                        q = os.path.join(p, f)
                        t = open(q).read()
                        n = launch.sub(lambda m: "::emu::Launch(%s)( [&]( auto && ... emuArgs ) { %s( static_cast< decltype( emuArgs ) && >( emuArgs )... ); }%s" % (
                            m.group(2), m.group(1), ")" if m.group(3) else ","), t)
                        if n != t:
                            open(q, "w").write(n)
            return d

    def includes(self, bounds=True, options=(), emulated=False):
        return ["-I", self.emulated_include() if emulated else os.path.join(REPO, "include"), "-I", self.config_dir(bounds, options)]

    def canary(self):
        """Is the compiler itself usable? (Tells a broken toolchain from a broken library.)"""
        if self.canary_ok is None:
            f = os.path.join(self.dir, "canary.cpp")
            open(f, "w").write("#include <vector>\n#include <cstdio>\nint main(){std::vector<int> v{1};std::printf(\"%d\",v[0]);}\n")
            self.canary_ok = all(sh([c, "-std=c++17", f, "-o", f + "." + c], timeout=120)[0] == 0 for c in ("g++", "clang++"))
        return self.canary_ok

    def add_violation(self, key, msg, replay):
        with self.lock:
            self.violations.append(dict(key=key, msg=msg, replay=replay))

    def count(self, states=0, transitions=0, traces=0):
        with self.lock:
            self.cov["states"] += states
            self.cov["transitions"] += transitions
            self.cov["traces_validated_against_impl"] += traces

    def sample(self, s):
        with self.lock:
            if len(self.cov["samples"]) < 12:
                self.cov["samples"].append(s)

    # ---- C++ harnesses -------------------------------------------------------------------------------------------
    def compile_cmds(self, u, exe):
        base = [u.cxx, "-std=c++" + u.std, u.opt, "-w", "-I", VERIF] + self.includes(u.bounds, u.options, u.emulated) + (["-I", os.path.join(VERIF, "harness"), "-I", os.path.join(VERIF, "harness/emu")] if u.emulated else []) + ["-D" + d for d in u.defs]
        if u.opt in ("-O2", "-O3"):
            base.append("-DNDEBUG")   # as CMake's release builds do
        cmds, objs = [], []
        for k, s in enumerate(u.nosan_src):
            o = "%s.x%d.o" % (exe, k)
            cmds.append([u.cxx, "-std=c++" + u.std, "-O2", "-w", "-I", VERIF, "-c", os.path.join(VERIF, s), "-o", o])
            objs.append(o)
        o = exe + ".o"
        cmds.append(base + u.flags + ["-c", os.path.join(VERIF, "harness", u.src), "-o", o])
        link = [f for f in u.link]
        cmds.append([u.cxx, o] + objs + ["-o", exe] + link)
        return cmds

    def build(self, u):
        exe = os.path.join(self.dir, u.name)
        for cmd in self.compile_cmds(u, exe):
            rc, out = sh(cmd, timeout=800)
            if rc != 0:
                if not self.canary():
                    raise CheckError("the compiler does not work here")
                rc, out = sh(cmd, timeout=800)
            if rc != 0:
                errs = [l for l in out.splitlines() if "error" in l or "required from" in l] or out.splitlines()
                self.add_violation("compile:" + u.name, "valid uses of the library no longer compile: " + " | ".join(errs)[:900],
                                   dict(kind="compile", cmd=" ".join(cmd)))
                return None
        return exe

    def run_unit(self, u, exe, shard=None, choices=None, extra=(), timeout=None):
        out = "%s.%s.json" % (exe, "replay%d" % threading.get_ident() if choices is not None else ("s%d" % shard if shard is not None else "all"))
        if os.path.exists(out):
            os.remove(out)
        cmd = [exe, "--out", out] + list(u.args) + list(extra)
        if self.thorough:
            cmd.append("--thorough")
        if shard is not None:
            cmd += ["--shard", "%d/%d" % (shard, u.shards)]
        if choices is not None:
            cmd += ["--replay", ",".join(map(str, choices)) or "-"]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_abort=0:handle_segv=0:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=0")
        rc, text = sh(cmd, timeout=timeout or u.run_timeout, env=env)
        if rc == 70 or not os.path.exists(out) or os.path.getsize(out) == 0:
            if rc is None:
                raise CheckError("%s did not end in time" % u.name)
            if rc == 70:
                raise CheckError("%s: %s" % (u.name, text[-500:]))
            return dict(executions=0, nodes=0, steps=0, checks=0, states=0, outcomes=0, exhaustive=False, samples=[],
                        violations=[dict(key="crash", msg="harness ended with status %s: %s" % (rc, text[-600:]), choices=[], count=1)]), text
        return json.load(open(out)), text

    def run_units(self, units):
        units = [u for u in units if self.thorough or u.tier == "quick"]
        self.config_dir(True)
        if any(not u.bounds for u in units):
            self.config_dir(False)
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            exes = list(ex.map(self.build, units))
            jobs = []
            for u, exe in zip(units, exes):
                if exe:
                    for s in range(u.shards):
                        jobs.append((u, exe, ex.submit(self.run_unit, u, exe, s if u.shards > 1 else None)))
            per = {}
            for u, exe, fut in jobs:
                r, text = fut.result()
                self.count(r["states"] or r["nodes"], r["steps"] or r["checks"], r["executions"])
                for s in r["samples"]:
                    self.sample("%s: %s" % (u.name, s))
                p = per.setdefault(u.name, dict(executions=0, nodes=0, steps=0, checks=0, distinct_states=0, distinct_outcomes=0))
                for a, b in (("executions", "executions"), ("nodes", "nodes"), ("steps", "steps"), ("checks", "checks"),
                             ("distinct_states", "states"), ("distinct_outcomes", "outcomes")):
                    p[a] += r[b]
                if not r["exhaustive"] and not r["violations"]:
                    self.exhaustive = False
                if r["executions"] == 0 and not r["violations"] and u.shards == 1:
                    raise CheckError("%s explored nothing" % u.name)
                for v in r["violations"]:
                    self.confirm(u, exe, v, text)
            self.extra.setdefault("harnesses", {}).update(per)

    def confirm(self, u, exe, v, text):
        """Replays a violation before it is reported."""
        for attempt in range(2):
            r, t = self.run_unit(u, exe, choices=v["choices"], timeout=u.run_timeout)
            if r["violations"]:
                break
        else:
            raise CheckError("%s: %s (%s) did not reproduce on replay" % (u.name, v["key"], v["msg"]))
        trace = [l.strip() for l in t.splitlines() if l.startswith("  ")]
        self.add_violation(v["key"], "%s: %s" % (u.name, v["msg"]),
                           dict(kind="harness", unit=u.name, choices=v["choices"], trace=trace[-60:], output=t[-1500:]))


def known_findings(prop):
    found = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                found[m.group(2)] = m.group(3).strip()
    return found


def main():
    sys.stdout.reconfigure(errors="backslashreplace")
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        rep = json.load(open(a.replay))
        return replay(rep)
    ctx = Ctx(a.prop, a.tier)
    import registry
    reg = registry.CHECKS[a.prop]
    level = reg.get("level", "model_checking")
    err = None
    try:
        if "units" in reg:
            ctx.run_units(reg["units"]() if callable(reg["units"]) else reg["units"])
        for m in reg.get("py", []):
            importlib.import_module("pychecks." + m).run(ctx)
    except CheckError as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    known = known_findings(a.prop)
    reported, rc = set(), 0
    repdir = os.path.join(BUILD, "replay")
    os.makedirs(repdir, exist_ok=True)
    for v in ctx.violations:
        if v["key"] in known:
            if v["key"] not in reported:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, known[v["key"]]))
            reported.add(v["key"])
            continue
        rc = 1
        if v["key"] in reported or len(reported) > 12:
            continue
        reported.add(v["key"])
        path = os.path.join(repdir, "%s-%s.json" % (a.prop, hashlib.sha1(v["key"].encode()).hexdigest()[:10]))
        json.dump(dict(property=a.prop, tier=a.tier, key=v["key"], msg=v["msg"], **v["replay"]), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("  %s: %s" % (v["key"], v["msg"][:1000]))
    if err and rc == 0:
        print("CHECK-ERROR: %s" % err)
        rc = 2
    elif err:
        print("note: %s" % err)
    cov = dict(ctx.cov)
    cov.update(ctx.extra)
    cov["exhaustive"] = bool(ctx.exhaustive and not err)
    if not cov["samples"]:
        cov["samples"] = ["(none)"]
    ev = dict(property=a.prop, tier=a.tier, seed=ctx.seed, level=level, coverage=cov, assumptions=reg.get("assumptions", []) + ctx.assumptions,
              wall_s=round(time.time() - ctx.t0, 2), violations=len([v for v in ctx.violations if v["key"] not in known]))
    evdir = os.path.join(VERIF, "evidence") if "VERIF_BUILD" not in os.environ else BUILD
    os.makedirs(evdir, exist_ok=True)
    json.dump(ev, open(os.path.join(evdir, a.prop + ".json"), "w"), indent=1)
    print("%s %s: %s  states=%d transitions=%d executions=%d exhaustive=%s  %.1fs" % (
        a.prop, a.tier, "ok" if rc == 0 else "violated" if rc == 1 else "error", cov["states"], cov["transitions"],
        cov["traces_validated_against_impl"], cov["exhaustive"], ev["wall_s"]))
    if rc == 0 and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(ctx.dir, ignore_errors=True)
    return rc


def replay(rep):
    """Rebuilds the harness of a recorded violation and runs exactly that execution again."""
    print("property %s, %s: %s" % (rep["property"], rep["key"], rep["msg"]))
    if rep["kind"] != "harness":
        print(json.dumps(rep, indent=1))
        return 0
    import registry
    ctx = Ctx(rep["property"], rep["tier"])
    reg = registry.CHECKS[rep["property"]]
    u = [u for u in (reg["units"]() if callable(reg["units"]) else reg["units"]) if u.name == rep["unit"]][0]
    exe = ctx.build(u)
    r, text = ctx.run_unit(u, exe, choices=rep["choices"])
    print(text)
    return 1 if r["violations"] else 0


if __name__ == "__main__":
    sys.exit(main())
