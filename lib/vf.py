"""Shared machinery of the checks: building from /repo, running TLC, evidence,
violations.  Everything a check creates lives in one scratch directory which is
removed when the check ends."""
import atexit
import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MODPATH = "github.com/squizzling/osmindex"

GOENV = dict(HOME="/root",
             PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GO111MODULE="on", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")


class CheckError(Exception):
    """the check itself could not reach a verdict: error exit, never a violation"""


class ToolFailed(CheckError):
    """a tool or driver running the real code fails on an input on which it must not"""


class Violation(Exception):
    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what = what
        self.detail = detail


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace(
            "generated ", "generated, ") if False else out)
        if not m:
            m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        d = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(d[-1]) if d else None
        self.ok = rc == 0
        inv = re.findall(r"Invariant (\S+) is violated", out)
        self.invariant = inv[0] if inv else None
        ap = re.findall(r"(?:Action|Temporal) property (\S+) (?:is|was) violated|(Temporal properties) were violated", out)
        self.property = (ap[0][0] or ap[0][1]) if ap else None
        self.postcondition = bool(re.search(r"[Pp]ost-?[Cc]ondition.*(false|violated)", out))
        self.deadlock = "Deadlock reached" in out


def errors_of(out):
    i = out.find("Error:")
    return out[-3000:] if i < 0 else out[i:i + 1500] + "\n...\n" + out[-1200:]


class Ctx:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        base = "/tmp"
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=base)
        self._pid = os.getpid()
        atexit.register(self._cleanup)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self._bins = {}
        self._n = 0
        self.jobs = max(2, min(8, os.cpu_count() or 4))

    def _cleanup(self):
        if os.getpid() != self._pid:
            return
        shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------ scratch
    def path(self, *a):
        return os.path.join(self.dir, *a)

    def fresh(self, name):
        self._n += 1
        d = os.path.join(self.dir, "%s-%d-%d" % (name, os.getpid(), self._n))
        os.makedirs(d)
        return d

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ------------------------------------------------------------ budgets
    def elapsed(self):
        return time.time() - self.t0

    # -------------------------------------------------------------- build
    def _go_build(self, outdir, pkgs, overlay=None, tags=None, race=False):
        os.makedirs(outdir, exist_ok=True)
        # gotsc calibrates for 0.4 s at the start of every process: use a copy which does so for 1 ms
        mod = self.path("go.mod")
        if not os.path.exists(mod):
            shutil.copy(os.path.join(REPO, "go.sum"), self.path("go.sum"))
            with open(mod, "w") as f:
                f.write(open(os.path.join(REPO, "go.mod")).read())
                f.write("\nreplace github.com/dterei/gotsc => %s/harness/gotsc\n" % VERIF)
        cmd = ["go", "build", "-modfile", mod, "-o", outdir + "/"]
        if overlay:
            of = self.path("overlay-%d.json" % len(os.listdir(self.dir)))
            with open(of, "w") as f:
                json.dump({"Replace": overlay}, f)
            cmd += ["-overlay", of]
        if tags:
            cmd += ["-tags", tags]
        if race:
            cmd += ["-race"]
        cmd += pkgs
        env = dict(os.environ)
        env.update(GOENV)
        if race:
            env["CGO_ENABLED"] = "1"
        r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("go build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))

    def tools(self):
        """the command line tools, built from the working tree of /repo"""
        if "tools" not in self._bins:
            d = self.path("bin")
            self._go_build(d, ["./cmd/..."])
            self._bins["tools"] = d
        return self._bins["tools"]

    def tools_poison(self):
        """the same tools with sync.Pool of internal/pool replaced by an adversarial pool
        (LIFO, poisons on Put, records Get/Put)"""
        if "poison" not in self._bins:
            d = self.path("binp")
            ov = self.pool_overlay()
            self._go_build(d, ["./cmd/..."], overlay=ov)
            self._bins["poison"] = d
        return self._bins["poison"]

    def pool_overlay(self):
        """overlay rewriting every file of internal/pool which imports sync"""
        ov = {}
        src = os.path.join(REPO, "internal/pool")
        out = self.path("ovpool")
        os.makedirs(out, exist_ok=True)
        hit = 0
        for fn in sorted(os.listdir(src)):
            if not fn.endswith(".go") or fn.endswith("_test.go"):
                continue
            s = open(os.path.join(src, fn)).read()
            if "sync.Pool" in s:
                hit += 1
                s2 = s.replace("sync.Pool", "vpool.Pool")
                s2 = s2.replace("import (", "import (\n\tvpool \"%s/internal/zzverif/vpool\"" % MODPATH, 1) \
                    if "import (" in s2 else \
                    s2.replace("import \"sync\"", "import vpool \"%s/internal/zzverif/vpool\"\nimport \"sync\"" % MODPATH, 1)
                if not re.search(r"\bsync\.", s2.replace("vpool.Pool", "")):
                    s2 = re.sub(r'\n\s*(import )?"sync"\n', "\n", s2, count=1)
                p = os.path.join(out, fn)
                open(p, "w").write(s2)
                ov[os.path.join(src, fn)] = p
        vp = os.path.join(VERIF, "harness/vpool/vpool.go")
        ov[os.path.join(REPO, "internal/zzverif/vpool/vpool.go")] = vp
        self.pool_shimmed = hit
        return ov

    def atomic_overlay(self, dirs, mutex=False):
        """overlay which lets every file below dirs import harness/vatomic for sync/atomic
        (and with mutex, harness/vsync for sync)"""
        ov = {}
        out = self.path("ovatomic%d" % len(os.listdir(self.dir)))
        os.makedirs(out, exist_ok=True)
        swap = {"sync/atomic": ("atomic", "vatomic")}
        if mutex:
            swap["sync"] = ("sync", "vsync")
        for dn in dirs:
            for root, _, fns in os.walk(os.path.join(REPO, dn)):
                for fn in sorted(fns):
                    if not fn.endswith(".go") or fn.endswith("_test.go"):
                        continue
                    p = os.path.join(root, fn)
                    s = s0 = open(p).read()
                    for imp, (name, to) in swap.items():
                        s = re.sub(r'^(\s*(?:import\s+)?)(\w+\s+)?"%s"' % imp,
                                   lambda m: '%s%s "%s/internal/zzverif/%s"' % (m.group(1), (m.group(2) or name).strip(), MODPATH, to), s, flags=re.M)
                    if s != s0:
                        q = os.path.join(out, os.path.relpath(p, REPO).replace("/", "__"))
                        open(q, "w").write(s)
                        ov[p] = q
        for to in ("vatomic", "vsync")[:2 if mutex else 1]:
            ov[os.path.join(REPO, "internal/zzverif/%s/%s.go" % (to, to))] = os.path.join(VERIF, "harness/%s/%s.go" % (to, to))
        return ov

    def fault_overlay(self):
        """overlay of the standard library which injects faults into file operations
        (harness/vfault/zvfault_linux.go)"""
        env = dict(os.environ)
        env.update(GOENV)
        root = subprocess.run(["go", "env", "GOROOT"], env=env, stdout=subprocess.PIPE, text=True).stdout.strip()
        out = self.path("ovfault")
        os.makedirs(out, exist_ok=True)
        ov = {os.path.join(root, "src/syscall/zvfault_linux.go"): os.path.join(VERIF, "harness/vfault/zvfault_linux.go")}
        need = {"write", "pwrite", "read", "openat", "Close", "Seek", "Ftruncate", "Fsync", "unlinkat", "Renameat"}
        for fn in ("zsyscall_linux_amd64.go", "syscall_linux.go", "syscall_linux_amd64.go"):
            p = os.path.join(root, "src/syscall", fn)
            s = open(p).read()
            for name in sorted(need):
                s2 = re.sub(r"^func %s\(" % name, "func vf%s(" % name, s, flags=re.M)
                if s2 != s:
                    need.discard(name)
                    s = s2
            q = os.path.join(out, fn)
            open(q, "w").write(s)
            ov[p] = q
        if need:
            raise CheckError("no system call stubs for %s" % need)
        p = os.path.join(root, "src/internal/syscall/unix/copy_file_range_unix.go")
        s = open(p).read()
        i = s.index("r1, _, errno")
        s = s[:i] + "if true {\n\t\treturn 0, syscall.ENOSYS\n\t}\n\t" + s[i:]
        q = os.path.join(out, "copy_file_range_unix.go")
        open(q, "w").write(s)
        ov[p] = q
        return ov

    def tools_fault(self):
        """the same tools with faults injected below package os: VFAULT, VFAULT_LOG"""
        if "fault" not in self._bins:
            d = self.path("binf")
            self._go_build(d, ["./cmd/..."], overlay=self.fault_overlay())
            self._bins["fault"] = d
        return self._bins["fault"]

    def driver(self, name, overlay=None, race=False):
        """a Go driver of /verif/harness/<name>, compiled inside /repo's module by overlay"""
        key = ("drv", name, race, bool(overlay))
        if key not in self._bins:
            src = os.path.join(VERIF, "harness", name)
            ov = dict(overlay or {})
            for fn in os.listdir(src):
                if fn.endswith(".go"):
                    ov[os.path.join(REPO, "internal/zzverif", name, fn)] = os.path.join(src, fn)
            # import of internal packages of cmd/... is fine: same module
            d = self.path("drv-%s%s%s" % (name, "-race" if race else "", "-ov" if overlay else ""))
            self._go_build(d, ["./internal/zzverif/" + name], overlay=ov, race=race)
            self._bins[key] = os.path.join(d, name)
        return self._bins[key]

    # ---------------------------------------------------------------- tlc
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, heap="2g", args=(), count=True, light=None):
        """run TLC on spec/<module>.tla with spec/<cfg>.cfg"""
        meta = self.fresh("meta")
        if light is None:
            light = workers == 1
        jopts = ["-Xmx" + heap, "-Xss64m"]
        jopts += ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if light else ["-XX:+UseParallelGC"]
        jopts += ["-Djava.io.tmpdir=" + meta]
        cmd = ["java"] + jopts + ["-cp", TLA_CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
                                  "-workers", str(workers), "-config", cfg + ".cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out after %ds: %s %s" % (timeout, module, cfg))
        finally:
            pass
        out = r.stdout.decode("utf-8", "replace")
        shutil.rmtree(meta, ignore_errors=True)
        res = TlcResult(r.returncode, out, time.time() - t)
        if count:
            self.states += res.distinct
            self.transitions += res.generated
        return res

    def model(self, module, cfg, expect_ok=True, coverage_actions=None, **kw):
        """exhaustive check of a design configuration: the specification itself must satisfy
        its invariants (a failure is an error of the check, not of the code)"""
        allow_dead = kw.pop("allow_dead", None) or ()
        args = list(kw.pop("args", ())) + ["-coverage", "1"]
        r = self.tlc(module, cfg, args=args, **kw)
        if not r.ok:
            raise CheckError("specification %s/%s does not satisfy its own properties (rc=%d)\n%s" %
                             (module, cfg, r.rc, r.out[-3000:]))
        never = [m for m in re.findall(r"<(\w+) line [^>]*>: (\d+):(\d+)", r.out)]
        dead = sorted({n for n, a, b in never if int(a) == 0 and int(b) == 0} -
                      {n for n, a, b in never if int(b) > 0})
        dead = [d for d in dead if d not in allow_dead]
        if dead:
            raise CheckError("vacuous model %s/%s: actions never taken: %s" % (module, cfg, dead))
        self.extra.setdefault("models", []).append(
            {"module": module, "cfg": cfg, "states": r.distinct, "transitions": r.generated, "depth": r.depth})
        return r

    def refuted(self, module, cfgs):
        """configurations with a deliberate design error: TLC must find the violation, otherwise
        the properties of the specification do not mean what they should"""
        for cfg, (r) in zip(cfgs, self.pmap(lambda c: self.tlc(module, c), cfgs)):
            if r.invariant is None and r.property is None and not r.deadlock:
                raise CheckError("wrong design %s/%s is not refuted (rc=%d)\n%s" % (module, cfg, r.rc, r.out[-2000:]))
            self.extra.setdefault("refuted_designs", []).append("%s: %s" % (cfg, r.invariant or r.property or "deadlock"))

    def proof(self, module):
        """the theorems of spec/<module>.tla, for every value of its constants (tlapm)"""
        d = self.fresh("proof")
        for fn in os.listdir(os.path.join(VERIF, "spec")):
            if fn.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", fn), d)
        out = ""
        for stretch in (4, 20):
            r = run(["tlapm", "--stretch", str(stretch), module + ".tla"], cwd=d, timeout=900)
            out = (r.out + r.err).decode("utf-8", "replace")
            m = re.search(r"All (\d+) obligations? proved", out)
            if r.rc == 0 and m:
                self.extra.setdefault("obligations_proved", {})[module] = int(m.group(1))
                break
        else:
            raise CheckError("%s is not proved\n%s" % (module, out[-3000:]))
        shutil.rmtree(d)

    def scenarios(self, module, cfg, marker="SCN", env=None, workers=1, **kw):
        """behaviours / inputs enumerated by TLC: every line '<marker> <json>' it prints"""
        r = self.tlc(module, cfg, env=env, workers=workers, **kw)
        if not r.ok:
            raise CheckError("scenario generation %s/%s failed (rc=%d)\n%s" % (module, cfg, r.rc, r.out[-3000:]))
        out = []
        for line in r.out.splitlines():
            line = line.strip()
            if line.startswith('"') and line.endswith('"'):
                try:
                    line = json.loads(line)
                except ValueError:
                    continue
            if line.startswith(marker + " "):
                out.append(json.loads(line[len(marker) + 1:]))
        if not out:
            raise CheckError("scenario generation %s/%s printed nothing\n%s" % (module, cfg, r.out[-2000:]))
        return out, r

    def trace(self, module, cfg, events, env=None, timeout=600, heap="3g", consts=None):
        """validate a recorded trace against <module>; returns None when the specification
        accepts it, else the index of the first event it rejects"""
        d = self.fresh("trace")
        fn = os.path.join(d, "trace.ndjson")
        with open(fn, "w") as f:
            for e in events:
                f.write(json.dumps(e, separators=(",", ":"), ensure_ascii=True) + "\n")
        e = {"TRACE": fn}
        if consts is not None:
            cf = os.path.join(d, "consts.json")
            with open(cf, "w") as f:
                f.write(json.dumps(consts) + "\n")
            e["CONSTS"] = cf
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, workers=1, timeout=timeout, heap=heap)
        shutil.rmtree(d, ignore_errors=True)
        self.traces += 1
        if r.ok:
            if r.depth is None:
                raise CheckError("TLC gave no depth\n" + r.out[-2000:])
            return None
        if r.postcondition and r.depth is not None:
            return r.depth - 1
        if r.invariant or r.property:
            # number of states in the error trace = events consumed + 1
            n = re.findall(r"^State (\d+):", r.out, re.M)
            return max(0, int(n[-1]) - 2) if n else 0
        raise CheckError("trace validation %s/%s did not finish (rc=%d)\n%s" %
                         (module, cfg, r.rc, errors_of(r.out)))

    def pmap(self, fn, items, jobs=None):
        with concurrent.futures.ThreadPoolExecutor(jobs or self.jobs) as ex:
            return list(ex.map(fn, items))

    def pmap_proc(self, fn, items, jobs=None):
        """like pmap, in forked processes; the counters of the children are added up"""
        items = list(items)
        if not items:
            return []
        global _FORK
        _FORK = (self, fn, items)
        with multiprocessing.get_context("fork").Pool(min(jobs or self.jobs, len(items)), maxtasksperchild=None) as pool:
            res = pool.map(_fork_call, range(len(items)), chunksize=1)
        _FORK = None
        out = []
        for ok, r, (st, tr, tc, ev) in res:
            if not ok:
                raise (ToolFailed if ok is None else CheckError)(r)
            self.states += st
            self.transitions += tr
            self.traces += tc
            self.evaluations += ev
            out.append(r)
        return out

    # ------------------------------------------------------------ verdicts
    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, what, detail):
        """record a violation observed on the real code"""
        for k in known_findings():
            if k["property"] == self.prop and k["match"] and k["match"] in what:
                line = "KNOWN-FINDING: property=%s %s" % (self.prop, k["text"])
                print(line, flush=True)
                return
        d = os.path.join(VERIF, "replay", self.prop)
        os.makedirs(d, exist_ok=True)
        blob = json.dumps({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier,
                           "detail": detail}, indent=1, default=_js)
        h = hashlib.sha1(blob.encode()).hexdigest()[:12]
        p = os.path.join(d, h + ".json")
        with open(p, "w") as f:
            f.write(blob)
        self.violations.append((what, p))
        if len(self.violations) <= 5:
            print("violation: %s" % what, flush=True)
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(p, VERIF)), flush=True)

    def write_evidence(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"]}
        if self.evaluations:
            cov["evaluations"] = self.evaluations
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        tmp = p + ".tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=_js)
            f.write("\n")
        os.replace(tmp, p)


_FORK = None


def _fork_call(i):
    ctx, fn, items = _FORK
    before = (ctx.states, ctx.transitions, ctx.traces, ctx.evaluations)
    try:
        r, ok = fn(items[i]), True
    except ToolFailed as e:
        r, ok = str(e), None
    except CheckError as e:
        r, ok = str(e), False
    except Exception:
        r, ok = traceback.format_exc(), False
    after = (ctx.states, ctx.transitions, ctx.traces, ctx.evaluations)
    return ok, r, tuple(a - b for a, b in zip(after, before))


def _js(o):
    if isinstance(o, (bytes, bytearray)):
        return {"hex": bytes(o[:2000]).hex(), "len": len(o)}
    if isinstance(o, set):
        return sorted(o)
    return repr(o)


def known_findings():
    """known_findings.txt: lines 'finding: property=<id> match=<substring> | <text>' and
    'fixed: property=<id> <commit> <text>' (the latter suppress nothing)"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+match=(.*?)\s+\|\s+(.*)$", line)
            if m:
                out.append({"property": m.group(1), "match": m.group(2), "text": m.group(3)})
    return out


# ------------------------------------------------------------- running tools
def judge_parts(ctx, module, parts, confs, dets, env=None, maxbad=3):
    """validate the events of several independent files (parts[i] refers to file i+1 as k) in
    one TLC run; after a rejection the rest is validated without the rejected file.
    -> ([(detail, rejected event)], number of events)"""
    bad, nev, base = [], 0, 0
    d = ctx.fresh("judge")
    while base < len(parts):
        evs = []
        for j, p in enumerate(parts[base:]):
            for e in p:
                e["k"] = j + 1
                evs.append(e)
        nev += len(evs)
        cf = os.path.join(d, "consts")
        with open(cf, "w") as f:
            for c in confs[base:]:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        e2 = {"CONSTS": cf}
        e2.update(env or {})
        k = ctx.trace(module, module, evs, env=e2) if evs else None
        if k is None:
            break
        e = evs[min(k, len(evs) - 1)]
        j = base + e["k"] - 1
        bad.append((dets[j], e))
        if len(bad) >= maxbad:
            break
        base = j + 1
    shutil.rmtree(d, ignore_errors=True)
    return bad, nev


class Run:
    def __init__(self, rc, out, err, wall, timeout=False):
        self.rc, self.out, self.err, self.wall, self.timeout = rc, out, err, wall, timeout

    def brief(self):
        return {"rc": self.rc, "timeout": self.timeout, "stdout": self.out[-1500:].decode("utf-8", "replace"),
                "stderr": self.err[:1500].decode("utf-8", "replace")}


def run(cmd, cwd=None, timeout=120, env=None, input=None, fsize=None, preexec=None):
    e = dict(os.environ)
    e.pop("GOMAXPROCS", None)
    if env:
        e.update(env)
    if fsize is not None:
        cmd = ["prlimit", "--fsize=%d" % fsize, "--"] + list(cmd)
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, input=input, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, preexec_fn=preexec)
        return Run(r.returncode, r.stdout, r.stderr, time.time() - t)
    except subprocess.TimeoutExpired as x:
        return Run(-99, x.stdout or b"", x.stderr or b"", time.time() - t, True)


def main(prop, tier, fn, level="model_checking"):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = Ctx(prop, tier, seed, level)
    try:
        fn(ctx)
    except ToolFailed as e:
        if not ctx.violations:
            ctx.violation("fails on a valid input", {"failure": str(e)})
        else:
            print("note: the check stopped early: %s" % e, file=sys.stderr)
    except CheckError as e:
        if ctx.violations:
            # a violation already shown on the real code stands
            print("note: the check stopped early: %s" % e, file=sys.stderr)
        else:
            print("CHECK-ERROR %s: %s" % (prop, e), file=sys.stderr)
            return 3
    except Exception:
        if not ctx.violations:
            traceback.print_exc()
            return 4
        traceback.print_exc()
    ctx.write_evidence()
    for what, p in ctx.violations[5:]:
        pass
    if ctx.violations:
        print("%s: %d violation(s)" % (prop, len(ctx.violations)))
        return 1
    print("%s %s: ok, %d states, %d transitions, %d traces, %.1fs" %
          (prop, tier, ctx.states, ctx.transitions, ctx.traces, time.time() - ctx.t0))
    return 0
