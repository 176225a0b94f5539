"""Machinery shared by all checks: building drivers from /repo's working tree, running them,
validating the recorded traces with TLC, model checking the specifications, and reporting."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LIBFLY_SRC", "/repo")  # development only: the registered commands never set it
OUT = os.environ.get("LIBFLY_OUT", os.path.join(VERIF, "out"))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CACHE = os.path.join(OUT, "cache")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8

BASE = ["-std=c++20", "-O0", "-w", "-Wno-psabi", "-pthread", "-U_FORTIFY_SOURCE", "-I" + REPO, "-I" + HARNESS]
MODES = {
    "plain": ["-g1"],
    # memory errors surface as a "crash" event in the trace
    "asan": ["-g1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"],
    # instrumentation calls are served by harness/vsched (a controlled scheduler), not by TSan
    "vsched": ["-g1", "-fsanitize=thread"],
}


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def fly_sources():
    res = []
    for root, dirs, files in os.walk(os.path.join(REPO, "fly")):
        dirs[:] = sorted(d for d in dirs if d not in ("win", "mac"))
        res += [os.path.join(root, f) for f in sorted(files) if f.endswith(".cpp")]
    return res


def _compile(src, flags, objdir):
    """Compile one file; objects are cached by the hash of the preprocessed text."""
    pre = subprocess.run(["g++"] + flags + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode != 0:
        raise CheckError("preprocessing %s failed:\n%s" % (src, pre.stderr.decode(errors="replace")[:3000]))
    key = hashlib.sha256(("\0".join(flags) + "\0" + src + "\0").encode() + pre.stdout).hexdigest()
    obj = os.path.join(CACHE, key + ".o")
    if not os.path.exists(obj):
        fd, tmp = tempfile.mkstemp(suffix=".o", dir=CACHE)
        os.close(fd)
        r = sh(["g++"] + flags + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            os.unlink(tmp)
            raise CheckError("compiling %s failed:\n%s" % (src, r.stdout[:4000]))
        os.rename(tmp, obj)
    else:
        os.utime(obj)
    return obj


def trim_cache(limit=600):
    try:
        files = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE)), key=os.path.getmtime)
    except OSError:
        return
    for f in files[:-limit]:
        try:
            os.unlink(f)
        except OSError:
            pass


def build(name, driver, mode="plain", extra_flags=(), extra_srcs=(), link=(), with_fly=True):
    """Build /verif/harness/<driver> against every source file of the library."""
    os.makedirs(CACHE, exist_ok=True)
    flags = BASE + MODES[mode] + list(extra_flags)
    uninstrumented = BASE + MODES["plain"] + list(extra_flags)
    jobs = [(os.path.join(HARNESS, driver), flags)]
    if with_fly:
        jobs += [(s, flags) for s in fly_sources()]
    jobs += [(os.path.join(HARNESS, s), flags) for s in extra_srcs]
    if mode == "vsched":
        jobs += [(os.path.join(HARNESS, "vsched/vsched.cpp"), uninstrumented + ["-O1"])]
    t = time.time()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: _compile(j[0], j[1], None), jobs))
    exe_dir = os.path.join(OUT, "bin")
    os.makedirs(exe_dir, exist_ok=True)
    exe = os.path.join(exe_dir, name)
    lflags = ["-fsanitize=address"] if mode == "asan" else []
    r = sh(["g++", "-pthread", "-o", exe + ".tmp"] + lflags + objs + list(link) + (["-ldl"] if mode == "vsched" else []))
    if r.returncode != 0:
        raise CheckError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
    os.rename(exe + ".tmp", exe)
    trim_cache()
    log("[build] %s (%s) %.1fs" % (name, mode, time.time() - t))
    return exe


def run_range(exe, seed, lo, hi, outfile, args=(), env=None, timeout=600):
    """Run trace ids [lo, hi); a crash ends one process, the next one continues after it."""
    parts, cur = [], lo
    crashes = hangs = 0
    while cur < hi:
        part = "%s.%d" % (outfile, cur)
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run([exe, "--seed", str(seed), "--from", str(cur), "--to", str(hi), "--out", part] +
                               list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout)
            rc, err = r.returncode, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, err = -99, "timeout"
        lines = []
        if os.path.exists(part):
            with open(part, "rb") as f:
                lines = f.read().split(b"\n")
            os.unlink(part)
        good = []
        for ln in lines:
            if ln.strip():
                try:
                    rec = json.loads(ln)
                    if isinstance(rec, dict) and "id" in rec and "ev" in rec:
                        good.append(ln)
                except ValueError:
                    pass
        parts += good
        if rc == 0:
            break
        crashes += 1
        last = cur - 1
        if good:
            last = json.loads(good[-1])["id"]
        hangs += bool(good) and b'"op":"hang"' in good[-1]
        if crashes > 20 or hangs > 3:
            break
        if not good or b'"during"' not in good[-1]:
            # the process died without being able to say where: synthesise the event
            nxt = last + 1
            parts.append(json.dumps({"id": nxt, "ev": [{"op": "crash", "during": "unknown", "rc": rc,
                                                         "stderr": err[-300:].encode("ascii", "replace").decode()}]}).encode())
            last = nxt
        if crashes <= 3:
            log("[driver] abnormal end rc=%s at trace %d: %s" % (rc, last, err.strip()[:600]))
        cur = last + 1
    with open(outfile, "wb") as f:
        for ln in parts:
            f.write(ln + b"\n")
    return len(parts)


class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.finished = "Model checking completed" in out or "Finished in" in out
        self.ok = rc == 0


def tlc(module, cfg_text, workers=2, env=None, timeout=800, heap="3g", extra=(), simulate=False, meta=None):
    """Run TLC on spec/<module>.tla with the given configuration."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=os.path.join(OUT, "tmp"))
    try:
        cfg = os.path.join(d, module + ".cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-Xmx" + heap, "-cp", JAR,
               "-DTLA-Library=" + SPEC, "tlc2.TLC", "-nowarning",
               "-config", cfg, "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE"] + list(extra) + \
              [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout)
            out, rc = r.stdout.decode(errors="replace"), r.returncode
        except subprocess.TimeoutExpired as ex:
            out, rc = (ex.stdout or b"").decode(errors="replace") + "\nTLC TIMEOUT", -1
        return Tlc(out, rc, time.time() - t)
    finally:
        shutil.rmtree(d, ignore_errors=True)


TRACE_CFG = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n"
ACC = re.compile(r'"ACC",\s*(-?\d+)')


class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.dir = os.path.join(OUT, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(os.path.join(OUT, "tmp"), exist_ok=True)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.violations = []      # replay paths
        self.known_hits = []
        self.notes = {}
        self.op_counts = {}
        self.assumptions = []
        self.known = load_known(pid)

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    # ---------------------------------------------------------------- model checking of the design
    def model(self, module, cfg, workers=8, heap="6g", timeout=700, what="", extra=(), expect_ok=True, env=None):
        r = tlc(module, cfg, workers=workers, heap=heap, timeout=timeout, extra=extra, env=env)
        log("[model] %s %s: rc=%d states=%d distinct=%d %.1fs" % (module, what, r.rc, r.generated, r.distinct, r.wall))
        if expect_ok and not r.ok:
            raise CheckError("model %s does not satisfy its own properties or failed to run:\n%s" % (module, r.out[-4000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault("models", []).append(
            {"module": module, "what": what, "distinct": r.distinct, "generated": r.generated, "depth": r.depth})
        return r

    # ---------------------------------------------------------------- conformance of recorded traces
    def validate_file(self, module, path, ids, workers=2, cfg=TRACE_CFG, env=None, heap="3g"):
        """Returns the ids of the rejected traces in the file."""
        e = {"TRACE_FILE": path}
        e.update(env or {})
        left, bad = list(ids), []
        while True:
            r = tlc(module, cfg, workers=workers, env=e, heap=heap)
            if r.rc == 255 and "Overflow when computing" in r.out:  # a number which is too big for the specification
                r.rc = 76
            if r.rc not in (0, 12, 75, 76):  # TLC itself failed, for want of memory perhaps: once more
                log("[again] TLC failed on %s (rc %d): %s" % (path, r.rc, r.out[-600:]))
                r = tlc(module, cfg, workers=workers, env=e, heap=heap)
            if r.rc == 0:
                acc = set(int(x) for x in ACC.findall(r.out))
                return bad + [i for i in left if i not in acc], r
            # 12: a state of a trace violates an invariant of the specification.  75, 76: what a trace holds
            # is not even a value the specification is defined for.  Either way that trace is rejected.
            at = re.findall(r"tid = (\d+)", r.out)
            if r.rc not in (12, 75, 76) or not at or not 1 <= int(at[-1]) <= len(left):
                raise CheckError("TLC failed on %s with %s (rc %d):\n%s" % (path, module, r.rc, r.out[:6000]))
            k = int(at[-1]) - 1
            log("[rejected] trace %d: %s" % (left[k], "an invariant is violated" if r.rc == 12 else "not defined in the specification"))
            bad.append(left.pop(k))
            if not left or len(bad) >= 4:
                return bad, r
            with open(path, "rb") as f:
                lines = f.read().split(b"\n")
            with open(path + ".left", "wb") as f:
                f.write(b"\n".join(lines[:k] + lines[k + 1:]))
            path += ".left"
            e["TRACE_FILE"] = path

    def diagnose(self, module, path, cfg=TRACE_CFG, env=None):
        """Longest accepted prefix of a single rejected trace and the state reached there."""
        e = {"TRACE_FILE": path}
        e.update(env or {})
        r = tlc(module, cfg + "CONSTRAINT Track\nPOSTCONDITION Report\n", workers=1, env=e)
        m = re.findall(r'"DEEPEST",\s*(\d+)', r.out)
        return (int(m[-1]) if m else 0), r.out[-3000:]

    def conformance(self, exe, module, count, args=(), env=None, cfg=TRACE_CFG, tlc_env=None, label="", shards=8,
                    tlc_procs=4, tlc_workers=2, driver_timeout=600, heap="2g", heavy=False):
        """Record `count` traces from the real code and validate each against spec/<module>.tla."""
        t = time.time()
        base = os.path.join(self.dir, "%s%s" % (module, ("-" + label) if label else ""))
        bounds = [(count * k // shards, count * (k + 1) // shards) for k in range(shards)]
        bounds = [b for b in bounds if b[0] < b[1]]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            # controlled schedules stay on one processor each (harness/vtrace.hpp)
            list(ex.map(lambda kb: run_range(exe, self.seed, kb[1][0], kb[1][1], "%s.%d.raw" % (base, kb[1][0]), args,
                                             dict(env or {}, LIBFLY_CPU=str(kb[0])), driver_timeout), enumerate(bounds)))
        lines = []
        for b in bounds:
            p = "%s.%d.raw" % (base, b[0])
            with open(p, "rb") as f:
                lines += [x for x in f.read().split(b"\n") if x.strip()]
            os.unlink(p)
        t1 = time.time()
        ids = {}
        for ln in lines:
            rec = json.loads(ln)
            ids[rec["id"]] = ln
            self.events += len(rec["ev"])
            for ev in rec["ev"]:
                k = ev.get("op", "?")
                self.op_counts[k] = self.op_counts.get(k, 0) + 1
        if len(ids) < count:
            log("[conformance] %s: only %d of %d traces were produced" % (label, len(ids), count))
        if not self.samples or len(self.samples) < 3:
            best = min(lines, key=len) if lines else b""
            self.samples.append({"spec": module, "trace": json.loads(best.decode()) if len(best) < 1500 else
                                 best.decode()[:1500]})
        # round-robin the traces over the TLC processes, so that each gets a similar load
        groups = [[] for _ in range(min(tlc_procs, max(1, len(ids))))]
        for k, i in enumerate(ids):
            groups[k % len(groups)].append(i)

        def one(g):
            p = "%s.tlc%d.ndjson" % (base, g)
            with open(p, "wb") as f:
                for i in groups[g]:
                    f.write(ids[i] + b"\n")
            return self.validate_file(module, p, groups[g], workers=tlc_workers, cfg=cfg, env=tlc_env, heap=heap)

        rejected = []
        with cf.ThreadPoolExecutor(len(groups)) as ex:
            for rej, r in ex.map(one, range(len(groups))):
                rejected += rej
                self.states += r.distinct
                self.transitions += r.generated
        self.traces += len(ids)
        log("[conformance] %s %s: %d traces, %d events, drive %.1fs, validate %.1fs, rejected %d" %
            (module, label, len(ids), self.events, t1 - t, time.time() - t1, len(rejected)))
        rejected.sort(key=lambda i: len(ids[i]))
        shown = 0
        for i in rejected:
            if shown >= 3 and self.violations:
                break
            if shown >= 40:
                break
            shown += 1
            self.confirm(exe, module, i, ids[i], args, env, cfg, tlc_env, label, driver_timeout)
        return rejected

    def confirm(self, exe, module, i, line, args, env, cfg, tlc_env, label, driver_timeout):
        """A rejection counts only if running that trace again is rejected again."""
        p = os.path.join(self.dir, "reject-%s%s-%d" % (module, label, i))
        with open(p + ".first.ndjson", "wb") as f:
            f.write(line + b"\n")
        run_range(exe, self.seed, i, i + 1, p + ".ndjson", args, dict(env or {}, LIBFLY_CPU="0"), driver_timeout)
        rej, _ = self.validate_file(module, p + ".ndjson", [i], workers=1, cfg=cfg, env=tlc_env)
        if not rej:
            log("[confirm] trace %d was accepted when recorded again; not reported" % i)
            self.notes["unconfirmed"] = self.notes.get("unconfirmed", 0) + 1
            return
        upto, state = self.diagnose(module, p + ".ndjson", cfg, tlc_env)
        with open(p + ".ndjson") as f:
            rec = json.loads(f.readline())
        evs = rec["ev"]
        bad = evs[upto - 1] if 0 < upto <= len(evs) else (evs[-1] if evs else None)
        kn = match_known(self.known, bad, evs, upto)
        if kn:
            self.known_hits.append(kn)
            return
        replay = p + ".replay.json"
        with open(replay, "w") as f:
            json.dump({"property": self.pid, "spec": "spec/%s.tla" % module, "seed": self.seed, "trace_id": i,
                       "driver": exe, "driver_args": list(args), "rejected_event_index": upto,
                       "rejected_event": bad, "events": evs, "tlc": state}, f, indent=1)
        log("[violation] %s trace %d: event %d is not a step of the specification: %s" %
            (module, i, upto, json.dumps(bad)[:800]))
        self.violations.append(replay)

    def violation(self, name, data):
        replay = os.path.join(self.dir, name + ".replay.json")
        with open(replay, "w") as f:
            json.dump(data, f, indent=1)
        self.violations.append(replay)

    # ---------------------------------------------------------------- the end
    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_checked": self.events,
               "events_by_operation": self.op_counts, "samples": self.samples[:4]}
        cov.update(self.notes)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in sorted(set(self.known_hits)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for v in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.pid, v))
        log("[done] %s %s in %.1fs: %d violations" % (self.pid, self.tier, time.time() - self.t0, len(self.violations)))
        return 1 if self.violations else 0


# -------------------------------------------------------------------- known findings
def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid and k["status"] == "known"]


def match_known(known, bad, evs, upto):
    """A known finding names the exact event (operation and inputs) that the code gets wrong."""
    for k in known:
        pat = k["match"]
        if bad is not None and all(bad.get(f) == v for f, v in pat.items()):
            return k["what"]
    return None
