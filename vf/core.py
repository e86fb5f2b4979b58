"""Shared machinery: build harnesses from /repo, run TLC, run drivers, validate traces.

Exit discipline (see DESIGN.md):
  0  property held on everything explored
  1  VIOLATION line printed (a repeated rejection of an observed behaviour by the specification)
  2  the machinery itself failed (model error, harness does not build, ...)
"""
import hashlib, json, os, re, shutil, subprocess, sys, time, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

MPI_INC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include",
           "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
HDF_INC = ["-I/usr/include/hdf5/openmpi"]
LINK = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi",
        "-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-lhdf5",
        "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/openmpi/lib:/usr/lib/x86_64-linux-gnu/hdf5/openmpi",
        "/usr/lib/x86_64-linux-gnu/libtrilinos_kokkoscore.so.13.2", "-ldl", "-lm", "-lpthread"]


class MachineryError(Exception):
    pass


def lib_sources():
    """The library's translation units: those the project's own build file lists, if it can
    be read, otherwise every .cpp below src (minus generated scanner internals)."""
    text = open(os.path.join(REPO, "CMakeLists.txt")).read()
    srcs = sorted(set(re.findall(r"src/[\w/\-\.]+\.cpp", text)))
    srcs = [s for s in srcs if os.path.exists(os.path.join(REPO, s))]
    if not srcs:
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            if "internal" in d:
                continue
            srcs += [os.path.relpath(os.path.join(d, f), REPO) for f in fs if f.endswith(".cpp")]
    return srcs


CONFIG_HPP = """#ifndef VERIF_CONFIG_HPP
#define VERIF_CONFIG_HPP
#define SCHNEK_HAVE_MPI
#define SCHNEK_HAVE_HDF5
#define SCHNEK_USE_HDF_PARALLEL
#define SCHNEK_HAVE_KOKKOS
#define SCHNEK_VERSION 1.2.0
#define OMPI_SKIP_MPICXX
#endif
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def J(*a):
    """flatten into one line of a scenario"""
    o = []
    for x in a:
        if isinstance(x, (list, tuple)):
            o.append(J(*x))
        elif isinstance(x, bool):
            o.append("1" if x else "0")
        else:
            o.append(str(x))
    return " ".join(o)


def hx(s):
    """strings are passed to the drivers in hex"""
    return s.encode("latin-1").hex() or "-"


class Prefix:
    """the first n of a list"""
    def __init__(self, whole, n): self.whole, self.n = whole, n
    def __len__(self): return self.n
    def __getitem__(self, i): return self.whole[:self.n][i]
    def __iter__(self): return iter(self.whole[:self.n])

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(self.seed * 1000003 + int(re.sub(r"\D", "", prop)))
        self.dir = os.path.join(BUILD, prop + "-" + self.tier)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.model_runs = []
        self.traces = 0
        self.events = 0
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.notes = {}
        self.binding = []
        self.maxviol = 3
        self.hangs = 0

    # ------------------------------------------------------------------ log
    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def cfgdir(self):
        d = os.path.join(BUILD, "cfg")
        os.makedirs(os.path.join(d, "grid", "iteration"), exist_ok=True)
        for p in ("config.hpp",):
            f = os.path.join(d, p)
            if not os.path.exists(f) or open(f).read() != CONFIG_HPP:
                tmp = f + ".%d" % os.getpid()
                open(tmp, "w").write(CONFIG_HPP)
                os.replace(tmp, f)
        return d

    def flags(self, asan=True, defs=(), opt="-O1"):
        c = self.cfgdir()
        # "../config.hpp" and "../../config.hpp" resolve through the two extra directories
        fl = ["-std=c++17", opt, "-g1", "-w", "-fPIC", "-DKOKKOS_DEPENDENCE"]
        fl += ["-D" + d for d in defs]
        fl += ["-I" + os.path.join(REPO, "src"), "-I" + REPO, "-I" + HARN] + MPI_INC + HDF_INC
        fl += ["-isystem", "/usr/include/trilinos",
               "-isystem", os.path.join(c, "grid"), "-isystem", os.path.join(c, "grid/iteration"),
               "-isystem", os.path.join(c)]
        if asan:
            fl += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        return fl

    def _obj(self, src, fl):
        pre = subprocess.run(["g++", "-E", "-P"] + fl + [src], stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE)
        if pre.returncode != 0:
            raise MachineryError("preprocessing %s failed:\n%s" % (src, pre.stderr.decode()[-3000:]))
        key = hashlib.sha256(pre.stdout + "\0".join(fl).encode()).hexdigest()[:32]
        cache = os.path.join(BUILD, "objs")
        os.makedirs(cache, exist_ok=True)
        obj = os.path.join(cache, key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp.o" % os.getpid()
            r = sh(["g++"] + fl + ["-c", src, "-o", tmp])
            if r.returncode != 0:
                raise MachineryError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
            os.replace(tmp, obj)
        return obj

    def compile(self, exe, harness, lib=True, asan=True, defs=(), opt="-O1"):
        """Build harness sources (+ the library's own sources) from the current working tree."""
        fl = self.flags(asan, defs, opt)
        srcs = [os.path.join(HARN, h) for h in ([harness] if isinstance(harness, str) else harness)]
        if lib is True:
            srcs += [os.path.join(REPO, s) for s in lib_sources()]
        elif lib:
            srcs += [os.path.join(REPO, s) for s in lib]
        with ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(lambda s: self._obj(s, fl), srcs))
        out = os.path.join(self.dir, exe)
        r = sh(["g++"] + (["-fsanitize=address"] if asan else []) + objs + ["-o", out] + LINK)
        if r.returncode != 0:
            raise MachineryError("linking %s failed:\n%s" % (exe, r.stdout[-4000:]))
        self.log("built", exe)
        return out

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfgtext, name, args=(), workers="auto", timeout=800, heap="6g", env=None,
             extra_files=()):
        d = os.path.join(self.dir, "tlc-" + name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for fn, text in extra_files:
            p = os.path.join(d, fn)
            if os.path.islink(p):
                os.unlink(p)
            open(p, "w").write(text)
        open(os.path.join(d, "M.cfg"), "w").write(cfgtext)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC",
               "-metadir", os.path.join(d, "st"), "-noGenerateSpecTE", "-workers", str(workers),
               "-config", "M.cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        if env:
            e.update(env)
        out = os.path.join(d, "out.txt")
        try:
            with open(out, "w") as fo:
                p = subprocess.run(cmd, cwd=d, stdout=fo, stderr=subprocess.STDOUT, env=e, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1
        text = open(out, errors="replace").read()
        shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
        return rc, text

    @staticmethod
    def _stats(text):
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", text)
        if not m:
            m2 = re.findall(r"The number of states generated: (\d+)", text)
            if m2:
                return int(m2[-1]), int(m2[-1])
            return 0, 0
        g, di = m[-1]
        return int(g.replace(",", "")), int(di.replace(",", ""))

    @staticmethod
    def cfg(spec=None, init=None, nxt=None, constants=None, invariants=(), properties=(), constraint=(),
            action_constraint=(), view=None, deadlock=False, postcondition=None):
        t = ""
        if spec:
            t += "SPECIFICATION %s\n" % spec
        if init:
            t += "INIT %s\nNEXT %s\n" % (init, nxt)
        for k, v in (constants or {}).items():
            t += "CONSTANT %s %s\n" % (k, v if str(v).startswith("<-") else "= " + str(v))
        for i in invariants:
            t += "INVARIANT %s\n" % i
        for i in properties:
            t += "PROPERTY %s\n" % i
        for c in constraint:
            t += "CONSTRAINT %s\n" % c
        for c in action_constraint:
            t += "ACTION_CONSTRAINT %s\n" % c
        if view:
            t += "VIEW %s\n" % view
        if postcondition:
            t += "POSTCONDITION %s\n" % postcondition
        t += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
        return t

    def model(self, module, cfgtext, name, workers="auto", timeout=600, expect_actions=None):
        """Exhaustive TLC run of the specification's own properties. A failure here is an error
        of the model, never a violation of the code."""
        rc, text = self._tlc(module, cfgtext, "mc-" + name, workers=workers, timeout=timeout)
        g, d = self._stats(text)
        if rc != 0:
            raise MachineryError("model checking %s/%s failed (rc=%s):\n%s" % (module, name, rc, text[-3500:]))
        self.states += d
        self.transitions += g
        self.model_runs.append({"module": module, "config": name, "distinct_states": d, "generated": g})
        self.log("TLC %s/%s: %d states, %d distinct, properties hold" % (module, name, g, d))
        return g, d

    def generate(self, module, cfgtext, name, simulate=None, depth=100, timeout=600, limit=None, workers=1):
        """Behaviours generated by TLC from the specification (lines printed by the Gen module)."""
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed * 7919 + 17)]
        rc, text = self._tlc(module, cfgtext, "gen-" + name, args=args, workers=workers, timeout=timeout)
        if rc != 0:
            raise MachineryError("generation %s/%s failed (rc=%s):\n%s" % (module, name, rc, text[-3500:]))
        g, d = self._stats(text)
        hs, seen = [], set()
        for line in text.splitlines():
            if line.startswith('"HIST'):
                s = json.loads(line)[4:]
                if s not in seen:
                    seen.add(s)
                    hs.append(s)
        hs.sort(key=lambda s: hashlib.md5((str(self.seed) + s).encode()).hexdigest())
        total = len(hs)
        if limit and len(hs) > limit:
            hs = hs[:limit]
        hs = [json.loads(s) for s in hs]
        self.states += d
        self.transitions += g
        self.model_runs.append({"module": module, "config": name, "generated": g, "distinct_states": d,
                                "behaviours": total, "used": len(hs)})
        self.log("TLC generated %d behaviours from %s/%s (using %d)" % (total, module, name, len(hs)))
        if not hs:
            raise MachineryError("no behaviours generated by %s/%s" % (module, name))
        return hs

    # --------------------------------------------------------------- drivers
    @staticmethod
    def _watch(p, out, timeout, stall):
        """wait for the driver; TimeoutExpired after `timeout` or when its output does not grow for `stall` seconds"""
        t0 = last = time.time()
        size = -1
        while True:
            try:
                return p.wait(timeout=.02 if time.time() - t0 < 2 else .5)
            except subprocess.TimeoutExpired:
                now = time.time()
                n = os.path.getsize(out) if os.path.exists(out) else 0
                if n != size:
                    size, last = n, now
                if now - t0 > timeout or now - last > stall:
                    raise

    def drive(self, exe, scenarios, np=None, timeout=120, per=None, env=None, max_crash=4, tag="d", args=(), stall=60,
              force=False):
        """Run scenario lines through the driver; returns a list of event lists (one per scenario).
        A crash, hang, sanitizer report or unexpected exit becomes an event CRASH in the trace of the
        scenario during which it happened; no specification has a CRASH action. The driver hangs when it
        reports nothing for `stall` seconds; after two hangs no further scenarios are run (hist None)."""
        if self.hangs >= 2 and not force and not getattr(self, 'rerunning', False):
            return [None] * len(scenarios)
        ran = self.__dict__.setdefault("ran", {})
        if getattr(self, "in_context", False) and len(scenarios) == 1 and (exe, np, scenarios[0]) in ran:
            # once more, after everything that ran before it in the same process
            return self.drive(exe, ran[(exe, np, scenarios[0])], np, timeout, per, env, 1, tag, args, stall, True)[-1:]
        hist = [[] for _ in scenarios]
        todo = list(range(len(scenarios)))
        crashes = 0
        rnd = 0
        while todo:
            rnd += 1
            sc = os.path.join(self.dir, "%s-sc-%d.txt" % (tag, rnd))
            ou = os.path.join(self.dir, "%s-out-%d.ndjson" % (tag, rnd))
            er = os.path.join(self.dir, "%s-err-%d.txt" % (tag, rnd))
            with open(sc, "w") as f:
                for k in todo:
                    f.write("%d %s\n" % (k, scenarios[k]))
            if os.path.exists(ou):
                os.unlink(ou)
            if not getattr(self, "rerunning", False):
                whole = [scenarios[k] for k in todo]
                for i, k in enumerate(todo):
                    ran[(exe, np, scenarios[k])] = Prefix(whole, i + 1)
            e = dict(os.environ)
            e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0"
            e["OMPI_MCA_btl_vader_single_copy_mechanism"] = "none"
            e["OMPI_MCA_rmaps_base_oversubscribe"] = "1"
            if env:
                e.update(env)
            cmd = [exe, sc, ou] + list(args)
            if np:
                cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--mca", "btl", "self,vader",
                       "--mca", "plm", "isolated", "-np", str(np)] + cmd
            why = None
            with open(er, "w") as fe:
                p = subprocess.Popen(cmd, stdout=fe, stderr=subprocess.STDOUT, env=e, cwd=self.dir,
                                     start_new_session=True)
                try:
                    rc = self._watch(p, ou, timeout, stall)
                    if rc == 3:
                        raise MachineryError("driver rejected its input: " + open(er).read()[-500:])
                    if rc != 0:
                        why = "exit %d" % rc
                except subprocess.TimeoutExpired:
                    why = "hang"
                    try:
                        os.killpg(p.pid, 9)
                    except ProcessLookupError:
                        pass
                    p.wait()
            seen, complete = [], set()
            if os.path.exists(ou):
                for line in open(ou, errors="replace"):
                    if not line.endswith("\n"):
                        break
                    try:
                        ev = json.loads(line)
                    except ValueError:
                        raise MachineryError("driver wrote bad JSON: " + line[:300])
                    k = ev.pop("h")
                    if ev.get("op") == "END":
                        complete.add(k)
                        continue
                    if not seen or seen[-1] != k:
                        seen.append(k)
                    hist[k].append(ev)
            rest = [k for k in todo if k not in complete]
            if why is None and rest:
                why = "driver ended early"
            if why is None:
                break
            # the first incomplete scenario is the one during which the process died
            k = rest[0] if rest else todo[-1]
            tail = open(er, errors="replace").read()
            m = re.search(r"(AddressSanitizer: [\w\-]+)", tail)
            m2 = re.search(r"(Assertion `[^\n]*failed|terminate called[^\n]*|what\(\):[^\n]*)", tail)
            desc = (m.group(1) if m else (m2.group(1) if m2 else "")) or why
            hist[k].append({"op": "CRASH", "why": why, "what": desc[:200]})
            crashes += 1
            todo = [j for j in rest if j > k]
            for j in todo:
                hist[j] = []
            if why == "hang":
                self.hangs += 1
            if crashes >= max_crash or why == "hang":
                self.log("too many crashes; remaining %d scenarios not run" % len(todo))
                for j in todo:
                    hist[j] = None
                break
        self.log("driver ran %d scenarios%s, %d crash(es)" % (len(scenarios), " np=%s" % np if np else "", crashes))
        return hist

    # ------------------------------------------------------------ validation
    def _write_trace(self, path, recs):
        with open(path, "w") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")

    def _validate_once(self, module, cfgtext, recs, name, timeout, workers):
        path = os.path.join(self.dir, name + ".ndjson")
        self._write_trace(path, recs)
        rc, text = self._tlc(module, cfgtext, "tr-" + name, env={"TRACE": path}, timeout=timeout, workers=workers)
        g, d = self._stats(text)
        if rc == 0:
            return None, g, d, text
        if rc in (10, 11, 12, 13, 75, 76):
            hs = re.findall(r"^(?:/\\ )?h = (\d+)", text, re.M)
            ls = re.findall(r"^(?:/\\ )?l = (\d+)", text, re.M)
            h = int(hs[-1]) if hs else 0
            l = int(ls[-1]) if ls else 0
            return {"h": h, "l": l, "rc": rc, "text": text}, g, d, text
        raise MachineryError("TLC failed on traces of %s (rc=%s):\n%s" % (module, rc, text[-3500:]))

    def validate(self, module, cfgtext, recs, name, rerun=None, timeout=700, workers="auto", describe=None,
                 is_known=None, count=True):
        """Check recorded behaviours of the code against the specification. `recs` is a list of
        {"id":..., "ev":[...], ...}. A rejection is re-checked (driver re-run through `rerun`) and
        reported only if it repeats."""
        live = [r for r in recs if r is not None]
        # depth-limited parallel search over histories: every history is an initial state
        pending = live
        while pending:
            rej, g, d, text = self._validate_once(module, cfgtext, pending, name, timeout, workers)
            if count:
                self.states += d
                self.transitions += g
            if rej is None:
                if count:
                    self.traces += len(pending)
                    self.events += sum(len(r["ev"]) for r in pending)
                break
            h, l = rej["h"], rej["l"]
            if h < 1 or h > len(pending):
                raise MachineryError("TLC rejection without position (rc=%s):\n%s" % (rej["rc"], text[-3500:]))
            bad = pending[h - 1]
            # confirm
            again = bad
            if rerun:
                self.rerunning = True
                again = rerun(bad)
                self.rerunning = False
            rej2 = None
            if again is not None:
                rej2, _, _, text2 = self._validate_once(module, cfgtext, [again], name + "-confirm", timeout, 1)
            if rej2 is None and rerun:
                # perhaps it takes what was done before in the same process
                self.rerunning = self.in_context = True
                again = rerun(bad)
                self.rerunning = self.in_context = False
                if again is not None:
                    rej2, _, _, text2 = self._validate_once(module, cfgtext, [again], name + "-confirm", timeout, 1)
            if rej2 is None and rerun:
                rej3, _, _, _ = self._validate_once(module, cfgtext, [bad], name + "-confirm2", timeout, 1)
                if rej3 is None:
                    raise MachineryError("TLC rejection of history %s did not repeat" % bad.get("id"))
                raise MachineryError("rejected behaviour did not repeat on re-running the code: %s" % bad.get("id"))
            if rej2 is None:
                raise MachineryError("TLC rejection of history %s did not repeat" % bad.get("id"))
            l = rej2["l"]
            ev = again["ev"][l] if l < len(again["ev"]) else None
            known = is_known(again, l, ev) if is_known else None
            if known:
                self.known_hits.append(known)
            else:
                self.violation({"module": module, "history": again, "rejected_event_index": l,
                                "rejected_event": ev, "tlc": rej2["text"][-6000:]},
                               describe(again, l, ev) if describe else json.dumps(ev)[:300])
            pending = pending[:h - 1] + pending[h:]
            if len(self.violations) >= self.maxviol or (self.violations and time.time() - self.t0 > 300):
                break
        self.log("validated %s: %d histories against %s%s" % (name, len(live), module,
                 "" if not self.violations else ", %d VIOLATION(S)" % len(self.violations)))

    def probe(self, module, cfgtext, rec, name, what):
        """Binding demonstration: a deliberately corrupted record must be rejected."""
        rej, _, _, text = self._validate_once(module, cfgtext, [rec], "probe-" + name, 300, 1)
        if rej is None:
            raise MachineryError("binding probe failed: corrupted trace (%s) was accepted" % what)
        self.binding.append("%s: rejected at event %d" % (what, rej["l"]))

    # --------------------------------------------------------------- outcome
    def violation(self, detail, summary):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, len(self.violations)))
        json.dump(detail, open(p, "w"), indent=1)
        self.violations.append(p)
        self.log("violation:", summary[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "events_validated": self.events,
               "model_runs": self.model_runs, "binding_probes": self.binding,
               "samples": self.samples[:6]}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for k in sorted(set(self.known_hits)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            return 1
        self.log("held: %d traces, %d events, %d states" % (self.traces, self.events, self.states))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        return 0


def main(prop, fn, level="model_checking"):
    c = Check(prop, level)
    try:
        fn(c)
        rc = c.finish()
    except MachineryError as e:
        if c.violations:
            c.log("machinery error after a violation:", str(e)[:800])
            rc = c.finish()
        else:
            print("ERROR: %s" % e, flush=True)
            rc = 2
    sys.exit(rc)
