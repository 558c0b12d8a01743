"""Runner support: building the executor, running TLC, collecting verdicts, evidence, exit codes.

Nothing here decides whether a result is right.  The executor records what the library did, the
TLA+ specifications judge the record, and this file carries the one to the other.
"""
import json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EXEC = os.path.join(HARNESS, "target", "debug", "kami-exec")
JOBS = max(2, min(8, os.cpu_count() or 2))


class ToolError(Exception):
    pass


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "build", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.parts, self.failures = [], [], []
        self.nfile = 0
        self.meter = {}
        self.exhaustive = []
        self.dead = False

    # ---- building -------------------------------------------------------------------------
    def build(self):
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS,
                           capture_output=True, text=True, timeout=800)
        if r.returncode != 0:
            raise ToolError("the executor does not build:\n" + r.stderr[-3000:])

    def path(self, name):
        self.nfile += 1
        return os.path.join(self.work, "%03d-%s" % (self.nfile, name))

    # ---- TLC ------------------------------------------------------------------------------
    def tlc(self, module, spec="Spec", constants=(), lines=(), workers=JOBS, extra=(), timeout=800,
            heap=None, name=None, sink=None, judging=False):
        """Runs TLC; returns the lines printed by the specification (PrintT of JSON)."""
        cfg = self.path((name or module) + ".cfg")
        with open(cfg, "w") as f:
            f.write("SPECIFICATION %s\n" % spec)
            if constants:
                f.write("CONSTANTS\n" + "".join("  %s\n" % c for c in constants))
            f.write("".join(l + "\n" for l in lines))
            f.write("CHECK_DEADLOCK FALSE\n")
        meta = self.path("meta")
        cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-config", cfg]
        cmd += list(extra) + [module + ".tla"]
        env = dict(os.environ)
        env["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC" % (heap or "6g")
        out_path = self.path("tlc.out")
        t = time.time()
        with open(out_path, "w") as out:
            try:
                p = subprocess.run(cmd, cwd=SPEC, stdout=out, stderr=subprocess.STDOUT, env=env,
                                   timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("TLC ran out of time on %s" % (name or module))
        shutil.rmtree(meta, ignore_errors=True)
        printed, gen, dist, init, errors = [], 0, 0, 0, []
        with open(out_path, errors="replace") as f:
            for line in f:
                if line.startswith('"{'):
                    if sink is not None:
                        sink.write(json.loads(line))
                        sink.write("\n")
                    else:
                        printed.append(json.loads(json.loads(line)))
                elif "states generated" in line and "left on queue" in line:
                    m = re.match(r"(?:Progress.*: )?([\d,]+) states generated.*?, ([\d,]+) distinct", line)
                    if m:
                        gen, dist = [int(x.replace(",", "")) for x in m.groups()]
                elif line.startswith("Finished computing initial states"):
                    m = re.search(r": ([\d,]+) distinct", line)
                    init = int(m.group(1).replace(",", "")) if m else 0
                elif "states checked" in line or "traces generated" in line:
                    m = re.search(r"([\d,]+) states checked", line)
                    if m:
                        gen = int(m.group(1).replace(",", ""))
                elif line.startswith("Error:") or "Exception" in line:
                    errors.append(line.strip())
        if judging and any("verflow" in e for e in errors):
            # arithmetic on a recorded result that is far beyond any right one (and beyond 32 bits)
            at = [int(x) for x in re.findall(r"^(?:/\\ )?l = (-?\d+)\s*$", open(out_path, errors="replace").read(), re.M)]
            if at:
                line = -at[-1] if at[-1] < 0 else at[-1] + 1
                printed.append({"fail": "", "line": line, "clause": "a result is within the range of numbers asked for"})
                return printed, gen, dist, init, time.time() - t
        if p.returncode != 0 or errors:
            tail = subprocess.run(["tail", "-n", "40", out_path], capture_output=True, text=True).stdout
            raise ToolError("TLC failed on %s (exit %s)\n%s" % (name or module, p.returncode, tail))
        return printed, gen, dist, init, time.time() - t

    def design(self, module, spec, constants, lines, what, name=None, **kw):
        """Model checks the specification itself (an error here is an error of the check)."""
        _, gen, dist, _, dt = self.tlc(module, spec, constants, lines, name=name, **kw)
        self.states += dist
        self.transitions += gen
        self.parts.append({"kind": "model checking", "module": module, "what": what,
                           "constants": list(constants), "transitions": gen, "states": dist,
                           "seconds": round(dt, 1)})
        self.exhaustive.append(what)

    def generate(self, module, spec, constants, lines, what, **kw):
        """Histories printed by the model checker, one per transition it explored."""
        path = self.path("histories.ndjson")
        with open(path, "w") as sink:
            _, gen, dist, _, dt = self.tlc(module, spec, constants, lines, sink=sink, **kw)
        n = sum(1 for _ in open(path))
        self.states += dist
        self.transitions += gen
        self.parts.append({"kind": "histories generated by TLC", "module": module, "what": what,
                           "constants": list(constants), "transitions": gen, "states": dist,
                           "histories": n, "seconds": round(dt, 1)})
        if n == 0:
            raise ToolError("TLC generated no histories")
        return path

    # ---- the executor ----------------------------------------------------------------------
    def execute(self, *args, timeout=600):
        """Runs the executor; returns the trace file.  A call that killed the process or never
        returned becomes a last event with k = "dead"."""
        out = self.path("trace.ndjson")

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        cmd = [EXEC] + [str(a) for a in args] + ["--out", out]
        env = dict(os.environ, KAMI_EXEC_HANG_S="20", KAMI_EXEC_SCRATCH=self.work)
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env,
                           preexec_fn=limits, timeout=timeout)
        if r.returncode != 0:
            journal = open(out + ".journal").read() if os.path.exists(out + ".journal") else ""
            if not journal.strip():
                raise ToolError("the executor failed (%s) outside of a library call: %s\n%s" % (
                    r.returncode, " ".join(cmd), r.stderr.decode(errors="replace")[-2000:]))
            ev = json.loads(journal)
            last = None
            with open(out) as f:
                lines = f.readlines()
            if lines and not lines[-1].endswith("\n"):
                lines.pop()
            if lines:
                last = json.loads(lines[-1])
            if "N" in ev and last is not None:
                ev["N"], ev["E"] = last["N"], last["E"]
            ev["k"] = "dead"
            lines.append(json.dumps(ev) + "\n")
            with open(out, "w") as f:
                f.writelines(lines)
            self.dead = True
        return out

    # ---- judging ---------------------------------------------------------------------------
    def judge(self, trace, module, spec, constants, what, start_ops=("init", "state"), shard_events=12000,
              command=None, timeout=800):
        """Validates a recorded trace file against a trace specification, in parallel shards."""
        with open(trace) as f:
            lines = f.readlines()
        if not lines:
            raise ToolError("empty trace: " + what)
        starts = []
        for l in lines:
            o, k, d = (re.search(r'"%s":\s*"([^"]*)"' % x, l) for x in ("op", "k", "kind"))
            key = "%s: %s" % (o.group(1) if o else "?", k.group(1) if k else "?")
            self.meter[key] = self.meter.get(key, 0) + 1
            if d:
                self.meter[d.group(1)] = self.meter.get(d.group(1), 0) + 1
        for i, l in enumerate(lines):
            m = re.search(r'"op":\s*"(\w+)"', l) if start_ops else None
            if start_ops is None or (m and m.group(1) in start_ops):
                starts.append(i)
        if not starts or starts[0] != 0:
            raise ToolError("trace does not start with a start event: " + what)
        n = max(1, min(JOBS, len(lines) // shard_events + 1))
        cuts = [0]
        for k in range(1, n):
            want = len(lines) * k // n
            c = next((s for s in starts if s >= want), None)
            if c is not None and c > cuts[-1]:
                cuts.append(c)
        cuts.append(len(lines))
        shards = []
        for a, b in zip(cuts, cuts[1:]):
            p = self.path("shard.ndjson")
            with open(p, "w") as f:
                f.writelines(lines[a:b])
            shards.append((p, a, b))
        w = max(1, JOBS // len(shards))

        def one(sh):
            p, a, b = sh
            printed, gen, dist, init, dt = self.tlc(
                module, spec, list(constants) + ['TraceFile = "%s"' % p], workers=w, timeout=timeout,
                heap="3g", name=module + "-judge", judging=True)
            return sh, printed, gen, dist - (init if start_ops is None else 0), dt

        t = time.time()
        with ThreadPoolExecutor(len(shards)) as ex:
            results = list(ex.map(one, shards))
        judged = 0
        nfail = 0
        for (p, a, b), printed, gen, dist, dt in results:
            self.states += dist
            self.transitions += gen
            judged += dist
            for x in printed:
                if "fail" in x:
                    nfail += 1
                    self.fail(what, x.get("clause", "?"), lines, a + x["line"] - 1, starts, command)
                elif "stop" in x:
                    nfail += 1
                elif "meter" in x:
                    for key, v in x["meter"].items():
                        self.meter[key] = self.meter.get(key, 0) + v
        if judged < len(lines) and not nfail and not self.dead:
            raise ToolError("%s: only %d of %d recorded events were judged" % (what, judged, len(lines)))
        self.traces += len(starts)
        self.events += len(lines)
        self.parts.append({"kind": "trace validation", "module": module, "what": what,
                           "histories": len(starts), "events": len(lines),
                           "seconds": round(time.time() - t, 1)})
        for i in (0, len(starts) // 2):
            a = starts[i]
            b = min(a + 3, starts[i + 1] if i + 1 < len(starts) else len(lines))
            ev = min(lines[a:b][-2:], key=len)
            self.samples.append({"part": what, "events": json.loads(ev) if len(ev) < 4000 else ev[:4000]})
        os.remove(trace)
        for p, a, b in shards:
            os.remove(p)

    def fail(self, what, clause, lines, at, starts, command):
        if len(self.failures) >= 200:
            return
        import bisect
        k = bisect.bisect_right(starts, at) - 1
        hist = [json.loads(l) for l in lines[starts[k]:at + 1]]
        self.failures.append({"part": what, "clause": clause, "history": hist, "command": command})

    # ---- verdict ---------------------------------------------------------------------------
    def finish(self, level="model_checking", assumptions=(), extra=None):
        known = load_findings(self.prop)
        new, old = [], []
        for f in self.failures:
            key = finding_key(f)
            (old if key in known else new).append((key, f))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "events_validated": self.events,
               "samples": self.samples[:8], "parts": self.parts}
        if self.meter:
            cov["situations"] = self.meter
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": list(assumptions),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for key in sorted({k for k, _ in old}):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, key))
        shutil.rmtree(self.work, ignore_errors=True)
        if new:
            rp = os.path.join(VERIF, "evidence", self.prop + ".replay.json")
            new.sort(key=lambda kf: len(kf[1]["history"]))
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                           "violations": [dict(x, key=k) for k, x in new[:20]]}, f, indent=1)
            for c in sorted({x["clause"] for _, x in new}):
                print("  %s: %s" % (self.prop, c))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("%s held: %d histories of the library (%d events) validated, %d states / %d transitions "
              "of the specification, %.0f s" % (self.prop, self.traces, self.events, self.states,
                                                self.transitions, time.time() - self.t0))
        return 0


def finding_key(f):
    """Identifies a failure by what was asked of the library and which clause it failed."""
    last = f["history"][-1]
    return "%s | %s %s" % (f["clause"], last.get("op"), json.dumps(last.get("a"), separators=(",", ":")))


def load_findings(prop):
    out = set()
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.add(m.group(2).strip())
    return out
