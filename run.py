#!/usr/bin/env python3
"""Check runner: record traces from the real library, validate them against the TLA+
specification with TLC, explore the small-scope models with TLC and replay their
behaviours into the library.  See DESIGN.md.

  run.py check PROP [--tier quick|thorough]
  run.py replay FILE          validate a saved trace again (from a VIOLATION line)
"""
import json, os, re, subprocess, sys, time, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
TARGET = os.environ.get("VX_TARGET", REPO + "/target")
SPECS = VERIF + "/specs"
WORK = os.environ.get("VX_WORK", VERIF + "/work")
sys.path.insert(0, VERIF + "/tools")
from props import PROPS  # noqa: E402

MEM_KB = 12_000_000
REC_TIMEOUT = 300
TLC_TIMEOUT = 600


def sh_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                         capture_output=True).stdout.decode()
    for kv in out.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            env[k] = v
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_NET_OFFLINE"] = "true"
    return env


ENV = None


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


def build(crate):
    """(re)build a harness crate from /repo's current working tree"""
    d = f"{VERIF}/{crate}"
    r = subprocess.run(["cargo", "build", "--offline"], cwd=d, env=ENV, capture_output=True, text=True)
    if r.returncode != 0:
        print(r.stderr[-6000:])
        die(f"building {crate} failed")
    name = re.search(r'^name\s*=\s*"([^"]+)"', open(d + "/Cargo.toml").read(), re.M).group(1)
    return f"{TARGET}/debug/{name}"


def record(binary, args, out, timeout=REC_TIMEOUT):
    """run the recorder; returns None, or a description of how it ended abnormally"""
    for suffix in ("", ".progress"):
        if os.path.exists(out + suffix):
            os.remove(out + suffix)
    cmd = ["bash", "-c", f"ulimit -v {MEM_KB}; exec \"$@\"", "rec", binary, *map(str, args), "--out", out]
    try:
        r = subprocess.run(cmd, env=dict(ENV, VPANIC="0"), capture_output=True, timeout=timeout)
        rc, err = r.returncode, r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, err = "timeout", f"no answer within {timeout} s"
    if rc == 0:
        return None
    prog = "?"
    if os.path.exists(out + ".progress"):
        prog = open(out + ".progress").read().strip()
    return {"end": "hang" if rc == "timeout" else f"ended with {rc}", "during": prog, "stderr": err[-600:],
            "cmd": " ".join(map(str, args))}


def read_traces(path):
    out = []
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            if line.endswith("\n"):
                try:
                    out.append(json.loads(line))
                except ValueError:
                    break
    return out


def tlc(spec, cfg, trace=None, workers=8, extra_env=None, heap="8g", timeout=TLC_TIMEOUT, tag="x", args=()):
    md = f"{WORK}/md_{tag}_{os.getpid()}"
    shutil.rmtree(md, ignore_errors=True)
    env = dict(ENV, TLC_JAVA_OPTS=f"-Xmx{heap}", JAVA_TOOL_OPTIONS=f"-Xmx{heap} -Xss16m")
    if trace:
        env["VX_TRACE"] = trace
    env.update(extra_env or {})
    cmd = ["tlc", "-workers", str(workers), "-metadir", md, "-nowarning", *args, "-config", cfg, spec]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPECS, env=env, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        die(f"TLC on {spec} did not finish within {timeout} s")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = r.stdout.decode(errors="replace") + r.stderr.decode(errors="replace")
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    ok = "No error has been found" in out or "Model checking completed. No error" in out
    return {"ok": ok, "out": out, "generated": gen, "distinct": dist, "wall": round(time.time() - t0, 2)}


class Known:
    def __init__(self):
        self.entries = json.load(open(VERIF + "/known_findings.json"))["findings"]
        self.seen = {}

    def match(self, prop, e, verdict):
        for k in self.entries:
            if k.get("status") != "known" or prop not in k["property"]:
                continue
            if all(re.fullmatch(v, str(e.get(f, "")) if f != "verdict" else verdict, re.S)
                   for f, v in k["match"].items()):
                self.seen[k["id"]] = self.seen.get(k["id"], 0) + 1
                return k
        return None


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.known = Known()
        self.violations = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.verdicts = {}
        self.nviol = 0

    def violation(self, sig, what, replay_obj):
        self.nviol += 1
        if sig in self.violations:
            self.violations[sig][1] += 1
            return
        path = f"{WORK}/{self.prop}/violation-{len(self.violations) + 1}.ndjson"
        with open(path, "w") as f:
            f.write(json.dumps(replay_obj) + "\n")
        self.violations[sig] = [what, 1, path]

    def crash(self, c):
        e = {"o": "crash", "id": c["during"], "m": c["end"] + " " + c["stderr"]}
        if self.known.match(self.prop, e, "crash"):
            return
        self.violation(("crash", re.sub(r"\d+", "#", c["during"])),
                       f"the library {c['end']} while running {c['during']} ({c['cmd']}): {c['stderr'][-300:]}", c)

    def judge(self, traces, out, spec, targets):
        """read TLC's verdicts on recorded traces"""
        for t, l, v in re.findall(r'<<"NC", (\d+), (\d+), "([^"]*)">>', out):
            tr = traces[int(t) - 1]
            e = tr["lines"][int(l) - 1]
            if targets is not None and e["o"] not in targets:
                self.cov["outside_target"] = self.cov.get("outside_target", 0) + 1
                continue
            ev = dict(e, id=tr.get("id", ""))
            if self.known.match(self.prop, ev, v):
                continue
            sig = (e["o"], v, e.get("e"), re.sub(r"\d+", "#", str(e.get("m", ""))[:80]))
            self.violation(sig, f"trace {tr.get('id')} line {l}: {e['o']} on {e.get('d', e.get('e'))} is "
                           f"nonconforming: {v} {str(e.get('m', ''))[:200]}",
                           dict(tr, spec=spec, line=int(l), verdict=v, lines=tr["lines"][:int(l)]))

    def validate(self, traces, st, tag, sample=True):
        """check recorded traces against the trace specification"""
        if not traces:
            return
        path = f"{WORK}/{self.prop}/{tag}.ndjson"
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(t, separators=(",", ":")) + "\n")
        spec = st["spec"]
        r = tlc(spec + ".tla", st.get("cfg", spec + ".cfg"), trace=path, tag=tag)
        ends = re.findall(r'<<"END", (\d+), (\d+), (\d+)>>', r["out"])
        self.judge(traces, r["out"], spec, st.get("targets"))
        if not r["ok"]:
            if "OutOfMemory" in r["out"] or "StackOverflow" in r["out"]:
                die("TLC ran out of memory")
            m = re.findall(r"/\\ t = (\d+)", r["out"])
            k = int(m[-1]) - 1 if m else 0
            self.violation(("tlc", spec), f"the specification has no behaviour for recorded trace "
                           f"{traces[k].get('id')}: {r['out'][-800:]}", dict(traces[k], spec=spec))
        elif len(ends) != sum(1 for t in traces if t["lines"]):
            die(f"TLC finished {len(ends)} of {len(traces)} traces\n" + r["out"][-2000:])
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["traces_validated_against_impl"] += len(ends)
        self.cov["calls_checked"] = self.cov.get("calls_checked", 0) + sum(int(e[1]) for e in ends)
        self.cov["calls_skipped_or_gap"] = self.cov.get("calls_skipped_or_gap", 0) + sum(int(e[2]) for e in ends)
        if sample:
            self.cov["samples"] += [shorten(t) for t in traces[:: max(1, len(traces) // 2)][:2]]
        self.cov.setdefault("trace_specs", {})
        self.cov["trace_specs"][spec] = self.cov["trace_specs"].get(spec, 0) + len(ends)

    # ---- stages -------------------------------------------------------------
    def stage_trace(self, st):
        """record -> validate; shards run in parallel with seeds of their own"""
        q = self.tier == "quick"
        shards = st.get("shards", 8)
        rounds = 1 if q else st.get("rounds", 12)
        binary = build(st.get("crate", "harness"))
        for rnd in range(rounds):
            jobs = []
            for k in range(shards):
                seed = (self.seed * 1000 + rnd) * 100 + k
                out = f"{WORK}/{self.prop}/rec-{st['cmd']}-{k}.ndjson"
                args = [st["cmd"], "--seed", seed, "--shard", k, "--shards", shards]
                for a, v in (st.get("args", {}) if q else {**st.get("args", {}), **st.get("thorough_args", {})}).items():
                    args += [f"--{a}", v]
                jobs.append((binary, args, out))
            with cf.ThreadPoolExecutor(8) as ex:
                res = list(ex.map(lambda j: record(*j), jobs))
            traces = []
            for (b, a, out), c in zip(jobs, res):
                if c:
                    self.crash(c)
                traces += read_traces(out)
                os.path.exists(out) and os.remove(out)
            if not traces and not any(res):
                die(f"{st['cmd']} recorded no trace")
            self.validate(traces, st, f"{st['cmd']}-{rnd}", sample=rnd == 0)

    def stage_model(self, st):
        """TLC on a model; optionally its behaviours, as traces, into the library"""
        q = self.tier == "quick"
        cfg = st["cfg"] if q else st.get("thorough_cfg", st["cfg"])
        beh = f"{WORK}/{self.prop}/beh-{st['spec']}.ndjson"
        if os.path.exists(beh):
            os.remove(beh)
        r = tlc(st["spec"] + ".tla", cfg, tag=st["spec"], extra_env={"VX_BEH": beh},
                workers=st.get("workers", 8), timeout=st.get("timeout", 800), args=st.get("tlc_args", ()))
        if not r["ok"]:
            die(f"the model {st['spec']} violates its own properties:\n" + r["out"][-3000:])
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        key = cfg.removesuffix(".cfg")
        self.cov.setdefault("models", {})[key] = { "distinct": r["distinct"],
                                                         "generated": r["generated"], "wall_s": r["wall"]}
        if "replay" in st:
            lines = []
            for m in re.finditer(r'<<"BEH", "((?:[^"\\]|\\.)*)">>', r["out"]):
                lines.append(json.loads('"' + m.group(1) + '"'))
            lines = sorted(set(lines))
            if not lines:
                die(f"{st['spec']} exported no behaviour")
            with open(beh, "w") as f:
                f.write("\n".join(lines) + "\n")
            self.cov["models"][key]["behaviours_exported"] = len(lines)
            sub = st["replay"]
            while sub:
                sub = dict(sub)
                sub["args"] = {**sub.get("args", {}), "beh": beh}
                sub["rounds"] = sub.get("rounds", 1)
                self.stage_trace(sub)
                sub = sub.get("then")

    def run(self):
        t0 = time.time()
        spec = PROPS[self.prop]
        os.makedirs(f"{WORK}/{self.prop}", exist_ok=True)
        for f in os.listdir(f"{WORK}/{self.prop}"):
            os.remove(f"{WORK}/{self.prop}/{f}")
        for st in spec["stages"]:
            if self.violations and time.time() - t0 > 240:
                break  # reported already; whatever hangs once would hang in every stage
            if st.get("tier") in (None, self.tier):
                try:
                    getattr(self, "stage_" + st["kind"])(st)
                except SystemExit:
                    if not self.violations:
                        raise
        for f in os.listdir(f"{WORK}/{self.prop}"):
            if not f.startswith("violation") and not os.environ.get("VX_KEEP"):
                os.remove(f"{WORK}/{self.prop}/{f}")
        self.cov["nonconforming_calls"] = self.nviol
        self.cov["known_findings_seen"] = self.known.seen
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": spec["level"],
              "coverage": self.cov, "wall_s": round(time.time() - t0, 1)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known.entries:
            if k.get("status") == "known" and self.prop in k["property"]:
                n = self.known.seen.get(k["id"], 0)
                print(f"KNOWN-FINDING: property={self.prop} {k['id']}: {k['what']} "
                      f"({'seen %d times in this run' % n if n else 'not exercised in this run'})")
        print(f"{self.prop} {self.tier}: {self.cov['traces_validated_against_impl']} traces, "
              f"{self.cov.get('calls_checked', 0)} calls checked, {self.cov['states']} states, {ev['wall_s']} s")
        for what, n, path in list(self.violations.values())[:12]:
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  ({n}x) {what}")
        return 1 if self.violations else 0


def shorten(t):
    s = json.dumps(t)
    if len(s) <= 1500:
        return t
    return {"id": t.get("id"), "lines": len(t["lines"]), "text": s[:1200] + "..."}


def replay(path):
    t = read_traces(path)[0]
    if "lines" not in t:
        print(json.dumps(t, indent=1))
        return 1
    os.makedirs(WORK, exist_ok=True)
    r = tlc(t["spec"] + ".tla", t["spec"] + ".cfg", trace=os.path.abspath(path), tag="replay", workers=1)
    print(r["out"][-3000:])
    bad = re.findall(r'<<"NC", (\d+), (\d+), "([^"]*)">>', r["out"])
    for _, l, v in bad:
        print("nonconforming line", l, v, json.dumps(t["lines"][int(l) - 1])[:2000])
    return 1 if bad or not r["ok"] else 0


def main():
    global ENV
    ENV = sh_env()
    if len(sys.argv) < 3:
        print(__doc__)
        sys.exit(2)
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(Check(sys.argv[2], tier, seed).run())


if __name__ == "__main__":
    main()
