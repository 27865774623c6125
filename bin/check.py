#!/usr/bin/env python3
"""Decides one property: model-check the specification, drive the real code (with the behaviours the
specification generated and with recorded runs of its own), and validate what the real code did
against the specification with TLC.

usage: check.py ID [--tier quick|thorough] [--seed N] [--keep]
exit 0: the property held on everything explored; 1: VIOLATION; 2: the check itself failed."""
from concurrent.futures import ThreadPoolExecutor
import fcntl, json, os, re, resource, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from plan import PLAN, TOPICS  # noqa: E402

SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "harness", "target")
# with debug assertions and overflow checks, and without them (as in a release)
PROFILES = {"dev": "debug", "plain": "plain"}
CONFORM = {p: os.path.join(TARGET, d, "conform") for p, d in PROFILES.items()}


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def build():
    """Rebuild the code under test from /repo's working tree, whatever its time stamps say."""
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
    env.pop("RUSTC_WRAPPER", None)
    os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
    with open(os.path.join(ROOT, "out", "build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = os.path.join(ROOT, "harness")
        if os.path.isdir(TARGET):
            for p in PROFILES:
                subprocess.run(["cargo", "clean", "--offline", "-p", "rusty_genes", "--profile", p], cwd=h, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        rs = [subprocess.Popen(["cargo", "build", "--offline", "--locked", "--profile", p], cwd=h, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for p in PROFILES]
        outs = [r.communicate()[0] for r in rs]
    for r, out in zip(rs, outs):
        if r.returncode:
            raise ToolError("the harness does not build:\n" + out[-4000:])


def tlc(module, cfg, work, tag, env=None, heap="6g", workers=8, timeout=3000, simulate=None):
    """Runs TLC; returns its output."""
    md = os.path.join(work, "md-" + tag)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:/opt/veriftools/tla/CommunityModules.jar",
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md, "-config", cfg]
    if simulate:
        cmd += ["-simulate", simulate, "-depth", "300", "-seed", "1"]
    cmd.append(module + ".tla")
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout


def counts(out):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


def model_check(mc, tier, work, ev):
    """Checks the specification itself. Returns the behaviours it emitted for the replay."""
    module = mc["module"]
    cfg = mc["cfg"]
    text = open(os.path.join(SPEC, cfg)).read()
    sub = dict(mc["sub"], **(mc["deep"] if tier == "thorough" else {}))
    sim = mc["sim"] and f"num={mc['sim'][tier == 'thorough']}"
    for k, v in sub.items():
        text, n = re.subn(r"(?m)^(\s*%s\s*)(=|<-).*$" % k, lambda m: f"{m.group(1)}{m.group(2)} {v}", text)
        if n != 1:
            raise ToolError(f"no constant {k} in {cfg}")
    path = os.path.join(work, cfg)
    with open(path, "w") as f:
        f.write(text)
    rc, out = tlc(module, path, work, "mc-" + cfg, simulate=sim, heap="12g")
    gen, dis = counts(out)
    if mc["broken"]:
        if f"Invariant {mc['broken']} is violated" not in out:
            raise ToolError(f"TLC finds nothing wrong with {module} ({cfg}) where {sub}:\n{out[-2000:]}")
        ev["design_models"].append({"module": module, "cfg": cfg, "constants": sub, "violates": mc["broken"], "as_expected": True})
        log(f"  spec {module} ({cfg}) with {sub}: violates {mc['broken']}, as it should")
        return []
    if sim:
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        gen = dis = int(m[-1].replace(",", "")) if m else 0
    if rc != 0 or "Error:" in out or not (sim or "No error has been found" in out) or dis == 0:
        raise ToolError(f"the specification {module} fails its own check ({cfg}):\n" +
                        "\n".join(x for x in out.splitlines() if not x.startswith('"'))[-3000:])
    lines = {json.loads(x)[len("REPLAY "):] for x in out.splitlines() if x.startswith('"REPLAY ')}
    ev["states"] += dis
    ev["transitions"] += gen
    ev["design_models"].append({"module": module, "cfg": cfg, "constants": sub, "states": dis, "generated": gen,
                                "exhaustive": not sim, "behaviours_emitted": len(lines)})
    log(f"  spec {module} ({cfg}): {dis} states{' simulated' if sim else ''}, no error; {len(lines)} behaviours to replay")
    return sorted(lines)


def preexec():
    lim = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def save_replay(pid, data):
    d = os.path.join(ROOT, "out", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}-{data['topic']}.json")
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p


def record(topic, tier, seed, work, lines, pid, profile="dev"):
    trace = os.path.join(work, f"{topic}.{profile}.ndjson")
    rep = os.path.join(work, f"{topic}.{profile}.replay")
    with open(rep, "w") as f:
        f.write("\n".join(lines) + ("\n" if lines else ""))
    try:
        r = subprocess.run([CONFORM[profile], topic, trace, str(seed), tier, rep], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=preexec, timeout=2400)
    except subprocess.TimeoutExpired:
        raise ToolError(f"the harness timed out ({topic})")
    base = {"property": pid, "topic": topic, "seed": seed, "tier": tier, "profile": profile,
            "rerun": f"VERIF_SEED={seed} VERIF_TIER={tier} python3 bin/check.py {pid}"}
    if r.returncode == 3:
        what = open(trace + ".hang").read()
        raise Violation(f"the code under test does not come back: {what}",
                        save_replay(pid, dict(base, kind="hang", case=what)))
    if r.returncode == 4:
        raise Violation(f"the code under test panics, or answers what no driver can go on with: {r.stdout[-1000:]}",
                        save_replay(pid, dict(base, kind="panic", case=r.stdout[-3000:])))
    if r.returncode < 0 or r.returncode == 134:
        what = r.stdout[-1500:]
        cur = trace + ".at"
        at = open(cur).read() if os.path.exists(cur) else ""
        raise Violation(f"the code under test dies (status {r.returncode}): {at} {what}",
                        save_replay(pid, dict(base, kind="crash", case=at + what)))
    if r.returncode != 0:
        raise ToolError(f"the harness failed ({topic}, status {r.returncode}):\n{r.stdout[-3000:]}")
    return trace, base


def drive(topic, tier, seed, work, lines, pid, ev):
    """Both builds of the code, at the same time; what both did is validated together."""
    with ThreadPoolExecutor() as pool:
        jobs = [pool.submit(record, topic, tier, seed + 500 * i, work, lines, pid, p) for i, p in enumerate(PROFILES)]
    (trace, base), (other, other_base) = [j.result() for j in jobs]
    with open(trace) as f:
        base["others"] = sum(1 for _ in f), other_base
    with open(trace, "ab") as f, open(other, "rb") as g:
        shutil.copyfileobj(g, f)
    os.unlink(other)
    validate(topic, trace, base, work, pid, ev)


def validate(topic, trace, base, work, pid, ev, complete=True):
    t = TOPICS[topic]
    own, other = base.pop("others", (1 << 60, None))
    cfg = os.path.join(work, topic + ".cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK TRUE\n")
        f.write('CONSTANT Prop = "%s"\n' % pid)
        f.write(t.get("cfg", ""))
    rc, out = tlc(t["module"], cfg, work, "tr-" + topic, env={"TRACE": trace}, heap="10g")
    gen, dis = counts(out)
    if "Deadlock reached" in out:
        cs = re.findall(r"^(?:/\\ )?c = (\d+)", out, re.M)
        ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
        c, l = int(cs[-1]), int(ls[-1])
        with open(trace) as f:
            line = next(x for i, x in enumerate(f, 1) if i == c)
        case = json.loads(line)
        event = case["ev"][l]
        i = out.rfind("State ")
        data = dict(base if c <= own else other, kind="rejected trace", case=case, event_number=l + 1, event=event,
                    spec_state=out[i:i + 3000].split("\n\n")[0])
        p = save_replay(pid, data)
        raise Violation(f"the specification {t['module']} has no transition for event {l + 1} of "
                        f"{case.get('id')}: {json.dumps(event)[:600]}", p)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError(f"TLC failed on the recorded traces ({t['module']}):\n{out[-3500:]}")
    n, kinds, samples = 0, {}, []
    with open(trace) as f:
        for line in f:
            n += 1
            case = json.loads(line)
            for e in case["ev"]:
                kinds[e["k"]] = kinds.get(e["k"], 0) + 1
            if len(samples) < 2 and len(line) < 1500 and n % 97 == 5:
                samples.append(case)
    events = sum(kinds.values())
    # vacuity guard: every case was followed to its end (one state per event, plus the initial one)
    if t.get("exact", True) and dis != events + n:
        raise ToolError(f"{t['module']}: {dis} states for {events} events in {n} cases")
    missing = [k for k in t.get("need", []) if not kinds.get(k)]
    if missing and complete:
        raise ToolError(f"{topic}: no event of kind {missing} was recorded")
    ev["states"] += dis
    ev["transitions"] += gen
    ev["traces_validated_against_impl"] += n
    ev["events_validated"] = ev.get("events_validated", 0) + events
    ev["trace_specs"].append({"topic": topic, "module": t["module"], "traces": n, "events": kinds, "states": dis,
                              "seeds": [base["seed"]] + ([other["seed"]] if other else []),
                              "builds": [base["profile"]] + ([other["profile"]] if other else [])})
    ev["samples"] += samples
    log(f"  code vs {t['module']}: {n} traces with {events} events accepted")


MORE_ROUNDS, MORE_SECONDS = 10, 420


def main():
    pid = sys.argv[1]
    opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    tier = opt.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(opt.get("--seed") or os.environ.get("VERIF_SEED") or 1)
    plan = PLAN[pid]
    t0 = time.time()
    work = os.path.join(ROOT, "out", f"work-{pid}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    ev = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
          "design_models": [], "trace_specs": []}
    rc, violations = 0, 0
    try:
        build()
        log(f"{pid}: harness built from /repo ({time.time() - t0:.0f} s)")
        emitted = {}
        for mc in plan["mc"]:
            if tier not in mc["tiers"]:
                continue
            lines = model_check(mc, tier, work, ev)
            if mc.get("to"):
                emitted.setdefault(mc["to"], []).extend(lines)
        for topic in plan["topics"]:
            lines = emitted.get(topic, [])
            if tier == "quick":
                drive(topic, tier, seed, work, lines, pid, ev)
                continue
            for profile, how, seen in [("dev", tier, lines), ("plain", "quick", lines[::len(lines) // 8000 + 1])]:
                trace, base = record(topic, how, seed, work, seen, pid, profile)
                validate(topic, trace, base, work, pid, ev)
                os.unlink(trace)
        # the thorough tier goes on with other random histories while there is time
        more, one = 0, 0
        while tier == "thorough" and more < MORE_ROUNDS and time.time() - t0 + 1.5 * one < MORE_SECONDS:
            more, t1 = more + 1, time.time()
            for topic in plan["topics"]:
                trace, base = record(topic, tier, seed + 1000 * more, work, [], pid, ["dev", "plain"][more % 2])
                validate(topic, trace, base, work, pid, ev, complete=False)
                os.unlink(trace)
            one = time.time() - t1
        log(f"{pid}: held on everything explored")
    except Violation as v:
        log(f"{pid}: {v.what}")
        log(f"VIOLATION property={pid} replay={v.replay}")
        rc, violations = 1, 1
    except ToolError as e:
        log(f"{pid}: THE CHECK FAILED: {e}")
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not ev["samples"]:
        ev["samples"] = [{"note": "no trace was accepted in this run"}]
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
                   "coverage": ev, "assumptions": plan.get("assume", []),
                   "wall_s": round(time.time() - t0, 1), "violations": violations}, f, indent=1)
    sys.exit(rc)


main()
