#!/usr/bin/env python3
"""corrupt.py [-j N] [-k SAMPLES] [-p PROP] TOPIC...: records the traces of the topics, alters single values in copies of their
cases, and reports which kinds of alterations the trace specification accepts. What is accepted is recorded but not judged
(or the alteration made another legal history), so this shows where the binding is loose."""
import json, os, random, subprocess, sys, collections, concurrent.futures as cf, tempfile, copy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import plan
JAR = "/opt/veriftools/tla/"
a = sys.argv[1:]; J = 6; K = 4; prop = "ALL"; topics = []
while a:
    x = a.pop(0)
    if x == "-j": J = int(a.pop(0))
    elif x == "-k": K = int(a.pop(0))
    elif x == "-p": prop = a.pop(0)
    else: topics.append(x)
rnd = random.Random(1)


def paths(v, at=()):
    """(generalised path, concrete path) of every scalar and list below v"""
    if isinstance(v, dict):
        for k, w in v.items():
            yield from paths(w, at + (k,))
    elif isinstance(v, list):
        yield at
        for i, w in enumerate(v[:40]):
            yield from paths(w, at + (i,))
    else:
        yield at


def general(p): return ".".join("#" if isinstance(x, int) else x for x in p)
def get(v, p):
    for x in p: v = v[x]
    return v
def put(v, p, w):
    for x in p[:-1]: v = v[x]
    v[p[-1]] = w


def altered(w):
    if isinstance(w, bool): return [not w]
    if w in (0, 1): return [1 - w]
    if isinstance(w, int): return [w + 1 + abs(w) // 2, w - 1 - abs(w) // 2]
    if isinstance(w, str): return [w + "x"]
    if isinstance(w, list):
        out = []
        if w: out += [w[:-1], w + [w[-1]]]
        if len(w) > 1 and w[0] != w[-1]: out += [w[::-1]]
        return out
    return []


def check(module, case, tmp, n):
    d = os.path.join(tmp, str(n)); os.mkdir(d)
    with open(d + "/t.ndjson", "w") as f: f.write(json.dumps(case) + "\n")
    with open(d + "/t.cfg", "w") as f: f.write(f'SPECIFICATION Spec\nCHECK_DEADLOCK TRUE\nCONSTANT Prop = "{prop}"\n')
    r = subprocess.run(["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xmx1g", "-Xss32m", "-cp",
                        JAR + "tla2tools.jar:" + JAR + "CommunityModules-deps.jar:" + JAR + "CommunityModules.jar", "tlc2.TLC", "-noGenerateSpecTE",
                        "-workers", "1", "-metadir", d + "/m", "-config", d + "/t.cfg", module + ".tla"],
                       cwd=os.path.join(ROOT, "spec"), env=dict(os.environ, TRACE=d + "/t.ndjson"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    subprocess.run(["rm", "-rf", d])
    if "Deadlock reached" in r.stdout: return "rejected"
    if "No error has been found" in r.stdout: return "accepted"
    return "error"  # the alteration left the types of the specification


for topic in topics:
    module = plan.TOPICS[topic]["module"]
    with tempfile.TemporaryDirectory() as tmp:
        t = os.path.join(tmp, "trace")
        open(tmp + "/none", "w").close()
        subprocess.run([os.path.join(ROOT, "harness/target/debug/conform"), topic, t, "1", "quick", tmp + "/none"], check=True, stdout=subprocess.DEVNULL)
        cases = [json.loads(x) for x in open(t)]
        cases = [c for c in cases if len(json.dumps(c)) < 200_000]
        rnd.shuffle(cases)
        todo = collections.defaultdict(list)
        for c in cases[:400]:
            evs = list(range(len(c["ev"]))); rnd.shuffle(evs)
            for e in evs[:25]:
                seen = set()
                ps = list(paths(c["ev"][e])); rnd.shuffle(ps)
                for p in ps:
                    key = (c["ev"][e]["k"], general(p))
                    if not p or p == ("k",) or key in seen or len(todo[key]) >= K: continue
                    seen.add(key)
                    ws = altered(get(c["ev"][e], p))
                    if not ws: continue
                    d = copy.deepcopy(c); d["ev"] = d["ev"][:e + 400]
                    put(d["ev"][e], p, rnd.choice(ws))
                    todo[key].append(d)
        jobs = [(k, d) for k, ds in todo.items() for d in ds]
        res = collections.defaultdict(collections.Counter)
        with cf.ThreadPoolExecutor(J) as ex:
            fs = {ex.submit(check, module, d, tmp, n): k for n, (k, d) in enumerate(jobs)}
            for f in cf.as_completed(fs): res[fs[f]][f.result()] += 1
        print(f"== {topic} ({module}): {len(jobs)} alterations of {len(res)} places", flush=True)
        for k in sorted(res):
            if res[k]["accepted"]: print("   accepted", f"{res[k]['accepted']}/{sum(res[k].values())}", k[0], k[1], flush=True)
