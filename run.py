#!/usr/bin/env python3
"""Decides one property: run.py <property id>.

1. TLC checks the model(s) of the part of the system the property is about.
2. The harness is built from /repo's working tree and executes generated
   scenarios (and scripts TLC found in the model) against the real code.
3. TLC validates every recorded trace against the contract.

Exit 0: held on everything explored, 1: violated by the real code (with a
VIOLATION line), 2: the check itself failed.
"""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
           PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
           GOMODCACHE=os.environ.get("GOMODCACHE", "/root/go/pkg/mod"))


class ToolError(Exception):
    pass


def cpus():
    try:
        return sorted(os.sched_getaffinity(0))
    except AttributeError:
        return list(range(os.cpu_count() or 1))


CPUS = cpus()
T0 = time.time()


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, work, extra=(), env=None, timeout=600, workers=None, heap="6g"):
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers or len(CPUS)),
           "-metadir", meta, "-noTE", "-config", cfg, *extra, module]
    p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout, errors="replace")
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def stats(out):
    m = re.findall(r"([\d,]+) states generated(?: \(.*?\))?, ([\d,]+) distinct states found", out)
    if not m:
        m2 = re.findall(r"([\d,]+) states generated", out)
        n = int(m2[-1].replace(",", "")) if m2 else 0
        return n, n
    a, b = m[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))


def write_cfg(work, name, m):
    lines = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE"]
    if m.get("view", True):
        lines.append("VIEW view")
    if m.get("inv"):
        lines.append("INVARIANTS " + " ".join(m["inv"]))
    if m.get("props"):
        lines.append("PROPERTIES " + " ".join(m["props"]))
    if m.get("constraint"):
        lines.append("CONSTRAINT " + m["constraint"])
    if m["const"]:
        lines.append("CONSTANTS")
        lines += [f"  {k} = {v}" for k, v in m["const"].items()]
    p = os.path.join(work, name + ".cfg")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    return p


def check_model(name, work, res):
    m = plan.MODELS[name]
    rc, out = tlc(m["module"] + ".tla", write_cfg(work, name, m), work, timeout=plan.TLC_TIMEOUT)
    if "No error has been found" not in out:
        tail = "\n".join(out.splitlines()[-60:])
        raise ToolError(f"model {name}: TLC did not confirm the model\n{tail}")
    g, d = stats(out)
    res["states"] += d
    res["transitions"] += g
    res["models"].append({"model": name, "module": m["module"], "distinct_states": d, "transitions": g,
                          "constants": {k: str(v) for k, v in m["const"].items()}})
    log(f"model {name}: {d} states, {g} transitions, ok")


def check_controls(names, work, res):
    """Models with a seeded mistake: the contract has to reject every one."""
    for name, bug in names:
        m = dict(plan.MODELS[name])
        m["const"] = dict(m["const"], BUG=f'"{bug}"')
        rc, out = tlc(m["module"] + ".tla", write_cfg(work, name + "_" + bug, m), work, timeout=plan.TLC_TIMEOUT)
        if "is violated" not in out:
            raise ToolError(f"negative control {name}/{bug}: the contract accepts it")
        res["controls"].append(f"{name}/{bug}")
        log(f"negative control {name}/{bug}: rejected, as it has to be")


def gen_scripts(name, work, seed, num, depth):
    """Environment behaviours of a model, as JSON lines."""
    m = dict(plan.MODELS[name])
    m["inv"] = ["Script"]
    m["view"] = False
    rc, out = tlc(m["module"] + ".tla", write_cfg(work, name + "_sim", m), work,
                  extra=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)], workers=1, timeout=300)
    seen = set()
    for l in out.splitlines():
        if l.startswith('<<"SCRIPT", '):
            s = l[len('<<"SCRIPT", '):-2]
            seen.add(json.loads(s))   # a TLA+ string literal is a JSON one
    if not seen:
        raise ToolError(f"no scripts generated from {name}\n" + "\n".join(out.splitlines()[-30:]))
    # keep the maximal ones only
    ordered = sorted(seen)
    keep = [s for i, s in enumerate(ordered) if not (i + 1 < len(ordered) and ordered[i + 1].startswith(s[:-1] + ","))]
    # and the longer half of them
    keep.sort(key=lambda s: s.count("["), reverse=True)
    keep = keep[:max(1, len(keep) // 2)]
    random.Random(seed).shuffle(keep)
    return keep


# ---------------------------------------------------------------- harness

def build(work):
    bin_ = os.path.join(work, "vharness.test")
    src = os.path.join(VERIF, "harness")
    p = subprocess.run(["go", "test", "-c", "-o", bin_, "."], cwd=src, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("building the harness against /repo failed:\n" + p.stdout)
    return bin_


REPO_FRAME = re.compile(r"^\s+/repo/\S+\.go:\d+", re.M)


def crash_of_repo(err):
    """Whether a Go process died inside the code under test."""
    i = max(err.find("\npanic: "), err.find("\nfatal error: "))
    if err.startswith("panic: ") or err.startswith("fatal error: "):
        i = 0
    if i < 0:
        return False
    rest = err[i:]
    j = rest.find("\n\ngoroutine ")
    if j < 0:
        return False
    first = rest[j + 2:].split("\n\n")[0]
    # "created by" names the spawner and does not count
    body = first.split("\ncreated by ")[0]
    return bool(REPO_FRAME.search(body)) or "stack overflow" in rest[:200] and "/repo/" in rest


class Shard:
    def __init__(self, track, k, fams, lo, hi, env, cpu):
        self.track, self.k, self.fams, self.lo, self.hi, self.env, self.cpu = track, k, fams, lo, hi, env, cpu


def run_shard(bin_, work, s, seed, timeout):
    out = os.path.join(work, f"{s.track}{s.k}.ndjson")
    mark = out + ".mark"
    env = dict(ENV, VH_MODE=s.track, VH_FAMS=",".join(s.fams), VH_FROM=str(s.lo), VH_TO=str(s.hi), VH_SEED=str(seed), VH_OUT=out,
               VH_MARK=mark, GOMAXPROCS=str(s.env.get("GOMAXPROCS", 1)), **{k: v for k, v in s.env.items() if k != "GOMAXPROCS"})

    def pre():
        try:
            os.sched_setaffinity(0, s.cpu)
        except OSError:
            pass
    try:
        p = subprocess.run([bin_, "-test.timeout=0"], env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors="replace", preexec_fn=pre)
        return out, mark, p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return out, mark, "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def run_track(bin_, work, track, cfg, seed, n, scripts, timeout):
    """Executes the scenarios of one track; returns traces and crashes."""
    fams = cfg["fams"]
    jobs = max(1, min(len(CPUS), 8))
    total = n
    shards = []
    per = max(1, (total + jobs - 1) // jobs)
    # ranges are multiples of the number of families, so that all get all
    per = ((per + len(fams) - 1) // len(fams)) * len(fams)
    env = {k: str(v) for k, v in cfg.get("env", {}).items()}
    if scripts:
        p = os.path.join(work, track + ".scripts")
        with open(p, "w") as f:
            f.write("\n".join(scripts) + "\n")
        env["VH_SCRIPTS"] = p
    for k in range(jobs):
        lo, hi = k * per, min((k + 1) * per, ((total + len(fams) - 1) // len(fams)) * len(fams))
        if lo >= hi:
            break
        cpu = {CPUS[k % len(CPUS)], CPUS[(k + 1) % len(CPUS)]}
        e = dict(env)
        if cfg.get("par") and k % 4 == 3:
            # some on more processors
            cpu = {CPUS[(k + i) % len(CPUS)] for i in range(3)}
            e["GOMAXPROCS"] = "3"
        shards.append(Shard(track, k, fams, lo, hi, e, cpu))
    crashes, files, errs = [], [], []
    with ThreadPoolExecutor(len(shards)) as ex:
        for s, (out, mark, rc, err) in zip(shards, ex.map(lambda s: run_shard(bin_, work, s, seed, timeout), shards)):
            files.append(out)
            if rc != 0:
                where = open(mark).read() if os.path.exists(mark) else "?"
                if rc == "timeout":
                    errs.append(f"{track} shard {s.k} timed out in {where}")
                elif crash_of_repo(err):
                    crashes.append((where, err))
                else:
                    errs.append(f"{track} shard {s.k} ended with {rc} in {where}\n{err[-4000:]}")
    return files, crashes, errs


def validate(work, track, files, res):
    """TLC over the recorded traces; returns {trace id: [(event, rule)]}."""
    spec = plan.TRACE_SPECS[track.split("-")[0]]
    allf = os.path.join(work, track + ".all.ndjson")
    with open(allf, "wb") as o:
        for f in files:
            if os.path.exists(f):
                with open(f, "rb") as i:
                    data = i.read()
                if data and not data.endswith(b"\n"):
                    data = data[:data.rfind(b"\n") + 1]
                o.write(data)
    ids = [json.loads(l)["id"] for l in open(allf)]
    if not ids:
        return {}, allf
    rc, out = tlc(spec + ".tla", os.path.join(SPEC, spec + ".cfg"), work, env={"TRACE": allf}, timeout=plan.TLC_TIMEOUT, heap="8g")
    fails, done, insane = {}, set(), []
    for l in out.splitlines():
        if l.startswith('<<"FAIL", '):
            m = re.match(r'<<"FAIL", "(.*?)", (\d+), "(.*?)">>', l)
            fails.setdefault(m.group(1), []).append((int(m.group(2)), m.group(3)))
        elif l.startswith('<<"DONE", '):
            done.add(re.match(r'<<"DONE", "(.*?)"', l).group(1))
        elif l.startswith('<<"INSANE", '):
            insane.append(re.match(r'<<"INSANE", "(.*?)"', l).group(1))
    missing = set(ids) - done
    if missing:
        bad = "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting", "<<")))
        raise ToolError(f"{spec}: {len(missing)} of {len(ids)} traces not validated\n{bad[-4000:]}")
    for i in insane:
        if i not in fails:
            raise ToolError(f"{spec}: the harness contradicts itself in {i}")
    g, d = stats(out)
    res["trace_states"] += d
    res["traces"] += len(ids)
    log(f"{track}: {len(ids)} traces, {d} steps validated, {len(fails)} with failures")
    return fails, allf


def alone(bin_, work, track, cfg, seed, fails, res):
    """Broken rules of the twins of scenarios, which do without the other
    connections of these, that nothing breaks in a process that serves nothing
    else: the connections before them make the difference."""
    out = []
    for id_ in [i for i in fails if "/" in i][:6]:
        i = int(id_.split("/")[0].split(":")[-1])
        files = []
        for k in range(3):
            d = os.path.join(work, f"alone{k}")
            os.makedirs(d, exist_ok=True)
            env = dict({k: str(v) for k, v in cfg.get("env", {}).items()}, VH_ONE=id_)
            out_, _, rc, _ = run_shard(bin_, d, Shard(track, k, cfg["fams"], i, i + 1, env, set(CPUS)), seed, 60)
            if rc != 0 or not os.path.getsize(out_):
                break
            files.append(out_)
        if len(files) == 3 and not validate(work, track + "-alone", files, res)[0]:
            out.append((id_, fails[id_]))
    return out


# ---------------------------------------------------------------- verdict

def load_trace(allf, id_):
    with open(allf) as f:
        for l in f:
            d = json.loads(l)
            if d["id"] == id_:
                return d
    return None


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    conf = plan.PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    res = {"states": 0, "transitions": 0, "models": [], "controls": [], "traces": 0, "trace_states": 0}
    violations = []   # (what, replay content)
    samples, fams_seen, known_seen = [], {}, set()
    try:
        bin_ = build(work)
        log("harness built")
        for m in conf["models"].get(tier, conf["models"]["quick"]):
            check_model(m, work, res)
        if tier == "thorough":
            check_controls(conf.get("controls", []), work, res)
        elif conf.get("controls"):
            check_controls([conf["controls"][seed % len(conf["controls"])]], work, res)
        rounds = conf.get("rounds", {}).get(tier, 1)
        for rnd in range(rounds):
            for cfg in conf["tracks"]:
                track = cfg["track"]
                n = cfg["n"][0 if tier == "quick" else 1]
                rseed = seed + 7919 * rnd
                scripts = []
                for sm in cfg.get("scripts", []):
                    scripts += gen_scripts(sm, work, rseed, cfg.get("nscripts", (60, 200))[0 if tier == "quick" else 1], 90)
                if scripts:
                    log(f"{len(scripts)} scripts from the model")
                files, crashes, errs = run_track(bin_, work, track, cfg, rseed, n, scripts, 240 if tier == "quick" else 420)
                for where, err in crashes:
                    violations.append((f"{where}: the process died", {"id": where, "seed": rseed, "crash": err[-20000:]}))
                fails, allf = validate(work, track, files, res)
                judge = plan.JUDGES.get(cfg.get("judge", "own"))
                found = judge(prop, fails)
                if cfg.get("judge") == "alone" and not found and fails:
                    found = alone(bin_, work, track, cfg, rseed, fails, res)
                for id_, what in found:
                    if len(violations) >= 20:
                        break
                    tr = load_trace(allf, id_)
                    kf = [k for k in known_findings(prop) if plan.matches_known(k[0], id_, what, tr)]
                    if kf:
                        known_seen.add(kf[0])
                        continue
                    violations.append((f"{id_}: {what[0][1]} at event {what[0][0]}", {"id": id_, "seed": rseed, "track": track, "broken": what, "trace": tr}))
                if errs and not violations:   # what the other shards recorded decides nothing then
                    raise ToolError(errs[0])
                other = sorted({r for v in fails.values() for _, r in v if not r.startswith(prop + ".")})
                if os.environ.get("VERIF_DEBUG"):
                    for id_, f_ in fails.items():
                        with open(os.path.join(os.environ["VERIF_DEBUG"], re.sub(r"[^\w]", "_", id_) + ".json"), "w") as o:
                            json.dump({"id": id_, "broken": f_, "ev": load_trace(allf, id_)["ev"]}, o)
                if other and not violations:
                    log("note: rules of other properties are broken:", ", ".join(other))
                with open(allf) as f:
                    for i, l in enumerate(f):
                        d = json.loads(l)
                        fams_seen[d.get("fam", "?")] = fams_seen.get(d.get("fam", "?"), 0) + 1
                        if i % 397 == 0 and len(samples) < 4:
                            samples.append({"id": d["id"], "events": len(d["ev"]), "first_events": [json.dumps(e)[:240] for e in d["ev"][:12]]})
                for f in files + [allf]:
                    if os.path.exists(f):
                        os.unlink(f)
                if violations:
                    break
            if violations:
                break
        coverage = {
            "states": res["states"] + res["trace_states"],
            "transitions": res["transitions"] + res["trace_states"],
            "traces_validated_against_impl": res["traces"],
            "samples": samples,
            "models": res["models"],
            "negative_controls_rejected": res["controls"],
            "model_states": res["states"],
            "trace_steps_validated": res["trace_states"],
            "traces_by_family": fams_seen,
            "exhaustive": False,
        }
        if conf["level"] != "model_checking":
            coverage["evaluations"] = res["trace_states"]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": conf["level"], "coverage": coverage,
              "assumptions": conf.get("assumptions", plan.ASSUMPTIONS), "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(known_seen):
            print(f"KNOWN-FINDING: property={prop} {k[1]}")
        if violations:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            for i, (what, content) in enumerate(violations[:5]):
                p = os.path.join(rd, f"{prop}-{i}.json")
                with open(p, "w") as f:
                    json.dump(dict(content, property=prop, what=what), f, indent=1)
                print(f"VIOLATION property={prop} replay={p}", flush=True)
                print("   ", what, flush=True)
            return 1
        log("held on everything explored")
        return 0
    except ToolError as e:
        print("ERROR", e, file=sys.stderr, flush=True)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
