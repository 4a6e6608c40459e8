#!/usr/bin/env python3
"""Runs the checks of one property (see suites.py): TLC on the specification,
the binding of the specification to the real code in both directions, evidence.

exit 0: held on everything explored; 1: VIOLATION line printed; 2: tool error.
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class ToolError(Exception):
    pass


def sh(cmd, timeout=None, env=None, cwd=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    if out:
        with open(out, "wb") as f:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, None
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def src_hash():
    h = hashlib.sha256()
    for top in ("/repo/tower", "/repo/tower-layer", "/repo/tower-service", "/repo/tower-test", "/repo/Cargo.toml"):
        if os.path.isfile(top):
            h.update(open(top, "rb").read())
            continue
        for d, dirs, files in sorted(os.walk(top)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def build(bins):
    """Rebuilds the harness binaries against /repo's current working tree."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".vlock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(TARGET, ".srchash")
        now = src_hash()
        was = open(stamp).read() if os.path.exists(stamp) else ""
        base = ["cargo"]
        env = {"CARGO_TARGET_DIR": TARGET, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "-Awarnings",
               "CARGO_TERM_COLOR": "never"}
        hdir = os.path.join(VERIF, "harness")
        if was and was != now:
            # do not rely on file times: whatever differs is rebuilt
            sh(base + ["clean", "--offline", "-p", "tower", "-p", "tower-layer", "-p", "tower-service",
                       "-p", "tower-test"], env=env, cwd=hdir, timeout=300)
        cmd = base + ["build", "--offline"]
        for b in sorted(set(bins)):
            cmd += ["--bin", b]
        rc, out = sh(cmd, env=env, cwd=hdir, timeout=800)
        if rc != 0:
            raise ToolError("the harness does not build against /repo:\n" + out[-4000:])
        with open(stamp, "w") as f:
            f.write(now)
        # private copies: a later build may not replace a binary that is running
        d = os.path.join(WORK, f"bin.{os.getpid()}")
        os.makedirs(d, exist_ok=True)
        for b in set(bins):
            shutil.copy2(os.path.join(TARGET, "debug", b), os.path.join(d, b))
    return d


def java(args, env, cwd, out, timeout, heap="3g", workers=2):
    cmd = ["java", f"-Xmx{heap}", "-Xss32m", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(2, workers)}",
           "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-nowarning"] + args
    try:
        return sh(cmd, timeout=timeout, env=env, cwd=cwd, out=out)[0]
    except subprocess.TimeoutExpired:
        return -9


def module(tmpl, name, m, consts, extra, d, steps=False):
    text = open(os.path.join(SPEC, tmpl)).read().replace("@M@", m).replace("@R@", "R" if steps else "").replace("@TAU@", "Tau" if steps else "FALSE")
    defs = "".join(f"D_{k} == {v}\n" for k, v in consts.items())
    text = text.replace("\n====", "\n" + defs + extra + "\n====")
    # definitions must precede their use in the module text only for operators, not for cfg substitution
    open(os.path.join(d, f"{name}.tla"), "w").write(text)
    return "".join(f"CONSTANT {k} <- D_{k}\n" for k in consts)


def tlc_error(text):
    m = re.search(r"(?m)^Error: .*", text)
    return m.group(0) if m else text[-600:]


NOISE = re.compile(r"(?m)^(Parsing file|Semantic processing|Linting|TLC2 Version|Running breadth|Starting|Finished|Computing|Trace exploration|Residual|$).*\n?")


def tlc_msg(text):
    t = NOISE.sub("", text)
    i = t.find("Error:")
    p = t.find("***Parse")
    if p >= 0:
        i = p
    return t[max(i, 0):][:1800]


def tail_nonedge(path, n=60):
    out = []
    with open(path, errors="replace") as f:
        for line in f:
            if not line.startswith('"EDGE~~'):
                out.append(line)
    return "".join(out[-n:])


def run_lts(su, d, bins, res, deadline):
    """TLC enumerates the specification; every transition is executed on the real code."""
    m = su["module"]
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    name = f"MC_{m}"
    cfg = module("MC.tmpl", name, m, su["consts"], su.get("extra", ""), d)
    cfg += "SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT EmitEdge\nCHECK_DEADLOCK FALSE\n"
    for i in su.get("invs", ["Inv"]):
        cfg += f"INVARIANT {i}\n"
    for p in su.get("props", []):
        cfg += f"PROPERTY {p}\n"
    for c in su.get("constraints", []):
        cfg += f"CONSTRAINT {c}\n"
    open(os.path.join(d, "mc.cfg"), "w").write(cfg)
    out = os.path.join(d, "tlc.out")
    args = ["-config", "mc.cfg", "-metadir", os.path.join(d, "meta")]
    if su.get("simulate"):
        args += ["-simulate", f"num={su['simulate']}", "-depth", str(su.get("depth", 40)), "-seed", str(SEED)]
    args.append(name + ".tla")
    t0 = time.time()
    rc = java(args, {}, d, out, su.get("tlc_timeout", 600), workers=su.get("workers", 2))
    text = tail_nonedge(out, 100000)
    if res.get("tier") == "thorough" and (rc == -9 or re.search(r"GC overhead limit|OutOfMemory|Java heap space", text)):
        # a graph that is too large is no alarm and no answer either: the other suites go on
        os.remove(out)
        res["suites"][su["name"]] = {"spec": m, "direction": "specification -> code", "constants": su["consts"], "gave_up": "TLC ran out of memory or time"}
        return None
    if rc != 0 or "Error:" in text:
        raise ToolError(f"TLC on {m} ({su['name']}): rc {rc}: {tlc_msg(text)}")
    mm = re.search(r"^(\d+) states generated, (\d+) distinct states found", text, re.M)
    if mm:
        res["transitions"] += int(mm.group(1))
        res["states"] += int(mm.group(2))
    else:
        mm = re.search(r"(\d[\d,]*) states checked", text) or re.search(r"Finished.*?(\d+) states", text)
        n = sum(1 for x in open(out, errors="replace") if x.startswith('"EDGE~~'))
        res["transitions"] += n
    tl = time.time() - t0
    rep = os.path.join(WORK, "replay", f"{res['pid']}-{su['name']}.json")
    rc, o = sh([os.path.join(bins, su["bin"]), su.get("component", m), "mbt", out, str(SEED),
                str(su.get("secs", 30)), str(su.get("maxwalk", 400)), rep], timeout=su.get("secs", 30) + 200)
    os.remove(out)
    if rc == 1 and "MISMATCH" in o:
        return ("violation", rep, f"{su['name']}: the code departs from {m}.tla")
    mm = re.search(r"(?m)^RESULT (.*)$", o)
    if rc != 0 or not mm:
        if rc < 0 or rc in (134, 139):
            crash(rep, su, o)
            return ("violation", rep, f"{su['name']}: the process running the code died ({rc})")
        raise ToolError(f"harness {su['bin']} mbt ({su['name']}): rc {rc}: {o[-3000:]}")
    r = json.loads(mm.group(1))
    res["walks"] += r["walks"]
    res["steps"] += r["steps"]
    res["suites"][su["name"]] = {
        "spec": m, "direction": "specification -> code", "constants": su["consts"],
        "spec_transitions": r["edges"], "transitions_replayed": r["edges_covered"],
        "operations": r["ops"], "operations_replayed": r["ops_tried"], "walks": r["walks"],
        "steps_on_real_code": r["steps"], "complete": r["complete"], "tlc_s": round(tl, 1),
    }
    if r["walks"] == 0 or r["ops_tried"] == 0 or r["complete"] and r["ops_tried"] * 2 < r["ops"]:
        raise ToolError(f"{su['name']}: vacuous run")
    if len(res["samples"]) < 4:
        res["samples"].append({"suite": su["name"], "walk": r["sample"][:14]})
    return None


def crash(rep, su, o):
    json.dump({"component": su.get("component", su["module"]), "kind": "process died", "output": o[-2000:]}, open(rep, "w"))


def run_trace(su, d, bins, res, deadline):
    """The real code runs under a random environment; TLC validates the recorded trace."""
    m = su["module"]
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    rep = os.path.join(WORK, "replay", f"{res['pid']}-{su['name']}.json")
    name = f"Trace_{m}"
    cfg = module("Trace.tmpl", name, m, su["consts"], su.get("extra", ""), d, su.get("steps_inside", False))
    cfg += "SPECIFICATION TSpec\nVIEW TView\nCONSTRAINT Track\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
    for i in su.get("invs", ["Inv"]):
        cfg += f"INVARIANT {i}\n"
    for p in su.get("props", []):
        cfg += f"PROPERTY {p}\n"
    open(os.path.join(d, "tr.cfg"), "w").write(cfg + "CONSTRAINT Stuck\n")
    trace = os.path.join(d, "trace.ndjson")
    total = 0
    # chunks keep each TLC run (and the JSON it loads) small
    chunks = su.get("chunks", 1)
    for ch in range(chunks):
        if ch and time.time() > deadline:
            break
        procs = su.get("procs", 1)

        def drive(i):
            return sh([os.path.join(bins, su["bin"]), su.get("component", m), "drive", json.dumps(su["params"]),
                       str((SEED * 1000 + ch) * procs + i), str(su["runs"]), str(su["steps"]), f"{trace}.{i}", f"{rep}.{i}"],
                      timeout=su.get("drive_timeout", 300))
        with cf.ThreadPoolExecutor(procs) as ex:
            outs = list(ex.map(drive, range(procs)))
        r = None
        with open(trace, "w") as f:
            for i, (rc, o) in enumerate(outs):
                if os.path.exists(f"{rep}.{i}"):
                    os.replace(f"{rep}.{i}", rep)
                if rc == 1 and "MISMATCH" in o:
                    return ("violation", rep, f"{su['name']}: the code hangs")
                mm = re.search(r"(?m)^RESULT (.*)$", o)
                if rc != 0 or not mm:
                    if rc < 0 or rc in (134, 139):
                        crash(rep, su, o)
                        return ("violation", rep, f"{su['name']}: the process running the code died ({rc})")
                    raise ToolError(f"harness {su['bin']} drive ({su['name']}): rc {rc}: {o[-3000:]}")
                one = json.loads(mm.group(1))
                r = {**one, **({k: r[k] + one[k] for k in ("runs", "steps", "cuts", "waited")} if r else {})}
                with open(f"{trace}.{i}") as g:
                    shutil.copyfileobj(g, f)
                os.remove(f"{trace}.{i}")
        out = os.path.join(d, "tr.out")
        t0 = time.time()
        args = ["-config", "tr.cfg", "-metadir", os.path.join(d, "meta"), name + ".tla"]
        rc = java(args, {"TRACE": trace}, d, out, su.get("tlc_timeout", 800), workers=1)
        text = open(out, errors="replace").read()
        acc = re.search(r"TRACE-ACCEPTED (\d+)", text)
        rej = re.search(r"TRACE-REJECTED (\d+)", text)
        if not acc and not rej or (acc and rc != 0) or re.search(r"(?m)^Error:.* is violated", text):
            if re.search(r"is violated", text):
                ln = [int(x) for x in re.findall(r"(?m)^/\\ l = (\d+)", text)]
                at = (max(ln) - 1) if ln else 1
                write_trace_replay(rep, su, trace, at, tlc_error(text), "")
                return ("violation", rep, f"{su['name']}: {tlc_error(text)}")
            raise ToolError(f"TLC on Trace_{m} ({su['name']}): rc {rc}: {tlc_msg(text)}")
        if rej:
            at = int(rej.group(1))
            out2 = os.path.join(d, "tr2.out")
            java(args, {"TRACE": trace, "STUCKAT": str(at)}, d, out2, su.get("tlc_timeout", 800), workers=1)
            st = re.findall(r"STUCK-STATE (.*)", open(out2, errors="replace").read())
            write_trace_replay(rep, su, trace, at, "no behaviour of the specification matches the last operation", st[:3])
            return ("violation", rep, f"{su['name']}: the recorded execution is not a behaviour of {m}.tla")
        mm = re.search(r"^(\d+) states generated, (\d+) distinct states found", text, re.M)
        res["states"] += int(mm.group(2))
        res["transitions"] += int(mm.group(1))
        res["validated"] += r["runs"]
        res["steps"] += r["steps"]
        total += r["steps"]
        e = res["suites"].setdefault(su["name"], {
            "spec": m, "direction": "code -> specification", "params": su["params"], "runs": 0, "events": 0, "tlc_s": 0})
        e["runs"] += r["runs"]
        if r["cuts"]:
            e["interrupted"] = e.get("interrupted", 0) + r["cuts"]
            e["interrupted_then_waited_for"] = e.get("interrupted_then_waited_for", 0) + r["waited"]
        e["events"] += r["steps"]
        e["tlc_s"] = round(e["tlc_s"] + time.time() - t0, 1)
        if ch == 0 and len(res["samples"]) < 4:
            res["samples"].append({"suite": su["name"], "run": r["sample"][:12]})
    if total == 0:
        raise ToolError(f"{su['name']}: vacuous run")
    return None


def write_trace_replay(rep, su, trace, at, why, states):
    lines = [json.loads(x) for x in open(trace)]
    at = min(at, len(lines))
    if lines[at - 1].get("pair") == 1 and at < len(lines):
        at += 1
    i = at - 1
    while i > 0 and lines[i]["op"] != "boot":
        i -= 1
    json.dump({"component": su.get("component", su["module"]), "specification": su["module"] + ".tla", "kind": why,
               "operations": lines[i:at], "specification_allows": "",
               "specification_states_before": states}, open(rep, "w"), indent=1)


def run_tlc(su, d, bins, res, deadline):
    """TLC checks the specification alone (design-level properties, liveness)."""
    m = su["module"]
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    name = f"MC_{m}"
    cfg = module("MC.tmpl", name, m, su["consts"], su.get("extra", ""), d)
    cfg += f"SPECIFICATION {su.get('spec', 'Spec')}\nCHECK_DEADLOCK FALSE\n"
    if su.get("view", True):
        cfg += "VIEW View\n"
    for i in su.get("invs", ["Inv"]):
        cfg += f"INVARIANT {i}\n"
    for p in su.get("props", []):
        cfg += f"PROPERTY {p}\n"
    open(os.path.join(d, "mc.cfg"), "w").write(cfg)
    out = os.path.join(d, "tlc.out")
    t0 = time.time()
    rc = java(["-config", "mc.cfg", "-metadir", os.path.join(d, "meta"), name + ".tla"], {}, d, out,
              su.get("tlc_timeout", 600), workers=su.get("workers", 4), heap=su.get("heap", "4g"))
    text = open(out, errors="replace").read()
    if rc != 0 or "Error:" in text:
        raise ToolError(f"TLC on {m} ({su['name']}): rc {rc}: {tlc_msg(text)}")
    mm = re.search(r"^(\d+) states generated, (\d+) distinct states found", text, re.M)
    res["transitions"] += int(mm.group(1))
    res["states"] += int(mm.group(2))
    res["suites"][su["name"]] = {"spec": m, "direction": "specification only", "constants": su["consts"],
                                 "states": int(mm.group(2)), "transitions": int(mm.group(1)),
                                 "tlc_s": round(time.time() - t0, 1)}
    return None


KINDS = {"lts": run_lts, "trace": run_trace, "tlc": run_tlc}


def main():
    import suites
    pid = sys.argv[1]
    if pid == "--build":
        names = sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, "harness/src/bin")) if f.endswith(".rs"))
        shutil.rmtree(build(names), ignore_errors=True)
        print("built", *names)
        return 0
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    prop = suites.PROPS[pid]
    todo = [x for x in prop["suites"](tier)]
    only = os.environ.get("VERIF_SUITE")
    if only:
        todo = [x for x in todo if x["name"] == only]
    t0 = time.time()
    deadline = t0 + (400 if tier == "quick" else 6 * 3600)
    os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    bins = build([x["bin"] for x in todo if x.get("bin")])
    res = {"pid": pid, "tier": tier, "states": 0, "transitions": 0, "walks": 0, "validated": 0, "steps": 0, "suites": {}, "samples": []}
    bad, errs = [], []
    base = os.path.join(WORK, f"{pid}.{os.getpid()}")
    try:
        def one(su):
            d = os.path.join(base, su["name"])
            os.makedirs(d, exist_ok=True)
            local = {**res, "states": 0, "transitions": 0, "walks": 0, "validated": 0, "steps": 0, "suites": {}, "samples": []}
            stale = os.path.join(WORK, "replay", f"{pid}-{su['name']}.json")
            if os.path.exists(stale):
                os.remove(stale)
            v = KINDS[su["kind"]](su, d, bins, local, deadline)
            return v, local

        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "4"))) as ex:
            futs = {ex.submit(one, su): su for su in todo}
            for f in cf.as_completed(futs):
                try:
                    v, local = f.result()
                except ToolError as e:
                    errs.append(f"{futs[f]['name']}: {e}")
                    continue
                except subprocess.TimeoutExpired as e:
                    errs.append(f"{futs[f]['name']}: {e}")
                    continue
                for k in ("states", "transitions", "walks", "validated", "steps"):
                    res[k] += local[k]
                res["suites"].update(local["suites"])
                res["samples"] += local["samples"]
                if v:
                    bad.append((futs[f], v))
    finally:
        shutil.rmtree(base, ignore_errors=True)
        shutil.rmtree(bins, ignore_errors=True)
    known = suites.known_findings(pid)
    shown = []
    for su, (_, rep, why) in bad:
        k = next((k for k in known if k.matches(su, rep)), None) if known else None
        if k:
            print(f"KNOWN-FINDING: property={pid} {k.text}")
        else:
            shown.append((rep, why))
    order = [x["name"] for x in todo]
    ev = {
        "property": pid, "tier": tier, "seed": SEED, "level": prop.get("level", "model_checking"),
        "coverage": {
            "states": res["states"], "transitions": res["transitions"],
            "traces_validated_against_impl": res["walks"] + res["validated"],
            "steps_on_real_code": res["steps"],
            "suites": {k: res["suites"][k] for k in order if k in res["suites"]},
            "samples": res["samples"][:5],
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(shown),
    }
    text = json.dumps(ev, indent=1)
    if len(text) > 60000:
        ev["coverage"]["samples"] = [json.dumps(x)[:1500] for x in ev["coverage"]["samples"]]
        text = json.dumps(ev, indent=1)
    open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w").write(text)
    for rep, why in shown:
        print(f"VIOLATION property={pid} replay={rep} {why}")
    if shown:
        return 1
    if errs:
        print("TOOL-ERROR " + "\n".join(errs), file=sys.stderr)
        return 2
    print(f"OK property={pid} states={res['states']} transitions={res['transitions']} "
          f"traces={res['walks'] + res['validated']} steps={res['steps']} wall={time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print(f"TOOL-ERROR {e}", file=sys.stderr)
        sys.exit(2)
