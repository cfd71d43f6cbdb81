#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]

Decides one property of soju: TLC checks the specification exhaustively within
bounds, generates behaviours of it, and the harness (built from /repo's working
tree) replays them into the real code.  Exit 0: held.  Exit 1: violation.
Exit 2: the check itself could not run.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
import props  # noqa: E402

SPEC = os.path.join(HERE, "spec")
REPLAYS = os.path.join(HERE, "replays")
NPROC = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    pass


def cfg_text(consts, gen, depth, invs, props_=()):
    lines = ["SPECIFICATION " + consts.get("_spec", "Spec"), "CONSTANTS"]
    lines += ["  Pick <- " + ("PickOne" if gen else "PickAll"),
              "  Record = " + ("TRUE" if gen else "FALSE"),
              "  Depth = %d" % depth]
    for k, v in consts.items():
        if k.startswith("_"):
            continue
        lines.append("  %s %s %s" % (k, "<-" if isinstance(v, str) and v.startswith("@") else "=",
                                     v[1:] if isinstance(v, str) and v.startswith("@") else tla(v)))
    if invs:
        lines.append("INVARIANTS " + " ".join(invs))
    if props_:
        lines.append("PROPERTIES " + " ".join(props_))
    if consts.get("_constraint"):
        lines.append("CONSTRAINT " + consts["_constraint"])
    if consts.get("_view"):
        lines.append("VIEW " + consts["_view"])
    lines.append("CHECK_DEADLOCK FALSE")
    return "\n".join(lines) + "\n"


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    return str(v)


def run_tlc(work, spec, cfg, args, timeout, heap="4g"):
    d = tempfile.mkdtemp(dir=work)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    env = dict(os.environ)
    env["JAVA_TOOL_OPTIONS"] = ("-Xmx%s -XX:+UseParallelGC -Djava.io.tmpdir=%s" % (heap, d))
    out = os.path.join(d, "out.txt")
    with open(out, "w") as f:
        p = subprocess.Popen(["tlc", "-metadir", os.path.join(d, "meta")] + args + ["-config", "run.cfg", spec + ".tla"],
                             cwd=d, stdout=f, stderr=subprocess.STDOUT, env=env, start_new_session=True)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            return "timeout", out
    return p.returncode, out


def exhaustive(work, spec, e, workers):
    t0 = time.time()
    rc, out = run_tlc(work, spec, cfg_text(e.get("consts", {}), False, 0, e.get("invs", []), e.get("props", [])),
                      ["-workers", str(workers)], e.get("timeout", 700), e.get("heap", "8g"))
    txt = open(out).read()
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt.replace(",", "").replace(" states generated", " states generated,"))
    if rc != 0 or not m or "No error has been found" not in txt:
        raise CheckError("TLC did not complete on %s %s (rc %s):\n%s" % (spec, e, rc, txt[-3000:]))
    return {"spec": spec, "consts": {k: v for k, v in e.get("consts", {}).items()}, "invariants": e.get("invs", []) + list(e.get("props", [])),
            "states": int(m[-1][1]), "transitions": int(m[-1][0]), "wall_s": round(time.time() - t0, 1)}


def generate(work, spec, consts, num, depth, seed):
    rc, out = run_tlc(work, spec, cfg_text(consts, True, depth, ["Emit"]),
                      ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed), "-workers", "1"], 600, "3g")
    res, last = [], None
    with open(out) as f:
        for l in f:
            if l.startswith('"BEH '):
                b = json.loads(l)[4:]
                v = json.loads(b)
                k = json.dumps(v[:-1])
                if k == last:
                    continue
                last = k
                res.append(b)
    if not res or rc not in (0,):
        raise CheckError("TLC generated no behaviour from %s (rc %s):\n%s" % (spec, rc, open(out).read()[-3000:]))
    return res


def build(work, flags=(), binary=False):
    out = os.path.join(work, "vh")
    env = dict(os.environ)
    if binary:
        env["VERIF_SOJU"] = "1"
    p = subprocess.run([os.path.join(HERE, "bin", "build.sh"), out] + list(flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800, env=env)
    if p.returncode != 0:
        raise CheckError("harness does not build against /repo:\n" + p.stdout[-4000:])
    return out


def run_shard(vh, module, path, work, args, timeout):
    """Returns (results, crashed index or None, stderr)."""
    err = tempfile.NamedTemporaryFile(dir=work, delete=False, mode="w+")
    scr = tempfile.mkdtemp(dir=work)
    res, cur = [], None
    env = dict(os.environ)
    env["GOTRACEBACK"] = "all"
    env["TMPDIR"] = scr
    p = subprocess.Popen([vh, "-module", module, "-in", path, "-scratch", scr] + args,
                         stdout=subprocess.PIPE, stderr=err, text=True, env=env, start_new_session=True)
    killer = threading.Timer(timeout, lambda: os.killpg(p.pid, 9))
    killer.start()
    for l in p.stdout:
        try:
            r = json.loads(l)
        except ValueError:
            continue
        if "start" in r:
            cur = r["start"]
        else:
            res.append(r)
            cur = None
    rc = p.wait()
    timed_out = not killer.is_alive()
    killer.cancel()
    err.seek(0)
    stderr = err.read()
    err.close()
    shutil.rmtree(scr, ignore_errors=True)
    if timed_out:
        return res, None, stderr, "timeout"
    if rc == 3 or "HARNESS-ERROR" in stderr:
        raise CheckError("harness error: " + stderr[-2000:])
    if rc != 0 and rc != 4 and rc != 66 and cur is None:
        raise CheckError("harness exited with %d: %s" % (rc, stderr[-2000:]))
    return res, cur, stderr, None


def replay_all(vh, module, behs, work, budget, shards):
    """Replays behaviours over several processes; returns (results, failures)."""
    path = os.path.join(work, module + ".ndjson")
    with open(path, "w") as f:
        f.write("\n".join(behs) + "\n")
    pending = list(range(len(behs)))
    n = min(shards, len(behs))
    oks, fails = [], []
    lock = threading.Lock()
    deadline = time.time() + budget

    def work_shard(idx):
        todo = pending[idx::n]
        while todo and time.time() < deadline:
            sub = os.path.join(work, "%s.%d.ndjson" % (module, idx))
            with open(sub, "w") as f:
                f.write("\n".join(behs[i] for i in todo) + "\n")
            left = max(5, deadline - time.time())
            res, crashed, stderr, to = run_shard(vh, module, sub, work, ["-limit", "%ds" % left], left + 120)
            nf = 0
            for r in res:
                r["i"] = todo[r["i"]]
                with lock:
                    (oks if r["ok"] else fails).append(r)
                nf += not r["ok"]
            if crashed is not None:
                with lock:
                    fails.append({"i": todo[crashed], "ok": False, "steps": 0, "reason": "process crashed", "log": stderr[-8000:]})
                todo = todo[crashed + 1:]
            elif res and res[-1].get("reason", "").startswith("hang"):
                todo = todo[len(res):]
            else:
                break
            if len(fails) > 40:
                break

    with ThreadPoolExecutor(n) as ex:
        for fu in [ex.submit(work_shard, i) for i in range(n)]:
            fu.result()
    return oks, fails


def confirm(vh, module, beh, work, need, runs):
    path = os.path.join(tempfile.mkdtemp(dir=work), "one.ndjson")
    with open(path, "w") as f:
        f.write(beh + "\n")
    bad, lastfail = 0, None
    for k in range(runs):
        res, crashed, stderr, to = run_shard(vh, module, path, work, [], 200)
        if crashed is not None:
            bad += 1
            lastfail = {"i": 0, "ok": False, "reason": "process crashed", "log": stderr[-8000:]}
        elif res and not res[-1]["ok"]:
            bad += 1
            lastfail = res[-1]
        if bad >= need:
            return True, lastfail
        if bad + runs - k - 1 < need:
            break
    return False, lastfail


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[a.id]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.id)
    ev = {"property": a.id, "tier": a.tier, "seed": seed, "level": "model_checking", "violations": [],
          "assumptions": P.get("assumptions", [])}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "steps_replayed": 0, "samples": [], "exhaustive": [], "replays": []}
    viol = []
    code = 0
    try:
        # Start building and generating at once, then check exhaustively.
        with ThreadPoolExecutor(16) as ex:
            fb = ex.submit(build, work, P.get("build_flags", ()), P.get("binary", False))
            gens = []
            for part in P["parts"]:
                g = part.get("gen")
                if not g:
                    continue
                num, depth = g[a.tier]
                procs = g.get("procs", 4 if a.tier == "quick" else 8)
                per = max(1, num // procs)
                for k in range(procs):
                    gens.append((part, ex.submit(generate, work, part["spec"], g.get("consts", {}), per, depth, seed * 1000003 + k * 7919 + 17)))
            vh = fb.result()
            behs = {}
            for part, f in gens:
                behs.setdefault(part.get("name", part["module"]), (part, []))[1].extend(f.result())
        for name, (part, l) in behs.items():
            module = part["module"]
            for fixed in part.get("fixed", []):
                l.insert(0, json.dumps(json.load(open(os.path.join(HERE, "spec", "traces", fixed)))))
            l = list(dict.fromkeys(l))
            budget = part.get("budget", 240) if a.tier == "quick" else 3600
            oks, fails = replay_all(vh, module, l, work, budget, part.get("shards", NPROC))
            steps = sum(r["steps"] for r in oks) + sum(r["steps"] for r in fails)
            ops = {}
            for r in oks:
                for s in json.loads(l[r["i"]]):
                    ops[s.get("op")] = ops.get(s.get("op"), 0) + 1
            cov["traces_validated_against_impl"] += len(oks)
            cov["steps_replayed"] += steps
            cov["replays"].append({"spec": part["spec"], "module": module, "behaviours": len(l), "ok": len(oks),
                                   "candidates": len(fails), "steps_by_kind": ops})
            if oks:
                b = json.loads(l[oks[0]["i"]])
                cov["samples"].append({"spec": part["spec"], "behaviour": b[:6], "length": len(b)})
            if not oks and not fails:
                raise CheckError("nothing was replayed for " + module)
            unconf = 0
            fails.sort(key=lambda r: (r.get("at", 0), r["i"]))
            tried = 0
            for r in fails:
                if viol or tried >= 6:
                    break
                tried += 1
                need, runs = part.get("confirm", (2, 3))
                ok, last = (True, r) if need == 0 else confirm(vh, module, l[r["i"]], work, need, runs)
                if not ok:
                    unconf += 1
                    continue
                os.makedirs(REPLAYS, exist_ok=True)
                path = os.path.join(REPLAYS, "%s-%s.json" % (a.id, module))
                with open(path, "w") as f:
                    json.dump({"property": a.id, "module": module, "behaviour": json.loads(l[r["i"]]),
                               "failure": last or r,
                               "how": "bin/replay.sh %s" % path}, f, indent=1)
                viol.append({"module": module, "replay": path, "reason": (last or r).get("reason"), "op": (last or r).get("op"),
                             "at": (last or r).get("at"), "exp": (last or r).get("exp"), "got": (last or r).get("got")})
            cov["replays"][-1]["unconfirmed"] = unconf
        if not viol:
            for part in P["parts"]:
                for e in part.get("exh", []) + (part.get("exh_thorough", []) if a.tier == "thorough" else []):
                    r = exhaustive(work, e.get("spec", part["spec"]), e, NPROC)
                    cov["exhaustive"].append(r)
                    cov["states"] += r["states"]
                    cov["transitions"] += r["transitions"]
    except CheckError as e:
        print("CHECK-ERROR:", e, file=sys.stderr)
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev["coverage"] = cov
    ev["violations"] = viol
    ev["wall_s"] = round(time.time() - t0, 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in viol:
        print("mismatch in %s at step %s (%s): %s" % (v["module"], v["at"], v["op"], v["reason"]))
        print("  expected:", json.dumps(v["exp"])[:1500])
        print("  observed:", json.dumps(v["got"])[:1500])
        print("VIOLATION property=%s replay=%s" % (a.id, v["replay"]))
    if viol:
        code = 1
    for k in props.known(a.id):
        if code == 0:
            print("KNOWN-FINDING: property=%s %s" % (a.id, k["what"]))
    if code == 0:
        print("OK property=%s states=%d traces=%d steps=%d wall=%.1fs" % (
            a.id, cov["states"], cov["traces_validated_against_impl"], cov["steps_replayed"], ev["wall_s"]))
    sys.exit(code)


main()
