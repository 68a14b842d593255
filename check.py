#!/usr/bin/env python3
"""check.py ID : decide property ID on /repo's current working tree.

Exit 0: every obligation discharged (or matched by known-findings.txt).
Exit 1: a failed obligation, reported as VIOLATION property=ID replay=FILE [no-failing-input-found].
Exit 2: no answer (the tree does not build, a tool is missing or crashed, a harness is vacuous).
"""
import hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
sys.path.insert(0, HERE)


class NoAnswer(Exception):
    pass


def sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".md")):
                out.append(os.path.join(root, f))
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(os.path.relpath(p, REPO).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def cargo_env():
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    return env


def run(cmd, timeout, cwd=HERE, env=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or os.environ, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout, time.time() - t
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return None, (o.decode(errors="replace") if isinstance(o, bytes) else o), time.time() - t


def clean_if_stale(crate, env, tag):
    """Drop what was built from other sources of /repo (by content, not by time stamp)."""
    lock = os.path.join(crate, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)
    stamp = os.path.join(BUILD, tag + ".sha256")
    d = digest(sources())
    if (open(stamp).read() if os.path.exists(stamp) else "") != d:
        for p in ("aegir", "aegir_derive", "aegir_compile"):
            run(["cargo", "clean", "--offline", "-p", p], 120, cwd=crate, env=env)
        open(stamp, "w").write(d)


def build_vcg(names):
    """Compile the harness binaries against /repo's current sources (content-hashed, never stale)."""
    os.makedirs(BUILD, exist_ok=True)
    crate = os.path.join(HERE, "vcg")
    env = cargo_env()
    clean_if_stale(crate, env, "repo")
    cmd = ["cargo", "build", "--offline", "--quiet"]
    for n in names:
        cmd += ["--bin", n]
    rc, out, dt = run(cmd, 800, cwd=crate, env=env)
    if rc != 0:
        raise NoAnswer("the harness crate does not build against the current tree:\n" + out[-4000:])
    return dt


def one_by_one(exe, name, env):
    """The run died (a stack overflow, an abort): each harness in a process of its own, to find which."""
    from concurrent.futures import ThreadPoolExecutor
    names = run([exe], 60, env=dict(env, VCG_LIST="1"))[1].split("\n")
    names = [n for n in names if n]

    def one(k):
        n = names[k]
        out, trace = os.path.join(BUILD, "%s-%d.json" % (name, k)), os.path.join(BUILD, "%s-%d.trace" % (name, k))
        for p in (out, trace):
            if os.path.exists(p):
                os.remove(p)
        rc, log, dt = run([exe, out], 300, env=dict(env, VCG_EXACT=n, VCG_TRACE=trace))
        try:
            if rc == 0 and os.path.exists(out):
                return json.load(open(out))
            if rc is None or rc > 0 or not os.path.exists(trace):
                raise NoAnswer("harness %s failed (rc %s): %s" % (n, rc, log[-800:]))
            h, fun, choices, used = (open(trace).read().split("\n") + [""] * 4)[:4]
            f = dict(id=fun + "#terminates", goal="false", note="the process died (signal %d): %s" % (-rc, log[-400:]), hyps=[], status="the process died", model=[],
                     choices=[int(c) for c in choices.split(",") if c], smt="", replay=None)
            rc2, log2, _ = run([exe], 60, env=dict(env, VCG_SAMPLE=n, VCG_CHOICES=choices, VCG_TRACE=trace))
            if rc2 is not None and rc2 < 0:
                used = (open(trace).read().split("\n") + [""] * 4)[3]
                f["replay"] = dict(inputs=[u.split("=", 1) for u in used.split(" ") if u], what="%s: the process dies (signal %d)" % (f["id"], -rc2))
            return dict(complete=True, queries=0, solver_s=0, max_s=0, harnesses=[dict(name=n, mode="reals", bounded="", paths=1, live=1, obligations=1, discharged=0, by_eval=0,
                        bounded_obligations=0, bounded_discharged=0, wall_s=dt, functions={fun: [1, 0]}, errors=[], failures=[f])])
        finally:
            for p in (out, trace):
                if os.path.exists(p):
                    os.remove(p)

    with ThreadPoolExecutor(8) as ex:
        ds = list(ex.map(one, range(len(names))))
    return dict(complete=all(d["complete"] for d in ds), queries=sum(d["queries"] for d in ds), solver_s=sum(d["solver_s"] for d in ds), max_s=max([d["max_s"] for d in ds] + [0]),
                harnesses=[h for d in ds for h in d["harnesses"]])


def part_vcg(pid):
    name = pid.lower()
    bt = build_vcg([name])
    out = os.path.join(BUILD, name + ".json")
    if os.path.exists(out):
        os.remove(out)
    env = cargo_env()
    cmd = [os.path.join(BUILD, "target", "debug", name), out]
    rc, log, dt = run(cmd, 3000 if TIER == "thorough" else 700, env=env)
    if rc is not None and rc < 0 and not os.path.exists(out):
        d = one_by_one(cmd[0], name, env)
    elif rc != 0 or not os.path.exists(out):
        raise NoAnswer("harness run failed (rc %s): %s" % (rc, log[-2000:]))
    else:
        d = json.load(open(out))
    r = dict(name="vcg", obligations=0, discharged=0, functions={}, failures=[], errors=[], bounded=[], samples=[], bounded_n=0, bounded_k=0,
             wall_s=dt, build_s=bt, solver_s=d["solver_s"], max_query_s=d["max_s"], queries=d["queries"], by_eval=0, paths=0, harnesses=len(d["harnesses"]),
             cmd="vcg/%s (symbolic execution of the monomorphised functions of /repo; z3 %s)" % (name, "on quantifier-free nonlinear reals / binary64"))
    if not d["complete"]:
        r["errors"].append("a worker thread died")
    for h in d["harnesses"]:
        r["obligations"] += h["obligations"]
        r["discharged"] += h["discharged"]
        r["by_eval"] += h["by_eval"]
        r["paths"] += h["live"]
        r["errors"] += h["errors"]
        for f, (n, k) in h["functions"].items():
            a = r["functions"].setdefault(f, [0, 0])
            a[0] += n
            a[1] += k
        if h["bounded"]:
            r["bounded"].append({"harness": h["name"], "bound": h["bounded"], "obligations": h["bounded_obligations"], "discharged": h["bounded_discharged"]})
            r["bounded_n"] += h["bounded_obligations"]
            r["bounded_k"] += h["bounded_discharged"]
        for f in h["failures"]:
            f["harness"] = h["name"]
            f["part"] = "vcg"
            r["failures"].append(f)
        if len(r["samples"]) < 4 and h["obligations"]:
            r["samples"].append({"harness": h["name"], "scalars": h["mode"], "paths": h["live"], "obligations": h["obligations"]})
    if not d["harnesses"]:
        r["errors"].append("no harness ran")
    if r["obligations"] == 0:
        r["errors"].append("no obligation was generated")
    return r


def known():
    """known-findings.txt: 'KNOWN-FINDING: property=ID match=<harness>|<obligation> :: text' lines."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) match=(.+?)\|(.+?) :: (.*)$", l.rstrip("\n"))
            if m:
                out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    t0 = time.time()
    import props
    cfg = props.PROPS[pid]
    ev = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    parts = []
    try:
        if not os.path.isdir(REPO):
            raise NoAnswer("no /repo")
        for p in cfg["parts"]:
            if p == "vcg":
                parts.append(part_vcg(pid))
            else:
                mod, fn = p.split(":")
                parts.append(getattr(__import__(mod), fn)(pid, sys.modules[__name__]))
    except NoAnswer as e:
        print("NO-ANSWER property=%s %s" % (pid, e))
        return 2
    errors = [e for p in parts for e in p["errors"]]
    failures = [f for p in parts for f in p["failures"]]
    kn = [k for k in known() if k[0] == pid]
    seen, viol = [], []
    for f in failures:
        hit = [k for k in kn if k[1] == f["harness"] and k[2] == f["id"]]
        if hit:
            if hit[0] not in seen:
                seen.append(hit[0])
        else:
            viol.append(f)
    for k in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    # obligations covered by a known finding are neither discharged nor violations of this run
    write_evidence(ev, pid, cfg, parts, failures, viol, time.time() - t0)
    if viol:
        rep = os.path.join(HERE, "replays")
        os.makedirs(rep, exist_ok=True)
        with_input = [f for f in viol if f.get("replay")]
        shown, n = set(), 0
        for f in (with_input or viol):
            key = (f["id"])
            if key in shown:
                continue
            shown.add(key)
            n += 1
            if n > 5:
                break
            path = os.path.join(rep, "%s-%d.txt" % (pid, n))
            with open(path, "w") as o:
                o.write("property %s\nfailed obligation: %s\nharness: %s\nsolver: %s\n" % (pid, f["id"], f["harness"], f.get("status")))
                if f.get("replay"):
                    o.write("\nfailing input, run against the real code:\n")
                    for k, v in f["replay"]["inputs"]:
                        o.write("  %s = %s\n" % (k, v))
                    o.write("  observed: %s\n" % f["replay"]["what"])
                    o.write("  operand forms (choices): %s\n" % f.get("choices"))
                    o.write("  rerun: VCG_ONLY=%s VCG_VERBOSE=1 .build/target/debug/%s /dev/null\n" % (f["harness"], pid.lower()))
                else:
                    o.write("\nno failing input found\n")
                o.write("\ngoal: %s\nnote: %s\nunder: %s\nmodel: %s\n\n%s\n" % (f.get("goal"), f.get("note"), "\n       ".join(f.get("hyps") or []), f.get("model"), f.get("smt") or f.get("detail") or ""))
            tail = "" if f.get("replay") else " no-failing-input-found"
            print("  failed obligation: %s [%s]" % (f["id"], f["harness"]))
            print("VIOLATION property=%s replay=%s%s" % (pid, path, tail))
        return 1
    if errors:
        print("NO-ANSWER property=%s %s" % (pid, "; ".join(errors[:5])))
        return 2
    ob = sum(p["obligations"] for p in parts)
    di = sum(p["discharged"] for p in parts)
    print("OK property=%s obligations=%d discharged=%d (bounded: %d) functions=%d wall=%.1fs" % (pid, ob, di, sum(p.get("bounded_n", 0) for p in parts), sum(len(p["functions"]) for p in parts), time.time() - t0))
    return 0


def write_evidence(ev, pid, cfg, parts, failures, viol, wall):
    """Obligations under a stated bound are counted apart and never as proved."""
    total, ok = sum(p["obligations"] for p in parts), sum(p["discharged"] for p in parts)
    bn, bk = sum(p.get("bounded_n", 0) for p in parts), sum(p.get("bounded_k", 0) for p in parts)
    cov = {
        "obligations": total - bn,
        "discharged": ok - bk,
        "bounded_obligations": bn,
        "bounded_discharged": bk,
        "undischarged_known_findings": len(failures) - len(viol),
        "checker_cmd": "; ".join(p["cmd"] for p in parts),
        "trusted_base": cfg["trusted"],
        "functions_under_contract": {f: {"obligations": n, "discharged": k, "by": p["name"]} for p in parts for f, (n, k) in sorted(p["functions"].items())},
        "back_ends": [{k: p[k] for k in ("name", "obligations", "discharged", "by_eval", "paths", "harnesses", "queries", "solver_s", "max_query_s", "wall_s", "build_s", "extracted", "bounded_n", "verified") if k in p} for p in parts],
        "bounded": [b for p in parts for b in p["bounded"]],
        "samples": [s for p in parts for s in p["samples"]],
        "failed": [{"id": f["id"], "harness": f["harness"], "status": f.get("status"), "input": (f.get("replay") or {}).get("inputs")} for f in failures[:20]],
    }
    level = cfg.get("level", "proof")
    if level == "exploration":
        cov["evaluations"] = total
        cov["distinct_nontrivial"] = sum(p.get("distinct", 0) for p in parts)
        cov["rule"] = cfg["rule"]
    json.dump({"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
               "assumptions": cfg["trusted"], "wall_s": round(wall, 3), "violations": len(viol)}, open(ev, "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
