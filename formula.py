"""C15: the formula macro. Builds /verif/macro against /repo's current tree and runs both of its programs."""
import os, re, time

HERE = os.path.dirname(os.path.abspath(__file__))
CRATE = os.path.join(HERE, "macro")


def environ(c):
    env = c.cargo_env()
    env["CARGO_TARGET_DIR"] = os.path.join(c.BUILD, "formula")
    os.makedirs(c.BUILD, exist_ok=True)
    c.clean_if_stale(CRATE, env, "formula")
    return env


def build(c):
    return c.run(["cargo", "build", "--offline", "--quiet"], 800, cwd=CRATE, env=environ(c))[0]


def run(pid, c):
    env = environ(c)
    t0 = time.time()
    r = dict(name="formula", obligations=0, discharged=0, functions={}, failures=[], errors=[], bounded=[], samples=[], distinct=0, bounded_n=0, bounded_k=0,
             cmd="macro/fold (the macro's extracted source on token streams); macro/trees (the macro expanded by rustc)")
    lost = []
    for b, fun, bound in (("fold", "aegir_compile::aegir (extracted from /repo)", "every formula of up to 2 operators over 7 operand classes, of up to 4 over names (quick); 3 and 5 (thorough)"),
                          ("trees", "aegir! as expanded by rustc, Node::{add, sub, mul, pow, squared}", "259 formulas")):
        rc, out, dt = c.run(["cargo", "build", "--offline", "--quiet", "--bin", b], 800, cwd=CRATE, env=env)
        if rc != 0:
            errs = [l for l in out.splitlines() if l.startswith("error")]
            at = re.findall(r"--> src/trees\.rs:(\d+):", out)
            if b == "trees" and at and os.path.exists(os.path.join(CRATE, "src", "trees.rs")) and not re.search(r"could not compile `(?!formula)", out):
                src = open(os.path.join(CRATE, "src", "trees.rs")).read().splitlines()
                lines = sorted({int(n) for n in at})
                bad = [src[n - 1].strip() for n in lines if n <= len(src) and re.search(r"\b(t|e|prod)!\(|aegir!\(", src[n - 1])]
                if bad:
                    r["obligations"] += 1
                    for s in bad[:5]:
                        r["failures"].append(dict(id="aegir!#a supported formula is accepted", harness="trees", part="formula", goal=s, note="; ".join(errs)[:500], hyps=[], status="rejected by rustc",
                                                  model=None, smt="", detail=out[-3000:], replay={"inputs": [("formula", s)], "what": "the expansion does not compile: " + "; ".join(errs)[:300]}))
                    continue
            lost.append("%s does not build: %s" % (b, "; ".join(errs)[:600]))
            continue
        rc, out, dt = c.run([os.path.join(c.BUILD, "formula", "debug", b)], 850, env=env)
        total = re.search(r"^TOTAL\t(\d+)\t(\d+)\t(\d+)\t(\d+)$", out, re.M)
        if rc != 0 or not total:
            r["errors"].append("%s failed (rc %s): %s" % (b, rc, out[-500:]))
            continue
        n, k, bad, distinct = map(int, total.groups())
        r["distinct"] += distinct
        r["bounded_n"] += n
        r["bounded_k"] += k
        r["obligations"] += n
        r["discharged"] += k
        r["functions"][fun] = [n, k]
        r["bounded"].append({"harness": b, "bound": bound, "obligations": n})
        for l in out.splitlines():
            f = l.split("\t")
            if f[0] == "FAIL":
                r["failures"].append(dict(id="aegir!#" + f[1], harness=b, part="formula", goal=f[2], note=f[3], hyps=[], status="evaluated", model=None, smt="",
                                          replay={"inputs": [("formula", f[2])], "what": f[3]}))
            elif f[0] == "SAMPLE":
                r["samples"].append(f[1])
    if len(lost) == 2:
        raise c.NoAnswer("; ".join(lost))
    if lost:
        r["samples"].append("NOTE: " + lost[0])
        # the extraction is a convenience; the compiled macro alone still decides
        if "trees" in lost[0].split(" ")[0]:
            r["errors"].append(lost[0])
    r["wall_s"] = time.time() - t0
    return r
