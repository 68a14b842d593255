"""Contracts for every size: the bodies of /repo's functions, extracted on every run, under Verus contracts.

verus/NAME.rs is a skeleton: signatures with contracts and, per function, the ghost text its proof needs. The bodies
come from rustc's own macro expansion of /repo (-Zunpretty=expanded), rewritten by extract/ (what it rewrites and what
it drops is said in DESIGN.md). A function that cannot be brought under its contract after an edit (its loops changed
shape, it uses something the skeleton does not know) is set aside and left to the bounded harnesses: no alarm. A
function that still fits, whose text differs from the one the proofs were written for, and whose contract no longer
follows, is a failed obligation.
"""
import hashlib, json, os, re, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, "verus")
OF = {"C07": ["vecs", "arrays"], "C08": ["vecs", "arrays"], "C09": ["arrays"], "C10": ["shapes", "multi"], "C15": ["fold"], "C04": ["arrays"], "C02": ["arrays"]}
# contracts of one property on which another rests too: lifted contractions (C04), and the products in a product's derivative (C02)
ALSO = {"C04": ("C09", r"contract_spec|Spec<"), "C02": ("C09", r"::contract(_spec)?$")}
BASE = os.path.join(SRC, "baseline.json")


def build(c):
    """the extractor"""
    env = c.cargo_env()
    env["CARGO_TARGET_DIR"] = os.path.join(c.BUILD, "extract")
    rc, out, dt = c.run(["cargo", "build", "--offline", "--quiet"], 800, cwd=os.path.join(HERE, "extract"), env=env)
    if rc != 0:
        raise c.NoAnswer("the extractor does not build:\n" + out[-2000:])


def bodies(c):
    """every function of the macro-expanded crate, by key"""
    d = os.path.join(c.BUILD, "verus")
    os.makedirs(d, exist_ok=True)
    stamp, out = os.path.join(d, "stamp"), os.path.join(d, "bodies.json")
    build(c)
    tool = os.path.join(c.BUILD, "extract", "debug", "extract")
    now = c.digest(c.sources()) + hashlib.sha256(open(tool, "rb").read()).hexdigest()
    if not (os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == now):
        env = c.cargo_env()
        env["CARGO_TARGET_DIR"] = os.path.join(c.BUILD, "expand")
        c.clean_if_stale(os.path.join(c.REPO, "aegir"), env, "expand")
        exp, err = os.path.join(d, "expanded.rs"), os.path.join(d, "err")
        cmd = 'cargo +nightly rustc --offline --quiet --lib -- -Zunpretty=expanded -Awarnings > "$0" 2> "$1"'
        rc, text, dt = c.run(["sh", "-c", cmd, exp, err], 600, cwd=os.path.join(c.REPO, "aegir"), env=env)
        if rc != 0:
            raise c.NoAnswer("the crate does not expand:\n" + open(err).read()[-2000:])
        rc, text, dt = c.run([tool, exp], 120)
        if rc != 0:
            raise c.NoAnswer("the extractor failed:\n" + text[-2000:])
        all = json.loads(text)
        # the formula macro's own source (a procedural macro is not expanded)
        rc, text, dt = c.run([tool, os.path.join(c.REPO, "aegir_compile", "src", "lib.rs")], 120)
        if rc == 0:
            all += json.loads(text)
        json.dump(all, open(out, "w"))
        open(stamp, "w").write(now)
    by = {}
    for b in json.load(open(out)):
        by.setdefault(b["key"], []).append(b)
    return by


def close(text, at):
    """index just past the brace that closes the one at `at`"""
    n, i = 0, at
    while i < len(text):
        if text[i] == "{":
            n += 1
        elif text[i] == "}":
            n -= 1
            if n == 0:
                return i + 1
        elif text[i] == '"':
            i += 1
            while text[i] != '"':
                i += 2 if text[i] == "\\" else 1
        i += 1
    return len(text)


def parse(name):
    """skeleton -> list of text lines and function regions"""
    out, cur, prop = [], None, None
    path = os.path.join(SRC, name + ".rs")
    if os.path.exists(path):
        lines = open(path).read().split("\n")
    else:
        sys.path.insert(0, SRC)
        lines = getattr(__import__("gen"), name)().split("\n")
    lines = unroll(lines)
    for l in lines:
        s = l.strip()
        if s.startswith("//@prop "):
            prop = s.split()[1]
        elif s.startswith("//@fn "):
            f = [x.strip() for x in s[6:].split("|")]
            cur = dict(key=f[0], ig=f[1].split(), fg=f[2].split(), params=f[3].split(), prop=prop, sig=[], part={}, at=None)
            cur["at"] = cur["sig"]
        elif cur is not None and s == "//@end":
            out.append(cur)
            cur = None
        elif cur is not None and s.startswith("//@"):
            tag = s[3:].split()
            cur["at"] = cur["part"].setdefault(" ".join(tag), [])
        elif cur is not None:
            cur["at"].append(l)
        else:
            out.append(l)
    return out


def unroll(lines):
    """`//@for X in a b c` ... `//@done`: the text once per value, with @X@ replaced (`a:b:c` values give @X0@ @X1@ ..)"""
    out, i = [], 0
    while i < len(lines):
        m = re.match(r"\s*//@for (\w+) in (.*)", lines[i])
        if not m:
            out.append(lines[i])
            i += 1
            continue
        n, j = 1, i + 1
        while n:
            if re.match(r"\s*//@for ", lines[j]):
                n += 1
            elif re.match(r"\s*//@done", lines[j]):
                n -= 1
            j += 1
        for v in m.group(2).split():
            sub = []
            for l in lines[i + 1:j - 1]:
                l = l.replace("@%s@" % m.group(1), v)
                for k, p in enumerate(v.split(":")):
                    l = l.replace("@%s%d@" % (m.group(1), k), p.replace("_", " "))
                sub.append(l)
            out += unroll(sub)
        i = j
    return out


def words(text, table):
    if not table:
        return text
    return re.sub(r"(?<![\w'])(%s)(?!\w)" % "|".join(sorted(map(re.escape, table), key=len, reverse=True)), lambda m: table[m.group(1)], text)


def fill(r, b):
    """the extracted body inside the skeleton's signature, or None and why it does not fit"""
    if len(b["impl_generics"]) < len(r["ig"]) or len(b["fn_generics"]) < len(r["fg"]):
        return None, "its generics changed"
    if len(b["params"]) != len(r["params"]):
        return None, "its parameters changed"
    table = dict(zip(b["impl_generics"], r["ig"]))
    table.update(zip(b["fn_generics"], r["fg"]))
    table.update({p: q for p, q in zip(b["params"], r["params"]) if p != q and p != "_"})
    for t in r["part"].get("names", []):
        for x in t.split():
            p, q = x.split("=")
            table[p] = q.replace("~", " ")
    body = b["body"]
    muts = "".join("let mut %s = %s;\n" % (table.get(p, p), table.get(p, p)) for p in b["muts"] if table.get(p, p) != "self")
    if table.get("self", "self") != "self" and re.search(r"[(,]\s*self\s*[,)]", " ".join(r["sig"])):
        muts = "let mut %s = self;\n" % table["self"] + muts.replace("let mut %s = %s;\n" % (table["self"], table["self"]), "")
    # a read through a pointer cast, of one array type at the place of another
    body = re.sub(r"let (\w+) = & mut (\w+) as \* mut _ as \* mut \[\w+ ; (\w+)\] ; let (\w+) = \{ \1 \. read \(\) \} ; core :: mem :: forget \(\2\) ; \4(?!\w)", r"v_reread (\2)", body)
    # a constructor as a function
    body = re.sub(r"(v_map|v_map_err) \(((?:\w+ :: )*[A-Z]\w*)\)", r"\1 (|__c| -> (ret: _) ensures is(ret, \2 (__c)), { \2 (__c) })", body)
    # closures
    for k, cl in enumerate(b["closures"]):
        m = re.search(r"\|\s*([^|]*?)\s*\|\s*\{\s*__CL_%d\s*;" % k, body)
        if not m:
            return None, "closure %d" % k
        con = "\n".join(r["part"]["closure %d" % k]) if "closure %d" % k in r["part"] else None
        keep = body[:m.start()] + "|%s| -> (ret: %s) @@CL%d@@ {" % (m.group(1), "\n".join(r["part"].get("closure-ret %d" % k, ["_"])).strip(), k) + body[m.end():]
        body = keep
        if con is None and cl["contract"] is None:
            return None, "closure %d has no contract" % k
    body = words(body, table)
    for k, cl in enumerate(b["closures"]):
        con = "\n".join(r["part"]["closure %d" % k]) if "closure %d" % k in r["part"] else words(cl["contract"], table)
        body = body.replace("@@CL%d@@" % k, con)
    # loops
    for k, (var, head) in enumerate(b["loops"]):
        m = re.search(r"\{\s*__LOOP_%d\s*;" % k, body)
        if not m:
            return None, "loop %d" % k
        end = close(body, m.start())
        v = table.get(var, var)
        def part(t):
            x = "\n".join(r["part"].get("%s %d" % (t, k), []))
            return x.replace("$it", v.replace("__k", "__it")).replace("$i", v)
        body = body[:m.start()] + "\n" + part("loop") + "\n{" + part("loop-pre") + "\n" + body[m.end():end - 1] + (";\n" if part("loop-post") else "\n") + part("loop-post") + "}\n" + part("loop-after") + "\n" + body[end:]
    post = "\n".join(r["part"].get("post", []))
    if post:
        # the ghost text at the end is also what an early return needs
        i = 0
        while True:
            m = re.compile(r"(?<![\w.])return\b").search(body, i)
            if not m:
                break
            j, n = m.end(), 0
            while j < len(body) and not (n == 0 and body[j] in ";}"):
                n += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(body[j], 0)
                j += 1
            new = "{ let __r = %s;\n%s\nreturn __r; }" % (body[m.end():j].strip() or "()", post)
            body = body[:m.start()] + new + body[j:]
            i = m.start() + len(new)
        body = "let __r = {\n" + body + "\n};\n" + post + "\n__r"
    at = {p: re.sub(r"\{\s*(\d+) \+ (\d+)\s*\}", lambda m: str(int(m.group(1)) + int(m.group(2))), words(q, table)) for p, q in b.get("assoc", [])}
    r["assoc"] = {p: words(q, {"Self": at["Self"]}) if "Self" in at else q for p, q in at.items()}
    return "{\n" + muts + "\n".join(r["part"].get("pre", [])) + "\n" + body + "\n}", None


def emit(name, by, aside):
    """the file for Verus, and for each function its line range"""
    text, regions, n = [], [], 0
    pre = open(os.path.join(SRC, "prelude.rs")).read()
    text = pre.rstrip("\n").split("\n")
    for x in parse(name):
        if isinstance(x, str):
            text.append(x)
            continue
        rid = "%s@%d" % (x["key"], sum(1 for q in regions if q["key"] == x["key"]))
        x["id"] = rid
        why = aside.get(rid)
        b = by.get(x["key"])
        body = None
        if why is None:
            if not b:
                why = "not found under this name"
            elif len({q["body"] for q in b}) != 1:
                why = "defined more than once"
            else:
                body, why = fill(x, b[0])
                x["source"] = hashlib.sha256((b[0]["source"]).encode()).hexdigest()
                x["heads"] = [re.sub(r"\s+", "", h) for _, h in b[0]["loops"]] + ["|%s|" % ",".join(cl["params"]) for cl in b[0]["closures"]]
        x["why"] = why
        x["sig"] = [re.sub(r"\$assoc:(\w+)=(.*?)\$", lambda m: x.get("assoc", {}).get(m.group(1), m.group(2)), l) for l in x["sig"]]
        a = len(text) + 1
        if body is None:
            text.append("#[verifier::external_body]")
            text += x["sig"]
            text.append("{ unimplemented!() }")
        else:
            text.append("#[verifier::loop_isolation(false)]")
            text += x["sig"] + body.split("\n")
        x["lines"] = (a, len(text))
        regions.append(x)
    return "\n".join(text) + "\n", regions


def call(c, path, extra, timeout=600):
    return c.run(["verus", path, "--crate-type", "lib", "--output-json", "--time-expanded", "--num-threads", "8", "--multiple-errors", "2", "--rlimit", "60"] + extra + ["--", "--error-format=json"], timeout, cwd=os.path.dirname(path))


def errors(out):
    """(message, lines) of each error"""
    r = []
    for l in out.splitlines():
        if l.startswith("{") and '"$message_type"' in l:
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                own = [s for s in d["spans"] if s["file_name"].startswith("/") and "/verus/" in s["file_name"] or "/" not in s["file_name"]]
                r.append((d["message"], [s["line_start"] for s in own], [s["line_start"] for s in own if s.get("is_primary")], d.get("rendered", "")))
    return r


def summary(out):
    i = out.find("\n{\n")
    i = 0 if out.startswith("{\n") else i + 1
    dec = json.JSONDecoder()
    for m in re.finditer(r"^\{$", out, re.M):
        try:
            return dec.raw_decode(out[m.start():])[0]
        except ValueError:
            continue
    return {}


def at(regions, lines):
    for l in lines:
        for x in regions:
            if x["lines"][0] <= l <= x["lines"][1]:
                return x
    return None


def verify(c, name, by, base, log=None):
    """-> regions with status 'proved' | 'aside' | 'failed', and Verus's own figures"""
    d = os.path.join(c.BUILD, "verus")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name + ".rs")
    aside, detail = {}, {}
    lost = None
    for _ in range(25):
        text, regions = emit(name, by, aside)
        open(path, "w").write(text)
        rc, out, dt = call(c, path, ["--no-verify"], 300)
        if rc == 0:
            break
        errs = errors(out)
        new = 0
        for msg, ls, prim, ren in errs:
            x = at(regions, prim) or at(regions, ls)
            if x is not None and x["id"] not in aside:
                aside[x["id"]] = "not accepted by Verus's front end: " + msg
                detail[x["id"]] = ren
                new += 1
        if not new:
            lost = "skeleton %s is not accepted: %s" % (name, "; ".join(e[0] for e in errs)[:500] or out[-800:])
            break
    else:
        lost = "skeleton %s: too many rounds" % name
    if lost:
        return regions, {}, lost, detail
    rc, out, dt = call(c, path, [])
    s = summary(out)
    vr = s.get("verification-results", {})
    failed, outside = {}, []
    for msg, ls, prim, ren in errors(out):
        x = at(regions, prim) or at(regions, ls)
        if x is None:
            outside.append(ren)
            continue
        failed.setdefault(x["id"], []).append((msg, ren))
    if rc is None or not vr or (rc != 0 and not failed) or outside:
        lost = "Verus gave no verdict on %s (rc %s): %s" % (name, rc, "; ".join(outside)[:400] or out[-600:])
    for x in regions:
        x["status"] = "aside" if x["why"] else "failed" if x["id"] in failed else "proved"
        x["msgs"] = failed.get(x["id"], [])
    return regions, dict(vr=vr, times=s.get("times-ms", {}), wall=dt), lost, detail


def figures(c, fig):
    """obligations and solver time per function, as Verus reports them"""
    smt = fig.get("times", {}).get("smt", {})
    return smt.get("total", 0) / 1000.0, smt


def run(pid, c):
    t0 = time.time()
    r = dict(name="verus", obligations=0, discharged=0, functions={}, failures=[], errors=[], bounded=[], samples=[], bounded_n=0, bounded_k=0, solver_s=0.0, verified=0, extracted=[],
             cmd="verus .build/verus/*.rs (bodies extracted from rustc's macro expansion of /repo, contracts from /verif/verus/*.rs; z3 inside Verus)")
    try:
        by = bodies(c)
    except c.NoAnswer as e:
        # the bounded harnesses decide alone
        r["extracted"].append("set aside: " + str(e)[:300])
        r["wall_s"] = time.time() - t0
        return r
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    for name in OF[pid]:
        regions, fig, lost, detail = verify(c, name, by, base)
        if lost:
            r["extracted"].append("set aside: " + lost)
            continue
        r["solver_s"] += figures(c, fig)[0]
        r["verified"] += fig["vr"].get("verified", 0)
        for x in regions:
            fun = x["key"]
            if x["prop"] != pid and x["prop"] != "all" and not (pid in ALSO and x["prop"] == ALSO[pid][0] and re.search(ALSO[pid][1], fun)):
                continue
            if x["status"] == "aside":
                r["extracted"].append("%s: set aside (%s)" % (fun, x["why"]))
                continue
            n = clauses(x)
            if x["status"] == "proved":
                r["obligations"] += n
                r["discharged"] += n
                r["functions"].setdefault(fun, [0, 0])
                r["functions"][fun][0] += n
                r["functions"][fun][1] += n
                r["extracted"].append("%s: proved" % fun)
                continue
            if x["prop"] not in (pid, "all"):
                r["extracted"].append("%s: set aside (no longer proved; %s reports it)" % (fun, x["prop"]))
                continue
            b = base.get(name + "/" + x["id"], {})
            if b.get("source") == x["source"] or b.get("heads") != x["heads"]:
                r["extracted"].append("%s: set aside (%s)" % (fun, "the prover gave up on the unchanged text" if b.get("source") == x["source"] else "its loops or closures are not the ones the proof was written for"))
                continue
            r["obligations"] += n
            r["functions"].setdefault(fun, [0, 0])
            r["functions"][fun][0] += n
            for msg, ren in x["msgs"][:3]:
                r["failures"].append(dict(id="%s#%s" % (fun, msg), harness="verus/" + name, part="verus", goal=msg, note="for every size", hyps=[], status="not proved by Verus", model=None, smt="", detail=ren, replay=None))
    if r["functions"]:
        r["samples"].append({"verus": r["extracted"][:6]})
    r["wall_s"] = time.time() - t0
    return r


def clauses(x):
    """what Verus has to show for one function: each ensures clause, each loop invariant (on entry and preserved), and the body's own preconditions as one more"""
    sig = "\n".join(x["sig"])
    n = 1
    m = re.search(r"\bensures\b(.*)", sig, re.S)
    if m:
        n += len([l for l in m.group(1).split("\n") if l.strip()])
    for k, v in x["part"].items():
        if k.startswith("count "):
            n += int(k.split()[1])
        if re.match(r"loop \d", k):
            n += 2 * len([l for l in v if l.strip() and l.strip() != "invariant"])
    return n


def main():
    """python3 verus.py NAME.. : verify skeletons and show what fails; --base rewrites the baseline from the current tree"""
    sys.path.insert(0, HERE)
    import check as c
    by = bodies(c)
    names = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted({n for v in OF.values() for n in v})
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    for name in names:
        regions, fig, lost, detail = verify(c, name, by, base)
        if lost:
            print("LOST", lost)
        else:
            print(name, fig["vr"], "%.1fs" % fig["wall"], "smt %.1fs" % figures(c, fig)[0])
        st = {}
        for x in regions:
            s = x.get("status") or ("aside" if x.get("why") else "?")
            st[s] = st.get(s, 0) + 1
            if s == "aside":
                print("ASIDE", x["id"], x["why"])
                print("   ", detail.get(x["id"], "")[:1200])
            if s == "failed":
                print("FAILED", x["id"])
                for m, ren in x["msgs"]:
                    print(ren[:1500])
            if "--base" in sys.argv and s == "proved":
                base[name + "/" + x["id"]] = dict(source=x["source"], heads=x["heads"])
        print(st)
    if "--base" in sys.argv:
        json.dump(base, open(BASE, "w"), indent=0, sort_keys=True)


if __name__ == "__main__":
    main()
