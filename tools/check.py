#!/usr/bin/env python3
"""Runs the check of one property:  python3 tools/check.py C01 [--tier quick|thorough]

Every check is a sequence of stages (tools/plan.py):
  MC        TLC explores a specification exhaustively within the given constants; it may print behaviours/inputs
  Drive     the harness (built from /repo's working tree) replays those on the real code and/or runs its own
            random drivers, and records one event per call
  Validate  TLC compares every recorded event with the specification
A rejected event is a VIOLATION unless known_findings.json lists it.
"""
import sys, os, re, json, time, shutil, subprocess, tempfile, resource
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from plan import PLAN, MC, Drive, Validate
SPEC = os.path.join(VERIF, "spec"); EVID = os.path.join(VERIF, "evidence")
TARGET = os.environ.get("MBV_TARGET", os.path.join(VERIF, "target"))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class Err(Exception): pass
def log(*a): print(*a, flush=True)

def build(crate="harness", name="mbv-harness"):
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, crate, "Cargo.toml")],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:]); raise Err("%s does not build against /repo" % crate)
    return os.path.join(TARGET, "debug", name)

def tlc(scratch, module, cfg_text, env_extra, timeout, simulate=None, heap="10g", seed=1):
    d = tempfile.mkdtemp(dir=scratch, prefix=module)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"): shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, "run.cfg"), "w") as f: f.write(cfg_text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss128m", "-cp", CP, "tlc2.TLC", "-workers", "8", "-noGenerateSpecTE",
           "-metadir", os.path.join(d, "meta"), "-fp", "0", "-config", "run.cfg"]
    if simulate: cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(seed)]
    cmd += [module + ".tla"]
    out = os.path.join(d, "out.txt")
    with open(out, "w") as o:
        try: r = subprocess.run(cmd, cwd=d, env=dict(os.environ, **env_extra), stdout=o, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired: raise Err("TLC timed out on " + module)
    return r.returncode, out

def cfg(spec="Spec", consts=None, invs=(), acts=(), view=None, props=(), cons=()):
    s = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    for k, v in (consts or {}).items(): s += "CONSTANT %s = %s\n" % (k, v)
    if view: s += "VIEW %s\n" % view
    for i in invs: s += "INVARIANT %s\n" % i
    for i in acts: s += "ACTION_CONSTRAINT %s\n" % i
    for i in cons: s += "CONSTRAINT %s\n" % i
    for i in props: s += "PROPERTY %s\n" % i
    return s

STATES = re.compile(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found")
def counts(text):
    m = None
    for m in STATES.finditer(text): pass
    if not m: return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))

def run_mc(st, tier, scratch, cov, seed):
    consts = st.thorough if tier == "thorough" else st.quick
    t0 = time.time()
    c = cfg(st.spec, consts=consts, invs=st.invs, acts=st.acts, view=st.view, props=st.props, cons=st.cons)
    sim = st.sim[1 if tier == "thorough" else 0] if st.sim else None
    rc, out = tlc(scratch, st.module, c, {}, 3000 if tier == "thorough" else 400, sim, seed=seed)
    scr = None
    if st.scripts:
        scr = os.path.join(scratch, "scripts%d" % len(cov["mc"]))
        n = 0
        seen = set() if st.dedupe else None
        with open(out) as f, open(scr, "w") as g:
            for line in f:
                if line.startswith('<<"SCRIPT", "'):
                    s = line[13:].rstrip()
                    if not s.endswith('">>'): raise Err("unexpected script line " + line[:200])
                    s = s[:-3]
                    if seen is not None:
                        if s in seen: continue
                        seen.add(s)
                    g.write(s.replace('\\"', '"') + "\n"); n += 1
        # TLC's workers print in any order: the same inputs in the same order every time
        if not sim:
            with open(scr) as f: ls = sorted(f)
            with open(scr, "w") as g: g.writelines(ls)
        st.count = n
    text = "".join(l for l in open(out) if not l.startswith('<<"SCRIPT"'))
    if rc != 0:
        log("\n".join(l for l in text[-9000:].splitlines() if not l.startswith(("Parsing", "Semantic proc")))[-4000:]); raise Err("TLC rejects the specification %s (exit %d)" % (st.module, rc))
    gen, dis = counts(text)
    cov["states"] += dis; cov["transitions"] += max(gen - 1, 0)
    cov["mc"].append({"module": st.module, "constants": consts, "invariants": list(st.invs) + list(st.props),
                      "states": dis, "transitions": gen, "scripts": st.count, "wall_s": round(time.time() - t0, 1)})
    log("  MC %s %s: %d states, %d generated, %d behaviours/inputs printed, %.1f s" % (st.module, consts, dis, gen, st.count, time.time() - t0))
    if dis == 0 and not sim: raise Err("vacuous model " + st.module)
    return scr

def limit():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run_drive(st, tier, scratch, binary, scripts, seed, idx):
    out = os.path.join(scratch, "trace%d.ndjson" % idx)
    cmd = [binary, st.cmd, "--out", out, "--seed", str(seed), "--tier", tier]
    if scripts: cmd += ["--scripts", scripts]
    n = st.n[1 if tier == "thorough" else 0] if st.n else None
    if n is not None: cmd += ["--n", str(n)]
    t0 = time.time()
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=3000 if tier == "thorough" else 500, preexec_fn=limit)
    except subprocess.TimeoutExpired: raise Err("driver timed out")
    if r.returncode != 0:
        # the process died inside the code under test: find out which call
        r2 = subprocess.run(cmd, env=dict(os.environ, MBV_TRACE_INTENT="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=3000, preexec_fn=limit)
        last = [l for l in r2.stderr.splitlines() if l.startswith("INTENT ")]
        if r.returncode == 101 or not last:
            log(r.stderr[-3000:]); raise Err("driver %s failed (exit %d)" % (st.cmd, r.returncode))
        return None, last[-1][7:]
    log("  Drive %s: %s events, %.1f s" % (st.cmd, r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "?", time.time() - t0))
    return out, None

BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*\{([^}]*)\}\s*>>')
JUD = re.compile(r'<<\s*"JUDGED",\s*"([^"]*)"\s*>>')
def run_validate(st, tier, scratch, trace, cov):
    """splits long traces into root-to-leaf-closed chunks so that TLC never has to hold too much"""
    t0 = time.time()
    bad = []; judged = {}
    total = 0
    for ch in chunks(trace, scratch, st.chunk):
        n = sum(1 for _ in open(ch))
        if n == 0: raise Err("empty trace")
        total += n
        rc, out = tlc(scratch, st.module, cfg(invs=("Inv", "Judged")), {"TRACE": ch}, 3000 if tier == "thorough" else 600)
        text = open(out).read()
        for x in JUD.findall(text): judged[x] = judged.get(x, 0) + 1
        found = BAD.findall(text)
        lines = open(ch).read().splitlines() if found or rc != 0 else []
        def chain(i, lines=lines):
            r = []
            while i:
                e = json.loads(lines[i - 1]); r.append(e); i = e.get("p", 0)
            return r[::-1]
        for i, labs in found:
            for lab in re.findall(r'"([^"]*)"', labs):
                bad.append((lab, json.loads(lines[int(i) - 1]), lambda i=int(i), chain=chain: chain(i)))
        gen, dis = counts(text)
        if rc != 0:
            # the observation is outside the specification's domain (e.g. a function applied to an id that does not exist)
            m = re.findall(r"^l = (\d+)", text, re.M)
            if not m or "Parsing" in text[-200:] or ("rror" not in text): log(text[-3000:]); raise Err("TLC failed on trace (%d)" % rc)
            i = int(m[-1])
            log("  observation outside the specification's domain: event %d" % i); log(text[text.find("Error:"):][:1500])
            bad.append(("DOMAIN", json.loads(lines[i - 1]), lambda i=i, chain=chain: chain(i)))
        elif dis != n: raise Err("only %d of %d events were compared" % (dis, n))
        os.remove(ch)
    cov["traces_validated_against_impl"] += total
    for k, v in judged.items(): cov["judged"][k] = cov["judged"].get(k, 0) + v
    log("  Validate %s: %d events, %d within contract, %d rejected, %.1f s" % (st.module, total, sum(judged.values()), len(bad), time.time() - t0))
    if not judged and not bad: raise Err("vacuous trace")
    return bad

def chunks(trace, scratch, size):
    """Events refer to their parent event by index. A chunk holds a run of events plus the ancestors they need."""
    lines = open(trace).read().splitlines()
    if len(lines) <= size:
        out = os.path.join(scratch, "chunk"); open(out, "w").write("\n".join(lines) + "\n"); yield out; return
    par = []
    pr = re.compile(r'"p":(\d+)')
    for l in lines:
        m = pr.search(l); par.append(int(m.group(1)) if m else 0)
    i = 0; k = 0
    while i < len(lines):
        j = min(len(lines), i + size)
        need = set(range(i, j)); ext = set()
        for x in range(i, j):
            p = par[x]
            while p and (p - 1) not in need and (p - 1) not in ext:
                ext.add(p - 1); p = par[p - 1]
        ids = sorted(ext) + list(range(i, j)); pos = {x: n + 1 for n, x in enumerate(ids)}
        out = os.path.join(scratch, "chunk%d" % k); k += 1
        with open(out, "w") as f:
            for x in ids:
                f.write(pr.sub(lambda m: '"p":%d' % (pos[par[x] - 1] if par[x] else 0), lines[x], count=1) + "\n")
        yield out
        i = j

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = PLAN[pid]; t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="mbv-%s-" % pid)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "mc": [], "judged": {}}
    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k["property"] == pid]
    violations = []; seen_known = {}
    try:
        kinds = {s.bevy for s in p["stages"] if isinstance(s, Drive)}
        binary = {b: build(*(("hbevy", "mbv-hbevy") if b else ())) for b in sorted(kinds)}; log("  build: %.1f s" % (time.time() - t0))
        scripts = None; trace = None; n = 0
        for st in p["stages"]:
            if isinstance(st, MC):
                more = run_mc(st, tier, scratch, cov, seed)
                if more and scripts: open(scripts, "a").write(open(more).read())
                scripts = scripts or more
            elif isinstance(st, Drive):
                trace, crash = run_drive(st, tier, scratch, binary[st.bevy], scripts if st.use_scripts else None, seed, n); n += 1
                if crash is not None:
                    violations.append(("crash", [json.loads(crash)])); trace = None
            elif isinstance(st, Validate):
                if trace is None: continue
                if not cov["samples"] or len(cov["samples"]) < 4:
                    with open(trace) as f:
                        for i, line in enumerate(f):
                            if i in (1, 7):
                                cov["samples"].append(json.loads(line) if len(line) < 1500 else line[:1500])
                            if i > 7: break
                for lab, ev, chain in run_validate(st, tier, scratch, trace, cov):
                    if st.all and lab.split(":")[0] != pid: lab = pid + ":" + lab
                    if lab != "DOMAIN" and not (lab == pid or lab.startswith(pid + ":")): continue
                    k = next((k for k in known if matches(k, lab, ev)), None)
                    if k: seen_known[k["id"]] = seen_known.get(k["id"], 0) + 1
                    else: violations.append((lab, chain() if len(violations) < 20 else [ev]))
    except Err as e:
        if not violations:
            log("ERROR: %s" % e); shutil.rmtree(scratch, ignore_errors=True); sys.exit(2)
        log("note: %s" % e)
    for k in known:
        if k["id"] in seen_known: log("KNOWN-FINDING: property=%s %s (%d events)" % (pid, k["text"], seen_known[k["id"]]))
    cov["known_findings_seen"] = seen_known
    cov["rule"] = p.get("rule", "")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": p.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    shutil.rmtree(scratch, ignore_errors=True)
    if violations:
        rp = os.path.join(EVID, "replay-%s.json" % pid)
        json.dump([{"label": l, "history": c} for l, c in violations[:20]], open(rp, "w"), indent=1)
        for l, c in violations[:5]:
            e = c[-1]; log("rejected (%s): %s" % (l, json.dumps({k: v for k, v in e.items() if k not in ("m", "pos")})[:700]))
        log("VIOLATION property=%s replay=%s" % (pid, rp)); sys.exit(1)
    log("OK %s (%s): %d model states, %d implementation events, %.1f s" % (pid, tier, cov["states"], cov["traces_validated_against_impl"], time.time() - t0))

def matches(k, lab, ev):
    if k["label"] != lab: return False
    for f, v in k.get("where", {}).items():
        if ev.get(f) != v: return False
    return True

if __name__ == "__main__": main()
