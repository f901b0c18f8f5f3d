#!/usr/bin/env python3
"""Decides one property:  check.py <PROPERTY> quick|thorough     Replays a counterexample:  check.py --replay FILE

Regenerates the LLVM IR of the harness + /repo's current source, executes it symbolically with engine/ (Z3),
replays every counterexample natively against the real code (real crates, dev and release profile) and only then
prints VIOLATION. Exit 0 held, 1 violated, 2 no answer (bounds not exhausted, build failure, spurious model)."""
import concurrent.futures, glob, hashlib, importlib, json, os, re, shutil, subprocess, sys, tempfile, time, tomllib

V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("KSYM_REPO", "/repo"); B = os.path.join(V, "build")
sys.path.insert(0, V)
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"): ENV.pop(k, None)
# dependency -> replacement in symbolic runs
STUBS = ["sha1", "sha2", "md5", "p256", "p384", "p12"]
# flavour: (stubbed crates, verify feature)
FLAVOURS = {"sym": (STUBS, False), "symv": (STUBS + ["rustls-webpki"], True), "nat": ([], False), "natv": (STUBS + ["rustls-webpki"], True)}
class Fail(Exception): pass

def toml_val(v):
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, (str, int, float)): return json.dumps(v)
    if isinstance(v, list): return "[" + ", ".join(map(toml_val, v)) + "]"
    return "{ " + ", ".join(f"{json.dumps(k)} = {toml_val(x)}" for k, x in v.items()) + " }"

def write(path, text):
    if os.path.exists(path) and open(path).read() == text: return
    os.makedirs(os.path.dirname(path), exist_ok=True); open(path, "w").write(text)

def link(src, dst):
    if os.path.islink(dst):
        if os.readlink(dst) == src: return
        os.unlink(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True); os.symlink(src, dst)

def gen(flavour, prop):
    """derived package of /repo (dependencies that are missing offline or replaced by stand-ins) and harness package"""
    stubs, verify = FLAVOURS[flavour]; d = os.path.join(B, flavour)
    m = tomllib.load(open(os.path.join(REPO, "Cargo.toml"), "rb"))
    deps, feats = m.get("dependencies", {}), m.get("features", {})
    for n in list(deps):
        x = deps[n] if isinstance(deps[n], dict) else {"version": deps[n]}
        if n in stubs:
            x = {k: v for k, v in x.items() if k in ("optional", "features")}; x["path"] = os.path.join(V, "stubs", "webpki" if n == "rustls-webpki" else n)
        elif n == "rustls-webpki":
            del deps[n]; continue
        deps[n] = x
    gone = "rustls-webpki" not in deps
    for f in feats: feats[f] = [x for x in feats[f] if not (gone and x == "dep:rustls-webpki")]
    if not verify: feats["default"] = [x for x in feats.get("default", []) if x != "verify"]
    t = "[package]\n" + "".join(f"{k} = {toml_val(m['package'][k])}\n" for k in ("name", "version", "edition") if k in m["package"])
    t += "[lib]\npath = \"src/lib.rs\"\n[dependencies]\n" + "".join(f"{k} = {toml_val(v)}\n" for k, v in deps.items())
    t += "[features]\n" + "".join(f"{k} = {toml_val(v)}\n" for k, v in feats.items())
    write(os.path.join(d, "pkg", "Cargo.toml"), t)
    for n in os.listdir(REPO):
        if n not in (".git", "target", "Cargo.toml", "Cargo.lock", "tests", "build.rs"): link(os.path.join(REPO, n), os.path.join(d, "pkg", n))
    h = os.path.join(d, "h"); keep = {"version": "*"}
    hd = {"ksusig": {"path": "../pkg"}, "ksymrt": {"path": os.path.join(V, "rt"), "features": ["native"] if flavour.startswith("nat") else []}}
    for n in ("clap", "base64", "pem", "p256", "p384", "pkcs8", "sha2", "sec1", "p12", "x509-cert", "serde", "sha1", "md5"):
        if n in deps: hd[n] = {k: v for k, v in deps[n].items() if k != "optional"}
    if flavour.startswith("nat"): pass
    feats_h = {"verify": [], "keystore": [], "hash": [], "signing": [], "elf": [], "serde": [], "cli": [], "native": ["ksymrt/native"]}
    t = "[package]\nname = \"h\"\nversion = \"0.1.0\"\nedition = \"2021\"\ndescription = \"h\"\nauthors = [\"h\"]\n[dependencies]\n" + "".join(f"{k} = {toml_val(v)}\n" for k, v in hd.items())
    props = [os.path.basename(x)[:-3] for x in glob.glob(os.path.join(V, "harness", "src", "c*.rs"))]
    t += "[features]\n" + "".join(f"{k} = {toml_val(v)}\n" for k, v in feats_h.items()) + "".join(f"{p} = []\n" for p in sorted(props))
    prof = "opt-level = 1\noverflow-checks = true\ndebug-assertions = true\nlto = \"fat\"\npanic = \"abort\"\ncodegen-units = 1\n"
    t += "[workspace]\n[profile.ir]\ninherits = \"release\"\n" + prof + "[profile.dev]\ndebug = false\nopt-level = 0\n[profile.dev.package.\"*\"]\nopt-level = 2\n[profile.dev.package.ksusig]\nopt-level = 0\n[profile.release]\nopt-level = 3\n"
    write(os.path.join(h, "Cargo.toml"), t)
    link(os.path.join(REPO, "src", "cli"), os.path.join(h, "src", "cli"))
    for f in os.listdir(os.path.join(V, "harness", "src")): link(os.path.join(V, "harness", "src", f), os.path.join(h, "src", f))
    lock = os.path.join(h, "Cargo.lock")
    if not os.path.exists(lock):
        x = open(os.path.join(REPO, "Cargo.lock")).read() if os.path.exists(os.path.join(REPO, "Cargo.lock")) else ""
        if x:
            head, *pk = x.split("[[package]]\n")
            drop = set(stubs) | {"rustls-webpki", "ksusig"}
            pk = [p for p in pk if re.match(r'name = "([^"]+)"', p)[1] not in drop]
            open(lock, "w").write("[[package]]\n".join([head, *pk]))
    return h

def cargo(h, flavour, prop, spec, profile):
    feats = [prop.lower()] + (["cli", "keystore", "hash", "signing", "elf", "serde"] if spec.get("cli") else []) + (["verify"] if FLAVOURS[flavour][1] else []) + (["native"] if flavour.startswith("nat") else [])
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(B, "target-" + flavour + "-" + profile))
    base = ["cargo", "rustc", "--offline", "-q", "--message-format=json", "--features", ",".join(feats), "--bin", "h"]
    # always rebuild /repo's code and the harness (file times are not trusted); only third-party builds are reused
    for f in glob.glob(env["CARGO_TARGET_DIR"] + "/ir/deps/h-*.ll") + [x for n in ("h", "ksusig") for x in glob.glob(env["CARGO_TARGET_DIR"] + f"/*/.fingerprint/{n}-*")]: shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
    if profile == "ir": cmd = base + ["--profile", "ir", "--", "--emit=llvm-ir", "-C", "linker=/bin/true", "-Awarnings"]
    else: cmd = base + (["--release"] if profile == "release" else []) + ["--", "-Awarnings"]
    r = subprocess.run(cmd, cwd=h, env=env, capture_output=True, text=True)
    if r.returncode: raise Fail(f"build {flavour}/{profile} failed:\n" + r.stderr[-1500:] + "".join(json.loads(l).get("message", {}).get("rendered") or "" for l in r.stdout.splitlines() if l.startswith("{") and "compiler-message" in l and '"level":"error"' in l)[-4000:])
    out = env["CARGO_TARGET_DIR"]
    if profile == "ir":
        c = glob.glob(out + "/ir/deps/h-*.ll")
        if len(c) != 1: raise Fail(f"cannot identify the IR file: {c}")
        q = os.path.join(B, f"{prop}.ll"); shutil.copy2(c[0], q); return q
    p = os.path.join(out, "release" if profile == "release" else "debug", "h"); q = os.path.join(B, f"h-{flavour}-{profile}-{prop}"); shutil.copy2(p, q); return q

class Native:
    def __init__(self, prop, spec): self.prop, self.spec, self.bins = prop, spec, {}
    def bin(self, profile):
        if profile not in self.bins:
            fl = "natv" if self.spec.get("verify") else "nat"
            self.bins[profile] = cargo(gen(fl, self.prop), fl, self.prop, self.spec, profile)
        return self.bins[profile]
    def run(self, profile, entry, params, inputs, alloc, timeout=120):
        b = self.bin(profile); d = tempfile.mkdtemp(prefix="ksym-")
        try:
            with open(d + "/in", "w") as f: f.write("".join(f"{n} {h}\n" for n, h in inputs))
            w = d + "/w"; os.mkdir(w)
            env = dict(PATH="/usr/bin:/bin", KSYM_INPUT=d + "/in", KSYM_LOG=d + "/log", KSYM_DIR=w, RUST_BACKTRACE="0", **{f"KSYM_P{i}": str(v) for i, v in params.items()})
            if alloc: env["KSYM_ALLOC"] = str(alloc)
            with open(w + "/stdout", "wb") as so:
                try: r = subprocess.run([b, entry], env=env, cwd=w, stdout=so, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim)
                except subprocess.TimeoutExpired: return {"end": "timeout", "log": [], "err": ""}
            log = open(d + "/log").read().splitlines() if os.path.exists(d + "/log") else []
            err = r.stderr.decode("utf8", "replace")
            end = {0: "ok", 42: "assert", 43: "alloc", 77: "assume", 78: "input", 101: "panic"}.get(r.returncode, "signal%d" % -r.returncode if r.returncode < 0 else "exit%d" % r.returncode)
            return {"end": end, "log": log, "err": err[-600:]}
        finally: shutil.rmtree(d, ignore_errors=True)
def lim():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def reproduces(viol, res):
    """does the native run show the same kind of failure as the model claims?"""
    k = viol["kind"]
    if k == "assert": return any(l == "KSYM-ASSERT " + viol["msg"] for l in res["log"]) or any(l.startswith("KSYM-ASSERT") for l in res["log"]) or res["end"] in ("panic", "timeout") or res["end"].startswith("signal")
    return res["end"] in ("panic", "alloc", "timeout", "assert") or res["end"].startswith("signal")

def run_engine(ir, entry, o, outp, seed):
    cmd = [os.path.join(B, "ksym"), ir, "--entry", "h_" + entry, "--out", outp, "--jobs", str(o.get("jobs", 8)), "--time", str(o.get("time", 600)), "--seed", str(seed), "--samples", str(o.get("samples", 24)), "--max-viol-total", "12", "--max-steps", str(o.get("steps", 200000000))]
    if o.get("alloc"): cmd += ["--alloc", str(o["alloc"])]
    if o.get("stdout", False): cmd += ["--stdout"]
    if o.get("panic_ok"): cmd += ["--panic-ok"]
    for i, v in o.get("p", {}).items(): cmd += ["--param", f"{i}={v}"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    res = {"viol": [], "samples": [], "inc": [], "stats": {}, "fns": set(), "summary": None, "rc": r.returncode, "err": r.stderr[-1500:]}
    for l in open(outp) if os.path.exists(outp) else []:
        try: d = json.loads(l)
        except Exception: continue
        if d["t"] == "violation": res["viol"].append(d)
        elif d["t"] == "sample": res["samples"].append(d)
        elif d["t"] == "incomplete": res["inc"].append(d)
        elif d["t"] == "summary": res["summary"] = d
        elif d["t"] == "stats":
            res["fns"] |= set(d["fns"])
            for k, v in d.items():
                if isinstance(v, (int, float)): res["stats"][k] = max(v, res["stats"].get(k, 0)) if k == "maxq_s" else v + res["stats"].get(k, 0)
    return res

def known():
    out = []
    p = os.path.join(V, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) entry=(\S+) where=(\S+) (.*)", l.strip())
        if m: out.append(m.groups())
    return out

def build_engine():
    k = os.path.join(B, "ksym"); src = glob.glob(os.path.join(V, "engine", "*"))
    if os.path.exists(k) and os.path.getmtime(k) > max(map(os.path.getmtime, src)): return
    os.makedirs(B, exist_ok=True)
    r = subprocess.run(["bash", os.path.join(V, "engine", "build.sh"), k], capture_output=True, text=True, env=ENV)
    if r.returncode: raise Fail("engine build failed: " + r.stderr[-2000:])

def main():
    from specs import SPECS
    if sys.argv[1] == "--setup":
        build_engine(); print("engine built")
        for p, fl, pr in (("C01", "sym", "ir"), ("C01", "nat", "dev"), ("C23", "symv", "ir"), ("C23", "natv", "dev")):   # warms the dependency builds only; checks rebuild /repo's code
            if p in SPECS:
                try: cargo(gen(fl, p), fl, p, SPECS[p], pr); print("built", fl, pr, flush=True)
                except Fail as e: print("not built:", fl, pr, str(e)[:300])
        return 0
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2])); n = Native(d["property"], SPECS[d["property"]]); bad = False
        for pr in ("dev", "release"):
            r = n.run(pr, d["entry"], d["params"], d["inputs"], d.get("alloc")); print(pr, r["end"], *r["log"][-8:], r["err"], sep="\n  "); bad |= reproduces({"kind": d["kind"], "msg": d["msg"]}, r)
        print("reproduced" if bad else "not reproduced"); return 1 if bad else 0
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1")); spec = SPECS[prop]; t0 = time.time(); fl = "symv" if spec.get("verify") else "sym"
    ev = os.path.join(V, "evidence"); os.makedirs(ev, exist_ok=True); rp = os.path.join(ev, "replay"); os.makedirs(rp, exist_ok=True)
    for f in glob.glob(os.path.join(rp, prop + "-*")): os.unlink(f)
    nat = Native(prop, spec)
    with concurrent.futures.ThreadPoolExecutor() as ex:
        fe = ex.submit(build_engine); fi = ex.submit(lambda: cargo(gen(fl, prop), fl, prop, spec, "ir")); fe.result(); ir = fi.result()
        fn = ex.submit(nat.bin, "dev")
        tb = time.time() - t0
        tot = {}; fns = set(); runs = []; viol = []; errors = []; samples = []
        for entry, o in spec["runs"].items():
            if only and entry not in only: continue
            o = dict(o); t = o.pop("thorough", None)
            if tier == "thorough" and t: o = {**o, **t, "p": {**o.get("p", {}), **t.get("p", {})}}
            if o.get("only") and o["only"] != tier: continue
            if tier == "quick":   # a changed tree may explode: keep the whole check within its limit, and report what has been found
                left = 780 - (time.time() - t0)
                if viol and left < 500: break
                o["time"] = max(5, min(o.get("time", 600), left))
            outp = os.path.join(B, f"out-{prop}-{entry}.jsonl"); r = run_engine(ir, entry, o, outp, seed)
            s = r["summary"]
            for k, v in r["stats"].items(): tot[k] = max(v, tot.get(k, 0)) if k == "maxq_s" else tot.get(k, 0) + v
            fns |= r["fns"]
            runs.append({"entry": entry, "bounds": o.get("bounds", ""), "params": {str(k): v for k, v in o.get("p", {}).items()}, "paths": s and s["paths"], "ends": s and s["ends"], "covers": s and s["covers"], "wall_s": s and round(s["wall_s"], 1), "queries": r["stats"].get("queries"), "solver_s": round(r["stats"].get("solver_s", 0), 2)})
            print(f"{prop} {entry}: paths={s and s['paths']} ends={s and s['ends']} queries={int(r['stats'].get('queries', 0))} solver={r['stats'].get('solver_s', 0):.1f}s wall={s['wall_s'] if s else 0:.1f}s", flush=True)
            viol += [(entry, o, v) for v in r["viol"]]
            if r["viol"]: continue
            if r["rc"] not in (0,) or not s: errors.append(f"{entry}: engine rc={r['rc']} {r['err']} incomplete={json.dumps(r['inc'][:3])[:1500]}")
            else:
                miss = [c for c in o.get("covers", []) if str(c) not in s["covers"]]
                if miss: errors.append(f"{entry}: vacuity witness(es) {miss} not reached")
            samples += [(entry, o, x) for x in r["samples"][: o.get("replay", 12)]]
        fn.result()
    # counterexamples: replay natively before believing them
    kn = known(); reported = 0; known_hits = set(); spurious = []; seen = set(); replays = []
    for entry, o, v in viol:
        key = (entry, v["kind"], v["msg"], v["stack"][0] if v["stack"] else "")
        if key in seen and reported: continue
        seen.add(key); rec = None
        for pr in ("dev", "release"):
            res = nat.run(pr, entry, o.get("p", {}), v["inputs"], o.get("alloc"))
            if reproduces(v, res): rec = (pr, res); break
        if not rec: spurious.append(f"{entry}: {v['kind']} {v['msg']} at {v['stack'][:4]} did not reproduce natively ({res['end']} {res['log'][-2:]} {res['err'][-200:]})"); continue
        where = hashlib.sha256((entry + v["msg"]).encode()).hexdigest()[:12]
        hit = [k for k in kn if k[0] == prop and k[1] == entry and k[2] == where]
        if hit: known_hits.add(hit[0]); continue
        path = os.path.join(rp, f"{prop}-{len(replays) + 1}.json")
        d = {"property": prop, "entry": entry, "params": o.get("p", {}), "alloc": o.get("alloc"), "kind": v["kind"], "msg": v["msg"], "where": where, "inputs": v["inputs"], "stack": v["stack"], "native": {"profile": rec[0], **rec[1]}, "how": f"python3 {V}/check.py --replay {path}"}
        json.dump(d, open(path, "w"), indent=1); replays.append(path); reported += 1
        print(f"  {v['kind']} {v['msg']} inputs={json.dumps(v['inputs'])[:400]} native[{rec[0]}]={rec[1]['end']} {rec[1]['log'][-1:]} {rec[1]['err'][-300:]}")
        if reported >= 5: break
    # completed paths: the same inputs must behave the same natively (model validation)
    validated = 0; examples = []
    if not viol:
        def one(x):
            entry, o, s = x; return x, nat.run("dev", entry, o.get("p", {}), s["inputs"], o.get("alloc"))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for (entry, o, s), res in ex.map(one, samples):
                want = [f"KSYM-OBS {n} {h}" for n, h in s["obs"]]; got = [l for l in res["log"] if l.startswith("KSYM-OBS")]
                ok = (res["end"] == "ok" and s["end"] in ("ok", "exit")) or (s["end"] == "panic" and res["end"] in ("panic", "signal6"))
                if res["end"] == "assume": continue # depends on a value the model abstracts (key, signature): nothing to compare
                if res["end"] == "assert" and s["end"] in ("ok", "exit") and reported < 5: # the real code fails the assertion on this input, whatever the model says
                    path = os.path.join(rp, f"{prop}-{len(replays) + 1}.json")
                    json.dump({"property": prop, "entry": entry, "params": o.get("p", {}), "alloc": o.get("alloc"), "kind": "assert", "msg": res["log"][-1] if res["log"] else "", "inputs": s["inputs"], "stack": [], "native": {"profile": "dev", **res}, "how": f"python3 {V}/check.py --replay {path}"}, open(path, "w"), indent=1); replays.append(path); reported += 1
                elif not ok or want != got:
                    spurious.append(f"{entry}: path model disagrees with the native run: inputs={json.dumps(s['inputs'])[:1200]} sym={s['end']} {want} native={res['end']} {got} {res['log'][-1:]} {res['err'][-300:]}")
                else:
                    validated += 1
                    if len(examples) < 6: examples.append({"entry": entry, "inputs": [[n, h[:160]] for n, h in s["inputs"]], "end": s["end"], "observed": s["obs"][:4]})
    # a concrete disagreement between path model and code where the code fails the assertion itself is a violation too
    for l in known_hits: print(f"KNOWN-FINDING: property={prop} {l[3]}")
    wall = time.time() - t0; demang = sorted(x for x in fns if "ksusig" in x or "7ksusig" in x or "3cli" in x)
    cov = {"states": sum(r["paths"] or 0 for r in runs), "transitions": int(tot.get("steps", 0)), "traces_validated_against_impl": validated, "samples": examples or [{"inputs": viol[0][2]["inputs"]}] if (examples or viol) else [{"note": "none"}],
           "states_meaning": "symbolic paths explored to their end; each stands for every input satisfying its path condition", "transitions_meaning": "LLVM instructions executed symbolically",
           "runs": runs, "queries_discharged": int(tot.get("queries", 0)), "queries_unsat": int(tot.get("unsat", 0)), "queries_sat": int(tot.get("sat", 0)), "forks": int(tot.get("forks", 0)), "solver_s": round(tot.get("solver_s", 0), 2), "slowest_query_s": round(tot.get("maxq_s", 0), 3),
           "solver": "z3 (libz3) QF_BV over expressions built from LLVM IR", "functions_encoded": demang[:400], "functions_encoded_total": len(fns), "ir_sha256": hashlib.sha256(open(ir, "rb").read()).hexdigest(), "build_s": round(tb, 1)}
    e = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(wall, 1), "assumptions": spec.get("assumptions", []) + COMMON, "violations": len(replays), "replays": replays}
    json.dump(e, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    for p in replays: print(f"VIOLATION property={prop} replay={p}")
    print(f"{prop} {tier}: {cov['states']} paths, {cov['queries_discharged']} queries, {validated} paths validated natively, {wall:.0f}s")
    if replays: return 1
    for x in errors + spurious: print("ERROR " + x)
    return 2 if errors or spurious else 0
COMMON = ["LLVM IR of rustc 1.99.1 at opt-level 1 with overflow checks and debug assertions on represents the source (counterexamples and sampled paths are replayed against native dev/release builds)",
          "std noreturn panic entry points end a path as a panic; allocation never fails below the stated limit",
          "SHA-1/SHA-2/MD5 are an uninterpreted collision-free function; ECDSA is an ideal signature (see stubs/)"]
if __name__ == "__main__":
    try: sys.exit(main())
    except Fail as e: print("ERROR", e); sys.exit(2)
