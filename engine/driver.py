"""check driver: python3-vt engine/driver.py <property id>"""
import subprocess, glob
import importlib
import json
import multiprocessing as mp
import warnings
warnings.filterwarnings("ignore", category=RuntimeWarning)
import os
import random
import re
import signal
import sys
import time
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "specs")]
import build
import contract as ct
import loops
import prove
import replay
import smt
import symex
import term as tm
import verify
from numeric import Num, Fragile
from symex import Unsupported

sys.setrecursionlimit(20000)
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
G = {}


def load_specs():
    for p in sorted(glob.glob(os.path.join(VERIF, "specs", "s*.py"))):
        importlib.import_module(os.path.basename(p)[:-3])


def setup(groups=None, extra_classes=(), extra_headers=()):
    t0 = time.time()
    srcs = build.sources(groups)
    hd = build.headers(extra_headers)
    m = build.module(srcs, build.inline_tu(hd))
    lay = build.layouts(["AL::Math::" + c for c in ct._CLASSES] + ct.EXTRA_CLASSES + list(extra_classes), hd)
    G.update(mod=m, types=ct.Types(lay), srcs=srcs, hdrs=hd)
    dem = symex.demangle(set(m.functions) | set(m.decls) | set(m.aliases))
    m._dem = dem
    by = {}
    for k, v in dem.items():
        if k in m.functions:
            by.setdefault(v, k)
    for k, v in m.aliases.items():
        if v in m.functions and k in dem:
            by.setdefault(dem[k], v)
    G["by"] = by
    G["t_extract"] = time.time() - t0


def find_fn(sig):
    n = G["by"].get(sig)
    return G["mod"].functions[n] if n else None


def configs(sp):
    """(label, inputs, alias)"""
    out = []
    ins = sp.inputs
    variants = ins if isinstance(ins, list) else [ins]
    for i, v in enumerate(variants):
        lab = "" if len(variants) == 1 else v.get("label", "input %d" % (i + 1))
        v = {k: x for k, x in v.items() if k != "label"}
        out.append((lab, v, None))
        for al in sp.aliases:
            out.append(((lab + " " if lab else "") + "aliased %d=%d" % al, v, al))
    return out


def new_exec(sp):
    fp = sp.sem == "fp"
    ex = symex.Exec(G["mod"], symex.FpSem() if fp else symex.RealSem(),
                    contracts=ct.SPECS_FP if fp else ct.SPECS, unroll=sp.unroll)
    ex.types = G["types"]
    ex.top = sp.sig
    ex.loop_hook = loops.hook
    pv = prove.Prover()
    if not fp:
        ex.feas = prove.Feas()
    no = sp.opts.get("inline")
    if no:
        ex.contracts = {k: v for k, v in ex.contracts.items() if not re.search(no, ct.short(k))}
    return ex


def gen(sp, label, inputs, alias):
    f = find_fn(sp.sig)
    if f is None:
        raise Unsupported("function not found in the current tree: " + sp.sig)
    ex = new_exec(sp)
    obls, cfg = verify.obligations(sp, ex, f, G["types"], inputs, alias, label)
    finish_cfg(cfg, sp)
    return obls, cfg, ex, f


def finish_cfg(cfg, sp):
    cfg.fp = sp.sem == "fp"
    cfg.allvars = replay.all_vars(cfg)
    cfg.hypids = set()
    def add(h):
        cfg.hypids.add(h.id)
        if h.op == "and":
            for x in h.args:
                add(x)
    for h in list(cfg.hyps) + list(cfg.reqs):
        add(h)


def falsify(cfg, obl, rng, n=60):
    """numeric search for an input violating one obligation (on terms).  -> env or None"""
    vs = [v for x in obl.pc + [obl.goal] for v in tm.variables(x)]
    base = set(cfg.allvars)
    others = [v for v in set(vs) if v not in base]
    if any("!" in str(v.data) for v in others if not str(v.data).startswith("k!")):
        return None
    for _ in range(n):
        env = replay.sample_env(cfg, rng)
        for v in others:
            env[v] = rng.randrange(0, 6) if v.sort == "I" else replay.f32(replay.rnd(rng))
        try:
            num = Num(env, 1e-7 if not cfg.fp else 0)
            good = True
            for p in obl.pc:
                r = num.tri(p)
                if r is True:
                    continue
                if p.id in cfg.hypids and p.op == "eq" and r is None:
                    continue
                if p.op == "eq" and r is None and p.args[0].sort == "R":
                    continue
                good = False
                break
            if good and num.tri(obl.goal) is False:
                return env
        except (Fragile, tm.Undefined, KeyError):
            continue
    return None


class OutOfTime(BaseException):
    pass


def _alarm(*_):
    raise OutOfTime("time limit of this function reached")


JOB_LIMIT = 240 if TIER == "quick" else 1500
PROVE_LIMIT = 480 if TIER == "quick" else 4000


def job(args):
    """verify one (spec, configuration) within the time limit; returns a plain summary"""
    left = min(JOB_LIMIT, G.get("deadline", time.time() + JOB_LIMIT) - time.time())
    res = {}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(5, int(left)))
    try:
        return job_(args, res)
    except OutOfTime as e:
        res["error"] = res.get("error") or None
        if res.get("todo"):
            for o in res["todo"]:
                res["obls"].append((o.name, o.kind, "unknown", "", 0.0, "time limit", tm.show(o.goal)[:600],
                                    [tm.show(p)[:300] for p in o.pc[:30]]))
        else:
            res["error"] = "OutOfTime: %s" % e
        res["todo"] = None
        return res
    finally:
        signal.alarm(0)


def job_(args, res):
    kind, key, ci = args
    t0 = time.time()
    specs = ct.SPECS if kind == "spec" else ct.SPECS_FP
    res.update({"kind": kind, "key": key, "cfg": ci, "obls": [], "used": [], "inlined": [], "externals": [],
                "assumptions": [], "error": None, "paths": 0, "counts": {}, "secs": {}, "cover": 0, "todo": None})
    try:
        if kind == "lemma":
            return lemma_job(ct.LEMMAS[key], res, t0)
        sp = specs[key]
        label, inputs, alias = configs(sp)[ci]
        res["label"] = label
        try:
            obls, cfg, ex, f = gen(sp, label, inputs, alias)
        except OutOfTime:
            raise
        except (Unsupported, AttributeError, KeyError, TypeError, IndexError, AssertionError, NotImplementedError,
                RecursionError, Exception) as e:
            res["error"] = "%s: %s" % (type(e).__name__, e)
            res["trace"] = traceback.format_exc()[-1500:]
            return res
        rng = random.Random(SEED * 7919 + hash_str(key) + ci)
        pv = prove.Prover(timeout=sp.opts.get("timeout", 20.0 if TIER == "quick" else 60.0))
        discharge(obls, cfg, pv, rng, res)
        res["used"] = sorted(ex.used_contracts)
        res["inlined"] = sorted(ex.inlined - {sp.sig})
        res["externals"] = sorted(ex.externals)
        res["assumptions"] = sorted(ex.assumptions)
        res["paths"] = len(cfg.paths)
        res["counts"], res["secs"] = pv.counts, pv.secs
        # vacuity guard: concrete inputs that satisfy the preconditions and follow some path
        hit = set()
        for _ in range(150):
            env = replay.sample_env(cfg, rng)
            try:
                num = Num(env, 1e-6 if not cfg.fp else 0)
                for i, p in enumerate(cfg.paths):
                    if i not in hit and all(num.tri(x) is True or (x.op == "eq" and num.tri(x) is None) for x in p["pc"]):
                        hit.add(i)
                        break
            except (Fragile, tm.Undefined, KeyError):
                continue
            if len(hit) == len(cfg.paths):
                break
        res["cover"] = len(hit)
    except OutOfTime:
        raise
    except Exception as e:
        res["error"] = "internal: %s" % e
        res["trace"] = traceback.format_exc()[-3000:]
    res["wall"] = time.time() - t0
    return res


def discharge(obls, cfg, pv, rng, res, limit=3):
    ngiven = 0
    obls = list(obls)
    for oi, o in enumerate(obls):
        res["todo"] = obls[oi:]
        r = None
        if o.goal is not tm.TRUE and ngiven >= limit:
            r = prove.Result("unknown", why="not attempted after %d failed obligations of this function" % limit)
            # still try the cheap back ends
            r2 = pv.prove(o.pc, o.goal, o.rules, timeout=0.5, fp=o.fp)
            if r2.status == "proved":
                r = r2
        if r is None and cfg is not None and o.goal is not tm.TRUE:
            pv.falsify = lambda: falsify(cfg, o, rng)
            r = pv.prove(o.pc, o.goal, o.rules, fp=o.fp)
            pv.falsify = None
        elif r is None:
            r = pv.prove(o.pc, o.goal, o.rules, fp=o.fp)
        if r.status != "proved":
            ngiven += 1
        res["obls"].append((o.name, o.kind, r.status, r.backend, round(r.secs, 3), r.why or "",
                            "" if r.status == "proved" else tm.show(o.goal)[:600],
                            [] if r.status == "proved" else [tm.show(p)[:300] for p in o.pc[:30]]))
    res["todo"] = None


def hash_str(s):
    h = 0
    for ch in str(s):
        h = (h * 131 + ord(ch)) % 1000003
    return h


def lemma_job(lm, res, t0):
    import lemmas as lmod
    L = lmod.LemmaCtx(lm, G, new_exec)
    pv = prove.Prover(timeout=lm.opts.get("timeout", 20.0 if TIER == "quick" else 60.0))
    try:
        L.run()
    except OutOfTime:
        raise
    except Exception as e:
        res["error"] = "%s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()[-1500:]
        return res
    rng = random.Random(SEED)
    discharge(L.obls, None, pv, rng, res, 3 if lm.opts.get("harness") else 1 << 30)
    res.update(used=sorted(L.used), inlined=sorted(L.inlined), externals=sorted(L.externals),
               assumptions=sorted(L.assumptions), counts=pv.counts, secs=pv.secs, paths=1, cover=1, label="")
    res["wall"] = time.time() - t0
    return res


def findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) function=(.+?) obligation=(.+?) :: (.*)$", ln.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3), m.group(4)))
    return out


def run_property(prop):
    t0 = time.time()
    load_specs()
    import propcfg
    pc = propcfg.CONFIG.get(prop, {})
    viol, undecided, bounded, known = [], [], [], []
    try:
        setup(pc.get("groups"), pc.get("classes", ()), pc.get("headers", ()))
    except build.BuildError as e:
        print("ERROR: the sources of the current tree do not compile:\n%s" % str(e)[:1500])
        return 2
    todo = []
    seen = set()

    def push(kind, key):
        if (kind, key) in seen:
            return
        seen.add((kind, key))
        specs = ct.SPECS if kind == "spec" else ct.SPECS_FP
        if key not in specs:                 # a contract local to a lemma, proved by lemmas of the same property
            return
        for ci in range(len(configs(specs[key]))):
            todo.append((kind, key, ci))
    for k, s in ct.SPECS.items():
        if prop in s.props:
            push("spec", k)
    for k, s in ct.SPECS_FP.items():
        if prop in s.props:
            push("fp", k)
    for i, l in enumerate(ct.LEMMAS):
        if prop in l.props:
            todo.append(("lemma", i, 0))
    results = []
    G["deadline"] = t0 + PROVE_LIMIT
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, os.cpu_count() or 1)) as pool:
        while todo:
            batch, todo = todo, []
            for r in pool.imap_unordered(job, batch, chunksize=1):
                results.append(r)
                for u in r["used"]:
                    push("fp" if r["kind"] == "fp" else "spec", u)
    results.sort(key=lambda r: (r["kind"], str(r["key"]), r["cfg"]))
    # ---- judge
    failing = {}
    for r in results:
        if r["error"]:
            failing.setdefault((r["kind"], r["key"]), []).append((r["cfg"], "extraction", r["error"]))
        bad = [o for o in r["obls"] if o[2] != "proved"]
        if not r["obls"] and not r["error"]:
            failing.setdefault((r["kind"], r["key"]), []).append((r["cfg"], "extraction", "no obligations were generated"))
        for o in bad:
            failing.setdefault((r["kind"], r["key"]), []).append((r["cfg"], "obligation", o))
    kf = findings()
    nexec = 0
    if failing:
        real = None
        items = sorted(failing.items(), key=str)
        for (kind, key), fails in items:
            name = ct.short(key) if kind != "lemma" else "lemma " + ct.LEMMAS[key].name
            # known findings
            rest = []
            for fl in fails:
                on = fl[2][0] if fl[1] == "obligation" else fl[2]
                hit = next((k for k in kf if k[0] == prop and k[1] == name and re.search(k[2], on)), None)
                if hit:
                    known.append("%s: %s" % (name, hit[3]))
                else:
                    rest.append(fl)
            if not rest:
                continue
            if kind == "lemma":
                hn = ct.LEMMAS[key].opts.get("harness")
                what, n = harness(hn) if hn else (None, 0)
                nexec += n
                if what:
                    viol.append((name, rest, {"inputs": {"history": what}, "disagreement": what}, what.splitlines()[0]))
                elif n and all(f[1] == "extraction" for f in rest):
                    bounded.append((name, rest, n))
                else:
                    viol.append((name, rest, None, "lemma over the contracts fails"))
                continue
            if time.time() - t0 > (780 if TIER == "quick" else 7200):
                viol.append((name, rest, None, "obligation not accepted by the verifier (no time left to search for an input)"))
                continue
            if real is None:
                real = make_real([k for (kd, k) in failing if kd != "lemma"])
            try:
                what, rec, n = concrete(real, kind, key, rest)
            except Exception as e:
                print("counterexample search failed for %s: %s: %s" % (name, type(e).__name__, e))
                what, rec, n = None, None, 0
            nexec += n
            if rec is not None:
                viol.append((name, rest, rec, what))
            elif all(f[1] == "extraction" for f in rest):
                bounded.append((name, rest, n))
            else:
                viol.append((name, [f for f in rest if f[1] == "obligation"], None, "obligation not accepted by the verifier"))
    return report(prop, t0, results, viol, bounded, known, nexec)


def harness(name):
    """concrete histories of the real code against the oracle in harness/<name>.
    -> (description of the failing history or None, number of histories run)"""
    memo = G.setdefault("harness", {})
    if name in memo:
        return memo[name]
    memo[name] = (None, 0)
    src = os.path.join(VERIF, "harness", name)
    srcs = []
    for ln in open(src):
        if ln.startswith("// sources:"):
            srcs = sorted(set(f for g in ln.split(":", 1)[1].split() for f in glob.glob(os.path.join(build.REPO, g))))
    exe = os.path.join(build.workdir(), name + ".bin")
    p = subprocess.run(["g++", "-std=gnu++17", "-w", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] +
                       build.INC + [src] + srcs + ["-o", exe], capture_output=True, text=True)
    if p.returncode:
        sys.stderr.write("harness %s does not compile: %s\n" % (name, p.stderr[:600]))
        return memo[name]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
    try:
        p = subprocess.run([exe, str(SEED), "2000" if TIER == "quick" else "40000"], capture_output=True, text=True,
                           errors="replace", timeout=60 if TIER == "quick" else 600, env=env, cwd=build.workdir())
    except subprocess.TimeoutExpired:
        return memo[name]
    m = re.search(r"(\d+) histories", p.stdout)
    n = int(m.group(1)) if m else 1
    if p.returncode:
        out = p.stdout.strip().splitlines()[-25:]
        k = [i for i, x in enumerate(out) if x.startswith("history:")]
        out = out[k[-1]:] if k else out[-1:]
        err = [x for x in p.stderr.splitlines() if "ERROR" in x or "runtime error" in x][:2]
        memo[name] = ("\n".join(err + out) or "the real code aborts", n)
    else:
        memo[name] = (None, n)
    return memo[name]


def make_real(keys):
    params = {}
    ok = []
    for k in dict.fromkeys(keys):
        f = find_fn(k)
        if f is None:
            continue
        try:
            params[k] = ct.signature_params(k, f, G["types"])
            ok.append(k)
        except Unsupported:
            pass
    for attempt in (ok, None):
        try:
            if attempt is None:
                # isolate functions whose shim does not compile
                good = []
                for k in ok:
                    try:
                        replay.Real([k], G["types"], params, [], G["hdrs"])
                        good.append(k)
                    except Exception:
                        pass
                if not good:
                    return None
                attempt = good
            return replay.Real(attempt, G["types"], params, G["srcs"], G["hdrs"])
        except Exception as e:
            sys.stderr.write("replay shim: %s\n" % str(e)[:500])
    return None


def concrete(real, kind, key, fails):
    """search for a concrete failing input against the real function"""
    sp = (ct.SPECS if kind == "spec" else ct.SPECS_FP)[key]
    f = find_fn(key)
    if real is None or f is None or not real.has(key):
        return None, None, 0
    rng = random.Random(SEED)
    n = 0
    t0 = time.time()
    G.setdefault("search_end", t0 + (150.0 if TIER == "quick" else 900.0))
    budget = max(2.0, min(40.0 if TIER == "quick" else 200.0, G["search_end"] - t0))
    cis = sorted(set(fl[0] for fl in fails))
    for ci in cis:
        label, inputs, alias = configs(sp)[ci]
        cfg = obls = None
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(60)
            try:
                obls, cfg, ex, f = gen(sp, label, inputs, alias)
            finally:
                signal.alarm(0)
        except (Exception, OutOfTime):
            try:
                cfg = spec_only(sp, f, inputs, alias, label)
            except Exception as e:
                continue
        names = set(fl[2][0] for fl in fails if fl[0] == ci and fl[1] == "obligation")

        def aimed():
            """inputs that violate one of the failed obligations, by sampling or by a solver's model"""
            for o in obls or []:
                if o.name not in names:
                    continue
                if time.time() - t0 > budget * 0.6:
                    return
                e = falsify(cfg, o, rng, 200)
                if e:
                    yield e
                    continue
                try:
                    st, be, secs, model = smt.run(o.pc, o.goal, 4.0)
                except Exception:
                    continue
                if st == "refuted" and model:
                    env = replay.sample_env(cfg, rng)
                    for v, x in model.items():
                        if v in env:
                            env[v] = replay.f32(x) if v.sort == "R" else x
                    yield env

        def stream():
            for i in range(300):
                if time.time() - t0 > budget * 0.3:
                    break
                yield replay.sample_env(cfg, rng)
            yield from aimed()
            for _ in range(6000 if TIER == "quick" else 40000):
                yield replay.sample_env(cfg, rng)
        for env in stream():
            if time.time() - t0 > budget:
                break
            n += 1
            w = replay.check_real(real, cfg, env, G["types"], f)
            if w and w != "skip":
                rec = {"function": key, "configuration": label, "disagreement": w,
                       "inputs": {str(v.data) if isinstance(v, tm.T) else str(v[1]): fl(x) for v, x in env.items()}}
                return w, rec, n
    return None, None, n


def fl(x):
    if isinstance(x, (list, tuple)):
        return [fl(y) for y in x]
    if isinstance(x, (bool, int, str)):
        return x
    return float(x) if x == x else "nan"


def spec_only(sp, f, inputs, alias, label):
    """a Config without executing the body (for the bounded stand-in)"""
    ex = new_exec(sp)
    st, args, cfg = verify.build_state(ex, sp, f, G["types"], inputs, alias, label)
    c = ct.eval_spec(sp, ex, cfg.pre.fork(), args, f, "verify", G["types"])
    cfg.spec, cfg.reqs, cfg.paths = c, list(c.reqs), []
    finish_cfg(cfg, sp)
    return cfg


def report(prop, t0, results, viol, bounded, known, nexec):
    nob = sum(len(r["obls"]) for r in results)
    ndis = sum(1 for r in results for o in r["obls"] if o[2] == "proved")
    be, secs = {}, {}
    for r in results:
        for k, v in r["counts"].items():
            be[k] = be.get(k, 0) + v
        for k, v in r["secs"].items():
            secs[k] = round(secs.get(k, 0) + v, 3)
    assum = set(BASE_ASSUMPTIONS)
    for r in results:
        assum.update(r["assumptions"])
    contracts = {}
    for r in results:
        if r["kind"] == "lemma":
            continue
        n = ct.short(r["key"]) + (" (IEEE)" if r["kind"] == "fp" else "")
        d = contracts.setdefault(n, {"configurations": 0, "paths": 0, "paths_reached_concretely": 0, "obligations": 0,
                                     "discharged": 0})
        d["configurations"] += 1
        d["paths"] += r["paths"]
        d["paths_reached_concretely"] += r["cover"]
        d["obligations"] += len(r["obls"])
        d["discharged"] += sum(1 for o in r["obls"] if o[2] == "proved")
        if r["error"]:
            d["not_extracted"] = r["error"]
    ext = sorted(set(e for r in results for e in r["externals"]))
    inl = sorted(set(ct.short(e) for r in results for e in r["inlined"]))
    local = {}
    for r in results:
        if r["kind"] == "lemma":
            for rx, h in (ct.LEMMAS[r["key"]].opts.get("contracts") or ()):
                rx = rx.replace(" ?>", ">").replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string")
                rx = rx.replace("boost::property_tree::basic_ptree<string, string, std::less<string>>", "ptree").replace(
                    "boost::property_tree::string_path<string, boost::property_tree::id_translator<string>>", "path")
                local.setdefault(rx, (h.__doc__ or getattr(h, "__name__", "contract")).strip().split("\n")[0])
    import propcfg
    cov = {"obligations": nob, "discharged": ndis,
           "checker_cmd": "python3-vt engine/driver.py %s" % prop,
           "trusted_base": ["clang 18 (C++ -> LLVM IR: /repo's sources at -O0, the header instantiations of inst/ which use Eigen or "
                            "boost::property_tree at -O1)", "engine/ir.py, engine/symex.py (VC generation)",
                            "engine/poly.py (rational-function normal forms)", "z3 5.x", "cvc5 1.1.2",
                            "the specifications in specs/*.py"],
           "functions_under_contract": contracts,
           "lemmas": [{"name": ct.LEMMAS[r["key"]].name, "obligations": len(r["obls"])} for r in results if r["kind"] == "lemma"],
           "functions_inlined": inl, "external_contracts_assumed": ext,
           "local_contracts_used_instead_of_bodies": local,
           "backends": be, "backend_seconds": secs, "extraction_seconds": round(G["t_extract"], 2),
           "samples": [{"function": ct.short(r["key"]) if r["kind"] != "lemma" else "lemma", "obligation": o[0], "backend": o[3]}
                       for r in results for o in r["obls"][:1]][:12],
           "bounded_stand_ins": [{"function": n, "reason": [str(f[2])[:300] for f in fs], "real_executions": k}
                                 for n, fs, k in bounded],
           "counterexample_search_executions": nexec,
           "not_under_contract": propcfg.CONFIG.get(prop, {}).get("not_covered", [])}
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "proof", "coverage": cov,
          "assumptions": sorted(assum), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d functions under contract, %d lemmas, %d obligations, %d discharged %s in %.1f s" %
          (prop, len(contracts), len(cov["lemmas"]), nob, ndis, be, time.time() - t0))
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for n, fs, k in bounded:
        print("BOUNDED: %s could not be brought within the verifier's reach on this tree (%s); %d executions of the "
              "real function against its contract found no disagreement" % (n, str(fs[0][2])[:160], k))
    if nob == 0 and not bounded and not viol:
        print("ERROR: no obligations were generated")
        return 2
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        # concrete ones first
        viol.sort(key=lambda v: v[2] is None)
        for i, (name, fails, rec, what) in enumerate(viol):
            path = os.path.join(VERIF, "replays", "%s_%d.json" % (prop, i))
            doc = {"property": prop, "function": name, "what": what, "seed": SEED,
                   "failed_obligations": [{"obligation": f[2][0], "verifier": f[2][2], "reason": f[2][5], "goal": f[2][6],
                                           "hypotheses": f[2][7]} if f[1] == "obligation" else {"extraction": f[2]}
                                          for f in fails[:10]],
                   "concrete": rec}
            with open(path, "w") as fh:
                json.dump(doc, fh, indent=1)
            first = fails[0][2][0] if fails[0][1] == "obligation" else fails[0][2]
            print("failed: %s: %s%s" % (name, first, " -- replayed on the real code: " + str(what) if rec else
                                        " (%s %s)" % (fails[0][2][2], fails[0][2][5]) if fails[0][1] == "obligation" else ""))
            if rec:
                print("  inputs: %s" % json.dumps(rec["inputs"])[:600])
            if i < 5:
                print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if rec else " no-failing-input-found"))
        return 1
    return 0


BASE_ASSUMPTIONS = [
    "floating-point arithmetic is treated as exact real arithmetic in contracts not marked IEEE (rounding, overflow and NaN are not modelled there)",
    "the single/double constants nearest to k*pi are read as k*pi",
    "libm functions sqrt, sin, cos, atan2, acos, asin, fmod, fabs, floor satisfy their mathematical definitions",
    "pointer/reference parameters do not alias except in the aliased configurations listed",
    "the proof is about the LLVM IR clang 18 produces from /repo's sources; the shipped library is compiled by g++",
]


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            load_specs()
            print("%d contracts, %d IEEE contracts, %d lemmas" % (len(ct.SPECS), len(ct.SPECS_FP), len(ct.LEMMAS)))
            sys.exit(0)
        sys.exit(run_property(sys.argv[1]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc(file=sys.stdout)
        sys.exit(2)
