"""Runner: decides one property from its contracts.

  python -m vf.run --property C01 --tier quick|thorough
  python -m vf.run --replay FILE
"""
import argparse, builtins, contextlib, hashlib, importlib, io, json, os, random, shutil, signal, socket, sys, tempfile, time, traceback, warnings

os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def _no_net(*a, **k):
    raise OSError("network disabled")


socket.socket.connect = _no_net
socket.getaddrinfo = _no_net

TIERS = {"quick": dict(samples=1.0, sym_s=150, paths=600, model_paths=60, con_s=60),
         "thorough": dict(samples=12.0, sym_s=600, paths=4000, model_paths=600, con_s=300)}


class Budget(BaseException):
    pass


def _alarm(*a):
    raise Budget()


def load_contracts(prop=None):
    from . import dsl
    d = os.path.join(HERE, "vf", "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("vf.contracts." + f[:-3])
    return [c for c in dsl.CONTRACTS if prop is None or c.prop == prop]


# ---------------------------------------------------------------- symbolic run of one contract
def in_repo_raise(e, repo, model):
    """is this exception what the verified code itself would do (as opposed to a limit of the facades)?"""
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1]
    if last.filename.startswith(repo + os.sep): return True
    vf = os.path.join(HERE, "vf")
    # raised inside a facade on behalf of the library it stands for
    if last.filename.startswith(vf) and isinstance(e, (KeyError, ValueError)) and last.name in (
            "__getitem__", "remove_columns", "rename_column", "__setitem__", "__init__", "__delitem__"): return True
    import astropy
    if isinstance(e, astropy.units.UnitsError): return True
    # an error the library raises for these operands (an empty reduction, an index out of bounds, shapes that do not match),
    # on a path that the solver shows reachable
    return (last.filename.startswith(vf) and isinstance(e, (ValueError, IndexError)) and model is not None
            and "raise %s(" % type(e).__name__ in (last.line or ""))


def explore(con, tier, log):
    from . import dsl, ctx as C, prover as P
    from .loader import Loader
    from .terms import TRUE
    T = TIERS[tier]
    t0 = time.time()
    stubs = {}
    holder = {}
    for k, v in list(con.stubs.items()) + list(con.env.items()):
        m, _, a = k.partition(":")
        stubs.setdefault(m, {})[a] = _stub(v, holder)
    L = Loader(stubs, REPO)
    out = dict(paths=0, dead=0, obligations=0, discharged=0, failed=[], unsup=None, errors=[], models=[], backends={"ring": 0, "z3": 0},
               missing=[], inlined=[], complete=True)
    work = [[]]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(T["sym_s"]))
    try:
        first = True
        while work:
            if out["paths"] >= T["paths"]:
                out["complete"] = False
                out["unsup"] = out["unsup"] or "path budget of %d exhausted" % T["paths"]
                break
            pre = work.pop()
            c = C.Ctx(pre)
            C.CUR[0] = c
            S = dsl.SymS(con, L, c)
            S.tier = tier
            holder["S"] = S
            if not first: L.reset()
            exc = None
            dead = False
            try:
                con.fn(S)
            except C.PathDead:
                dead = True
            except C.PathEnd:
                pass
            except C.Unsupported as e:
                out["unsup"] = out["unsup"] or str(e)
                out["unsup_tb"] = out.get("unsup_tb") or getattr(c, "unsup_tb", "")
            except Budget:
                raise
            except RecursionError as e:
                out["unsup"] = out["unsup"] or "recursion limit"
            except Exception as e:
                exc = e
            if c.unsup and not out["unsup"]: out["unsup"] = c.unsup
            if first:
                L.snapshot() if L.state is None else None
                first = False
            work += c.alts
            if dead:
                out["dead"] += 1
                continue
            out["paths"] += 1
            if exc is not None:
                tb = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]
                m = P.model_of(c.pc)
                if in_repo_raise(exc, REPO, m):
                    S.results.append(("no unexpected exception (%s: %s)" % (type(exc).__name__, str(exc)[:150]),
                                      P.Result("refuted", "path", m, detail=tb[-1500:]), None, list(c.pc)))
                else:
                    out["unsup"] = out["unsup"] or "engine: %s: %s" % (type(exc).__name__, str(exc)[:200])
                    if os.environ.get("VF_TB"): print(tb, file=sys.stderr)
                    out["unsup_tb"] = out.get("unsup_tb") or tb
            bad = [r for r in S.results if not r[1].ok]
            out["obligations"] += len(S.results)
            out["discharged"] += len(S.results) - len(bad)
            for lab, r, goal, pc in S.results:
                if r.ok: out["backends"][r.backend if r.backend in out["backends"] else "z3"] += 1
            # vacuity: the path's hypotheses must be satisfiable
            m = None
            if len(out["models"]) < T["model_paths"]:
                m = P.model_of(c.pc)
                out["models"].append((m, dict(c.choices)))
            if S.results and not bad and not P.feasible(c.pc):
                out["errors"].append("vacuous path")
            for lab, r, goal, pc in bad:
                out["failed"].append(dict(label=lab, status=r.status, backend=r.backend, detail=str(r.detail)[:1500],
                                          model=r.model, choices=dict(c.choices)))
        out["missing"] = ["%s.%s" % x for x in L.missing]
    except Budget:
        out["unsup"] = out["unsup"] or "time budget of %d s exhausted" % T["sym_s"]
        out["complete"] = False
    finally:
        signal.alarm(0)
        C.CUR[0] = None
    out["wall"] = time.time() - t0
    return out


def _stub(v, holder):
    def f(*a, **k):
        return v(holder["S"], *a, **k)
    f.__name__ = getattr(v, "__name__", "stub")
    return f


def hints_of(m):
    """solver model -> concrete values for the contract's inputs"""
    if m is None: return {}
    import z3
    h = {}

    def num(e):
        e = m.eval(e, model_completion=True) if not z3.is_rational_value(e) and not z3.is_int_value(e) else e
        try:
            if z3.is_int_value(e): return float(e.as_long())
            if z3.is_rational_value(e): return float(e.as_fraction())
            if z3.is_algebraic_value(e): return float(e.approx(12).as_fraction())
        except Exception:
            return None
        return None
    for d in m.decls():
        nm = d.name()
        try:
            if d.arity() == 0:
                v = num(m[d]) if d.range().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT) else None
                if v is not None and abs(v) < 1e15: h[nm.split("`")[0]] = v
            elif nm.startswith("f$") and d.range().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT):
                def fn(ix, d=d):
                    if len(ix) != d.arity(): return None
                    args = [z3.IntVal(i) if d.domain(k).kind() == z3.Z3_INT_SORT else z3.RealVal(i) for k, i in enumerate(ix)]
                    v = num(m.eval(d(*args), model_completion=True))
                    return v if v is not None and abs(v) < 1e12 else None
                h[nm[2:].split("`")[0]] = fn
        except Exception:
            continue
    return h


def flat_hints(S):
    return {k: v for k, v in S.inputs.items()}


class ReplayHints(dict):
    pass


# ---------------------------------------------------------------- concrete run
def _concrete(con, seed, hints=None, choices=None, replay=None):
    from . import dsl
    import numpy as np
    rng = random.Random(seed)
    S = dsl.ConS(con, rng, hints, choices, replay=replay)
    undo = []
    err = None
    vio = None
    state = module_state()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            try:
                for k, v in con.env.items():
                    m, _, a = k.partition(":")
                    try:
                        o = importlib.import_module(m)
                        parts = a.split(".")
                        for q in parts[:-1]: o = getattr(o, q)
                        old = getattr(o, parts[-1])
                    except (ImportError, AttributeError):
                        continue
                    new = (lambda fn: (lambda *aa, **kk: fn(S, *aa, **kk)))(v)
                    setattr(o, parts[-1], new)
                    undo.append((o, parts[-1], old))
                    # importers that bound the name already
                    for mm in list(sys.modules.values()):
                        if getattr(mm, "__name__", "").startswith("exorad") and mm is not o and len(parts) == 1:
                            for nm, val in list(vars(mm).items()):
                                if val is old:
                                    setattr(mm, nm, new); undo.append((mm, nm, old))
                with contextlib.redirect_stdout(io.StringIO()): con.fn(S)
            except dsl.Discard:
                return "discard", S, None
            except dsl.Violation as e:
                vio = e
            except Exception as e:
                tb = traceback.format_exc()
                vio = dsl.Violation("no unexpected exception (%s: %s)" % (type(e).__name__, str(e)[:150]), tb[-2500:])
                if crossed_repo(e): pass
                elif isinstance(e, KeyError) and not isinstance(e, dsl.GhostMissing):
                    vio = dsl.Violation("an entry of the result is missing (KeyError: %s)" % str(e)[:150], tb[-2500:])
                elif unusable_result(e):
                    vio = dsl.Violation("the result cannot be used (%s: %s)" % (type(e).__name__, str(e)[:150]), tb[-2500:])
                else: err = tb
            finally:
                for o, a, old in reversed(undo): setattr(o, a, old)
                restore_state(state)
    if err is not None: return "error", S, err
    return vio, S, None


def unusable_result(e):
    """a contract that runs on every value the specification allows failed while it read what the code returned; not: a function
    of the code that is called or returns in another way than it did (signature, number of results, private names)"""
    import types
    t = str(e)
    if isinstance(e, AttributeError):
        o, n = getattr(e, "obj", None), getattr(e, "name", None) or "_"
        return not n.startswith("_") and not isinstance(o, (types.ModuleType, type)) and type(o).__module__.split(".")[0] != "vf"
    if isinstance(e, TypeError):
        return not any(x in t for x in ("argument", "unpack", "positional"))
    if isinstance(e, ValueError): return "unpack" not in t
    return isinstance(e, (IndexError, ArithmeticError))


def crossed_repo(e):
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(REPO + os.sep): return True
    return False


def module_state():
    pv = sys.modules.get("exorad.utils.passVal")
    st = []
    for n, m in list(sys.modules.items()):
        if n.startswith("exorad"):
            for k, v in list(vars(m).items()):
                if isinstance(v, (dict, list)) and not k.startswith("__"): st.append((v, v.copy()))
    return (dict(vars(pv.PassVal)) if pv else None, st)


def restore_state(s):
    pv = sys.modules.get("exorad.utils.passVal")
    if pv is not None and s[0] is not None:
        vars(pv.PassVal).clear(); vars(pv.PassVal).update(s[0])
    for v, c in s[1]:
        if isinstance(v, list): v[:] = c
        else:
            v.clear(); v.update(c)


def shrinkable(x):
    return x


def jsonable(v):
    try:
        json.dumps(v)
        return v
    except Exception:
        return repr(v)[:300]


def write_replay(prop, con, seed, hints, choices, vio, S, extra=None):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, contract=con.id, seed=seed, clause=str(getattr(vio, "label", vio))[:400],
                message=str(getattr(vio, "msg", ""))[:3000], choices=choices or {},
                hints={k: v for k, v in (hints or {}).items() if isinstance(v, (int, float))},
                inputs={k: jsonable(v) for k, v in (S.inputs.items() if S is not None else [])},
                functions=con.funcs, replay_cmd="/opt/venv/bin/python -m vf.run --replay <this file>   (cwd /verif)")
    body.update(extra or {})
    p = os.path.join(d, "%s-%s-%s.json" % (prop, con.name, hashlib.sha1(json.dumps([con.id, body["clause"], seed], default=str).encode()).hexdigest()[:8]))
    with open(p, "w") as f:
        json.dump(body, f, indent=1, default=str)
    return p


# ---------------------------------------------------------------- property
def known_findings():
    """lines 'open: {json}' of known_findings.txt; 'fixed: ...' lines document repairs and suppress nothing"""
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("open:"): out.append(dict(json.loads(l[5:]), status="open"))
    return out


def matches(k, prop, con, label):
    return k.get("status") == "open" and k["property"] == prop and k.get("contract") == con.name and label.startswith(k.get("clause", ""))


def decide(prop, tier, seed):
    from . import dsl, prover as P
    t0 = time.time()
    cons = load_contracts(prop)
    if not cons:
        print("no contracts for", prop); return 2
    if tier == "thorough":
        P.CONFIG["timeout_ms"] = 15000
        P.CONFIG["cvc5"] = True
    import logging
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    if REPO not in sys.path: sys.path.insert(0, REPO)
    importlib.import_module("exorad")
    importlib.import_module("exorad.tasks")
    T = TIERS[tier]
    kf = known_findings()
    viols, knowns, report = [], {}, []
    tot = dict(obl=0, dis=0, paths=0, conc=0, checks=0, bounded=[], funcs=set(), trusted=set())
    for con in cons:
        rep = dict(contract=con.name, functions=con.funcs)
        tot["funcs"].update(con.funcs)
        fails = []
        sym = None
        if con.kind == "proof":
            sym = explore(con, tier, report)
            rep.update(paths=sym["paths"], obligations=sym["obligations"], discharged=sym["discharged"], backends=sym["backends"],
                       solver_wall_s=round(sym["wall"], 2))
            if con.bounds: rep["bounds"] = con.bounds
            if sym["missing"]: rep["inlined_because_contract_target_missing"] = sym["missing"]
            if sym["errors"]: rep["errors"] = sym["errors"][:3]
            if sym["unsup"]:
                rep["not_proved"] = sym["unsup"]
                rep["where"] = (sym.get("unsup_tb") or "").strip().splitlines()[-6:]
                tot["bounded"].append("%s (%s)" % (con.name, sym["unsup"]))
            tot["obl"] += sym["obligations"]; tot["dis"] += sym["discharged"]; tot["paths"] += sym["paths"]
            for s in con.stubs: tot["trusted"].add("assumed at call sites, discharged by its own contract: " + s)
            fails = sym["failed"]
            if sym["obligations"] == 0 and not sym["unsup"]:
                rep["errors"] = ["no obligation generated"]
                sym["unsup"] = "no obligation generated"
                tot["bounded"].append(con.name + " (no obligation generated)")
        else:
            tot["bounded"].append("%s (bounded by construction: %s)" % (con.name, con.bounds))
            rep["bounded"] = con.bounds
        for s in con.env: tot["trusted"].add("environment stand-in: " + s)
        # ---- concrete contract runs: replays of counter-models first, then path models, then samples
        runs = []
        for f in fails:
            runs.append(("cex", f, hints_of(f["model"]), f["choices"]))
            for j in range(6): runs.append(("cex", f, {}, f["choices"]))
        if sym:
            ms = sym["models"]
            for m, ch in ms: runs.append(("path", None, hints_of(m), ch))
        n = max(3, int(con.samples * T["samples"]))
        if fails: n *= 4
        for j in range(n): runs.append(("sample", None, None, None))
        cvio = {}
        nconc = nchk = disc = 0
        tc = time.time()
        err = None
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(T["con_s"] * (3 if fails else 1)) + 5)
        try:
            for j, (kind, f, h, ch) in enumerate(runs):
                if time.time() - tc > T["con_s"] * (3 if fails else 1): break
                sd = "%s/%s/%d/%d" % (prop, con.name, seed, j)
                v, S, e = _concrete(con, sd, h, ch)
                if v == "discard":
                    disc += 1; continue
                if v == "error":
                    err = e; continue
                nconc += 1; nchk += S.checked
                if v is not None and v.label not in cvio:
                    cvio[v.label] = (v, S, sd, S.inputs.copy(), h, ch)
                    if len(cvio) >= 4: break
        except Budget:
            rep["concrete_budget"] = "stopped after %d s" % (time.time() - tc)
        finally:
            signal.alarm(0)
        rep.update(concrete_runs=nconc, concrete_checks=nchk, concrete_discarded=disc, concrete_wall_s=round(time.time() - tc, 2))
        tot["conc"] += nconc; tot["checks"] += nchk
        if err and not cvio:
            rep["harness_error"] = err[-1500:]
            print("HARNESS-ERROR in %s:\n%s" % (con.id, err[-1500:]), file=sys.stderr)
        elif nconc == 0:
            rep["harness_error"] = "no concrete run completed"
        unlisted = []
        for lab, (v, S, sd, inp, h, ch) in cvio.items():
            k = [x for x in kf if matches(x, prop, con, lab)]
            if k:
                knowns[k[0]["id"]] = k[0]
                continue
            extra = {}
            ff = [f for f in fails]
            if ff: extra["failed_obligations"] = [dict(label=f["label"], status=f["status"], backend=f["backend"], detail=f["detail"]) for f in ff[:5]]
            p = write_replay(prop, con, sd, h, ch, v, S, extra)
            unlisted.append((lab, p, True))
        if not cvio or not unlisted:
            rest = [f for f in fails if not any(matches(x, prop, con, f["label"]) for x in kf)]
            for f in fails:
                for x in kf:
                    if matches(x, prop, con, f["label"]): knowns[x["id"]] = x
            if rest and not unlisted:
                f = rest[0]
                v = dsl.Violation(f["label"], "the verifier did not accept this obligation: %s by %s\n%s" % (f["status"], f["backend"], f["detail"]))
                p = write_replay(prop, con, None, {}, f["choices"], v, None, {
                    "failed_obligations": [dict(label=g["label"], status=g["status"], backend=g["backend"], detail=g["detail"]) for g in rest[:8]],
                    "note": "no failing input found by replaying the counter-model and sampling"})
                unlisted.append((f["label"], p, False))
        rep["failed_obligations"] = [dict(label=f["label"], status=f["status"], backend=f["backend"], detail=f["detail"][:300]) for f in fails[:5]]
        rep["violations"] = [u[0] for u in unlisted]
        viols += [(con,) + u for u in unlisted]
        report.append(rep)
        ok = "ok" if not unlisted else "FAIL"
        print("  %-40s %-4s paths=%s obligations=%s/%s concrete=%d%s%s" % (con.name, ok, rep.get("paths", "-"), rep.get("discharged", "-"), rep.get("obligations", "-"), nconc,
              "  [NOT PROVED: %s]" % rep["not_proved"] if rep.get("not_proved") else "", "  [HARNESS]" if rep.get("harness_error") else ""), flush=True)
    wall = time.time() - t0
    for k in knowns.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    write_evidence(prop, tier, seed, wall, tot, report, viols, knowns)
    for con, lab, p, concrete in viols:
        print("  violated clause [%s]: %s" % (con.id, lab.splitlines()[0][:300]))
    if viols:
        con, lab, p, concrete = sorted(viols, key=lambda v: not v[3])[0]
        print("VIOLATION property=%s replay=%s%s" % (prop, p, "" if concrete else " no-failing-input-found"))
        return 1
    print("OK property=%s obligations=%d discharged=%d concrete=%d wall=%.1fs" % (prop, tot["obl"], tot["dis"], tot["conc"], wall))
    return 0


ASSUMPTIONS = [
    "machine floating point is treated as real arithmetic; numeric constants that agree to 1e-11 are identified",
    "a division, square root or logarithm is specified only where the mathematical expression is defined (non-zero divisor, non-negative radicand)",
    "the numpy, scipy, astropy and python library contracts in vf/facades.py and vf/sym.py (axiomatised, not verified; unit conversion factors come from the real astropy)",
    "CPython executes the code objects compiled from the repository files; logging output is not specified",
]


def write_evidence(prop, tier, seed, wall, tot, report, viols, knowns):
    from . import prover as P
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    proof = not tot["bounded"] and tot["obl"] > 0
    lvl = manifest_level(prop)
    cov = dict(obligations=tot["obl"], discharged=tot["dis"],
               checker_cmd="/opt/venv/bin/python -m vf.run --property %s --tier %s" % (prop, tier),
               trusted_base=["vf/terms.py ring normaliser", "z3 (python bindings)", "vf/sym.py, vf/facades.py library contracts", "vf/loader.py source loader"] + sorted(tot["trusted"]),
               functions_under_contract=sorted(tot["funcs"]), paths=tot["paths"],
               discharged_by={"ring": P.STATS["ring"], "z3": P.STATS["z3"]}, solver_time_s=round(P.STATS["z3_time"], 2),
               solver_calls=P.STATS["z3_calls"], cvc5_confirmed=P.STATS["cvc5"], cvc5_disagreed=P.STATS["cvc5_disagree"],
               not_proved_bounded_stand_ins=tot["bounded"], contracts=report,
               evaluations=tot["conc"], concrete_clause_checks=tot["checks"],
               explanation="deductive: every clause proved per path for all inputs unless listed in not_proved_bounded_stand_ins; the same contracts are also run on %d concrete inputs" % tot["conc"],
               distinct_nontrivial=tot["conc"], rule="a concrete run counts when its preconditions hold and at least one clause was evaluated",
               samples=[dict(contract=r["contract"], concrete_runs=r.get("concrete_runs", 0)) for r in report][:20],
               known_findings=[k["what"] for k in knowns.values()])
    ev = dict(property=prop, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=ASSUMPTIONS,
              wall_s=round(wall, 2), violations=[dict(contract=c.id, clause=l, replay=p, replayed=bool(x)) for c, l, p, x in viols])
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def manifest_level(prop):
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == prop: return c["level"]
    except Exception:
        pass
    return "proof"


def replay(path):
    b = json.load(open(path))
    import logging
    logging.disable(logging.CRITICAL)
    if REPO not in sys.path: sys.path.insert(0, REPO)
    importlib.import_module("exorad")
    con = [c for c in load_contracts() if c.id == b["contract"]][0]
    if b.get("seed") is None:
        print("no failing input recorded; failed obligations:")
        for f in b.get("failed_obligations", []): print(" -", f["label"], f["status"], f["detail"][:300])
        return 1
    v, S, e = _concrete(con, b["seed"], None, b.get("choices") or None, b.get("inputs"))
    if v is None: print("clause holds on this input"); return 0
    print("inputs:", json.dumps({k: jsonable(x) for k, x in S.inputs.items()})[:2000])
    print("violated:", getattr(v, "label", v), getattr(v, "msg", e))
    return 1


def contract_index():
    out = {}
    for c in load_contracts():
        out.setdefault(c.prop, []).append(dict(name=c.name, funcs=list(c.funcs), bounds=c.bounds, kind=c.kind))
    return out


def selftest():
    """the engine loads, proves a true identity and refuses a false one"""
    from . import prover as P
    from .terms import sym, add, mul, const as num
    x, y = sym("x"), sym("y")
    good = P.prove_eq(mul(add(x, y), add(x, y)), add(mul(x, x), mul(num(2), mul(x, y)), mul(y, y)), [])
    bad = P.prove_eq(mul(x, y), add(x, y), [])
    n = len(load_contracts())
    print("contracts:", n, "identity proved:", good.ok, "non-identity refused:", not bad.ok)
    sys.setrecursionlimit(20000)
    from . import audit
    checked, _, wrong = audit.audit(250, 1)
    accepted, tested, unsound = audit.audit_prover(60, 1)
    for w in wrong + unsound: print("AUDIT", w)
    print("audit of the algebra: %d evaluations, %d wrong; of the prover: %d accepted, %d valuations, %d unsound" % (
        checked, len(wrong), accepted, tested, len(unsound)))
    from . import conform
    compared, unsup, differ = conform.conform(6, 1)
    for w in differ: print("FACADE", w)
    print("facades against numpy, scipy and astropy: %d results compared, %d expressions not supported, %d wrong" % (compared, len(unsup), len(differ)))
    return 0 if good.ok and not bad.ok and n and not wrong and not unsound and not differ else 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest: sys.exit(selftest())
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.tier not in TIERS: a.tier = "quick"
    scratch = tempfile.mkdtemp(prefix="vf_")
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["VF_SCRATCH"] = scratch
    for k in ("XDG_CACHE_HOME", "XDG_CONFIG_HOME"):
        os.environ[k] = scratch
    os.makedirs(os.path.join(scratch, "astropy"), exist_ok=True)
    os.chdir(scratch)
    sys.setrecursionlimit(20000)
    try:
        rc = replay(a.replay) if a.replay else decide(a.property, a.tier, seed)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
