"""
Explores every case of a harness on all cores, replays counterexamples and a sample of path
witnesses on the un-instrumented code, writes evidence, decides the exit status.
"""
import collections
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import select
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")
REPLAY_PY = "/opt/venv/bin/python"
PATH_SECONDS = 60
SLICE = 4.0                     # seconds before a worker hands over the rest of a case


def load_known(prop):
    """lines `known: property=<id> key=<key> <what fails>`; `fixed: ...` lines suppress nothing"""
    out = {}
    if os.path.isfile(KNOWN):
        for line in open(KNOWN):
            w = line.split()
            if len(w) > 3 and w[0] == "known:" and w[1] == f"property={prop}":
                out[w[2].split("=", 1)[1]] = " ".join(w[3:])
    return out


# ---------------------------------------------------------------------------------- exploration

_state = {}


def _winit(hname, mode, known, paths_cap):
    from . import loader
    loader.setup(symbolic=True)
    from . import engine
    h = importlib.import_module("harness." + hname)
    _state.update(h=h, mode=mode, E=engine, known=known, paths_cap=paths_cap, funcs=set())
    src = loader.REPO_SRC
    mon = sys.monitoring
    try:
        mon.use_tool_id(mon.PROFILER_ID, "sx")

        def start(code, off):
            if code.co_filename.startswith(src):
                _state["funcs"].add(code.co_filename[len(src) + 12:] + ":" + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, start)
        mon.set_events(mon.PROFILER_ID, mon.events.PY_START)
    except ValueError:
        pass
    if hasattr(h, "setup"):
        h.setup(True)


def _alarm(*_):
    raise _state["E"].PathLimit("time")


def explore_case(args):
    case, deadline, seed, forced = args
    E, h = _state["E"], _state["h"]
    c = E.Ctx()
    E.CTX = c
    c.forced = forced
    rest = []
    rnd = random.Random(f"{seed}/{forced}/{json.dumps(case, sort_keys=True)}")
    witnesses, errors, limits = [], [], []
    exhausted = False
    signal.signal(signal.SIGALRM, _alarm)
    ncap = _state["paths_cap"]
    S0 = time.time()
    while True:
        if time.time() > deadline:
            break
        c.start_path()
        S = E.SymSource(c, case)
        S.known_keys = _state["known"]
        S.concrete_atoms = _state["mode"] == "conc"
        try:
            signal.setitimer(signal.ITIMER_REAL, PATH_SECONDS)
            try:
                h.run(S, case)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            c.stats["paths"] += 1
            # reservoir sample of path witnesses
            n = c.stats["paths"]
            k = len(witnesses)
            slot = k if k < ncap else rnd.randrange(n)
            if slot < ncap:
                m = c.final_model()
                w = dict(case=case, values=c.values(m),
                         observed=[[a, c.concretise_value(v, m)] for a, v in c.observed])
                if slot == k:
                    witnesses.append(w)
                else:
                    witnesses[slot] = w
        except E.Infeasible:
            c.stats["infeasible"] += 1
        except E.PathLimit as e:
            c.stats["pathlimit"] += 1
            try:
                c.model = None
                limits.append(dict(case=case, values=c.values(c.final_model()), label="terminates",
                                   info={"why": str(e)}))
            except E.EngineStop as e2:
                errors.append(f"case {case}: path limit {e}, no model: {e2}")
            if len(limits) > 3:
                break
        except E.EngineError as e:
            errors.append(f"case {case}: {e}")
            break
        except RecursionError:
            errors.append(f"case {case}: uncaught RecursionError\n" + traceback.format_exc()[-1500:])
            break
        except Exception as e:
            errors.append(f"case {case}: harness error {type(e).__name__}: {e}\n" +
                          traceback.format_exc()[-3000:])
            break
        if time.time() - S0 > SLICE:
            rest = c.handover()
            exhausted = True
            break
        if not c.backtrack():
            exhausted = True
            break
    E.CTX = None
    return dict(case=case, rest=rest, stats=c.stats, covers=c.covers, exhausted=exhausted,
                witnesses=witnesses, errors=errors + c.incomplete, limits=limits,
                violations=[dict(case=case, values=v.values, label=v.label, info=v.info)
                            for v in c.violations],
                known={k: dict(case=case, values=v.values, label=v.label, info=None)
                       for k, v in c.known_hits.items()},
                funcs=sorted(_state["funcs"]), secs=time.time() - S0)


# ---------------------------------------------------------------------------------- replay

class Replayer:
    def __init__(self, hname):
        self.hname, self.p = hname, None

    def start(self):
        env = dict(os.environ, PYTHONPATH=ROOT, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        self.p = subprocess.Popen([REPLAY_PY, "-m", "sx.replayd", self.hname], cwd=ROOT, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, bufsize=1)

    def run(self, item, timeout=60):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps({"case": item["case"], "values": item["values"]}) + "\n")
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.kill()
                return {"timeout": True, "failed": []}
            line = self.p.stdout.readline()
            if not line:
                self.kill()
                return {"error": "replay process ended", "failed": []}
            return json.loads(line)
        except (BrokenPipeError, ValueError) as e:
            self.kill()
            return {"error": f"replay process: {e}", "failed": []}

    def kill(self):
        if self.p:
            self.p.kill()
            self.p.wait()
        self.p = None


def _rinit(hname):
    _state["replayer"] = Replayer(hname)


def _replay(item):
    return item, _state["replayer"].run(item)


# ---------------------------------------------------------------------------------- main

def one_pass(hname, h, tier, mode, t_end, seed, known):
    cases = list(h.cases(tier))
    cap = getattr(h, "WITNESSES_PER_CASE", None)
    if cap is None:
        target = 600 if tier == "quick" else 4000
        cap = max(1, min(200, target // max(1, len(cases)) + 1))
    ncpu = int(os.environ.get("SX_PROCS", os.cpu_count() or 4))
    res = []
    order = sorted(range(len(cases)), key=lambda i: -len(json.dumps(cases[i])))
    with mp.get_context("fork").Pool(ncpu, _winit, (hname, mode, known, cap)) as pool:
        done = queue.Queue()
        todo = collections.deque((cases[i], t_end, seed, []) for i in order)
        flying = 0
        while todo or flying:
            while todo and flying < ncpu * 3:
                pool.apply_async(explore_case, (todo.popleft(),), callback=done.put,
                                 error_callback=done.put)
                flying += 1
            r = done.get()
            flying -= 1
            if isinstance(r, BaseException):
                raise r
            res.append(r)
            todo.extend((r["case"], t_end, seed, f) for f in r["rest"])
            if sum(len(x["violations"]) for x in res if x["violations"]) > \
                    int(os.environ.get("SX_STOP", 40)):
                break            # plenty to report; the run is a failing one anyway
        pool.terminate()
        complete = not todo and not flying
    return cases, res, complete


def merge(res):
    tot, cov, funcs = {}, {}, set()
    for r in res:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r["covers"].items():
            cov[k] = cov.get(k, 0) + v
        funcs |= set(r["funcs"])
    return tot, cov, funcs


def main(prop, hname, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, ROOT)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evfile = os.path.join(ROOT, "evidence", prop + ".json")
    if os.path.exists(evfile):
        os.unlink(evfile)
    from . import loader
    loader.setup(symbolic=False)     # the parent only needs cases(); children re-import
    sys.path[:] = [p for p in sys.path if p != loader.REPO_SRC]
    h = importlib.import_module("harness." + hname)
    known = load_known(prop)
    budget = getattr(h, "BUDGET", {}).get(tier, 400 if tier == "quick" else 7200)
    t_end = t0 + budget

    confirmed, unconfirmed, problems, known_seen = [], [], [], {}
    validated = mism = 0
    mode = "sym"
    passes = []
    while True:
        cases, res, alldone = one_pass(hname, h, tier, mode, t_end, seed, sorted(known))
        tot, cov, funcs = merge(res)
        cand = [v for r in res for v in r["violations"]]
        lim = [v for r in res for v in r["limits"]]
        khits = {}
        for r in res:
            for k, v in r["known"].items():
                khits.setdefault(k, v)
        wit = [w for r in res for w in r["witnesses"]]
        errs = [e for r in res for e in r["errors"]]
        confirmed, unconfirmed, problems, known_seen = [], [], [], {}
        validated = mism = 0
        # one counterexample per label and a few more
        per = {}
        pick = []
        for v in cand + lim:
            n = per.get(v["label"], 0)
            if n < 4:
                per[v["label"]] = n + 1
                pick.append(dict(v, kind="cex"))
        pick += [dict(v, kind="known", key=k) for k, v in khits.items()]
        pick += [dict(w, kind="wit") for w in wit]
        nproc = min(int(os.environ.get("SX_PROCS", os.cpu_count() or 4)), max(1, len(pick) // 8 + 1))
        with mp.get_context("fork").Pool(nproc, _rinit, (hname,)) as pool:
            for item, out in pool.imap_unordered(_replay, pick, chunksize=1):
                failed = out.get("failed", [])
                real = [f for f in failed if not (f[1] and f[1] in known)]
                if item["kind"] == "known":
                    if any(f[1] == item["key"] for f in failed):
                        known_seen[item["key"]] = item
                    if real:
                        confirmed.append(dict(item, label=real[0][0]))
                elif item["kind"] == "cex":
                    if item["label"] == "terminates":
                        (confirmed if out.get("timeout") else unconfirmed).append(item)
                    elif real:
                        confirmed.append(dict(item, label=real[0][0], predicted=item["label"]))
                    else:
                        unconfirmed.append(dict(item, replay=out))
                else:
                    if real:
                        confirmed.append(dict(item, label=real[0][0]))
                    elif out.get("timeout") or out.get("error") or out.get("assume_failed") or \
                            out.get("observed") != json.loads(json.dumps(item["observed"])):
                        mism += 1
                        problems.append("witness differs on the real code: " + json.dumps(
                            dict(case=item["case"], values=item["values"],
                                 symbolic=item["observed"], real=out))[:1500])
                    else:
                        validated += 1
        problems += errs
        if lim and not [x for x in confirmed if x["label"] == "terminates"]:
            problems.append("path limit reached")
        complete = alldone and all(r["exhausted"] for r in res)
        missing = [l for l in getattr(h, "COVERS", []) if not cov.get(l)]
        passes.append(dict(mode=mode, paths=tot.get("paths", 0), problems=len(problems)))
        if confirmed or not (problems or unconfirmed) or mode == "conc":
            break
        mode = "conc"          # retry with strings concretised by forking
        sys.stderr.write(f"[{prop}] retry with concretised strings: "
                         f"{(problems + [json.dumps(u)[:1500] for u in unconfirmed])[:2]}\n")

    for k, item in sorted(known_seen.items()):
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    if not complete and not confirmed:
        problems.append("exploration not finished within the time budget")
    if missing and not confirmed:
        problems.append("never reached: " + ", ".join(missing))

    n = 0
    seen = set()
    for v in confirmed:
        if v["label"] in seen:
            continue
        seen.add(v["label"])
        path = os.path.join(ROOT, "evidence", f"replay_{prop}_{n}.json")
        n += 1
        json.dump(dict(property=prop, harness=hname, case=v["case"], values=v["values"],
                       label=v["label"], info=v.get("info")), open(path, "w"), indent=1,
                  default=str)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  broken: {v['label']}  case={json.dumps(v['case'])} "
              f"values={json.dumps(v['values'])[:600]}")
    rnd = random.Random(seed)
    samples = rnd.sample(wit, min(3, len(wit)))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot.get("paths", 0), transitions=tot.get("decisions", 0),
            traces_validated_against_impl=validated, samples=samples,
            exhaustive=bool(complete),
            explanation="states = feasible paths of the real code (each with its path condition), "
                        "transitions = solver-decided branch points, traces_validated = path "
                        "witnesses whose solver model was run on the un-instrumented code with "
                        "equal observations",
            cases=len(cases), work_slices=len(res),
            assertions_checked=tot.get("checks", 0),
            assertions_decided_without_query=tot.get("checks_structural", 0),
            solver_queries=tot.get("queries", 0), solver_seconds=round(tot.get("solver_s", 0), 2),
            functions_encoded=sorted(funcs), bounds=getattr(h, "BOUNDS", {}).get(tier)
            if isinstance(getattr(h, "BOUNDS", None), dict) else getattr(h, "BOUNDS", ""),
            outside=getattr(h, "OUTSIDE", ""), reached=cov, passes=passes,
            witness_mismatches=mism, known_findings=sorted(known_seen)),
        assumptions=list(getattr(h, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=len(seen))
    json.dump(ev, open(evfile, "w"), indent=1, default=str)
    print(f"{prop} [{tier}] {hname}: cases={len(cases)} paths={tot.get('paths', 0)} "
          f"decisions={tot.get('decisions', 0)} checks={tot.get('checks', 0)} "
          f"queries={tot.get('queries', 0)} solver={tot.get('solver_s', 0):.1f}s "
          f"validated={validated} complete={complete} wall={time.time() - t0:.1f}s mode={mode}")
    if confirmed:
        return 1
    if problems or unconfirmed:
        for p in problems[:5]:
            print("PROBLEM:", p)
        for u in unconfirmed[:3]:
            print("UNCONFIRMED:", json.dumps(u, default=str)[:2000])
        return 2
    return 0
