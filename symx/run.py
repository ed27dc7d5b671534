"""Runs the check of one property: explore, decide, replay, report.

Usage: run.py PROPERTY [--tier quick|thorough] [--job NAME] [--procs N]
       run.py --replay FILE
"""
import argparse
import concurrent.futures as cf
import glob
import importlib
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

import symx  # noqa: E402  pylint: disable=wrong-import-position,unused-import
import z3  # noqa: E402
from symx import core  # noqa: E402
from symx import world as W  # noqa: E402

REPLAYS = os.environ.get("SYMX_REPLAYS", os.path.join(HERE, "replays"))
EVIDENCE = os.environ.get("SYMX_EVIDENCE", os.path.join(HERE, "evidence"))


class Job:

  def __init__(self, prop, name, fn, quick, thorough, bounds, assumes, opts):
    self.prop, self.name, self.fn = prop, name, fn
    self.quick, self.thorough = quick, thorough
    self.bounds, self.assumes, self.opts = bounds, assumes, opts


JOBS = {}


def job(prop, name=None, *, quick=({},), thorough=(), bounds="", assumes=(),
        **opts):
  """Registers a harness fn(env, **params) under a property."""
  def deco(fn):
    n = name or fn.__name__
    props = [prop] if isinstance(prop, str) else prop
    for p in props:
      lst = JOBS.setdefault(p, [])
      if any(j.name == n for j in lst):
        raise ValueError(f"duplicate job {p}/{n}")
      lst.append(Job(p, n, fn, list(quick), list(thorough), bounds,
                     list(assumes), opts))
    return fn
  return deco


def load_harnesses():
  # one registry, whichever name this module was started under
  sys.modules.setdefault("symx.run", sys.modules[__name__])
  for f in sorted(glob.glob(os.path.join(HERE, "harness", "h_*.py"))):
    importlib.import_module("harness." + os.path.basename(f)[:-3])


# ---------------------------------------------------------------------------
_SEEN = set()


def _start_monitor():
  mon = sys.monitoring
  try:
    mon.use_tool_id(3, "symx")
  except ValueError:
    return
  prefix = os.path.join(W.REPO, W.PKG)

  def on_start(code, off):
    del off
    if code.co_filename.startswith(prefix) and not code.co_qualname.startswith(
        "<module>"):
      if CURRENT_SYM[0]:
        _SEEN.add(os.path.basename(code.co_filename)[:-3] + "." +
                  code.co_qualname.replace(".<locals>", ""))
      else:
        return None
    return mon.DISABLE
  mon.register_callback(3, mon.events.PY_START, on_start)
  mon.set_events(3, mon.events.PY_START)


CURRENT_SYM = [False]


def run_native(jb, params, values):
  """Replays a harness on the real code.  Returns (env, exception)."""
  CURRENT_SYM[0] = False
  env = W.ReplayEnv(values)
  import numpy as np
  import warnings
  exc = None
  with warnings.catch_warnings(), np.errstate(all="ignore"):
    warnings.simplefilter("ignore")
    try:
      jb.fn(env, **params)
    except core.PathCut:
      pass
    except core.Unsupported as e:
      exc = e
    except Exception as e:  # pylint: disable=broad-except
      exc = e
  return env, exc


def explore_task(prop, jname, pidx, tier, prefixes, slice_s, seed, wit_budget):
  """Worker: explores part of a job; returns a plain dict."""
  jb = next(j for j in JOBS[prop] if j.name == jname)
  params = plist(jb, tier)[pidx]
  _start_monitor()
  stats = core.Stats()
  out = {"violations": [], "unreproduced": [], "inconclusive": [],
         "labels": {}, "samples": [], "diverged": []}
  rng = random.Random(f"{seed}-{jname}-{pidx}-{prefixes[0] if prefixes else ''}")
  box = {}
  wits = [wit_budget]

  def body(path):
    env = W.SymEnv(path)
    box["env"] = env
    CURRENT_SYM[0] = True
    try:
      jb.fn(env, **params)
    finally:
      CURRENT_SYM[0] = False

  def on_path(p, exc, cut):
    env = box.get("env")
    for k, v in p.reached.items():
      out["labels"][k] = out["labels"].get(k, 0) + v
    cands = []
    for label, models in p.failures:
      cands.append((label, models, None))
    if exc is not None:
      if isinstance(exc, core.Inconclusive):
        out["inconclusive"].append(str(exc))
      elif isinstance(exc, core.Unsupported):
        # the encoding stops here; models of the path up to this point are
        # still tried on the real code
        p.pending = []
        v = native_failure(p, env, 1) if p.ensure_model(quick=True) else None
        if v:
          out["violations"].append(v)
        else:
          out["inconclusive"].append("unsupported: " + str(exc) + where(exc))
      else:
        p.pending = []
        r = p.ensure_model()
        if r:
          nm = p.nice_models(z3.BoolVal(True), p.model)
          cands.append((f"exception:{type(exc).__name__}", nm, exc))
        elif r is None:
          out["inconclusive"].append("no model for exception " + repr(exc))
    for label, models, e in cands:
      ok = None
      for m in models:
        try:
          vals = W.extract(p, env, m)
        except core.Inconclusive:
          continue
        renv, rexc = run_native(jb, params, vals)
        if e is not None:
          hit = rexc is not None and type(rexc).__name__ == type(e).__name__
        else:
          hit = label in renv.failed
        # another failing label or an exception on the same model also shows
        # the real code breaking this property
        alt = None
        if not hit and renv.failed:
          alt = renv.failed[0]
        elif not hit and rexc is not None and not isinstance(
            rexc, core.Unsupported):
          alt = f"exception:{type(rexc).__name__}"
        if (hit or alt) and not vals.get("assume_failed"):
          ok = {"label": label if hit else alt, "values": vals,
                "message": repr(rexc) if rexc is not None else ""}
          break
      if ok:
        out["violations"].append(ok)
      else:
        out["unreproduced"].append(
            {"label": label, "exc": repr(e) + where(e) if e else "",
             "values": _safe(lambda: W.extract(p, env, models[0]))})
    if out["violations"]:
      return True
    if len(out["unreproduced"]) + len(out["inconclusive"]) > 3:
      return True
    # validate the encoding: the same path on the real code
    if exc is None and not cut and wits[0] > 0 and (
        stats.paths <= 3 or rng.random() < .2):
      wits[0] -= 1
      witness(p, env)
      return bool(out["violations"])
    return False

  def native_failure(p, env, need):
    """A model of the path on which the real code fails the harness."""
    hits = []
    for m in p.nice_models(z3.BoolVal(True), p.model):
      try:
        vals = W.extract(p, env, m)
      except core.Inconclusive:
        continue
      renv, rexc = run_native(jb, params, vals)
      if vals.get("assume_failed") or isinstance(rexc, core.Unsupported):
        continue
      if renv.failed or rexc is not None:
        hits.append({"label": renv.failed[0] if renv.failed else
                     f"exception:{type(rexc).__name__}", "values": vals,
                     "message": repr(rexc) if rexc is not None else ""})
    return hits[0] if len(hits) >= need else None

  def witness(p, env):
    if not p.ensure_model(quick=True):
      return
    m = p.model
    try:
      vals = W.extract(p, env, m)
      obs = [(n, W.observed_value(m, v)) for n, v in env.observed]
    except core.Inconclusive:
      return
    stats.witness += 1
    renv, rexc = run_native(jb, params, vals)
    nobs = [(n, W.plain_observed(v)) for n, v in renv.observed]
    good = rexc is None and not renv.failed and len(obs) == len(nobs) and all(
        a == c and W.same_observed(b, d) for (a, b), (c, d) in zip(obs, nobs))
    if good:
      stats.witness_ok += 1
      if len(out["samples"]) < 2:
        out["samples"].append({
            "job": jname, "params": _plain(params),
            "path": "".join("T" if d else "F" for d in p.decisions)[:80],
            "model": {k: v for k, v in list(vals["inputs"].items())[:12]},
            "observed": obs[:4]})
    else:
      stats.witness_diverged += 1
      # a run of the real code that fails the harness breaks the property,
      # even when the encoding missed it; two models guard against rounding
      if (renv.failed or (rexc is not None and not isinstance(
          rexc, core.Unsupported))) and len(out["violations"]) < 1:
        v = native_failure(p, env, 2)
        if v:
          out["violations"].append(v)
      if len(out["diverged"]) < 3:
        out["diverged"].append({
            "job": jname, "params": _plain(params), "exc": repr(rexc),
            "failed": renv.failed[:3], "inputs": vals["inputs"],
            "obs": [(x, y) for x, y in zip(obs, nobs)
                    if not W.same_observed(x[1], y[1])][:3]})

  left = core.explore(body, prefixes, stats, timeout_ms=jb.opts.get(
      "timeout_ms", 20000), time_budget=slice_s, on_path=on_path,
                      max_decisions=jb.opts.get("max_decisions", 4000))
  if out["violations"] or out["unreproduced"] or out["inconclusive"]:
    left = []
  out["left"] = left
  out["stats"] = stats.as_dict()
  out["funcs"] = sorted(_SEEN)
  out["key"] = (jname, pidx)
  return out


def _safe(f):
  try:
    return f()
  except BaseException as e:  # pylint: disable=broad-except
    return repr(e)


def _plain(p):
  return {k: (v if isinstance(v, (int, float, str, bool, type(None))) else
              repr(v)) for k, v in p.items()}


def where(e):
  tb = traceback.extract_tb(e.__traceback__)
  return " @ " + " < ".join(
      f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[::-1][:6])


def plist(jb, tier):
  """Quick parameters, plus the thorough ones."""
  if tier == "thorough":
    return jb.quick + [p for p in jb.thorough if p not in jb.quick]
  return jb.quick


def _init(seed):
  z3.set_param("smt.random_seed", seed % 1000)
  import signal
  signal.signal(signal.SIGINT, signal.SIG_IGN)


def load_known():
  """Known findings: (property, job, label) triples; fixed entries ignored."""
  out = []
  p = os.path.join(HERE, "known_findings.txt")
  if os.path.exists(p):
    for line in open(p):
      line = line.strip()
      if line.startswith("finding:"):
        f = dict(x.split("=", 1) for x in line[8:].split("::")[0].split()
                 if "=" in x)
        f["text"] = line.split("::", 1)[-1].strip()
        out.append(f)
  return out


def run_property(prop, tier, seed, procs, only=None, budget=None, verbose=False):
  t0 = time.time()
  budget = budget or (780 if tier == "quick" else 6 * 3600)
  jobs = [j for j in JOBS.get(prop, []) if only is None or j.name in only]
  if not jobs:
    print(f"no jobs for {prop}")
    return 3
  known = [k for k in load_known() if k.get("property") == prop]
  items = [(j.name, i) for j in jobs for i in range(len(plist(j, tier)))]
  total = {f: 0 for f in core.Stats.FIELDS}
  per = {}
  labels, funcs = {}, set()
  violations, unrep, inconc, samples, diverged = [], [], [], [], []
  known_hit = {}
  dead = set()
  ctx = multiprocessing.get_context("fork")
  ex = cf.ProcessPoolExecutor(procs, mp_context=ctx, initializer=_init,
                              initargs=(seed,))
  pending = {}
  wit = max(6, 400 // max(1, len(items)))

  def submit(key, prefixes, first):
    sl = 0.7 if first else 4.0
    f = ex.submit(explore_task, prop, key[0], key[1], tier, prefixes, sl, seed,
                  wit if first else 3)
    pending[f] = key

  for k in items:
    submit(k, [[]], True)
  timed_out = False
  broken = None
  try:
    while pending:
      done, _ = cf.wait(pending, timeout=5, return_when=cf.FIRST_COMPLETED)
      for f in done:
        key = pending.pop(f)
        r = f.result()
        for a, b in r["stats"].items():
          total[a] += b
        s = per.setdefault(key, {"paths": 0, "decisions": 0, "checks": 0,
                                 "solver_s": 0.0})
        for a in s:
          s[a] += r["stats"][a]
        for a, b in r["labels"].items():
          labels[(key[0], a)] = labels.get((key[0], a), 0) + b
        funcs.update(r["funcs"])
        samples += r["samples"]
        diverged += r["diverged"]
        unrep += [dict(u, key=key) for u in r["unreproduced"]]
        inconc += [f"{key}: {m}" for m in r["inconclusive"]]
        for v in r["violations"]:
          kf = next((x for x in known if x.get("job") == key[0] and
                     x.get("label") == v["label"]), None)
          if kf is not None:
            known_hit[kf["text"]] = True
            continue
          violations.append(dict(v, key=key))
        if r["left"] and key not in dead:
          left = r["left"]
          n = max(1, min(len(left), procs))
          for i in range(n):
            submit(key, left[i::n], False)
      if violations:
        break
      if time.time() - t0 > budget:
        timed_out = True
        break
  except cf.process.BrokenProcessPool as e:
    broken = repr(e)
  finally:
    for f in pending:
      f.cancel()
    for p in list((getattr(ex, "_processes", None) or {}).values()):
      p.kill()
    ex.shutdown(wait=False, cancel_futures=True)

  wall = time.time() - t0
  # vacuity: every job reached at least one check
  reached = {k for k, _ in labels}
  vacuous = [j.name for j in jobs if j.name not in reached] if not (
      violations or timed_out or broken or inconc or unrep) else []
  tool = __import__("z3").get_version_string()
  ev = {
      "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
      "coverage": {
          "states": total["paths"], "transitions": total["decisions"],
          "traces_validated_against_impl": total["witness_ok"],
          "samples": samples[:6],
          "functions_encoded": sorted(funcs),
          "bounds": {j.name: j.bounds for j in jobs},
          "instances": [{"job": k[0], "params": _plain(
              plist(next(j for j in jobs if j.name == k[0]), tier)[k[1]]), **{
                  a: (round(b, 2) if isinstance(b, float) else b)
                  for a, b in v.items()}} for k, v in sorted(per.items())],
          "solver": f"z3 {tool}",
          "queries": total["queries"], "solver_s": round(total["solver_s"], 2),
          "assertions": total["checks"],
          "assertions_discharged": total["discharged"],
          "assertions_discharged_by_simplification": total["trivial"],
          "assertions_discharged_by_case_split_and_normal_form":
              total["by_cases"],
          "assertion_labels_reached": {f"{a}/{b}": n for (a, b), n in
                                       sorted(labels.items())},
          "paths_cut_by_assumptions": total["cut"],
          "solver_unknown": total["unknown"],
          "witness_replays": total["witness"],
          "witness_replays_diverging": total["witness_diverged"],
          "exhaustive": not (timed_out or broken or inconc or unrep or
                             violations),
      },
      "assumptions": sorted({a for j in jobs for a in j.assumes} | {
          "numbers are exact reals and integers with explicit infinities and "
          "nan; rounding, overflow and signed zero are outside",
          "random draws are arbitrary values of each distribution's support",
          "fitted scikit-learn models are arbitrary functions of the query row"}),
      "wall_s": round(wall, 2),
      "violations": len(violations),
  }
  os.makedirs(EVIDENCE, exist_ok=True)
  if only is None:
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
      json.dump(ev, f, indent=1, default=str)
  print(f"{prop}: {len(items)} instances, {total['paths']} paths, "
        f"{total['decisions']} decisions, {total['checks']} assertions, "
        f"{total['queries']} queries, solver {total['solver_s']:.1f}s, wall "
        f"{wall:.1f}s, witnesses {total['witness_ok']}/{total['witness']}")
  if verbose:
    for k, v in sorted(per.items(), key=lambda kv: -kv[1]["solver_s"])[:12]:
      print("   ", k, plist(next(j for j in jobs if j.name == k[0]), tier)[
          k[1]], v)
  if diverged:
    print(f"note: {total['witness_diverged']} witness runs differed, e.g. "
          + json.dumps(diverged[0], default=str)[:1500])
  for t in known_hit:
    print(f"KNOWN-FINDING: property={prop} {t}")
  if violations:
    v = violations[0]
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{v['key'][0]}.json")
    jb = next(j for j in jobs if j.name == v["key"][0])
    with open(path, "w") as f:
      json.dump({"property": prop, "job": v["key"][0],
                 "params": plist(jb, tier)[v["key"][1]], "tier": tier,
                 "pidx": v["key"][1], "label": v["label"],
                 "message": v["message"], "values": v["values"]}, f, indent=1,
                default=repr)
    print(f"  broken assertion: {v['label']} in {v['key'][0]} "
          f"{plist(jb, tier)[v['key'][1]]} {v['message']}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1
  if broken:
    print("ERROR: a worker died:", broken)
    return 2
  # What is left undecided is no violation; it is reported, and recorded in
  # the evidence as not exhaustive.
  if unrep:
    print(f"INCOMPLETE: {len(unrep)} counterexamples did not reproduce on the "
          "real code, e.g. " + json.dumps(unrep[0], default=str)[:3000])
  if inconc:
    print(f"INCOMPLETE: undecided ({len(inconc)}): " + "; ".join(inconc[:3]))
  if timed_out:
    print("INCOMPLETE: budget exhausted before the bounds were covered")
  if unrep or inconc or timed_out:
    if not total["discharged"]:
      print("ERROR: nothing was decided")
      return 2
    print(f"HELD on what was decided: property={prop}")
    return 0
  if vacuous:
    print("ERROR: no assertion reached in", vacuous)
    return 2
  print(f"OK property={prop}")
  return 0


def replay(path):
  with open(path) as f:
    r = json.load(f)
  load_harnesses()
  jb = next(j for j in JOBS[r["property"]] if j.name == r["job"])
  params = plist(jb, r["tier"])[r["pidx"]]
  env, exc = run_native(jb, params, r["values"])
  print(f"property {r['property']} harness {r['job']} {params}")
  for n, v in env.observed:
    print("  ", n, "=", W.plain_observed(v))
  print("failed assertions:", env.failed, "exception:", repr(exc))
  if exc is not None:
    traceback.print_exception(exc)
  return 1 if env.failed or exc is not None else 0


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop", nargs="?")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--job", action="append")
  ap.add_argument("--procs", type=int, default=os.cpu_count())
  ap.add_argument("--replay")
  ap.add_argument("--budget", type=float)
  ap.add_argument("-v", action="store_true")
  a = ap.parse_args()
  if a.replay:
    return replay(a.replay)
  load_harnesses()
  seed = int(os.environ.get("VERIF_SEED", "1"))
  return run_property(a.prop, a.tier, seed, a.procs, a.job, a.budget, a.v)


if __name__ == "__main__":
  rc = main()
  sys.stdout.flush()
  os._exit(rc)
