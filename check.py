#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only harness] [--strict]
check.py --replay <file>
check.py --setup"""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "harness"))
import sxdriver as D  # noqa
import specs  # noqa
import props  # noqa

EVID = os.path.join(HERE, "evidence")


def known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def close(a, b):
    try:
        x, y = float(a), float(b)
    except ValueError:
        return a == b
    if x != x or y != y:
        return x != x and y != y
    return abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y))


def settings(h, tier):
    s = dict(h)
    if tier == "thorough":
        s.update(h.get("thorough", {}))
    return s


def bounds(s):
    return "settings %s; exploration budget %d s; stubs %s" % (
        json.dumps(s.get("params", {}), sort_keys=True), s.get("budget", 120),
        ", ".join(x.split("=")[1] for x in s.get("stubs", [])) or "none")


def run_harness(pid, h, tier, left):
    s = settings(h, tier)
    src = os.path.join(HERE, "harness", s["file"])
    t0 = time.time()
    sym, nat = D.build(src, s.get("defines", []), s.get("sources"), s.get("stubs", []))
    tb = time.time() - t0
    budget = max(5, min(s.get("budget", 120), left - tb))
    par = {"SXP_" + k: str(v) for k, v in s.get("params", {}).items()}
    env = dict(par, **{"SX_" + k: str(v) for k, v in s.get("env", {}).items()})
    recs, wall, rc = D.run_symbolic(sym, budget, env)
    summ = None
    for r in recs:
        if r["t"] == "summary":
            summ = r["s"]
    res = dict(name=s["name"], file=s["file"], tier=tier, bounds=bounds(s), build_s=round(tb, 2),
               run_s=round(wall, 2), rc=rc, summary=summ, violations=[], unconfirmed=[], samples=[],
               mismatched=[], nat=nat, validated=0)
    res["killed"] = {}
    for r in recs:
        if r["t"] == "killed":
            k = r["why"] + ": " + r.get("info", "")
            res["killed"][k] = res["killed"].get(k, 0) + 1
    w = tempfile.mkdtemp(prefix="rep-", dir=D.BUILD)
    try:
        # translation validation: model values vs native values on sample paths
        for r in recs:
            if r["t"] != "sample":
                continue
            code, out = D.replay(nat, r["inputs"], w, env=par)
            obs = {}
            for ln in out.splitlines():
                if ln.startswith("OBS "):
                    f = ln.split()
                    obs[f[1]] = f[2]
            bad = [k for k, v in r["obs"].items() if k not in obs or not close(v, obs[k])]
            if code == 5:
                continue  # rounding moved the sample outside an assumption
            if bad:
                res["mismatched"].append(dict(inputs=r["inputs"], keys=bad[:5],
                                              model=[r["obs"][k] for k in bad[:5]],
                                              native=[obs.get(k) for k in bad[:5]]))
            else:
                res["validated"] += 1
            if len(res["samples"]) < 3:
                res["samples"].append(dict(harness=s["name"], inputs=dict(list(r["inputs"].items())[:12])))
        cand = [r for r in recs if r["t"] == "viol"]
        seen = {}
        tried = {}
        for r in cand:
            lab = r["label"]
            if lab in seen or tried.get(lab, 0) >= 25:
                continue
            tried[lab] = tried.get(lab, 0) + 1
            code, out = D.replay(nat, r["inputs"], w, env=par)
            if os.environ.get("SX_SHOW"):
                print("   candidate", lab, r["inputs"], "native", code)
            if code == 3:
                fails = [ln[5:] for ln in out.splitlines() if ln.startswith("FAIL ")]
                crash = [ln for ln in out.splitlines() if ln.startswith("CRASH")]
                what = fails[0] if fails else (crash[0] if crash else lab)
                seen[lab] = 1
                if not any(v["what"] == what for v in res["violations"]):
                    res["violations"].append(dict(label=lab, what=what, inputs=r["inputs"], output=out[-3000:]))
        res["unconfirmed"] = [l for l in tried if l not in seen]
    finally:
        shutil.rmtree(w, ignore_errors=True)
    labs = (summ or {}).get("labels", {})
    res["unreached"] = [l for l in s.get("reach", []) if labs.get(l, {}).get("reach", 0) == 0]
    res["functions"] = sorted(D.symbolize(sym, (summ or {}).get("pcs", [])))
    return res


def short(fn):
    return fn if len(fn) < 140 else fn[:137] + "..."


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--strict", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(D.BUILD, exist_ok=True)
    if a.setup:
        D.engine()
        g = D.gendir()
        with cf.ThreadPoolExecutor(D.NCPU) as ex:
            list(ex.map(lambda x: D.compile_bc(x, g), D.repo_sources() + [D.ENG + "/sxlib.cpp"]))
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        h = [x for x in specs.PROPS[r["property"]]["harnesses"] if x["name"] == r["harness"]][0]
        s = settings(h, r["tier"])
        _, nat = D.build(os.path.join(HERE, "harness", s["file"]), s.get("defines", []), s.get("sources"),
                         s.get("stubs", []))
        code, out = D.replay(nat, r["inputs"], D.BUILD,
                             env={"SXP_" + k: str(v) for k, v in s.get("params", {}).items()})
        print(out)
        return code
    pid = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    P = specs.PROPS[pid]
    t0 = time.time()
    results = []
    status = 0
    nviol = 0
    kf = known(pid)
    hs = [h for h in P["harnesses"] if (not a.only or h["name"] == a.only) and
          not (tier == "quick" and h.get("thorough_only"))]
    strict_bad = []
    shown = set()
    undecided = []  # harnesses from which nothing can be concluded
    try:
        D.engine()
    except D.BuildError as e:
        print("NO VERDICT property=%s: the checking engine does not build\n%s" % (pid, str(e)[-2000:]))
        return 2
    for f in os.listdir(EVID):
        if f.startswith(pid + ".replay"):
            os.unlink(os.path.join(EVID, f))
    limit = 5400 if tier == "thorough" else 740
    for h in hs:
        left = limit - (time.time() - t0)
        if status or left < 10:
            # one confirmed counterexample decides; out of time is not explored
            undecided.append(h["name"] + (": not run after a violation" if status else ": out of time"))
            continue
        try:
            r = run_harness(pid, h, tier, left)
        except D.BuildError as e:
            # The changed tree does not offer what this harness drives (or does
            # not compile with clang): nothing can be concluded from it.
            print("INCONCLUSIVE property=%s harness=%s: build failed" % (pid, h["name"]))
            if h["file"] not in shown:
                print("\n".join(str(e).splitlines()[1:])[-3000:])
            shown.add(h["file"])
            results.append(dict(name=h["name"], file=h["file"], build_failed=str(e)[-500:]))
            strict_bad.append("build " + h["name"])
            undecided.append(h["name"] + ": build failed")
            continue
        results.append(r)
        s = r["summary"] or {}
        print("%-26s build %.1fs run %.1fs paths %s/%s checks %s ok %s unk %s viol-cand %s queries %s "
              "solver %.1fs validated %d killed %s" % (
                  r["name"], r["build_s"], r["run_s"], s.get("completed"), s.get("paths"), s.get("checks"),
                  s.get("checks_ok"), s.get("checks_unknown"), s.get("violations"), s.get("queries"),
                  s.get("solver_us", 0) / 1e6, r["validated"], r["killed"]))
        if not s.get("completed") or not s.get("checks"):
            undecided.append(r["name"] + ": no path with an obligation was completed")
        elif r["unreached"]:
            undecided.append(r["name"] + ": never reached " + ", ".join(r["unreached"]))
        if r["mismatched"]:
            print("  TRANSLATION MISMATCH", json.dumps(r["mismatched"][0])[:600])
            strict_bad.append("mismatch " + r["name"])
        if r["unreached"]:
            print("  UNREACHED", r["unreached"])
            strict_bad.append("unreached " + r["name"])
        if r["unconfirmed"]:
            print("  candidates not confirmed natively:", r["unconfirmed"])
        if r["killed"] or not s or s.get("checks_unknown") or s.get("incomplete"):
            strict_bad.append("incomplete " + r["name"])
        for v in r["violations"]:
            k = [x for x in kf if x["harness"] == r["name"] and x["what"] == v["what"]]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (pid, k[0]["describe"]))
                v["known"] = True
                continue
            nviol += 1
            path = os.path.join(EVID, "%s.replay%d.json" % (pid, nviol))
            json.dump(dict(property=pid, harness=r["name"], tier=tier, label=v["label"], what=v["what"],
                           inputs=v["inputs"], output=v["output"],
                           how="python3 /verif/check.py --replay " + path), open(path, "w"), indent=1)
            print("counterexample (%s): %s" % (r["name"], v["what"]))
            print("  inputs:", json.dumps(v["inputs"])[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            status = 1
    wall = time.time() - t0
    tot = lambda k: sum((r.get("summary") or {}).get(k, 0) for r in results)
    text = [x for x in props.PROPS if x["id"] == pid][0]
    fns = sorted(set(f for r in results for f in r.get("functions", []) if "mocc::" in f))
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(
            states=tot("completed"), transitions=tot("branches"),
            traces_validated_against_impl=sum(r.get("validated", 0) for r in results),
            samples=[x for r in results for x in r.get("samples", [])][:6],
            paths_started=tot("paths"), obligations_posed=tot("checks"), obligations_proved=tot("checks_ok"),
            obligations_undecided=tot("checks_unknown"), paths_cut=tot("killed"),
            budget_exhausted=tot("incomplete"), harnesses_not_explored=undecided,
            solver_queries=tot("queries"), queries_unsat=tot("unsat"), queries_sat=tot("sat"),
            queries_unknown=tot("unknown"), solver_s=round(tot("solver_us") / 1e6, 3),
            functions_encoded=[short(f) for f in fns][:200], functions_encoded_count=len(fns),
            quantified_over=text["text"], bounds={r["name"]: r.get("bounds", "") for r in results},
            explanation="states = execution paths decided for all inputs on them; transitions = symbolic "
                        "branch decisions; traces validated = sample paths whose predicted results were "
                        "compared with a native run of the same code",
            harnesses=[dict(name=r["name"], build_failed=r.get("build_failed"), run_s=r.get("run_s"),
                            paths=(r.get("summary") or {}).get("completed"),
                            checks=(r.get("summary") or {}).get("checks"),
                            proved=(r.get("summary") or {}).get("checks_ok"),
                            undecided=(r.get("summary") or {}).get("checks_unknown"),
                            cut=r.get("killed"), unreached=r.get("unreached"),
                            translation_mismatches=len(r.get("mismatched", [])),
                            unconfirmed_candidates=r.get("unconfirmed"),
                            obligations={l: v["checks"] for l, v in (r.get("summary") or {}).get(
                                "labels", {}).items() if v["checks"]})
                       for r in results]),
        assumptions=[text["note"]] + [specs.STUB_NOTES[x] for x in sorted(set(
            y.split("=")[1] for h in hs for y in h.get("stubs", [])))] + specs.COMMON_ASSUMPTIONS,
        wall_s=round(wall, 2), violations=nviol)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for u in undecided:
        print("NOT EXPLORED:", u)
    if not status and len(undecided) >= len(hs):
        # nothing was decided, which is not the same as the property holding
        print("NO VERDICT property=%s tier=%s wall=%.1fs" % (pid, tier, wall))
        return 2
    print("property=%s tier=%s %s wall=%.1fs" % (
        pid, tier, "VIOLATED" if status else "held on everything explored", wall))
    if a.strict and strict_bad and not status:
        print("STRICT:", strict_bad)
        return 2
    return status


if __name__ == "__main__":
    sys.exit(main())
