#!/usr/bin/env python3
"""python3 check.py ID [--tier quick|thorough] [--repo DIR]"""

import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import parallel
from sa import rule as R_
from sa.loader import Loader, Broken
from sa.interp import TooComplex, Unsupported
import sa.rules.all  # noqa: F401


def analyse(pid, root, deep=False, every=1):
    """The report, by several processes."""
    Loader(root)  # Broken at once if the code cannot be read

    def work(share):
        A = Loader(root)
        R = R_.Report(pid, A)
        R.share, R.deep = share, deep
        broken = None
        try:
            R_.RULES[pid](A, R)
        except Broken as e:
            broken = str(e)
        except Exception as e:
            # the code has a shape the rule cannot deal with: what was decided before counts
            traceback.print_exc()
            share.inside = True
            R.undecided("the rest of the rule", "the analysis cannot deal with the code: %s: %s" % (type(e).__name__, e))
        loaders = [A]
        for w in R.worlds:
            if not any(w is x for x in loaders):
                loaders.append(w)
        stats = {k: sum(w.stats[k] for w in loaders) for k in ("loops", "calls_followed", "opaque_calls")}
        stats["functions"] = {"%s:%s" % x for w in loaders for x in w.stats["functions"] if "stubs" not in x[0]}
        stats["modules"] = len(A.files)
        return broken, share.log, R.paths, R.pairs, R.entry_points, stats, share.at

    n = parallel.workers()
    parts = parallel.run(work, n, every)
    R = R_.Report(pid, None)
    if parts[0] is None:
        raise Broken("the analysis ended early")
    for p in parts:
        if p is not None and p[0]:
            raise Broken(p[0])
    lost = [k for k, p in enumerate(parts) if p is None]
    parts = [p for p in parts if p is not None]
    R.stats = {"functions": set(), "loops": 0, "calls_followed": 0, "opaque_calls": 0, "modules": parts[0][5]["modules"]}
    for x in sorted((x for p in parts for x in p[1]), key=lambda x: x[:2]):
        R.add(*x[2:])
    for p in parts:
        R.paths += p[2]
        R.pairs += p[3]
        R.entry_points += p[4]
        for k, v in p[5].items():
            if k == "functions":
                R.stats[k] |= v
            elif k != "modules":
                R.stats[k] += v
    if lost:
        R.undecided("the rest of the rule", "%d of %d processes ended early" % (len(lost), n))
    return R


def known():
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                d = dict(x.split("=", 1) for x in l[7:].split(" ", 2)[:2])
                d["text"] = l[7:].split(" ", 2)[2]
                out.append(d)
    return out


def anchor(pid, root):
    """Where the property is anchored in the code, for violations seen at the end of a client program."""
    import ast
    import re

    try:
        for l in open(os.path.join(HERE, "properties.jsonl")):
            p = json.loads(l)
            if p["id"] != pid:
                continue
            for m in p["anchors"]["mechanism"]:
                f = m["where"].split(":")[0]
                words = re.findall(r"\w+", m["where"].partition(":")[2] + " " + m["name"])
                path = os.path.join(root, f)
                if not os.path.isfile(path):
                    continue
                defs = {n.name.lstrip("_"): n.lineno for n in ast.walk(ast.parse(open(path).read())) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))}
                for w in reversed(words):
                    if w.lstrip("_") in defs:
                        return f, defs[w.lstrip("_")]
                return f, 1
    except (OSError, ValueError, KeyError, SyntaxError):
        pass
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--every", type=int, default=1, help="only every n-th scenario")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.id
    try:
        R = analyse(pid, a.repo, a.tier == "thorough", a.every)
    except Broken as e:
        print("ANALYSIS BROKEN: %s" % e)
        return 3
    if not R.obligations:
        print("ANALYSIS BROKEN: no obligations")
        return 3
    kn = [k for k in known() if k["property"] == pid]
    viol = []
    for name, status, detail, loc in R.obligations:
        if status != "bad":
            continue
        k = next((k for k in kn if k["key"] == name.replace(" ", "_")), None)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
        else:
            viol.append((name, detail, loc))
    extra = {}
    if a.tier == "thorough" and not viol:
        from sa import selftest

        extra = selftest.run(pid, a.repo, analyse, time.time() - t0)
    rc = 0
    evd = os.path.join(HERE, "evidence")
    if not a.no_evidence:
        os.makedirs(evd, exist_ok=True)
    if viol:
        rc = 1
        path = os.path.join(evd, pid + ".violation.txt")
        text = ""
        at = anchor(pid, a.repo)
        for name, detail, loc in viol:
            if not loc or not str(loc[0]).startswith(("toffee", "scripts")):
                loc = at or loc
            text += "%s:%s: %s\n    %s\n" % (loc[0] if loc else "?", loc[1] if loc else "?", name, detail)
        if not a.no_evidence:
            with open(path, "w") as f:
                f.write("property %s\nre-run: python3 %s %s\n\n%s" % (pid, os.path.join(HERE, "check.py"), pid, text))
        print(text)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    und = [o for o in R.obligations if o[1] == "undecided"]
    for name, status, detail, loc in R.obligations:
        if a.v or status == "undecided":
            print("%-9s %s%s" % (status, name, ("\n    " + detail[:2500]) if detail else ""))
    ok = [o for o in R.obligations if o[1] == "ok"]
    if not a.no_evidence:
        rel = sorted(R.stats["functions"])
        ev = {
            "property": pid,
            "tier": a.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the current source of /repo (abstract interpretation of the syntax "
                "trees, nothing of the package is run). obligations: rule instances that had to hold; discharged: those "
                "shown on every path of the functions analysed; undecided: the abstraction could not tell (reported, "
                "no alarm).",
                "obligations": len(R.obligations),
                "discharged": len(ok),
                "undecided": len(und),
                "rule_instances": {o[0]: R.instances.get(o[0], 1) for o in R.obligations},
                "entry_points": sorted(set(R.entry_points)),
                "functions_analysed": len(rel),
                "functions": rel,
                "paths": R.paths,
                "path_pairs_compared": R.pairs,
                "loops_summarised": R.stats["loops"],
                "calls_followed": R.stats["calls_followed"],
                "calls_opaque": R.stats["opaque_calls"],
                "modules_parsed": R.stats["modules"],
            },
            "wall_s": round(time.time() - t0, 3),
            "violations": len(viol),
            "assumptions": ASSUME,
        }
        if und:
            ev["coverage"]["undecided_instances"] = [(o[0], o[2][:400]) for o in und]
        if extra:
            ev["coverage"].update(extra)
        with open(os.path.join(evd, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d paths, %.1f s" % (
        pid, len(R.obligations), len(ok), len(und), len(viol), R.paths, time.time() - t0))
    return rc


ASSUME = [
    "calls that leave the package (asyncio, xspcomm, logging, user code) behave as documented and do not modify the package's private state",
    "objects have the declared classes; no monkey patching of the package at run time",
]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        print("ANALYSIS BROKEN: internal error")
        sys.exit(3)
