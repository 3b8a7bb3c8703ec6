#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough       one property
   check.py --replay FILE                 run the case of a violation again"""
import copy, json, os, random, re, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *
import families, lang

MAXCALLS = 6000
# cases of the specification run on its own: calls the parser made, number of cases
MAXCOST, PEG_CASES = 200, {"quick": 1500, "thorough": 12000}
SPECKEYS = ("id", "mode", "eof", "ns", "root", "lexer", "grammar", "fm")

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(VERIF, "work", "%s-%s" % (prop, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.groups, self.meta = [], []
        self.records, self.where = [], []
        self.violations, self.skipped = [], 0
        self.counts = {}

    # -------------------------------------------------- observations
    def rec(self, gi, ii, code, out, obs, toks=None, lexed=0, at=0):
        if any(deep(o) for o in obs):
            flatter = [shallow(o) for o in obs]
            self.skipped += flatter.count(None)
            obs = [o for o in flatter if o is not None]
        self.records.append({"g": gi + 1, "code": code, "toks": toks or [], "lexed": lexed, "at": at, "obs": obs})
        self.where.append((gi, ii))
        for o in obs: self.counts[o[0]] = self.counts.get(o[0], 0) + 1

    def base(self, g, o):
        """The tokens of an output and the first observation."""
        if g["mode"] == "less" or "lex" not in o: return [], [], 0, 0
        lx = o["lex"]
        if lx[0] == 0: return [["lex", lx]], lx[1], 0, 0
        return [["lex", lx]], [], 1, (lx[1] if lx[0] == 1 else 0)

    def bad(self, gi, ii, what, detail=None):
        self.violations.append((gi, ii, what, detail))

    def collect(self, outs):
        for gi, (g, m, out) in enumerate(zip(self.groups, self.meta, outs)):
            if out is None or out.get("skipped"): self.skipped += 1; continue
            if "crash" in out: self.bad(gi, -1, "the process did not survive: " + out["crash"]); continue
            obs = m["obs"]
            if "build" in obs:
                if out["build"] == "panic": self.bad(gi, -1, "building panicked: " + out.get("msg", "")); continue
                self.rec(gi, -1, [], None, [["build", out["build"] == "ok"]])
                if not g.get("inputs"): continue
            elif out["build"] != "ok":
                self.bad(gi, -1, "building failed (%s): %s" % (out["build"], out.get("msg"))); continue
            if out.get("bad"): self.bad(gi, -1, "%d assignments were not answered as they should" % out["bad"])
            if "ctor" in obs:
                for k, (d, r) in enumerate(zip(g["defs"], out["ctor"])):
                    self.rec(gi, k, [], None, [["ctor", d["def"], r == "ok"]])
                continue
            if "gram" in obs:
                t = out.get("gram")
                if not isinstance(t, str): self.bad(gi, -1, "printing the grammar failed", t); continue
                at = t.find("\nfragment") + 1 if g["mode"] != "less" else len(t)
                self.rec(gi, -1, [], None, [["gram", lang.words(t[:at]), lang.split_states(t[at:])]])
            if "facts" in obs:
                for x in out["facts"]:
                    if not isinstance(x, list): self.bad(gi, -1, "the definitions cannot be made twice", x)
                    else: self.rec(gi, -1, [], None, [["facts", x]])
            if m.get("pair") is not None: m["out"] = out["inputs"]; continue
            for ii, (code, o) in enumerate(zip(g.get("inputs", []), out["inputs"])):
                self.input_obs(gi, ii, g, m, code, o, obs)
        for gi, (g, m) in enumerate(zip(self.groups, self.meta)):
            if m.get("pair") is not None and "out" in m: m["pair"](self, gi)

    def input_obs(self, gi, ii, g, m, code, o, obs):
        first, toks, lexed, at = self.base(g, o)
        r = list(first)
        if o.get("calls", 0) > MAXCALLS and m.get("late"): return
        if o.get("calls", 0) > MAXCALLS and "big" not in obs: self.skipped += 1; return
        if "tile" in obs and not lexed: r.append(["tile"])
        if "two" in o: self.bad(gi, ii, "tokenize_n_parse differs from parse", o["two"])
        if "ret" in obs: r.append(["is", 1, 1 if o["par"][0] in (0, 1) else 9])
        if "par" in obs: r.append(["par", o["par"]])
        lim = m.get("evmax", 40)
        for key in ("ev", "sw"):
            if key in obs and not lexed:
                evs = o.get(key, [])
                if m.get("late") and len(evs) > 2 * lim: evs = evs[::-(len(evs) // (2 * lim))]
                foc = m.get("focus")
                if foc:
                    a = [e for e in evs if g["grammar"][e[0] - 1]["k"] in foc]
                    b = [e for e in evs if g["grammar"][e[0] - 1]["k"] not in foc]
                    evs = a[:lim] + b[:max(0, min(lim - len(a), lim // 4))]
                r += [["ev"] + e[:3] + [e[4], e[5], e[3]] for e in evs[:lim]]
        if "once" in obs and o.get("once"): r.append(["once", o["once"]])
        if "ls" in obs: r += [["ls"] + x for x in o.get("ls", [])]
        if "dbg" in obs: r += [["dbg"] + x for x in o.get("dbg", [])[:m.get("dbgmax", 200)]]
        if "q" in obs: r += [["q", x[0], x[1]] if len(x) == 2 else ["is", 0, x] for x in o.get("q", [])]
        if "show" in obs: r += [["show"] + x if len(x) == 3 else ["is", 0, x] for x in o.get("show", [])]
        if "vw" in obs and "vw" in o: r += [["vw", o["vw"]]] if o["vw"] and o["vw"][0][0] != "panic" else [["is", 0, o["vw"]]]
        if "view" in obs and not lexed: r.append(["view"])
        if "span" in obs and o["par"][0] == 0:
            plain = all(n["k"] not in ("ns", "st") for n in g["grammar"])
            r += [["span", x, plain] for x in o["par"][1]]
        if "pos" in obs:
            r += [["is", 0, o["pos"]]] if o["pos"] and o["pos"][0][0] == "panic" else [["pos", x[0], x[1:]] for x in o["pos"]]
            r.append(["breaks", o["br"]])
        if "posl" in obs:
            r += [["is", 0, o["pos"]]] if o["pos"] and o["pos"][0][0] == "panic" else [["posl", [x[0] for x in o["pos"]], [x[1:] for x in o["pos"]]]]
        if "json" in obs:
            t, l = o["tok"], o["less"]
            strip = lambda n: [n[0], n[1], n[2], [strip(c) for c in n[5]]]
            for x in (t, l):
                if x[0] == 9: r.append(["is", 0, x])
            r.append(["is", t[0], l[0]])
            r.append(["json"] + [[1, [strip(n) for n in x[1]]] if x[0] == 0 else [0, []] for x in (t, l)])
        if r: self.rec(gi, ii, code, o, r, toks, lexed, at)

    # -------------------------------------------------- control records
    def controls(self, rng):
        """Copies of observations with a wrong answer: all of them must be reported."""
        kinds, first = {}, len(self.records)
        order = list(range(first)); rng.shuffle(order)
        for i in order:
            for o in self.records[i]["obs"]:
                k = o[0]
                if k in ("tile", "view", "span") or len(kinds.get(k, ())) >= 2: continue
                if k in ("lex",) and self.records[i]["obs"][0][1][0] == 3: continue
                if k == "ls" and o[5] == [3]: continue
                c = corrupt(o)
                if c is None: continue
                kinds.setdefault(k, []).append((i, c))
        for k in sorted(kinds):
            for i, c in kinds[k]:
                self.records.append(dict(self.records[i], obs=[c]))
                self.where.append(self.where[i])
        return first

def deep(o, most=200):
    """Is the observation nested more deeply than the JSON reader of TLC goes?"""
    level = [o]
    for _ in range(most):
        level = [x for l in level for x in l if isinstance(x, list)]
        if not level: return False
    return True
def flat(nodes):
    """The nodes in preorder, with their numbers of children."""
    out, todo = [], list(reversed(nodes))
    while todo:
        n = todo.pop()
        out.append(n[:5] + [len(n[5])])
        todo += reversed(n[5])
    return out
def shallow(o):
    if not deep(o): return o
    if o[0] == "par": return ["parf", [0, flat(o[1][1])]]
    if o[0] == "ev": return ["evf"] + o[1:6] + [[0, o[6][1], flat(o[6][2])]]
    if o[0] == "is": return ["is", json.dumps(o[1]), json.dumps(o[2])]
    return None

def corrupt(o):
    o = copy.deepcopy(o)
    k = o[0]
    if k in ("build", "ctor"): o[-1] = not o[-1]; return o
    if k == "is": o[2] = ["wrong", o[2]]; return o
    if k in ("bare", "shape"): o[-1] = [1, 777777, 1, 1, "wrong", []]; return o
    if k == "q":
        o[2][-1][-1] = [[99, 0, 0, 0, 0, []]] if o[2][-1][-1] == [] else []; return o
    if k == "vw": o[1][-1][-1] = [7, 7, 7, 7]; return o
    if k == "pos": o[2][1] += 1; return o
    if k == "breaks": o[1] = o[1] + [9999]; return o
    if k == "ev":
        if o[6][0] == 0: o[6][1] += 1
        else: o[6] = [0, o[3], []]
        return o
    if k == "json": o[1 + len(o[1][1]) % 2] = [1, [["Main", 0, 77, []]]]; return o
    if k == "show": o[2] += "!"; return o
    if k == "gram": o[1] += "!"; return o
    if k == "once": o[1][-1][3] += 1; return o
    if k == "facts": o[1][-1][1 + len(o[1]) % 3] = [1 - o[1][-1][1], 1 - o[1][-1][2], o[1][-1][3] + [12345]][len(o[1]) % 3]; return o
    if k == "posl": o[2][-1][0] += 1; return o
    if k == "pump": return None   # not judged for some tokenizers
    if k in ("parf", "evf"): o[-1][-1][0][1] += 1; return o
    if k == "ls": o[5] = [1, 555, 0, 1, []] if o[5][0] == 0 else [0, 0, 0, 0, [9]]; return o
    if k in ("lex", "par", "dbg"):
        j = -1
        if o[j][0] == 1: o[j] = [0, []]
        elif o[j][0] == 0: o[j] = [1, 0, 1, 1]
        else: return None
        return o
    return None

def cost(run, outs, gi, code):
    """Calls the parser made for an input."""
    o = outs[gi]
    if not o or "inputs" not in o: return 1 << 30
    # which results are memoized is a choice: its outcomes are many
    memo = sum(nd["k"] == "cache" for nd in run.groups[gi]["grammar"])
    return o["inputs"][run.groups[gi]["inputs"].index(code)].get("calls", 1 << 30) * (1 + memo / 4)
def describe(run, gi, ii):
    g = run.groups[gi]
    d = {k: v for k, v in g.items() if k not in ("inputs", "defs")}
    if ii is not None and ii >= 0:
        if "defs" in g: d["defs"] = [g["defs"][ii]]
        else: d["inputs"] = g["inputs"][: ii + 1] if run.meta[gi].get("history") else [g["inputs"][ii]]
    else:
        for k in ("inputs", "defs"):
            if k in g: d[k] = g[k]
    return d

def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    run = Run(prop, tier, seed)
    rng = random.Random("%s %s" % (prop, seed))
    fam = families.make(prop, tier, rng)
    run.groups, run.meta = fam.groups, fam.meta
    for k, g in enumerate(run.groups): g.setdefault("id", k)
    t1 = time.time()
    binary = build()
    t2 = time.time()
    # some groups run in a build without debug assertions
    rel = [k for k, m in enumerate(run.meta) if m.get("release")]
    if rel:
        outs = [None] * len(run.groups)
        for b, ks in ((build(True), rel), (binary, [k for k in range(len(outs)) if k not in set(rel)])):
            for k, o in zip(ks, run_harness(b, [run.groups[k] for k in ks], run.work, hang=fam.hang)): outs[k] = o
    else: outs = run_harness(binary, run.groups, run.work, hang=fam.hang)
    t3 = time.time()
    # the specification on its own
    machines = []
    for n, (module, cases, cfg) in enumerate(fam.machines):
        if module == "PegMachine": cases = [c for c in cases if cost(run, outs, *c) <= MAXCOST][:PEG_CASES[tier]]
        gf, cf = os.path.join(run.work, "mg%d.ndjson" % n), os.path.join(run.work, "mc%d.ndjson" % n)
        used = sorted({c[0] for c in cases}); idx = {g: i + 1 for i, g in enumerate(used)}
        write(gf, [speconly(run.groups[g]) for g in used])
        write(cf, [{"g": idx[a], "code": c} for a, c in cases])
        machines.append((module, cases, tlc_start(module, cfg or module + ".cfg", {"VERIF_GROUPS": gf, "VERIF_CASES": cf},
                                                  run.work, fam.machine_workers, "%s%d" % (module, n), mem="4g")))
    run.collect(outs)
    first_control = run.controls(rng)
    res = None
    if run.records:
        gf, rf = os.path.join(run.work, "groups.ndjson"), os.path.join(run.work, "records.ndjson")
        write(gf, [speconly(g) for g in run.groups])
        write(rf, run.records)
        res = tlc_wait(tlc_start("Trace", "Trace.cfg", {"VERIF_GROUPS": gf, "VERIF_RECORDS": rf}, run.work, 8, "Trace", mem="8g"),
                       700 if tier == "quick" else 7200)
        if not res["ok"]:
            # an observation the specification gives no meaning to
            at = re.findall(r"/\\ r = (\d+)\n", res["text"]), re.findall(r"/\\ j = (\d+)\n", res["text"])
            if not at[0] or "OutOfMemory" in res["text"]: raise ToolError("TLC on the traces: " + tail(res["text"]))
            i, j = int(at[0][-1]), int(at[1][-1])
            gi, ii = run.where[i - 1]
            o = run.records[i - 1]["obs"][min(j, len(run.records[i - 1]["obs"]) - 1)]
            run.bad(gi, ii, "outside the specification: " + tail(res["text"])[-700:], o[:4])
    t4 = time.time()
    mach = {"generated": 0, "distinct": 0}
    for module, cases, h in machines:
        r = tlc_wait(h, max(60, t0 + 500 - time.time()) if tier == "quick" else 7200, partial=True)
        mach["unfinished"] = mach.get("unfinished", 0) + ("partial" in r)
        if not r["ok"]: raise ToolError("the specification fails on its own (%s): %s" % (module, tail(r["text"])))
        if r["distinct"] <= len(cases): raise ToolError("%s explored nothing" % module)
        mach["generated"] += r["generated"]; mach["distinct"] += r["distinct"]
    # verdict
    mm = mismatches(res["text"]) if res else []
    caught = {x["r"] for x in mm if x["r"] > first_control}
    missed = [i for i in range(first_control + 1, len(run.records) + 1) if i not in caught]
    if missed and res["ok"]: raise ToolError("wrong answers went unnoticed: %s" % json.dumps(run.records[missed[0] - 1])[:500])
    for x in mm:
        if x["r"] <= first_control:
            gi, ii = run.where[x["r"] - 1]
            o = run.records[x["r"] - 1]["obs"][x["j"] - 1]
            run.bad(gi, ii, "expected %s, got %s" % (x["want"], x["got"]), o[:4] if o[0] in ("ls", "ev", "dbg") else o[:1])
    total = first_control
    nobs = sum(run.counts.values())
    known = families.known(run, binary)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k))
    samples = []
    for i in ([0, total // 2, total - 1] if total else []):
        gi, ii = run.where[i]
        samples.append({"group": run.groups[gi].get("family"), "input": run.records[i]["code"],
                        "observations": len(run.records[i]["obs"]), "first": json.dumps(run.records[i]["obs"][-1])[:300]})
    distinct = len({(run.where[i], json.dumps(run.records[i]["obs"])) for i in range(total)})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": mach["distinct"] + (res["distinct"] if res else 0),
                       "transitions": mach["generated"] + (res["generated"] if res else 0),
                       "traces_validated_against_impl": total,
                       "observations": nobs, "observations_by_kind": run.counts, "groups": len(run.groups),
                       "specification_states": mach["distinct"], "specification_runs_cut_short": mach.get("unfinished", 0), "specification_cases": sum(len(c) for _, c, _ in machines),
                       "control_records_rejected": len(run.records) - first_control,
                       "inputs_skipped_for_cost": run.skipped,
                       "families": dict(sorted(fam.names().items())), "samples": samples},
          "assumptions": families.ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 1), "violations": len(run.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d groups, %d traces, %d observations, %d states; generate %.1f build %.1f run %.1f trace %.1f total %.1f s" % (
        prop, tier, len(run.groups), total, nobs, ev["coverage"]["states"], t1 - t0, t2 - t1, t3 - t2, t4 - t3, time.time() - t0))
    if run.violations:
        rd = os.path.join(VERIF, "evidence", "replay-%s.json" % prop)
        gi, ii, what, detail = min(run.violations, key=lambda v: len(json.dumps(describe(run, v[0], v[1]))))
        json.dump({"property": prop, "family": run.groups[gi].get("family"), "what": what, "observation": detail,
                   "obs": sorted(run.meta[gi]["obs"]), "release": bool(run.meta[gi].get("release")), "group": describe(run, gi, ii),
                   "others": [[v[2], v[3]] for v in run.violations[:20]]}, open(rd, "w"), indent=1)
        print("%d disagreements; smallest: %s %s" % (len(run.violations), detail, what[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rd))
        return 1
    if run.skipped > total // 4 + 5: raise ToolError("too much was skipped: %d" % run.skipped)
    if not os.environ.get("VERIF_KEEP"): shutil.rmtree(run.work, ignore_errors=True)
    return 0

def tail(t): return "\n".join(l for l in t.split("\n") if "MISMATCH" not in l)[-2500:]
def speconly(g): return {k: g[k] for k in SPECKEYS if k in g}
def write(path, rows):
    with open(path, "w") as f:
        # numbers beyond those of the specification are wrong anyway
        for r in rows: f.write(re.sub(r"(?<![0-9])-?[0-9]{10,}", lambda m: m[0] if abs(int(m[0])) < 2 ** 31 else "2147480001", json.dumps(r)) + "\n")

def replay(path):
    d = json.load(open(path))
    binary = build(d.get("release", False))
    work = os.path.join(VERIF, "work", "replay"); os.makedirs(work, exist_ok=True)
    out = run_harness(binary, [d["group"]], work)
    print(json.dumps(d["group"])); print(json.dumps(out[0])[:5000]); print(d["observation"], d["what"])

if __name__ == "__main__":
    if sys.argv[1] == "--replay": replay(sys.argv[2]); sys.exit(0)
    try: sys.exit(main())
    except ToolError as e:
        print("ERROR: %s" % e); sys.exit(2)
