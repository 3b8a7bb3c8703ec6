"""Building and running the harness, TLC, and the bookkeeping of a check."""
import glob, json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
RUSTFLAGS = "--cfg lang_pt_verif -Awarnings"

class ToolError(Exception): pass

def build(release=False):
    prof = "release" if release else "debug"
    for pat in ("lang_pt-*", "langpt-verif-*"):
        for d in glob.glob(os.path.join(TARGET, prof, ".fingerprint", pat)):
            shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ, RUSTFLAGS=RUSTFLAGS, CARGO_NET_OFFLINE="true")
    cmd = ["cargo", "build", "--offline", "--target-dir", TARGET] + (["--release"] if release else [])
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode: raise ToolError("building the harness failed:\n" + r.stdout[-3000:])
    return os.path.join(TARGET, prof, "langpt-verif")

def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def _run_chunk(binary, work, k, chunk, outs, env):
    fin, fout = os.path.join(work, "in%d.jsonl" % k), os.path.join(work, "out%d.jsonl" % k)
    with open(fin, "w") as f:
        for _, g in chunk: f.write(json.dumps(g) + "\n")
    if os.path.exists(fout): os.unlink(fout)
    first, crashes = 0, 0
    while first < len(chunk):
        p = subprocess.run([binary, fin, fout, str(first)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           preexec_fn=_limits, env=env)
        done = []
        if os.path.exists(fout):
            with open(fout, "rb") as f: lines = f.read().split(b"\n")
            for l in lines[:-1]: done.append(json.loads(l))
        if p.returncode == 0: first = len(chunk); break
        at = len(done)
        why = "endless loop" if p.returncode == 86 else "crash (%d) %s" % (p.returncode, p.stderr[-300:].decode("utf8", "replace"))
        if at < len(chunk):
            with open(fout, "ab") as f: f.write(json.dumps({"id": chunk[at][1]["id"], "crash": why}).encode() + b"\n")
        first = at + 1
        crashes += 1
        if crashes > 4:
            with open(fout, "ab") as f:
                for j in range(first, len(chunk)): f.write(json.dumps({"id": chunk[j][1]["id"], "skipped": True}).encode() + b"\n")
            break
    with open(fout, "rb") as f:
        for (gi, _), l in zip(chunk, f.read().split(b"\n")): outs[gi] = json.loads(l)
    os.unlink(fin); os.unlink(fout)

def run_harness(binary, groups, work, jobs=8, hang=20):
    """One output per group; {"crash": ...} when the process did not survive it."""
    outs = [None] * len(groups)
    chunks = [[(i, groups[i]) for i in range(k, len(groups), jobs)] for k in range(jobs)]
    env = dict(os.environ, VERIF_HANG=str(hang))
    errs = []
    def go(k, c):
        try: _run_chunk(binary, work, k, c, outs, env)
        except Exception as e: errs.append(e)
    ts = [threading.Thread(target=go, args=(k, c)) for k, c in enumerate(chunks) if c]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise ToolError("harness: %r" % errs[0])
    return outs

def tlc_start(module, cfg, env, work, workers, name, mem="3g", extra=()):
    meta = os.path.join(work, "meta-" + name)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    log = open(os.path.join(work, name + ".log"), "w")
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, workers), "-cp", JARS,
           "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *extra, module + ".tla"]
    p = subprocess.Popen(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=log, stderr=subprocess.STDOUT)
    return p, log, meta

def tlc_wait(h, timeout, partial=False):
    """With partial, running out of time ends the exploration where it is."""
    p, log, meta = h
    try: rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait(); log.close()
        text = open(log.name, errors="replace").read()
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", text)
        if partial and m and "Error" not in text:
            shutil.rmtree(meta, ignore_errors=True)
            return {"rc": 0, "text": text, "generated": int(m[-1][0].replace(",", "")), "distinct": int(m[-1][1].replace(",", "")),
                    "ok": True, "partial": True}
        raise ToolError("TLC did not finish in %ds, see %s" % (timeout, log.name))
    log.close()
    shutil.rmtree(meta, ignore_errors=True)
    text = open(log.name, errors="replace").read()
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    return {"rc": rc, "text": text, "generated": int(m[-1][0]) if m else 0, "distinct": int(m[-1][1]) if m else 0,
            "ok": "Model checking completed. No error has been found" in text}

def mismatches(text):
    out = []
    for l in text.split("\n"):
        if l.startswith('"MISMATCH '):
            out.append(json.loads(json.loads(l)[9:]))
    return out
