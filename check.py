#!/usr/bin/env python3
"""
Contract checks of google/liblc3: runs every proof job of one property.

  check.py PROPERTY [--tier quick|thorough] [--job NAME] [--keep] [-v]

Each job compiles a harness, with the current sources of /repo, by goto-cc
(optionally goto-instrument --dfcc for function contracts), and has all the
obligations decided by cbmc. A failed obligation is replayed natively, on the
real code built with the address and undefined behaviour sanitizers.

Exit status:
  0  all the obligations of all the jobs are discharged
  1  an obligation is violated (line VIOLATION property=... replay=...)
  2  no answer (tool error, timeout, harness does not compile)
"""
import argparse, concurrent.futures, json, os, re, resource, shutil, signal
import subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, VERIF)
import jobs as J                                            # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = int(os.environ.get("VC_NPROC", "8"))

CHECK_FLAGS = ["--no-undefined-shift-check", "--unwinding-assertions",
               "--drop-unused-functions", "--slice-formula"]

# float-cast-overflow and shift are not part of the obligations by default
NATIVE_FLAGS = ["-O1", "-g", "-fno-omit-frame-pointer", "-w",
                "-fsanitize=address,undefined",
                "-fno-sanitize=shift,alignment,float-cast-overflow"]

verbose = False
_lock = threading.Lock()


def log(*a):
    if verbose:
        with _lock:
            print(*a, flush=True)


def run(cmd, timeout, mem_gb=None, cwd=None, out=None, env=None):
    """ Run, return (status, stdout + stderr, seconds), status None on timeout """
    def limits():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    t0 = time.time()
    fp = open(out, "w+") if out else tempfile.TemporaryFile("w+")
    p = subprocess.Popen(cmd, stdout=fp, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, cwd=cwd, env=env,
                         preexec_fn=limits)
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        rc = None
    fp.seek(0)
    txt = fp.read()
    fp.close()
    return rc, txt, time.time() - t0


class Work:
    """ Scratch directory, with the compiled sources shared by the jobs """

    def __init__(self, path):
        self.path = path
        self.locks = {}
        self.objs = {}

    def obj(self, src, defs):
        key = (src, tuple(defs))
        with _lock:
            lk = self.locks.setdefault(key, threading.Lock())
        with lk:
            if key not in self.objs:
                o = os.path.join(self.path, "o%d.gb" % len(self.objs))
                while os.path.exists(o):
                    o += "x"
                open(o, "w").close()
                rc, txt, _ = run(["goto-cc", "-c", "-DVC_CBMC", "-DNDEBUG"] + includes()
                                 + list(defs) + [src, "-o", o], 120)
                self.objs[key] = (o if rc == 0 else None, txt)
        return self.objs[key]


def includes():
    return ["-I" + REPO + "/include", "-I" + REPO, "-I" + REPO + "/src",
            "-I" + VERIF + "/harness"]


def link_sources(job):
    """ All the sources of the library that the harness does not include """
    if job.only is not None:
        return [os.path.join(REPO, "src", f) for f in job.only]
    text = open(os.path.join(VERIF, "harness", job.file)).read()
    for h in re.findall(r'#include "(\w+\.h)"', text):
        hp = os.path.join(VERIF, "harness", h)
        if os.path.exists(hp):
            text += open(hp).read()
    inc = set(re.findall(r'#include "(?:src/)?(\w+\.c)"', text))
    src = [os.path.join(REPO, "src", f)
           for f in sorted(os.listdir(os.path.join(REPO, "src")))
           if f.endswith(".c") and f not in inc and f not in job.exclude]
    return src + [os.path.join(REPO, s) for s in job.srcs]


class Result:
    def __init__(self, job):
        self.job = job
        self.status = "ok"          # ok, violation, undecided
        self.reason = ""
        self.props = []             # (name, description, status, function, file)
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.failed = None          # first failing obligation
        self.replay = None
        self.replayed = False
        self.cmd = ""


def build(job, w, d, unwind=None):
    defs = ["-D" + x for x in job.defs]
    gb = os.path.join(d, "h.gb")
    objs = []
    for s in link_sources(job):
        o, txt = w.obj(s, defs)
        if o is None:
            return None, "compile of %s: %s" % (s, txt[-2000:])
        objs.append(o)
    rc, txt, _ = run(["goto-cc", "-DVC_CBMC", "-DNDEBUG", "--function", job.func]
                     + includes() + defs
                     + [os.path.join(VERIF, "harness", job.file)]
                     + objs + ["-o", gb], 180)
    if rc != 0:
        return None, "compile: " + txt[-3000:]
    if job.calls:
        # calls go to the contract of the callee, written as an executable stub
        gb2 = os.path.join(d, "h1.gb")
        cmd = ["goto-instrument"]
        for c in job.calls:
            cmd += ["--replace-calls", c]
        rc, txt, _ = run(cmd + [gb, gb2], 300)
        if rc != 0 and job.leaf:
            # contract between internal functions which are not there any more
            return None, "replaced functions: " + txt[-2000:]
        if rc != 0:
            # a function which does not exist any more, or has not the same
            # parameters, is not replaced: its body is verified with the caller
            shutil.copy(gb, gb2)
            gb3 = os.path.join(d, "h3.gb")
            for c in job.calls:
                rc, txt, _ = run(["goto-instrument", "--replace-calls", c, gb2, gb3], 300)
                if rc == 0:
                    shutil.move(gb3, gb2)
            rc = 0
        if rc != 0:
            return None, "goto-instrument: " + txt[-3000:]
        gb = gb2
    if job.enforce or job.replace or job.loops:
        gb2 = os.path.join(d, "h2.gb")
        cmd = ["goto-instrument", "--dfcc", job.func]
        for f in job.enforce:
            cmd += ["--enforce-contract", f]
        for f in job.replace:
            cmd += ["--replace-call-with-contract", f]
        if job.loops:
            cmd += ["--apply-loop-contracts"]
        rc, txt, _ = run(cmd + [gb, gb2], 300)
        if rc != 0:
            return None, "goto-instrument: " + txt[-3000:]
        gb = gb2
    return gb, ""


def cbmc_cmd(job, gb, scale=1):
    cmd = ["cbmc", gb] + [f for f in CHECK_FLAGS if f not in job.drop] + list(job.flags)
    if job.unwind:
        # second attempt: the loops may have moved, the largest bound to all
        big = max([job.unwind] + [int(u.rsplit(":", 1)[1]) for u in job.unwindset])
        cmd += ["--unwind", str(job.unwind if scale == 1 else max(big + 2, job.unwind * scale))]
    for u in job.unwindset:
        n, k = u.rsplit(":", 1)
        cmd += ["--unwindset", "%s:%d" % (n, int(k) * scale)]
    return cmd


def parse(txt):
    try:
        msgs = json.loads(txt)
    except ValueError:
        return None, None, 0.0, txt[-2000:]
    res, status, t, err = None, None, 0.0, ""
    for m in msgs:
        if "result" in m:
            res = m["result"]
        if "cProverStatus" in m:
            status = m["cProverStatus"]
        mt = m.get("messageText", "")
        r = re.match(r"Runtime decision procedure: ([\d.e+-]+)s", mt)
        if r:
            t += float(r.group(1))
        if m.get("messageType") == "ERROR":
            err += mt + "\n"
    return res, status, t, err


def is_reach(p):
    return p["description"].startswith("reach: ")


def flatten(v, buf, off):
    """ Value of a trace to bytes, with natural alignment; return (next, align) """
    if "members" in v:
        start = off
        amax = 1
        parts = []
        for m in v["members"]:
            parts.append(m["value"])
        # alignment of the structure
        amax = max([align_of(p) for p in parts] or [1])
        off = (off + amax - 1) // amax * amax
        for p in parts:
            off = flatten(p, buf, off)
        return (off + amax - 1) // amax * amax
    if "elements" in v:
        for e in v["elements"]:
            off = flatten(e["value"], buf, off)
        return off
    b = v.get("binary")
    n = size_of(v)
    off = (off + n - 1) // n * n
    raw = int(b, 2).to_bytes(n, "little") if b else bytes(n)
    buf.extend(bytes(max(0, off + n - len(buf))))
    buf[off:off + n] = raw
    return off + n


def size_of(v):
    w = v.get("width")
    if w is None:
        if v.get("name") == "pointer":
            return 8
        return 1
    return max(1, (w + 7) // 8)


def align_of(v):
    if "members" in v:
        return max([align_of(m["value"]) for m in v["members"]] or [1])
    if "elements" in v:
        return align_of(v["elements"][0]["value"]) if v["elements"] else 1
    return size_of(v)


def trace_inputs(trace):
    lines = []
    for s in trace:
        if s.get("stepType") != "input":
            continue
        buf = bytearray()
        for v in s.get("values", []):
            flatten(v, buf, 0)
        lines.append("%s %s" % (s["inputID"].split("::")[-1], buf.hex()))
    return lines


def native_build(job, d):
    exe = os.path.join(d, "native")
    text = open(os.path.join(VERIF, "harness", job.file)).read()
    src = link_sources(job)
    cmd = ["gcc"] + NATIVE_FLAGS + list(job.native) + includes() + \
        ["-D" + x for x in job.defs] + ["-DVC_ENTRY=" + job.func, "-DNDEBUG",
         os.path.join(VERIF, "harness", job.file),
         os.path.join(VERIF, "harness", "vc_native.c")] + src + ["-lm", "-o", exe]
    if job.wrap:
        # the same stubs of the callees as for the verifier
        for c in job.calls:
            f, g = c.split(":")
            cmd += ["-Wl,--wrap=" + f, "-Wl,--defsym=__wrap_%s=%s" % (f, g)]
    rc, txt, _ = run(cmd, 240)
    return (exe if rc == 0 else None), txt


def native_failed(rc, txt):
    return (rc == 1 and ("FAILED" in txt or "ERROR: AddressSanitizer" in txt
                         or "runtime error" in txt)) or (rc is not None and rc < 0)


def try_native(job, r, w, d, inputs, seconds):
    """ Replay of a counterexample, then random inputs. True when it fails """
    if job.no_native:
        return False, "no native reading of this harness"
    exe, txt = native_build(job, d)
    if not exe:
        return False, "native build: " + txt[-1500:]
    note = ""
    env = dict(os.environ)
    if inputs is not None:
        f = os.path.join(d, "inputs.txt")
        with open(f, "w") as fp:
            fp.write("\n".join(inputs) + "\n")
        env["VC_INPUTS"] = os.path.join(d, "replayed.txt")
        rc, txt, _ = run([exe, "replay", f], 90, env=env)
        note = txt[-3000:]
        if native_failed(rc, txt):
            return True, "counterexample replayed on the real code:\n" + note
    if seconds:
        env["VC_INPUTS"] = os.path.join(d, "random.txt")
        rc, txt, _ = run([exe, "random", str(SEED), str(seconds)], seconds + 90, env=env)
        if native_failed(rc, txt):
            ins = ""
            if os.path.exists(env["VC_INPUTS"]):
                ins = open(env["VC_INPUTS"]).read()[:20000]
            return True, "failing input found on the real code:\n" + txt[-3000:] + "\ninputs:\n" + ins
        note += "\n" + txt[-500:]
    return False, note


def do_job(job, w):
    r = Result(job)
    t0 = time.time()
    d = os.path.join(w.path, re.sub(r"\W", "_", job.name))
    os.makedirs(d, exist_ok=True)
    try:
        _do_job(job, w, d, r)
    except Exception as e:                                  # no answer
        import traceback
        r.status, r.reason = "undecided", "exception: " + traceback.format_exc()
    r.wall_s = time.time() - t0
    log("%-40s %-10s %6.1fs solver %6.1fs  %d props  %s" % (
        job.name, r.status, r.wall_s, r.solver_s, len(r.props), r.reason[:1500]))
    if not os.environ.get("VC_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return r


def _do_job(job, w, d, r):
    gb, err = build(job, w, d)
    if not gb:
        r.status, r.reason = "undecided", err
        if job.leaf and not err.startswith("compile of"):
            # contract of a function internal to a module, which is not there
            # any more: its callers are checked against what replaces it
            r.status = "skipped"
        return
    res = None
    for scale in (1, 4):
        cmd = cbmc_cmd(job, gb, scale)
        r.cmd = " ".join(cmd)
        rc, txt, _ = run(cmd + ["--json-ui", "--verbosity", "8"], job.timeout, job.mem, out=os.path.join(d, "out.json"))
        if rc is None:
            r.status, r.reason = "undecided", "timeout of %d s" % job.timeout
            break
        res, status, t, err = parse(txt)
        r.solver_s += t
        if res is None:
            r.status, r.reason = "undecided", "cbmc: rc %s %s" % (rc, err)
            break
        unw = [p for p in res if p["status"] == "FAILURE" and ".unwind" in p["property"]]
        oth = [p for p in res if p["status"] == "FAILURE" and ".unwind" not in p["property"]
               and not is_reach(p)]
        if oth or not unw:
            break
    if res is None:
        # no verdict of the prover: look for a failing input of the same contract
        ok, note = try_native(job, r, w, d, None, 20)
        if ok:
            r.status, r.replayed, r.replay = "violation", True, note
            r.failed = {"property": "native", "description": note.split("\n")[1][:200]}
        return

    for p in res:
        loc = p.get("sourceLocation", {})
        r.props.append((p["property"], p["description"], p["status"],
                        loc.get("function", ""), loc.get("file", "")))
    fails = [p for p in res if p["status"] == "FAILURE" and not is_reach(p)
             and not any(re.search(x, p["property"] + " " + p["description"]) for x in job.ignore)]
    unk = [p for p in res if p["status"] not in ("FAILURE", "SUCCESS")]
    reach = [p for p in res if is_reach(p)]
    nobody = [p for p in fails if ".no-body." in p["property"]]
    if nobody and not job.allow_nobody:
        r.status = "skipped" if job.leaf else "undecided"
        r.reason = "no body: " + nobody[0]["description"]
        return
    if not fails:
        if unk:
            r.status, r.reason = "undecided", "status %s: %s" % (unk[0]["status"], unk[0]["property"])
        elif not reach or any(p["status"] != "FAILURE" for p in reach):
            bad = [p["description"] for p in reach if p["status"] != "FAILURE"]
            r.status, r.reason = "undecided", "vacuous: %s not reachable" % (bad or "no reach assertion")
        elif len(res) - len(reach) <= 0:
            r.status, r.reason = "undecided", "no obligation"
        return

    # functional obligations first, then memory, unwinding last
    def rank(p):
        return (".unwind" in p["property"], not p["description"].startswith("ensures: "))
    fails.sort(key=rank)
    f = fails[0]
    r.failed = f
    unwind_only = ".unwind" in f["property"]
    cmd = cbmc_cmd(job, gb, scale) + ["--property", f["property"], "--trace", "--json-ui"]
    rc, txt, _ = run(cmd, job.timeout, job.mem, out=os.path.join(d, "trace.json"))
    inputs = None
    if rc is not None:
        res2, _, _, _ = parse(txt)
        for p in res2 or []:
            if p["status"] == "FAILURE" and p["property"] == f["property"] and p.get("trace"):
                inputs = trace_inputs(p["trace"])
    ok, note = try_native(job, r, w, d, inputs, 15)
    r.replay = "inputs of the counterexample:\n%s\n\n%s" % (
        "\n".join(inputs or ["(none)"])[:100000], note)
    r.replayed = ok
    if unwind_only and not ok:
        r.status = "undecided"
        r.reason = "loop not covered by the unwinding: %s %s" % (f["property"], json.dumps(f.get("sourceLocation")))
    else:
        r.status = "violation"
        r.reason = "%s: %s" % (f["property"], f["description"])


def main():
    global verbose
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--job")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    verbose = a.v
    pid = a.property
    t0 = time.time()
    prop = J.PROPS[pid]
    todo = [j for j in prop.jobs if a.tier == "thorough" or j.tier == "quick"]
    if a.job:
        todo = [j for j in todo if re.search(a.job, j.name)]
    todo.sort(key=lambda j: -j.cost)
    path = tempfile.mkdtemp(prefix="vc_%s_" % pid)
    w = Work(path)
    try:
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            results = list(ex.map(lambda j: do_job(j, w), todo))
    finally:
        if not a.keep:
            shutil.rmtree(path, ignore_errors=True)

    viol = [r for r in results if r.status == "violation"]
    undec = [r for r in results if r.status == "undecided"]

    # --- Known findings ---
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    listed = json.load(open(kf)) if os.path.exists(kf) else []
    left = []
    for r in viol:
        k = [x for x in listed if x.get("status") == "known" and x["property"] == pid
             and x.get("job") == r.job.name and re.search(x["obligation"],
                r.failed["property"] + " " + r.failed["description"])]
        if k:
            known.append(k[0])
        else:
            left.append(r)
    viol = left

    # --- Evidence ---
    obl = dis = reach = 0
    funcs, per_job, assumptions = set(), [], list(prop.assumptions)
    for r in results:
        o = [p for p in r.props if not p[1].startswith("reach: ")]
        obl += len(o)
        dis += sum(1 for p in o if p[2] == "SUCCESS")
        reach += sum(1 for p in r.props if p[1].startswith("reach: ") and p[2] == "FAILURE")
        for p in o:
            if p[4].startswith(REPO) and p[3]:
                funcs.add(os.path.relpath(p[4], REPO) + ":" + p[3])
        for x in r.job.assumes:
            if x not in assumptions:
                assumptions.append(x)
        per_job.append({
            "job": r.job.name, "contract_of": r.job.contract, "status": r.status,
            "obligations": len(o), "discharged": sum(1 for p in o if p[2] == "SUCCESS"),
            "preconditions_reached": sum(1 for p in r.props if p[1].startswith("reach: ") and p[2] == "FAILURE"),
            "solver": r.job.solver_name(), "solver_s": round(r.solver_s, 2), "wall_s": round(r.wall_s, 2),
            "enforced": r.job.enforce, "replaced_by_contract": r.job.replace + r.job.calls,
            "kind": ("bounded: " + r.job.bounded) if r.job.bounded else "proved, no bound",
        })
    undischarged = [x["job"] for x in per_job if x["status"] != "ok"]
    ev = {
        "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": SEED, "level": prop.level,
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": (results[0].cmd if results else "") or "cbmc",
            "trusted_base": J.TRUSTED,
            "functions_with_obligations": sorted(funcs),
            "reachability_checks": reach,
            "solver_s": round(sum(r.solver_s for r in results), 2),
            "bounded_jobs": [x["job"] for x in per_job if x["kind"].startswith("bounded")],
            "jobs": per_job, "jobs_not_discharged": undischarged,
            "explanation": prop.note,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    if not a.job:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for r in viol:
        rp = os.path.join(VERIF, "evidence", "replay", "%s-%s.txt" % (pid, re.sub(r"\W", "_", r.job.name)))
        with open(rp, "w") as fp:
            fp.write("property %s\njob %s (harness %s, function %s, defines %s)\ncontract of: %s\n"
                     "failed obligation: %s\n  %s\n  at %s\nchecker: %s\n\n%s\n" % (
                         pid, r.job.name, r.job.file, r.job.func, r.job.defs, r.job.contract,
                         r.failed["property"], r.failed["description"],
                         json.dumps(r.failed.get("sourceLocation", {})), r.cmd, r.replay))
        print("failed obligation: %s / %s: %s" % (r.job.name, r.failed["property"], r.failed["description"]))
        print("VIOLATION property=%s replay=%s%s" % (
            pid, rp, "" if r.replayed else " no-failing-input-found"))
    for r in results:
        if r.status == "skipped":
            print("not checked: job %s: internal function replaced: %s" % (r.job.name, r.reason[-300:]))
    for r in undec:
        print("no answer: job %s: %s" % (r.job.name, r.reason[:3000]))
    print("%s: %d jobs, %d obligations, %d discharged, %.0f s" % (pid, len(results), obl, dis, time.time() - t0))
    if viol:
        return 1
    return 2 if undec else 0


if __name__ == "__main__":
    sys.exit(main())
