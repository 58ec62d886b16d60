"""Build the driver, run programs, validate the recorded traces with TLC."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.environ.get("HV_TARGET", os.path.join(ROOT, "target"))
JAR = "/opt/veriftools/tla/tla2tools.jar"
CORES = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """the check itself did not work"""


def env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), PATH="/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin"),
             RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_PROFILE_DEV_DEBUG", "CARGO_ENCODED_RUSTFLAGS"): e.pop(k, None)
    return e


DIRS = {"dev": "debug", "release": "release", "nochk": "nochk"}


def repo_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk("/repo"):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml")):
                h.update(os.path.join(d, f).encode() + b"\0" + open(os.path.join(d, f), "rb").read() + b"\0")
    return h.hexdigest()


def build(profiles):
    """{profile: executable}.  cargo decides from /repo's files what to rebuild."""
    def one(p):
        cmd = ["cargo", "build", "--offline", "--profile", p]
        # a target directory of its own, so that the builds do not wait for each other
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "t-" + p)
        # cargo goes by modification times; go by content
        d = os.path.join(TARGET, "t-" + p)
        stamp, now = os.path.join(d, "repo.sha256"), repo_hash()
        if not os.path.exists(stamp) or open(stamp).read() != now:
            if os.path.exists(stamp): os.remove(stamp)
            for f in glob.glob(os.path.join(d, DIRS[p], ".fingerprint", "householder-*")): shutil.rmtree(f)
        r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise CheckError("build of the driver (%s) failed:\n%s" % (p, r.stdout[-6000:]))
        open(stamp, "w").write(now)
        return p, os.path.join(TARGET, "t-" + p, DIRS[p], "hdrive")
    with cf.ThreadPoolExecutor(len(profiles)) as ex: return dict(ex.map(one, profiles))


def limits(gb=6):
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_part(exe, sess, base):
    """Run sessions (already JSON); a call that kills the process ends its
    session with an "abort" event, and the remaining sessions are run anew.
    Status 3 is the driver not understanding its program: programs are well
    formed, so the calls before have overwritten it in memory."""
    lines, todo, k, hangs = [], list(sess), 0, 0
    while todo:
        prog, trace = "%s.%d.prog" % (base, k), "%s.%d.trace" % (base, k)
        k += 1
        with open(prog, "w") as f:
            for s in todo: f.write(json.dumps(s) + "\n")
        r = subprocess.run([exe, prog, trace], preexec_fn=limits, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        got = open(trace).read().split("\n") if os.path.exists(trace) else []
        part = got.pop() if got else ""            # an unfinished line
        if r.returncode == 3 and not any('"op":"reset"' in l for l in got): raise CheckError("driver: " + r.stderr[-500:])
        if r.returncode == 0 and got and got[-1].startswith('{"op":"end"'):
            lines += got[:-1]
            os.remove(prog); os.remove(trace)
            return lines
        starts = [i for i, l in enumerate(got) if '"op":"reset"' in l]
        if not starts: raise CheckError("driver died without a trace: %s %s" % (r.returncode, r.stderr[-500:]))
        n = len(starts)                            # sessions begun
        done = len(got) - starts[-1] - 1           # calls recorded in the last one
        cur = todo[n - 1]
        lines += got
        last = json.loads(got[-1])["op"]
        if done < len(cur["ops"]) and last not in ("missing",):
            lines.append(json.dumps({"op": "hang" if r.returncode == 4 else "abort", "of": cur["ops"][done].get("op", "big"),
                                     "status": r.returncode}))
        todo = todo[n:]
        os.remove(prog); os.remove(trace)
        hangs += r.returncode == 4
        if k > 12 or hangs > 1: break              # enough to reject
    return lines


def run_all(exe, sess, work, name):
    """the trace lines of all sessions, in their order"""
    parts = [sess[i::CORES] for i in range(CORES)]
    with cf.ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(lambda a: run_part(exe, a[1], os.path.join(work, "%s-%d" % (name, a[0]))), enumerate(parts)))
    # back into the order of the sessions
    by = {}
    for ls in res:
        cur = None
        for l in ls:
            if '"op":"reset"' in l:
                cur = json.loads(l)["id"]
                by[cur] = []
            by[cur].append(l)
    out = []
    for s in sess:
        if s["id"] in by: out.append(by[s["id"]])
        elif not any('"op": "abort"' in t[-1] or '"op": "hang"' in t[-1] for t in by.values()): raise CheckError("no trace of session " + s["id"])
    return out


THREADS = 8


def concurrently(exe, sess, seq, work, name):
    """Run the sessions in several threads of one process at the same time.
    Sessions share no state, so each must behave as on its own: returns the
    traces that differ from those of the sequential run."""
    want = {json.loads(t[0])["id"]: t for t in seq}
    prog, trace = os.path.join(work, name + ".prog"), os.path.join(work, name + ".trace")
    with open(prog, "w") as f:
        for s in sess: f.write(json.dumps(s) + "\n")
    r = subprocess.run([exe, prog, trace, str(THREADS)], preexec_fn=lambda: limits(20), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    ops, other = {s["id"]: s["ops"] for s in sess}, []
    for k in range(THREADS):
        part = "%s.%d" % (trace, k)
        got = open(part).read().split("\n")[:-1] if os.path.exists(part) else []
        starts = [i for i, l in enumerate(got) if '"op":"reset"' in l]
        end = bool(got) and got[-1].startswith('{"op":"end"')
        if r.returncode == 0 and not (end and len(starts) == len(sess)): raise CheckError("thread %d did not finish" % k)
        for i, j in zip(starts, starts[1:] + [len(got) - end]):
            t = got[i:j]
            n = json.loads(t[0])["id"]
            if t == want[n] or (not end and j == len(got) and t == want[n][:len(t)]): continue
            other.append(t)
        os.remove(part) if os.path.exists(part) else None
    os.remove(prog)
    if r.returncode != 0 and not other:      # the process did not survive the calls
        n = json.loads(seq[0][0])["id"]
        other.append([seq[0][0], json.dumps({"op": "hang" if r.returncode == 4 else "abort", "of": ops[n][0].get("op", "big"), "status": r.returncode})])
    return other


def java(args, cwd, timeout, extra=None, heap="6g"):
    e = dict(os.environ)
    e.update(extra or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cp = ":".join([JAR] + [j for j in sorted(glob.glob("/opt/veriftools/tla/*.jar")) if j != JAR])
    cmd = ["java", "-Djava.io.tmpdir=" + cwd, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", cp, "tlc2.TLC"] + args
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        raise CheckError("TLC did not finish in %d s\n%s" % (timeout, (o.decode() if isinstance(o, bytes) else o)[-1500:]))
    return r.returncode, r.stdout


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def copy_spec(work):
    for f in glob.glob(os.path.join(ROOT, "spec", "*.tla")) + glob.glob(os.path.join(ROOT, "spec", "*.cfg")):
        shutil.copy(f, work)


class Verdict:
    def __init__(self):
        self.ok, self.line, self.property, self.message, self.states, self.transitions = True, None, None, "", 0, 0


def validate(traces, work, name, timeout=800, cfg="HTrace.cfg", module="HTrace"):
    """traces: list of sessions (lists of lines).  Is each a behaviour of the specification?"""
    v = Verdict()
    path = os.path.join(work, name + ".ndjson")
    n = 0
    with open(path, "w") as f:
        for t in traces:
            for l in t:
                f.write(l + "\n")
                n += 1
        f.write('{"op":"end"}\n')
    rc, out = java(["-workers", str(CORES), "-noGenerateSpecTE", "-metadir", os.path.join(work, "md-" + name),
                    "-config", cfg, module + ".tla"], work, timeout, {"HTRACE": path})
    shutil.rmtree(os.path.join(work, "md-" + name), ignore_errors=True)
    m = STATS.search(out[out.rfind("states generated") - 40:] if "states generated" in out else "")
    if m: v.transitions, v.states = int(m.group(1)) - len(traces), int(m.group(2))
    if rc == 0 and "No error has been found" in out:
        if v.states != n: raise CheckError("TLC visited %d states for %d trace lines" % (v.states, n))
        return v
    if '"BADPROGRAM"' in out and '"MISMATCH"' not in out:
        raise CheckError("program not admissible: " + "\n".join(l for l in out.split("\n") if "BADPROGRAM" in l)[:2000])
    if '"MISMATCH"' in out or re.search(r"(Invariant|[Pp]roperty) (\w+) is violated", out) or "Deadlock reached" in out:
        v.ok = False
        ms = re.findall(r'<<\s*"MISMATCH".*?>>\s*(?=\n(?:<<|[A-Z]|$))', out, re.S)
        lines = re.findall(r'"MISMATCH",\s*"line",\s*(\d+)', out)
        inv = re.search(r"(Invariant|[Pp]roperty) (\w+) is violated", out)
        if lines: v.line = min(int(x) for x in lines)
        elif inv:
            x = re.findall(r"\bl = (\d+)", out)
            v.line = int(x[-1]) - 1 if x else None
            v.property = inv.group(2)
        v.message = (inv.group(0) if inv else "") + "\n".join(ms)
        if not v.message: v.message = out[-3000:]
        v.raw = out
        return v
    if "Attempted to" in out and "The behavior up to this point is" in out and "OutOfMemory" not in out and "StackOverflow" not in out:
        # a recorded value is not even of the kind the specification compares it with
        v.ok = False
        x = re.findall(r"\bl = (\d+)", out)
        v.line = int(x[-1]) if x else None
        v.message = out[out.index("Error:"):][:3000]
        return v
    raise CheckError("TLC failed (%s):\n%s" % (rc, out[-4000:]))
