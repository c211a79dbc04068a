"""Common machinery: TLC, batches of recorded traces, verdicts, evidence."""
import json
import os
import pickle
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
QUICK = TIER != "thorough"


class MachineryError(Exception):
    """Something of ours failed (never the code under test)."""


# --------------------------------------------------------------------------
# canonical values for the traces (TLC must never compare values of two types)

def S(v):
    """Canonical string of a scalar result."""
    if v is None:
        return "None"
    if v is True:
        return "T"
    if v is False:
        return "F"
    if isinstance(v, str):
        return v
    if isinstance(v, int):
        return str(int(v))
    if isinstance(v, float):
        return repr(int(v)) if v == int(v) else repr(v)
    n = getattr(v, "get_full_name", None)
    if n is not None:
        try:
            return "obj:" + str(n())
        except Exception:
            pass
    return "?" + type(v).__name__


def L(v):
    """Canonical sequence of strings."""
    if isinstance(v, (list, tuple)):
        return [S(x) for x in v]
    return ["!" + S(v)]


def I(v, default=-99999):
    """Canonical 32-bit int."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int) and -2**31 < v < 2**31:
        return v
    if isinstance(v, float) and v == int(v):
        return I(int(v))
    return default


def exc(e):
    return "exc:" + type(e).__name__


# --------------------------------------------------------------------------
# TLC

class TLCResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.out = ""
        self.ok = False
        self.printed = []


class TLC:
    """A TLC run started in the background."""

    def __init__(self, module, cfg=None, env=None, workers=4, timeout=800, args=(), mem="3g"):
        self.tmp = tempfile.mkdtemp(prefix="tlc.")
        e = dict(os.environ)
        e.update(env or {})
        self.outf = open(os.path.join(self.tmp, "out"), "w+")
        self.timeout = timeout
        cmd = ["java", "-Xmx" + mem, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
               "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(self.tmp, "m"),
               "-workers", str(workers), "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
        self.t0 = time.time()
        self.p = subprocess.Popen(cmd, cwd=SPEC, stdout=self.outf, stderr=subprocess.STDOUT, env=e,
                                  stdin=subprocess.DEVNULL)

    def wait(self):
        r = TLCResult()
        try:
            self.p.wait(self.timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            shutil.rmtree(self.tmp, ignore_errors=True)
            raise MachineryError("TLC timed out")
        self.outf.seek(0)
        r.out = self.outf.read()
        self.outf.close()
        shutil.rmtree(self.tmp, ignore_errors=True)
        r.wall = time.time() - self.t0
        for m in re.finditer(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states", r.out):
            r.states = int(m.group(1).replace(",", ""))
            r.distinct = int(m.group(2).replace(",", ""))
        for line in r.out.splitlines():
            if line.startswith('"@@'):
                try:
                    r.printed.append(json.loads(line))
                except ValueError:
                    r.printed.append(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
        r.rc = self.p.returncode
        r.ok = r.rc == 0
        return r


def validate(spec, traces, timeout=800):
    """Validate traces ([{cfg, ev}]) against spec/TR_<spec>.tla.

    -> (verdicts: {index: None | {clause, l, ev, exp}}, states, generated)
    """
    verdicts = {}
    states = gen = 0
    todo = list(range(len(traces)))
    tries = 0
    while todo:
        tries += 1
        if tries > 40:
            raise MachineryError("too many TLC evaluation errors in " + spec)
        with tempfile.NamedTemporaryFile("w", suffix=".json", prefix="trace.", delete=False) as f:
            json.dump([traces[k] for k in todo], f)
        try:
            r = TLC("TR_" + spec, env={"TRACE_FILE": f.name}, workers=4, timeout=timeout).wait()
        finally:
            os.unlink(f.name)
        states += r.distinct
        gen += r.states
        got = {}
        for s in r.printed:
            if s.startswith("@@END "):
                got[int(s[6:]) - 1] = None
            elif s.startswith("@@BAD "):
                d = json.loads(s[6:])
                got[d["tid"] - 1] = d
        for k, d in got.items():
            verdicts[todo[k]] = d
        rest = [i for k, i in enumerate(todo) if k not in got]
        if r.ok:
            if rest:
                raise MachineryError("TLC gave no verdict for %d traces of %s\n%s" % (len(rest), spec, r.out[-3000:]))
            break
        # TLC stopped on an evaluation error: the failing trace is the one of the last state printed
        m = re.findall(r"/\\ tid = (\d+)", r.out)
        ml = re.findall(r"/\\ l = (-?\d+)", r.out)
        if not m or not rest:
            raise MachineryError("TLC failed on TR_%s\n%s" % (spec, r.out[-6000:]))
        bad = todo[int(m[-1]) - 1]
        if bad not in rest:
            raise MachineryError("TLC failed on TR_%s\n%s" % (spec, r.out[-6000:]))
        pos = int(ml[-1]) + 1 if ml else 0
        err = re.findall(r"(?:Error: |attempted to |Attempted to )(.*)", r.out)
        ev = traces[bad]["ev"][pos - 1] if 0 < pos <= len(traces[bad]["ev"]) else None
        verdicts[bad] = {"tid": bad, "l": pos, "clause": "outside-spec-domain", "ev": ev,
                         "exp": " | ".join(err[:6])}
        todo = [i for i in rest if i != bad]
    return verdicts, states, gen


# --------------------------------------------------------------------------
# running scenarios on the real code, in forked children

SLACK = 6


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def _one(execute, scn, wall):
    import random
    random.seed(12345)
    # the budget is processor time, so that a busy machine raises no alarm; blocking gets SLACK times as long
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_PROF, wall)
    signal.alarm(SLACK * wall)
    ev = []
    cfg = {}
    try:
        res = execute(scn, ev)
        if res:
            cfg = res
    except Hang:
        ev.append({"op": "hang"})
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        ev.append({"op": "crash", "what": type(e).__name__,
                   "msg": str(e)[:200],
                   "at": ["%s:%s" % (os.path.basename(x.filename), x.name) for x in tb[-4:]]})
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
    if ev and isinstance(ev[0], dict) and ev[0].get("op") == "cfg":
        cfg = ev[0]
        ev = ev[1:]
    return {"cfg": cfg or scn.get("cfg", {}) or {"none": 0}, "ev": ev}


def _worker(execute, jobs, wfd, wall, fork_each):
    """Runs in a forked child: executes jobs, pickles (index, trace) to wfd."""
    out = os.fdopen(wfd, "wb")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(dn, 2)
    sys.stdout = open(os.devnull, "w")
    if not os.environ.get("VERIF_DEBUG"):
        sys.stderr = open(os.devnull, "w")
    for idx, scn in jobs:
        if fork_each:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                t = _one(execute, scn, wall)
                with os.fdopen(w, "wb") as f:
                    pickle.dump(t, f)
                os._exit(0)
            os.close(w)
            buf = b""
            end = time.time() + SLACK * wall + 5
            while True:
                left = end - time.time()
                rd, _, _ = select.select([r], [], [], max(0, left))
                if not rd:
                    os.kill(pid, signal.SIGKILL)
                    buf = b""
                    break
                b = os.read(r, 1 << 20)
                if not b:
                    break
                buf += b
            os.close(r)
            os.waitpid(pid, 0)
            try:
                t = pickle.loads(buf)
            except Exception:
                t = {"cfg": scn.get("cfg", {}) or {"none": 0}, "ev": [{"op": "hang"}]}
        else:
            t = _one(execute, scn, wall)
        pickle.dump((idx, t), out)
        out.flush()
    out.close()
    os._exit(0)


def run_scenarios(execute, scns, wall=10, fork_each=True, nproc=8):
    """-> list of traces, in the order of scns."""
    n = max(1, min(nproc, len(scns)))
    chunks = [[] for _ in range(n)]
    for i, s in enumerate(scns):
        chunks[i % n].append((i, s))
    res = [None] * len(scns)
    sys.stdout.flush()
    sys.stderr.flush()
    import multiprocessing.connection  # noqa: F401  (import before forking)
    pend = {}
    for c in chunks:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _worker(execute, c, w, wall, fork_each)
            finally:
                os._exit(1)
        os.close(w)
        pend[r] = [pid, b"", c]
    last = time.time()
    while pend:
        rd, _, _ = select.select(list(pend), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 20)
            if not b:
                pid, buf, c = pend.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                off = 0
                import io
                f = io.BytesIO(buf)
                while True:
                    try:
                        i, t = pickle.load(f)
                        res[i] = t
                    except EOFError:
                        break
                    except Exception:
                        break
            else:
                pend[r][1] += b
                last = time.time()
        if time.time() - last > SLACK * wall + 30:
            for r, (pid, _, _) in list(pend.items()):
                os.kill(pid, signal.SIGKILL)
            last = time.time()
    for i, s in enumerate(scns):
        if res[i] is None:      # the child died or hung in a way it could not report
            res[i] = {"cfg": s.get("cfg", {}) or {"none": 0}, "ev": [{"op": "hang"}]}
    return res
