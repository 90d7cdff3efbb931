"""The explorer: enumerates the tasks of one check on forked workers.

A check module `mc.checks.<id>` provides

    BOUNDS                what is enumerated, in words
    ASSUMES               list of assumptions
    tasks(tier)           list of (name, params): the whole bounded space, split
                          into units, simplest first.  Deterministic.
    warm(ctx, tier)       optional; imports and compiles what all workers share
    run(ctx, params)      explores one unit on the real code

Everything in a unit is enumerated; `ctx.tick(case)` names the case being
executed, `ctx.fail` reports a violation.  A crash, hang or unexpected
exception of the code under test is a violation of the case being executed.
"""
import faulthandler
import importlib
import json
import mmap
import os
import signal
import struct
import sys
import time
import traceback
import warnings

from . import report

warnings.simplefilter("ignore")

CASE_LIMIT = float(os.environ.get("MC_CASE_LIMIT", "200"))
WARM_LIMIT = 500.0
SOFT = {"quick": 600.0, "thorough": 10800.0}
SLOT = 4096


class Violation(Exception):
    def __init__(self, msg, data=None, key=None):
        super().__init__(msg)
        self.msg, self.data, self.key = msg, data, key


class Ctx:
    def __init__(self, tier, known, slot=None):
        self.tier = tier
        self.known = known
        self.slot = slot
        self.states = self.transitions = self.validated = 0
        self.outcomes = {}
        self.samples = []
        self.seen_known = set()
        self.case = None
        self._last = 0.0

    # -- bookkeeping
    def count(self, states=0, transitions=0, validated=0):
        self.states += int(states)
        self.transitions += int(transitions)
        self.validated += int(validated)

    def outcome(self, key, n=1):
        key = str(key)
        if len(self.outcomes) < 400 or key in self.outcomes:
            self.outcomes[key] = self.outcomes.get(key, 0) + int(n)

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(report.clean(obj))

    def tick(self, case=None):
        """Say which case runs now; cheap enough to call for every case."""
        self.case = case
        if self.slot is not None:
            self.slot.beat(time.monotonic())

    # -- verdicts
    def fail(self, msg, key=None, **data):
        if key is not None and key in self.known:
            self.seen_known.add(key)
            return
        raise Violation(msg, data, key)

    def check(self, cond, msg, **data):
        if not cond:
            self.fail(msg, **data)

    def result(self):
        return dict(
            states=self.states, transitions=self.transitions,
            validated=self.validated, outcomes=self.outcomes,
            samples=self.samples, known=sorted(self.seen_known),
        )


class Slot:
    """A worker's heartbeat in memory shared with the supervisor: (task, time).

    Each field is one aligned 8-byte store, so a reader never sees half of it
    (struct.pack_into would zero the field first).
    """

    def __init__(self, mm, i):
        off = i * SLOT
        self.task = memoryview(mm)[off:off + 8].cast("q")
        self.time = memoryview(mm)[off + 8:off + 16].cast("d")

    def beat(self, now):
        self.time[0] = now

    def start(self, task, now):
        self.time[0] = now
        self.task[0] = task

    def read(self):
        return self.task[0], self.time[0]


def cpu_seconds(pid):
    with open("/proc/%d/stat" % pid) as fh:
        f = fh.read().rsplit(")", 1)[1].split()
    return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")


def describe(exc):
    tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
    return "".join(tb)[-3000:]


def worker(mod, tasks, order, ctx, slot, rfd, wfd):
    """Take tasks from the pipe until it is empty; write one JSON line per task."""
    out = os.fdopen(wfd, "w", buffering=1)
    while True:
        b = os.read(rfd, 4)
        if len(b) < 4:
            break
        (t,) = struct.unpack("i", b)
        slot.start(t, time.monotonic())
        ctx.tick(None)
        c = Ctx(ctx.tier, ctx.known, slot)
        rec = dict(task=t)
        try:
            mod.run(c, tasks[t][1])
        except Violation as v:
            rec["violation"] = dict(
                msg=v.msg, case=report.clean(c.case), data=report.clean(v.data)
            )
        except BaseException as e:  # noqa: the code under test must not raise
            rec["violation"] = dict(
                msg="unexpected %s: %s" % (type(e).__name__, e),
                case=report.clean(c.case), data=dict(traceback=describe(e)),
            )
        rec.update(c.result())
        out.write(json.dumps(report.clean(rec)) + "\n")
        slot.start(-1, time.monotonic())
    out.close()


def main(prop, tier):
    t0 = time.monotonic()
    known = report.known(prop)
    res = dict(done=False)

    def finish(rc):
        with open(os.environ["MC_RESULT"], "w") as fh:
            json.dump(dict(done=True, rc=rc), fh)
        sys.stdout.flush()
        os._exit(rc)

    mod = None
    ctx = Ctx(tier, known)
    totals = dict(states=0, transitions=0, validated=0)
    outcomes, samples, seen_known, violations = {}, [], set(), []
    ntasks = ndone = 0
    tasks = []

    def conclude(exhaustive):
        cov = dict(
            states=totals["states"],
            transitions=totals["transitions"],
            traces_validated_against_impl=totals["validated"],
            samples=samples[:6] or ["none"],
            distinct_outcomes=len(outcomes),
            outcomes=dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:40]),
            tasks=ntasks,
            tasks_completed=ndone,
            exhaustive=bool(exhaustive),
            rule=getattr(mod, "BOUNDS", "") if mod else "",
        )
        report.evidence(
            prop, tier, cov, time.monotonic() - t0, getattr(mod, "ASSUMES", []) if mod else [],
            violations,
        )
        for k in sorted(seen_known):
            print("KNOWN-FINDING: property=%s %s" % (prop, known.get(k, k)))
        print(
            "%s %s: states=%d transitions=%d validated=%d outcomes=%d tasks=%d/%d "
            "exhaustive=%s wall=%.1fs"
            % (prop, tier, totals["states"], totals["transitions"], totals["validated"],
               len(outcomes), ndone, ntasks, exhaustive, time.monotonic() - t0)
        )
        for v in violations:
            print("  " + str(v["message"])[:2000])
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        finish(1 if violations else 0)

    def violate(task, name, case, msg, data):
        path = report.replay(prop, tier, task, name, case, msg, data)
        violations.append(dict(message=msg, task=name, case=case, replay=path))

    # Warm up (imports, compilation), with a deadline of its own.
    faulthandler.enable()

    def on_alarm(*_):
        raise TimeoutError("compiling and calling the code once did not end in %d s" % WARM_LIMIT)

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(WARM_LIMIT))
    faulthandler.dump_traceback_later(WARM_LIMIT + 15, exit=True)  # compiled code sees no signals
    try:
        mod = importlib.import_module("mc.checks." + prop.lower())
        import neutralocean

        here = os.path.realpath(os.path.dirname(neutralocean.__file__))
        want = os.path.realpath(os.path.join(os.environ["MC_REPO"], "neutralocean"))
        if here != want:
            raise RuntimeError("neutralocean imported from %s, not %s" % (here, want))
        tasks = list(mod.tasks(tier))
        ntasks = len(tasks)
        ctx.case = "warm-up"
        if hasattr(mod, "warm"):
            mod.warm(ctx, tier)
    except Violation as v:
        signal.alarm(0)
        faulthandler.cancel_dump_traceback_later()
        violate("warmup", "warm-up", ctx.case, v.msg, v.data)
        conclude(False)
    except BaseException as e:
        signal.alarm(0)
        faulthandler.cancel_dump_traceback_later()
        violate("warmup", "warm-up", ctx.case,
                "unexpected %s: %s" % (type(e).__name__, e), dict(traceback=describe(e)))
        conclude(False)
    signal.alarm(0)
    faulthandler.cancel_dump_traceback_later()
    r = ctx.result()
    for k in totals:
        totals[k] += r[k]

    only = os.environ.get("MC_ONLY", "")
    order = list(range(ntasks))
    if only not in ("", "warmup"):
        order = [int(only)]
        ntasks = 1
    nw = max(1, min(int(os.environ.get("MC_WORKERS", os.cpu_count() or 1)), len(order)))

    mm = mmap.mmap(-1, SLOT * (nw + 1))
    rq, wq = os.pipe()
    pids, fds, bufs, slots = [], [], [], []
    sys.stdout.flush()
    for i in range(nw):
        r_, w_ = os.pipe()
        slot = Slot(mm, i)
        slot.start(-1, time.monotonic())
        pid = os.fork()
        if pid == 0:
            try:
                os.close(wq)
                os.close(r_)
                for f in fds:
                    os.close(f)
                worker(mod, tasks, order, ctx, slot, rq, w_)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(99)
        os.close(w_)
        pids.append(pid)
        fds.append(r_)
        bufs.append(b"")
        slots.append(slot)
    os.close(rq)
    os.set_blocking(wq, False)
    for f in fds:
        os.set_blocking(f, False)

    pending = list(order)
    pending.reverse()
    alive = set(range(nw))
    capped = False
    stop_at = None
    outstanding = set()
    stale = {}

    def settle(i, line):
        nonlocal ndone
        rec = json.loads(line)
        outstanding.discard(rec["task"])
        for k in totals:
            totals[k] += rec[k]
        for k, n in rec["outcomes"].items():
            if len(outcomes) < 5000 or k in outcomes:
                outcomes[k] = outcomes.get(k, 0) + n
        if len(samples) < 6:
            samples.extend(rec["samples"][:1])
        seen_known.update(rec["known"])
        if "violation" in rec:
            v = rec["violation"]
            violate(rec["task"], tasks[rec["task"]][0], v["case"], v["msg"], v["data"])
        else:
            ndone += 1

    while alive:
        now = time.monotonic()
        # hand out work, one task at a time, a few ahead
        while pending and len(outstanding) < 2 * len(alive) and not violations and not capped:
            t = pending[-1]
            try:
                os.write(wq, struct.pack("i", t))
            except BlockingIOError:
                break
            outstanding.add(t)
            pending.pop()
        if wq is not None and (not pending or violations or capped):
            os.close(wq)
            wq = None
            pending_left = list(pending)
            pending = []
        if now - t0 > SOFT[tier] and not capped:
            capped = True
        if violations and stop_at is None:
            stop_at = now + 20
        for i in list(alive):
            eof = False
            while True:
                try:
                    b = os.read(fds[i], 65536)
                except BlockingIOError:
                    break
                if not b:
                    eof = True
                    break
                bufs[i] += b
            while b"\n" in bufs[i]:
                line, bufs[i] = bufs[i].split(b"\n", 1)
                settle(i, line)
            if eof:
                _, st = os.waitpid(pids[i], 0)
                alive.discard(i)
                t, _ = slots[i].read()
                if st != 0 and not (violations and stop_at and now > stop_at):
                    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
                    name = tasks[t][0] if t >= 0 else "between tasks"
                    violate(t, name, None,
                            "the code under test crashed the process (status %s, signal %s)"
                            % (st, sig), None)
                    outstanding.discard(t)
                continue
            # A case does not end if it has had CASE_LIMIT seconds, most of them on
            # a processor (a busy machine is no verdict on the code), or ages.
            t, beat = slots[i].read()
            if t >= 0 and now - beat > 5:
                if stale.get(i, (0, 0))[0] != (t, beat):
                    stale[i] = ((t, beat), cpu_seconds(pids[i]))
            else:
                stale.pop(i, None)
            if i in stale and now - beat > CASE_LIMIT + 5 and (
                cpu_seconds(pids[i]) - stale[i][1] > 0.8 * CASE_LIMIT or now - beat > 2.5 * CASE_LIMIT
            ):
                os.kill(pids[i], signal.SIGKILL)
                os.waitpid(pids[i], 0)
                alive.discard(i)
                outstanding.discard(t)
                violate(t, tasks[t][0], None,
                        "a case of this task did not terminate within %d s" % CASE_LIMIT, None)
            elif stop_at is not None and now > stop_at:
                os.kill(pids[i], signal.SIGKILL)
                os.waitpid(pids[i], 0)
                alive.discard(i)
            elif capped and now - t0 > SOFT[tier] + 60:
                os.kill(pids[i], signal.SIGKILL)
                os.waitpid(pids[i], 0)
                alive.discard(i)
        time.sleep(0.01)
    violations.sort(key=lambda v: 0)
    conclude(ndone == ntasks and not violations)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
