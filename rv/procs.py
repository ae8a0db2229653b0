"""Monitors of operating-system state: child processes and shared memory."""
import os
import random
import signal
import threading
import time
from multiprocessing import resource_tracker, shared_memory


def group_members():
    """(pid, state, command) of the other processes of this process group."""
    mine, out = os.getpgid(0), []
    for name in os.listdir("/proc"):
        if not name.isdigit() or int(name) == os.getpid():
            continue
        try:
            with open(f"/proc/{name}/stat") as handle:
                text = handle.read()
            rest = text[text.rindex(")") + 2:].split()
            if int(rest[2]) != mine:
                continue
            with open(f"/proc/{name}/cmdline") as handle:
                command = handle.read().replace("\0", " ")
        except (OSError, ValueError):
            continue
        if "resource_tracker" in command:
            continue
        out.append((int(name), rest[0], command[-80:]))
    return out


def settle(before, limit=6.0):
    """Processes still there that were not there before, after a grace period."""
    known = {p[0] for p in before}
    end = time.time() + limit
    while True:
        left = [p for p in group_members() if p[0] not in known]
        if not left or time.time() > end:
            return left
        time.sleep(.05)


def end_all(left):
    for pid, _, _ in left:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass


class Segments:
    """Shared-memory segments made by this process or its children."""

    def __init__(self):
        resource_tracker.ensure_running()
        self.prefix = "r%d" % (os.getpid() % 10 ** 7)
        self.old = getattr(shared_memory, "_SHM_NAME_PREFIX", None)
        self.started = time.time()

    def __enter__(self):
        if self.old is not None:
            shared_memory._SHM_NAME_PREFIX = "/" + self.prefix
        return self

    def __exit__(self, *args):
        if self.old is not None:
            shared_memory._SHM_NAME_PREFIX = self.old

    def now(self):
        return [n for n in os.listdir("/dev/shm") if n.startswith(self.prefix)]

    def left(self, limit=6.0):
        end = time.time() + limit
        while self.now() and time.time() < end:
            time.sleep(.05)
        return self.now()

    def remove(self):
        for name in self.now():
            os.unlink("/dev/shm/" + name)


class ForkPlan:
    """What happens in the n-th child forked while the plan is armed."""
    current = None
    registered = False

    def __init__(self, delays=(), killed=()):
        self.delays, self.killed = list(delays), set(killed)
        self.forks = 0

    def __enter__(self):
        if not ForkPlan.registered:
            os.register_at_fork(before=_before, after_in_child=_in_child)
            ForkPlan.registered = True
        ForkPlan.current = self
        return self

    def __exit__(self, *args):
        ForkPlan.current = None


def _before():
    if ForkPlan.current is not None:
        ForkPlan.current.forks += 1


def _in_child():
    plan = ForkPlan.current
    if plan is None:
        return
    ForkPlan.current = None            # grandchildren run undisturbed
    index = plan.forks - 1
    if index in plan.killed:
        os.kill(os.getpid(), signal.SIGKILL)
    if index < len(plan.delays):
        time.sleep(plan.delays[index])


class Stopper(threading.Thread):
    """Stops and continues random children for a while: hostile scheduling."""

    def __init__(self, seed, known):
        super().__init__(daemon=True)
        self.rng, self.known = random.Random(seed), {p[0] for p in known}
        self.halt, self.stops = threading.Event(), 0

    def run(self):
        while not self.halt.is_set():
            targets = [p[0] for p in group_members() if p[0] not in self.known and p[1] in "RS"]
            if targets:
                pid = self.rng.choice(targets)
                try:
                    os.kill(pid, signal.SIGSTOP)
                    self.stops += 1
                    time.sleep(self.rng.uniform(.005, .06))
                except ProcessLookupError:
                    pass
                finally:
                    try:
                        os.kill(pid, signal.SIGCONT)
                    except ProcessLookupError:
                        pass
            time.sleep(self.rng.uniform(.002, .02))

    def __enter__(self):
        self.start()
        return self

    def __exit__(self, *args):
        self.halt.set()
        self.join()
