"""C24: leap second lookups, and refreshes that fail at any point.

The module is copied, with the type aliases it needs, in a scratch package
whose data folder the scenarios fill. Each scenario runs in processes of its
own; the address of the table is that of a server of this check (loopback)
which answers as the path of the request says.
"""
import datetime
import importlib
import itertools
import os
import pickle
import re
import resource
import select
import shutil
import signal
import socket
import struct
import sys
import tempfile
import time
import warnings

import numpy
import ssl  # noqa: F401  (loaded once, before the processes of the scenarios)
import urllib.request  # noqa: F401

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpr  # noqa: E402

R = vpr.Reporter()
REPO = os.environ.get("VP_REPO", "/repo")
SOURCE = os.path.join(REPO, "src", "python", "pyfes")
for name in list(os.environ):
    if name.lower().endswith("_proxy"):
        del os.environ[name]

UNIX = 25567 * 86400
REAL = open(os.path.join(SOURCE, "data", "leap-seconds.txt"), "rb").read()
EXPIRES = re.compile(rb"^(#.*File expires on[:\s]+)(\d+\s\w+\s\d+)(\s*)$", re.M)
OLD, FAR = b"28 June 2020", b"28 June 2999"


def table_of(content):
    """(first instant in Unix seconds, value) of the table: our own reading."""
    out = []
    for line in content.decode("ascii").splitlines():
        if line and not line.startswith("#"):
            a, b = line.split("#")[0].split()
            out.append((int(a) - UNIX, int(b)))
    return out


def content_of(entries, expires, template=REAL):
    """Rewrites the entries and the expiration date of the real file."""
    lines, done = [], False
    for line in EXPIRES.sub(rb"\g<1>" + expires + rb"\g<3>", template).decode("ascii").splitlines():
        if line and not line.startswith("#"):
            if not done:
                for e, v in entries:
                    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=e)
                    lines.append("%d\t%d\t# 1 %s %d" % (e + UNIX, v, d.strftime("%b"), d.year))
            done = True
        else:
            lines.append(line)
    return ("\n".join(lines) + "\n").encode("ascii")


def month(y, m):
    return int((datetime.datetime(y, m, 1) - datetime.datetime(1970, 1, 1)).total_seconds())


T = table_of(REAL)
NEWER = T + [(month(2026, 7), 38)]
IN_PLACE = {"expired": content_of(T, OLD), "valid": content_of(T, FAR), "missing": None, "no folder": None}
FRESH = content_of(NEWER, FAR)
assert table_of(FRESH) == NEWER and table_of(IN_PLACE["expired"]) == T


def value(entries, instant, per=1):
    """Value in force; the instant is counted in 1/per seconds."""
    r = None
    for e, v in entries:
        if e * per <= instant:
            r = v
    return r


# ------------------------------------------------------------------ server
BODIES = {
    "empty": b"", "page": b"<!DOCTYPE html>\n<html><body>Please log in</body></html>\n",
    "binary": bytes(range(256)) * 8, "no expiration": re.sub(rb"(?m)^.*expires on.*\n", b"", FRESH),
    "unknown month": EXPIRES.sub(rb"\g<1>28 Foo 2999\3", FRESH), "no entry": re.sub(rb"(?m)^\d.*\n", b"", FRESH),
    "impossible day": EXPIRES.sub(rb"\g<1>31 June 2999\3", FRESH),
    "other entries": content_of([(e + 86400, 99) for e, _ in T], FAR),
    "half of the entries": content_of(T[:len(T) // 2], FAR),
    # tables that have expired too: usable, not a reason to fail
    "newer, expired": content_of(NEWER, b"28 December 2020"), "same, expired": content_of(T, OLD),
    "latin-1": FRESH.replace(b"#\n", b"# \xe9\xe8\n", 1),
}


def serve(listener):
    kept = []
    while True:
        c, _ = listener.accept()
        try:
            c.settimeout(10)
            request = b""
            while b"\r\n\r\n" not in request:
                b = c.recv(65536)
                if not b:
                    break
                request += b
            kind, _, arg = request.split(b" ")[1].decode().strip("/").partition("/")
            arg = arg.replace("%20", " ").replace("%2C", ",")
            if kind == "hang":
                kept.append(c)
                n = int(arg)
                if n >= 0:
                    c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(FRESH) + FRESH[:n])
                continue
            if kind == "ok":
                c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % len(FRESH) + FRESH)
            elif kind == "body":
                b = BODIES[arg]
                c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % len(b) + b)
            elif kind == "status":
                b = BODIES["page"]
                extra = b"Location: %s\r\n" % request.split(b" ")[1] if arg[0] == "3" else b""
                c.sendall(b"HTTP/1.1 %s Something\r\n%sContent-Length: %d\r\nConnection: close\r\n\r\n" % (arg.encode(), extra, len(b)) + b)
            elif kind == "cut":
                c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % len(FRESH) + FRESH[:int(arg)])
            elif kind == "silent":
                c.sendall(b"HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n" + FRESH[:int(arg)])
            elif kind == "chunk":
                c.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n%x\r\n" % len(FRESH) + FRESH[:int(arg)])
            elif kind == "reset":
                if int(arg) >= 0:
                    c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(FRESH) + FRESH[:int(arg)])
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            elif kind == "raw":
                c.sendall({"nothing": b"", "noise": b"\x00\x01\x02\r\n\r\n", "bad status": b"HTTP/1.1 abc\r\n\r\n", "half header": b"HTTP/1.1 200 OK\r\nContent-Le"}[arg])
        except OSError:
            pass
        c.close()


class Server:
    def __init__(self):
        self.listener = socket.socket()
        self.listener.bind(("127.0.0.1", 0))
        self.listener.listen(64)
        self.port = self.listener.getsockname()[1]
        self.closed = socket.socket()  # bound, never listening
        self.closed.bind(("127.0.0.1", 0))
        self.pid = os.fork()
        if self.pid == 0:
            try:
                serve(self.listener)
            finally:
                os._exit(0)

    def url(self, answer):
        port = self.closed.getsockname()[1] if answer == "refused" else self.port
        return "http://127.0.0.1:%d/%s" % (port, answer.replace(" ", "%20").replace(",", "%2C"))

    def stop(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)


# --------------------------------------------------------------- scenarios
ROOT = tempfile.mkdtemp(prefix="vp-c24-")
os.chmod(ROOT, 0o755)
PACKAGE = os.path.join(ROOT, "pyfes")
os.mkdir(PACKAGE)
for f in os.listdir(SOURCE):
    if f.endswith(".py") and f != "__init__.py":
        shutil.copy(os.path.join(SOURCE, f), PACKAGE)
open(os.path.join(PACKAGE, "__init__.py"), "w").close()
DATA = os.path.join(PACKAGE, "data")
FILE = os.path.join(DATA, "leap-seconds.txt")
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
LS = importlib.import_module("pyfes.leap_seconds")
assert LS.__file__.startswith(ROOT)


PATIENCE = 8


def impatient(self, t, _set=socket.socket.settimeout):
    # waits are shortened, those without end stay so
    _set(self, None if t is None else min(t, PATIENCE))


def child(f, limit=10):
    """Result of f() in a process of its own: ('ok', value), ('error', text),
    ('died', how) or ('hang', '')."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            warnings.simplefilter("ignore")
            try:
                answer = ("ok", f())
            except Exception as e:  # noqa: BLE001
                answer = ("error", "%s: %s" % (type(e).__name__, e))
            sys.settrace(None)
            sys.setprofile(None)
            os.write(w, pickle.dumps(answer))
        finally:
            os._exit(0)
    os.close(w)
    data, end = b"", time.time() + limit
    while True:
        if not select.select([r], [], [], max(0, end - time.time()))[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ("hang", "")
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    if not data:
        return ("died", str(status))
    return pickle.loads(data)


def put(place):
    shutil.rmtree(DATA, ignore_errors=True)
    if place == "no folder":
        return
    os.mkdir(DATA)
    c = IN_PLACE[place] if isinstance(place, str) else place
    if c is not None:
        with open(FILE, "wb") as f:
            f.write(c)


PROBES = sorted({e + d for e, _ in NEWER for d in (-1, 0, 1)} - {month(1972, 1) - 1})
DATES = numpy.array(PROBES, dtype="datetime64[s]")
OF_OLD = [value(T, p) for p in PROBES]
OF_NEW = [value(NEWER, p) for p in PROBES]


def lookups(server, answer, times=2):
    """What the process does: lookups of all the probes."""
    def f():
        global PATIENCE
        PATIENCE = 0.3 if answer.startswith("hang") else 8
        LS.LEAP_SECOND_URL = server.url(answer)
        socket.socket.settimeout = impatient
        out = []
        for _ in range(times):
            out.append([int(x) for x in LS.get_leap_seconds(DATES)])
        return out
    return f


def unanimous(got, which):
    return got[0] == "ok" and all(x == which for x in got[1])


def show(got):
    if got[0] != "ok":
        return "%s %s" % got
    for x in got[1]:
        if x not in (OF_OLD, OF_NEW):
            i = next(i for i in range(len(PROBES)) if x[i] != OF_OLD[i])
            return "%d at %s instead of %d" % (x[i], DATES[i], OF_OLD[i])
    return "values of the %s table" % ", ".join("old" if x == OF_OLD else "new" for x in got[1])


def answers():
    n = len(FRESH)
    out = ["ok", "refused"]
    out += ["status/%d" % s for s in (204, 206, 301, 302, 304, 400, 401, 403, 404, 429, 500, 502, 503)]
    out += ["body/" + b for b in sorted(BODIES)]
    out += ["raw/" + b for b in ("nothing", "noise", "bad status", "half header")]
    out += ["hang/-1", "hang/0", "hang/%d" % (n // 2), "reset/-1", "reset/0", "reset/%d" % (n // 2)]
    out += ["cut/0", "cut/%d" % (n // 2), "cut/%d" % (n - 1), "chunk/0", "chunk/%d" % (n // 2), "silent/0", "silent/%d" % (n // 2)]
    return out


PLAUSIBLE = ("body/other entries", "body/half of the entries")


def kind(answer):
    """good, bad, or either (a part of a good table that looks whole)"""
    if answer == "ok":
        return "good"
    if answer.startswith("silent/"):
        return "either"
    if answer in ("body/latin-1", "body/newer, expired", "body/same, expired"):
        return "either"
    if answer in ("status/206", "status/204", "body/other entries", "body/half of the entries", "body/no entry"):
        return "bad"
    return "bad"


TRIED = set()


def snapshot():
    """What is on disk."""
    out = []
    for top, _, names in os.walk(DATA):
        for n in sorted(names):
            with open(os.path.join(top, n), "rb") as f:
                # the name of a file of ours may hold the number of the process
                out.append((n if n == "leap-seconds.txt" else "other", f.read()))
    return tuple(out)


def after(server, place, answer, got, key, what, missing_ok=False):
    """State of the table after an event: lookups of another process without a
    network, then with one. The same files are not tried twice."""
    key_of = (place in ("missing", "no folder"), kind(answer), snapshot())
    if key_of in TRIED:
        return
    TRIED.add(key_of)
    R.state(key_of)
    again = child(lookups(server, "refused", 1))
    R.transition()
    if place in ("missing", "no folder"):
        good = child(lookups(server, "ok", 1))
        if kind(answer) != "either" and not unanimous(good, OF_NEW) and not unanimous(again, OF_NEW):
            R.fail(key + ":after", "%s: with the network back, another process gets: %s" % (what, show(good)))
        return
    allowed = [OF_OLD] if kind(answer) == "bad" else [OF_OLD, OF_NEW]
    if not any(unanimous(again, x) for x in allowed):
        R.fail(key + ":after", "%s: another process, without network, gets: %s" % (what, show(again)))


def refresh(server):
    every = answers()
    second = ["ok", "refused", "status/500", "body/page", "cut/%d" % (len(FRESH) // 2), "body/no entry"]
    for place in IN_PLACE:
        for first in every:
            for then in (every if R.thorough else second):
                if not R.begin("refresh"):
                    continue
                what = "table %s, answer %s" % (place, first)
                put(place)
                got = child(lookups(server, first))
                R.transition()
                R.state(place, first, then)
                R.outcome("%s: %s" % (place, got[0]))
                had = place in ("expired", "valid")
                k = kind(first)
                if not had and first in PLAUSIBLE:  # nothing to compare with
                    R.outcome("not judged")
                    continue
                if place == "valid":
                    ok = unanimous(got, OF_OLD)
                elif k == "good":
                    ok = unanimous(got, OF_NEW)
                elif had:
                    ok = unanimous(got, OF_OLD) or k == "either" and unanimous(got, OF_NEW)
                else:
                    ok = got[0] == "error" or k == "either"
                if not ok:
                    R.fail("refresh:%s:%s" % (place, "hang" if got[0] == "hang" else first.split("/")[0]), "%s: %s" % (what, show(got)))
                    continue
                if not had and then in PLAUSIBLE:
                    continue
                # the other process
                two = child(lookups(server, then))
                R.transition()
                R.trace()
                w2 = what + ", then answer " + then + " in another process"
                renewed = unanimous(got, OF_NEW)
                if k == "either" and not had:
                    continue
                if place == "valid":
                    ok = unanimous(two, OF_OLD)
                elif renewed:
                    ok = unanimous(two, OF_NEW)
                elif k == "either":
                    ok = unanimous(two, OF_OLD) or unanimous(two, OF_NEW)
                elif kind(then) == "good":
                    ok = unanimous(two, OF_NEW)
                elif had:
                    ok = unanimous(two, OF_OLD) or kind(then) == "either" and unanimous(two, OF_NEW)
                else:
                    ok = two[0] == "error" or kind(then) == "either"
                if not ok:
                    R.fail("refresh:%s:after" % place, "%s: %s" % (w2, show(two)))
                    continue
                if not (not had and kind(then) == "either") and not (k == "either"):
                    a = "ok" if renewed or kind(then) == "good" else then
                    after(server, place, a, two, "refresh:%s" % place, w2)


def truncated(server):
    """The answer stops after each of its bytes."""
    step = 1 if R.thorough else 7
    for how in ("cut", "silent", "chunk", "reset"):
        for n in range(0, len(FRESH), step if how in ("cut", "silent") else 97):
            if not R.begin("truncated"):
                continue
            answer = "%s/%d" % (how, n)
            put("expired")
            got = child(lookups(server, answer, 1))
            R.transition()
            R.trace()
            R.state(how, n)
            what = "table expired, answer %s" % answer
            if not (unanimous(got, OF_OLD) or how == "silent" and unanimous(got, OF_NEW)):
                R.fail("truncated:" + how, "%s: %s" % (what, show(got)))
                continue
            after(server, "expired", answer, got, "truncated:" + how, what)


NETWORK = ("urllib", "http", "email", "ssl.py", "socket.py", "encodings", "base64", "re", "warnings.py", "numpy", "selectors.py", "stringprep.py", "enum.py", "_distutils_hack")


class Kill:
    """Ends the process at its n-th point: line run, call to and return from a
    function written in C. The lines of the modules that do nothing but
    talk to the network, or compute, count in thorough only."""
    def __init__(self, n):
        self.n, self.seen, self.known, self.passes = n, 0, {}, {}

    def wanted(self, code):
        r = self.known.get(code)
        if r is None:
            r = self.known[code] = R.thorough or not (set(code.co_filename.split("/")[-3:]) & set(NETWORK) or "numpy" in code.co_filename or code.co_filename.startswith("<frozen importlib"))
        return r

    def point(self, frame, event):
        # a line of a loop counts twice, more often in thorough
        key = (frame.f_code, frame.f_lineno, event)
        self.passes[key] = self.passes.get(key, 0) + 1
        if self.passes[key] > (20 if R.thorough else 2):
            return
        self.seen += 1
        if self.seen == self.n:
            os._exit(9)

    def line(self, frame, event, arg):
        if event == "line":
            self.point(frame, event)
        return self.line

    def call(self, frame, event, arg):
        return self.line if self.wanted(frame.f_code) else None

    def profile(self, frame, event, arg):
        if event in ("c_call", "c_return", "c_exception") and self.wanted(frame.f_code):
            self.point(frame, event)

    def start(self):
        sys.setprofile(self.profile)
        sys.settrace(self.call)


def lines(server, answer):
    k = Kill(-1)

    def f():
        LS.LEAP_SECOND_URL = server.url(answer)
        socket.socket.settimeout = impatient
        k.start()
        try:
            LS.get_leap_seconds(DATES)
        except Exception:  # noqa: BLE001
            pass
        sys.settrace(None)
        sys.setprofile(None)
        return k.seen
    return child(f)[1]


def crashes(server):
    """The process ends at each of its points."""
    for place, answer in (("expired", "ok"), ("missing", "ok"), ("no folder", "ok"), ("expired", "cut/%d" % (len(FRESH) // 2)), ("expired", "body/page")):
        put(place)
        total = lines(server, answer)
        step = 1
        n = 0
        while n < total + 20:
            n += step
            if not R.begin("crashes"):
                continue
            put(place)

            def f():
                LS.LEAP_SECOND_URL = server.url(answer)
                Kill(n).start()
                LS.get_leap_seconds(DATES)
                return []
            got = child(f)
            R.transition()
            R.trace()
            R.state(place, answer, n)
            R.outcome("ended at a line" if got[0] == "died" else "not ended")
            after(server, place, answer if answer != "ok" else "ok", got, "crashes:" + place.replace(" ", "-"), "table %s, answer %s, process ended at line %d of %d" % (place, answer, n, total))


def full(server):
    """No more than n bytes can be written, the process going on or not; no
    right to write."""
    for place in ("expired", "missing", "no folder"):
        for die in (False, True):
            for n in list(range(0, len(FRESH), 1 if R.thorough else 64)) + [len(FRESH) - 1]:
                if not R.begin("full"):
                    continue
                put(place)

                def f():
                    resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if die else signal.SIG_IGN)
                    return lookups(server, "ok", 2)()
                got = child(f)
                R.transition()
                R.trace()
                R.state(place, die, n)
                what = "table %s, %d bytes can be written%s" % (place, n, ", then the process ends" if die else "")
                R.outcome("write limit: " + got[0])
                if not die and (got[0] not in ("ok", "error") or place == "expired" and not (unanimous(got, OF_OLD) or unanimous(got, OF_NEW))):
                    R.fail("full:" + place.replace(" ", "-"), "%s: %s" % (what, show(got)))
                    continue
                after(server, place, "ok", got, "full:" + place.replace(" ", "-"), what)
    for place in ("expired", "missing"):
        for what_is in ("file", "folder", "both"):
            if not R.begin("full"):
                continue
            put(place)
            for path, mine in ((FILE, what_is == "folder"), (DATA, what_is == "file")):
                if mine and os.path.exists(path):
                    try:
                        os.chown(path, 65534, 65534)
                    except OSError:
                        pass

            def f():
                try:
                    os.setgid(65534)
                    os.setuid(65534)
                except OSError:
                    return "not allowed"
                return lookups(server, "ok", 2)()
            got = child(f)
            R.transition()
            R.outcome("no right: " + got[0])
            if got == ("ok", "not allowed"):
                R.outcome("no right: not tried")
                continue
            what = "table %s, %s not writable" % (place, what_is)
            if place == "expired" and not (unanimous(got, OF_OLD) or unanimous(got, OF_NEW)):
                R.fail("full:rights", "%s: %s" % (what, show(got)))
                continue
            R.trace()
            after(server, place, "ok", got, "full:rights", what)


# --------------------------------------------------------- two at the same time
class Stops(Kill):
    """Stops the process at given points until told to go on; the lines and
    calls of the modules that talk to the network or compute are no points."""
    def __init__(self, stop, reply, order):
        Kill.__init__(self, -1)
        self.stop, self.reply, self.order, self.disk = stop, reply, order, []

    def wanted(self, code):
        r = self.known.get(code)
        if r is None:
            r = self.known[code] = not (set(code.co_filename.split("/")[-3:]) & set(NETWORK) or "numpy" in code.co_filename or code.co_filename.startswith("<frozen importlib"))
        return r

    def point(self, frame, event):
        key = (frame.f_code, frame.f_lineno, event)
        self.passes[key] = self.passes.get(key, 0) + 1
        if self.passes[key] > 2:
            return
        self.seen += 1
        if self.reply is None:
            self.disk.append(snapshot())
        elif self.seen == self.stop:
            os.write(self.reply, b"S")
            self.stop = int(os.read(self.order, 16))


class Process:
    """A process that looks dates up, stopped at a point."""
    def __init__(self, server, answer, stop):
        r, w = os.pipe()
        orders, self.orders = os.pipe()
        self.data, self.out, self.over = b"", r, False
        self.pid = os.fork()
        if self.pid == 0:
            try:
                warnings.simplefilter("ignore")
                k = Stops(stop, w, orders)
                f = lookups(server, answer, 1)
                try:
                    k.start()
                    r = ("ok", f())
                except Exception as e:  # noqa: BLE001
                    r = ("error", "%s: %s" % (type(e).__name__, e))
                sys.settrace(None)
                sys.setprofile(None)
                os.write(w, b"E" + pickle.dumps(r))
            finally:
                os._exit(0)
        os.close(w)
        os.close(orders)

    def wait(self, limit):
        """'stopped', 'over' or 'waiting'"""
        end = time.time() + limit
        while not self.over:
            if not select.select([self.out], [], [], max(0, end - time.time()))[0]:
                return "waiting"
            b = os.read(self.out, 65536)
            if not b:
                self.over = True
            elif b == b"S" and not self.data:
                return "stopped"
            self.data += b
        return "over"

    def go(self, stop):
        try:
            os.write(self.orders, b"%d" % stop)
        except BrokenPipeError:
            pass

    def result(self):
        if not self.over:
            os.kill(self.pid, signal.SIGKILL)
        os.close(self.out)
        os.close(self.orders)
        status = os.waitpid(self.pid, 0)[1]
        if not self.over:
            return ("hang", "")
        return pickle.loads(self.data[1:]) if self.data else ("died", str(status))


def solo(server, answer):
    """What is on disk at each point of a process alone."""
    def f():
        k = Stops(-1, None, None)
        g = lookups(server, answer, 1)
        k.start()
        try:
            g()
        except Exception:  # noqa: BLE001
            pass
        sys.settrace(None)
        sys.setprofile(None)
        known = {}
        return [known.setdefault(d, len(known)) for d in k.disk]
    got = child(f)
    return got[1] if got[0] == "ok" else []


NEVER = 10**9


def together(server):
    """Two processes refresh the table: the first stops at each of its points,
    the second runs to each of its own, or to its end, then each ends."""
    half = "cut/%d" % (len(FRESH) // 2)
    for place, one, two in (("expired", "ok", "ok"), ("missing", "ok", "ok"), ("no folder", "ok", "ok"), ("expired", "ok", "body/page"), ("expired", "body/page", "ok"),
                            ("expired", "ok", "refused"), ("expired", half, "ok"), ("expired", "ok", half), ("expired", "body/page", half), ("missing", "ok", "refused")):
        put(place)
        a = solo(server, one)
        put(place)
        b = solo(server, two)

        def corners(x):  # around the changes of what is on disk
            out = set()
            for i in range(1, len(x)):
                if x[i] != x[i - 1]:
                    out |= {i - 1, i, i + 1, i + 2}
            return out | {1}
        ca, cb = corners(a), corners(b)
        R.outcome("together: %d points, %d changes" % (len(a), len(ca)))
        for i in range(1, len(a) + 1):
            if not R.thorough and i not in ca and i % 5:
                continue
            js = [NEVER] + [j for j in range(1, len(b) + 1) if R.thorough or i in ca and j in cb]
            for j in js:
                if not R.begin("together"):
                    continue
                put(place)
                p = Process(server, one, i)
                at = p.wait(10)
                q = Process(server, two, j)
                q.wait(10 if at == "over" else 2)
                p.go(NEVER)
                p.wait(10)
                q.go(NEVER)
                q.wait(10)
                gp, gq = p.result(), q.result()
                R.transition(2)
                R.trace()
                R.state(place, one, two, i, j)
                what = "table %s, answers %s and %s, the first process stopped at its point %d of %d while the second runs to %s" % (place, one, two, i, len(a), "its end" if j == NEVER else "its point %d" % j)
                R.outcome("together: %s, %s" % (gp[0], gq[0]))
                bad = False
                for answer, got in ((one, gp), (two, gq)):
                    if place == "expired":  # one may leave the refresh to the other
                        ok = unanimous(got, OF_OLD) or unanimous(got, OF_NEW)
                    elif kind(answer) == "good":
                        ok = unanimous(got, OF_NEW)
                    else:
                        ok = got[0] == "error" or unanimous(got, OF_NEW)
                    if not ok and not bad:
                        bad = True
                        R.fail("together:" + place.replace(" ", "-"), "%s: one with answer %s gets %s" % (what, answer, show(got)))
                if bad:
                    continue
                last = child(lookups(server, "refused", 1))
                want = OF_NEW if "ok" in (one, two) else OF_OLD
                if not unanimous(last, want):
                    R.fail("together:after", "%s: another process, without network, gets: %s" % (what, show(last)))


# ------------------------------------------------------------------ lookup
PER = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}
SPAN = {"m": 60, "h": 3600, "D": 86400, "W": 7 * 86400}
TABLES = {
    "real": T,
    "with a future entry": NEWER + [(month(2200, 1), 77)],
    "with a removed second": T[:5] + [(month(1977, 7), 14), (month(1978, 1), 15), (month(1990, 3), 13)],
    "one entry": T[:1],
    "every month": [(month(1972 + i // 12, i % 12 + 1), 10 + i % 7) for i in range(300)],
    "nine entries": T[:9],
}
START = month(1972, 1)


def to_seconds(v, unit):
    """Exact instant as (count, per second)."""
    if unit in PER:
        return v, PER[unit]
    if unit in SPAN:
        return v * SPAN[unit], 1
    y, m = (1970 + v, 1) if unit == "Y" else (1970 + v // 12, v % 12 + 1)
    a, mm = y - (m <= 2), (m + 9) % 12  # days of the civil calendar
    days = 365 * a + a // 4 - a // 100 + a // 400 + (153 * mm + 2) // 5 - 719468
    return days * 86400, 1


def counts(entries, unit):
    """Dates around each entry, in a unit; far ones."""
    out = set()
    for e in [x for x, _ in entries] + [START, month(2100, 1), month(2262, 1), month(2263, 1), month(2500, 6), month(9999, 12)]:
        if unit in PER:
            c = e * PER[unit]
        elif unit in SPAN:
            c = e // SPAN[unit]
        else:
            d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=e)
            c = d.year - 1970 if unit == "Y" else (d.year - 1970) * 12 + d.month - 1
        out |= {c - 1, c, c + 1, c + 2}
        if unit in PER and PER[unit] > 1:
            out |= {c - PER[unit], c + PER[unit] // 2}
    lim = 2**63 - 1
    return sorted(c for c in out if -lim < c < lim)


def ask(make):
    r = LS.get_leap_seconds(make())
    return [int(x) for x in numpy.asarray(r).ravel()], numpy.asarray(r).shape


def lookup(server):
    for name, entries in TABLES.items():
        content = content_of(entries, FAR)
        for unit in ("Y", "M", "W", "D", "h", "m", "s", "ms", "us", "ns"):
            for shape in ("scalar", "one", "all", "reversed", "square", "strided", "empty", "0-d"):
                if not R.begin("lookup"):
                    continue
                put(content)
                cs = counts(entries, unit)
                good = [c for c in cs if to_seconds(c, unit)[0] >= START * to_seconds(c, unit)[1]]
                bad = [c for c in cs if c not in set(good)]
                want = [value(entries, *to_seconds(c, unit)) for c in good]

                def f():
                    LS.LEAP_SECOND_URL = server.url("refused")
                    out = []
                    arr = numpy.array(good, dtype="datetime64[%s]" % unit)
                    if shape in ("scalar", "one", "0-d"):
                        res = []
                        for c in good:
                            d = numpy.datetime64(c, unit)
                            x = d if shape == "scalar" else numpy.array([d]) if shape == "one" else numpy.array(d)
                            res += ask(lambda: x)[0]
                        out.append((res, want))
                    elif shape == "all":
                        out.append((ask(lambda: arr)[0], want))
                    elif shape == "reversed":
                        out.append((ask(lambda: arr[::-1])[0], want[::-1]))
                    elif shape == "square":
                        n = len(good) // 2
                        out.append((ask(lambda: arr[:2 * n].reshape(2, n))[0], want[:2 * n]))
                    elif shape == "strided":
                        out.append((ask(lambda: arr[::3])[0], want[::3]))
                    elif shape == "empty":
                        out.append((ask(lambda: arr[:0])[0], []))
                    refused = []
                    for c in bad:
                        d = numpy.datetime64(c, unit)
                        for x in (d, numpy.array([d]), numpy.concatenate([arr[-1:], numpy.array([d])])):
                            try:
                                LS.get_leap_seconds(x)
                                refused.append(c)
                            except Exception:  # noqa: BLE001
                                pass
                    return out, refused
                got = child(f)
                R.transition(len(good) + 3 * len(bad))
                R.trace()
                R.state(name, unit, shape)
                if got[0] != "ok":
                    R.fail("lookup:error", "table %s, unit %s, %s: %s %s" % (name, unit, shape, got[0], got[1]))
                    continue
                for res, w in got[1][0]:
                    if res != w:
                        i = next((i for i in range(min(len(res), len(w))) if res[i] != w[i]), -1)
                        R.fail("lookup:value", "table %s, unit %s, %s: %d values for %d dates%s" % (name, unit, shape, len(res), len(w), "; %d at %s instead of %d" % (res[i], numpy.datetime64(good[i], unit) if shape != "reversed" else "the %d-th date" % i, w[i]) if i >= 0 else ""))
                for c in got[1][1]:
                    R.fail("lookup:early", "table %s, unit %s: %s is accepted" % (name, unit, numpy.datetime64(c, unit)))
        # datetime objects
        if not R.begin("lookup"):
            continue
        put(content)
        ds = []
        for c in counts(entries, "us"):
            try:
                ds.append(datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=c))
            except OverflowError:
                pass

        def f():
            LS.LEAP_SECOND_URL = server.url("refused")
            out = []
            for d in ds:
                try:
                    out.append(ask(lambda: d)[0])
                except Exception as e:  # noqa: BLE001
                    out.append(repr(e))
            return out
        got = child(f)
        R.transition(len(ds))
        R.trace()
        for d, x in zip(ds, got[1]):
            c = (d - datetime.datetime(1970, 1, 1)) // datetime.timedelta(microseconds=1)
            w = value(entries, c, 10**6) if c >= START * 10**6 else None
            if (w is None) != isinstance(x, str) or (w is not None and x != [w]):
                R.fail("lookup:datetime", "table %s, %s: %s instead of %s" % (name, d, x, w))


def arrays(server):
    """All arrays of four dates, in any order, with or without their order."""
    dates = [month(1972, 1), month(1972, 7) - 1, month(1972, 7), month(1990, 1), month(2017, 1) - 1, month(2017, 1), month(2030, 1)]
    for unit in ("s", "ns", "D"):
        for a, b in itertools.product(dates, repeat=2):
            if not R.begin("arrays"):
                continue
            put("valid")

            def f():
                LS.LEAP_SECOND_URL = server.url("refused")
                wrong = []
                for c, d in itertools.product(dates, repeat=2):
                    x = numpy.array([a, b, c, d], dtype="datetime64[s]").astype("datetime64[%s]" % unit)
                    inst = [int(v) for v in x.astype("datetime64[s]").astype("int64")]
                    w = [value(T, i) for i in inst]
                    for sorter in (None, numpy.argsort(x)):
                        before = x.copy()
                        try:
                            r = [int(v) for v in (LS.get_leap_seconds(x) if sorter is None else LS.get_leap_seconds(x, sorter))]
                        except Exception as e:  # noqa: BLE001
                            r = repr(e)
                        if r != w or (x != before).any():
                            wrong.append((str(x), sorter is not None, r, w))
                return wrong
            got = child(f)
            R.transition(2 * len(dates)**2)
            R.trace()
            R.state(unit, a, b)
            if got[0] != "ok":
                R.fail("arrays:error", str(got))
            for x, s, r, w in (got[1] if got[0] == "ok" else [])[:2]:
                R.fail("arrays:sorted" if s else "arrays:value", "%s%s: %s instead of %s" % (x, " with its order" if s else "", r, w))


def main():
    server = Server()
    try:
        lookup(server)
        arrays(server)
        refresh(server)
        truncated(server)
        full(server)
        crashes(server)
        together(server)
        R.finish()
    finally:
        server.stop()
        shutil.rmtree(ROOT, ignore_errors=True)


main()
