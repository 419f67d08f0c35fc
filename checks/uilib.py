"""The tools on a terminal: a pty, a terminal of the kind xterm on its other end, and keys."""
import fcntl
import os
import re
import select
import struct
import subprocess
import tempfile
import termios
import time


TOKEN = re.compile(rb"\x1b\[([0-9;?>!]*)([@-~])|\x1b([()])(.)|\x1b([=>78cDEHMNOZ])|([\r\n\b\a\t\x0e\x0f])|([\x20-\x7e]|[\xc2-\xf4][\x80-\xbf]+)", re.S)


class Term:
    """what an xterm shows"""

    def __init__(self, rows, cols):
        self.alt, self.cursor, self.x, self.y, self.clears, self.buf = False, True, 0, 0, 0, b""
        self.entered = self.left = 0
        self.normal = b""
        self.unknown = []
        self.resize(rows, cols)

    def resize(self, rows, cols):
        self.rows, self.cols = rows, cols
        old = getattr(self, "grid", [])
        self.grid = [[(old[y][x] if y < len(old) and x < len(old[y]) else (" ", 0)) for x in range(cols)] for y in range(rows)]
        self.attr = getattr(self, "attr", 0)

    def feed(self, data):
        b = self.buf + data
        i = 0
        while i < len(b):
            m = TOKEN.match(b, i)
            if not m:
                if len(b) - i < 24:
                    break
                self.unknown.append(b[i:i + 8])
                i += 1
                continue
            i = m.end()
            if m.group(2):
                self.csi(m.group(1).decode(), m.group(2).decode())
            elif m.group(6) or m.group(7):
                c = m.group(6) or m.group(7)
                if not self.alt:
                    self.normal += c
                elif m.group(7):
                    if self.x < self.cols and self.y < self.rows:
                        self.grid[self.y][self.x] = (c.decode("utf-8", "replace"), self.attr)
                    self.x += 1
                elif c == b"\r":
                    self.x = 0
                elif c == b"\n":
                    self.y = min(self.y + 1, self.rows - 1)
        self.buf = b[i:]

    def csi(self, p, c):
        if c in "hl" and p.startswith("?"):
            on = c == "h"
            for q in p[1:].split(";"):
                if q == "1049":
                    self.entered += on
                    self.left += not on
                    self.alt = on
                elif q == "25":
                    self.cursor = on
        elif c == "H":
            a = [int(v or 1) for v in p.split(";")] if p else [1, 1]
            self.y, self.x = max(0, a[0] - 1), max(0, (a[1] if len(a) > 1 else 1) - 1)
        elif c == "J":
            if self.alt:
                self.grid = [[(" ", 0)] * self.cols for _ in range(self.rows)]
                self.clears += 1
        elif c == "K":
            if self.alt and self.y < self.rows:
                for x in range(self.x, self.cols):
                    self.grid[self.y][x] = (" ", 0)
        elif c == "m":
            self.attr = 0 if p in ("", "0") else 1

    def lines(self):
        return ["".join(c for c, _ in r).rstrip() for r in self.grid]


class Session:
    """a tool on a terminal"""

    def __init__(self, argv, cwd, size=(24, 80), hold=None, env=None, deaf=False):
        self.m, self.s = os.openpty()
        self.t = Term(*size)
        self.size(*size, first=True)
        if deaf:
            # keys which come too late are not echoed and send no signals
            a = termios.tcgetattr(self.s)
            a[3] &= ~(termios.ECHO | termios.ISIG)
            termios.tcsetattr(self.s, termios.TCSANOW, a)
        self.before = termios.tcgetattr(self.s)
        e = dict(os.environ)
        for k in ("LINES", "COLUMNS", "GOMAXPROCS"):
            e.pop(k, None)
        e.update({"TERM": "xterm", "LC_ALL": "en_US.UTF-8", "LANG": "en_US.UTF-8"})
        self.hold = None
        if hold:
            self.hold = os.path.join(cwd, "hold")
            e.update({"VFAULT": "%d:hold" % hold, "VFAULT_HOLD": self.hold})
        e.update(env or {})
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen(["setsid", "-c"] + argv, cwd=cwd, env=e, stdin=self.s, stdout=self.s, stderr=self.errf)
        self.rc, self.timeout = None, False

    def size(self, rows, cols, first=False):
        fcntl.ioctl(self.s, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
        self.t.resize(rows, cols)

    def pump(self, secs):
        """takes what the tool writes for so long -> whether it still runs"""
        r, _, _ = select.select([self.m], [], [], secs)
        if r:
            self.t.feed(os.read(self.m, 65536))
        return self.p.poll() is None

    def until(self, cond, secs):
        """-> whether it came true"""
        end = time.time() + secs
        while not cond():
            if not self.pump(0.01) and not cond():
                self.pump(0)
                return cond()
            if time.time() > end:
                return False
        return True

    def key(self, b):
        os.write(self.m, b)

    def held(self):
        return os.path.exists(self.hold + ".at")

    def release(self):
        open(self.hold, "w").close()

    def finish(self, secs):
        """waits for its end -> rc, or None"""
        end = time.time() + secs
        while self.p.poll() is None and time.time() < end:
            self.pump(0.01)
        if self.p.poll() is None:
            self.timeout = True
            self.p.kill()
            self.p.wait()
        else:
            self.rc = self.p.returncode
        while select.select([self.m], [], [], 0)[0]:
            self.pump(0)
        self.after = termios.tcgetattr(self.s)
        self.errf.seek(0)
        self.err = self.errf.read()
        self.errf.close()
        os.close(self.m)
        os.close(self.s)
        return self.rc

    def restored(self):
        return self.after == self.before and not self.t.alt and self.t.cursor and self.t.entered == self.t.left

    def report(self):
        return self.t.normal.replace(b"\r\n", b"\n")
