"""Running the tools with faults injected below package os (harness/vfault)."""
import os
import signal
import subprocess

import vf


class Log:
    """operations of a run on the files it wrote"""

    def __init__(self, path, names):
        """names: path -> short name"""
        self.ops = []
        if not os.path.exists(path):
            return
        for line in open(path):
            n, op, arg, got, ok, at, fn = line.rstrip("\n").split(" ", 6)
            self.ops.append({"ev": "op", "op": op, "f": names.get(fn, os.path.basename(fn)), "arg": int(arg), "got": int(got),
                             "ok": ok == "ok", "at": int(at)})


def names(out):
    return {out: "out", out + ".loc.tmp": "loc"}


def run(cmd, out, d, fault=None, fsize=None, timeout=120):
    """-> (Run, Log)"""
    log = os.path.join(d, "vfault.log")
    if os.path.exists(log):
        os.remove(log)
    env = {"VFAULT_LOG": log}
    if fault:
        env["VFAULT"] = fault
    if fsize is not None:
        env["VFAULT"] = "0:size:%d" % fsize
    r = vf.run(cmd, env=env, timeout=timeout)
    L = Log(log, names(out))
    if os.path.exists(log):
        os.remove(log)
    return r, L


def killed(r):
    return r.rc == -signal.SIGKILL
