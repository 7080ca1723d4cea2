"""Crash points of code that writes files: the on-disk states a killed process can leave behind, and preemption at each file operation.

An audit hook sees every open/rename/remove/mkdir/rmdir/truncate/link of a watched directory before it happens; the directory is read at each of them.
What lies on disk at an operation is what a process killed there leaves behind (data in user-space buffers is lost, as in reality).  A file that grows
between two operations may also be left with any prefix of its new contents."""
import os
import shutil
import sys
import tempfile

_watch = dict(root=None, call=None)
_EVENTS = {"open", "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink"}
_installed = []


def _hook(event, args):
    if _watch["call"] is None or event not in _EVENTS:
        return
    root = _watch["root"]
    hit = False
    for a in args[:2]:
        if isinstance(a, bytes):
            a = os.fsdecode(a)
        if isinstance(a, str) and os.path.abspath(a).startswith(root):
            hit = True
    if not hit:
        return
    call, _watch["call"] = _watch["call"], None
    try:
        call(event, tuple(str(a) for a in args[:2]))
    finally:
        _watch["call"] = call


def watched(root, call, run):
    """run() with call(event, args) before each file operation in root"""
    if not _installed:
        sys.addaudithook(_hook)
        _installed.append(1)
    keep = dict(_watch)
    _watch.update(root=os.path.abspath(root), call=call)
    try:
        return run()
    finally:
        _watch.update(keep)


def read(root):
    out = {}
    if not os.path.isdir(root):
        return None
    for d, dirs, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
        for s in dirs:
            out[os.path.relpath(os.path.join(d, s), root) + "/"] = b""
    return out


def write(root, snap):
    if os.path.isdir(root):
        shutil.rmtree(root)
    if snap is None:
        return
    os.makedirs(root)
    for p in sorted(snap):
        q = os.path.join(root, p)
        if p.endswith("/"):
            os.makedirs(q, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as h:
                h.write(snap[p])


def lengths(n):
    s = {0, 1, 5, 6, 8, 10, 64, 127, 128, 129, 200, n // 3, n // 2, n - 9, n - 8, n - 1}
    return sorted(k for k in s if 0 <= k < n)


def atomic(root, s, op):
    """the state right after a rename or removal, which the file system makes in one piece"""
    if s is None or op is None or op[0] not in ("os.rename", "os.remove"):
        return s
    rel = [os.path.relpath(os.path.abspath(a), root) for a in op[1:]]
    s = dict(s)
    if rel[0] in s:
        data = s.pop(rel[0])
        if op[0] == "os.rename" and not rel[1].startswith(".."):
            s[rel[1]] = data
    return s


def crash_states(root, run, cut=None):
    """[(description, snapshot)] of every state left behind by a kill during run(), plus run's result; cut(file, old, new) are the lengths of torn writes"""
    cut = cut or (lambda f, old, new: lengths(len(new)))
    snaps = [("before", read(root), None)]
    result = watched(root, lambda e, a: snaps.append(("%s %s" % (e, os.path.basename(a[0])), read(root), (e,) + a)), run)
    snaps.append(("after", read(root), None))
    out, seen = [], set()

    def put(what, s):
        key = None if s is None else tuple(sorted((k, hash(v)) for k, v in s.items()))
        if key not in seen:
            seen.add(key)
            out.append((what, s))

    for k, (what, s, op) in enumerate(snaps):
        put("killed at " + what, s)
        s = atomic(root, s, op)
        put("killed right after " + what, s)
        if k + 1 < len(snaps) and snaps[k + 1][1] is not None:
            new = snaps[k + 1][1]
            old = s or {}
            for f in new:
                if f.endswith("/") or old.get(f) == new[f]:
                    continue
                for n in cut(f, old.get(f), new[f]):
                    # the other changes of this interval before or after this write
                    for base in (old, new):
                        t = dict(base)
                        t[f] = new[f][:n]
                        put("killed after %s with %d bytes of %s" % (what, n, f), t)
    return out, result


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="mc-crash-")
        return os.path.join(self.path, "data")

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
