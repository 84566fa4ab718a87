"""Python side of the storage simulator: builds and loads simdisk.c, installs
fault plans, parses the operation log and derives crash images from it."""
import contextlib
import ctypes
import errno
import hashlib
import os
import shutil
import struct
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))

(OP_OPEN, OP_WRITE, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_RMDIR, OP_FSYNC, OP_LINK, OP_SYMLINK,
 OP_CLOSE, OP_EXCHANGE, OP_UNSUPPORTED, OP_OUTSIDE, OP_READ, OP_FALLOC) = range(1, 17)
OPNAME = {1: "open", 2: "write", 3: "truncate", 4: "rename", 5: "unlink", 6: "mkdir", 7: "rmdir", 8: "fsync",
          9: "link", 10: "symlink", 11: "close", 12: "exchange", 13: "unsupported", 14: "outside", 15: "read", 16: "fallocate"}
F_ERRNO, F_SHORT, F_CRASH, F_CRASH_TORN = 1, 2, 3, 4
MAXF = 64


class _Fault(ctypes.Structure):
    _fields_ = [("op", ctypes.c_int64), ("action", ctypes.c_int32), ("arg", ctypes.c_int32)]


class _Ctl(ctypes.Structure):
    _fields_ = [("active", ctypes.c_int), ("frozen", ctypes.c_int),
                ("next_op", ctypes.c_int64), ("next_read", ctypes.c_int64),
                ("budget", ctypes.c_int64), ("budget_errno", ctypes.c_int32),
                ("nf", ctypes.c_int32), ("nrf", ctypes.c_int32),
                ("f", _Fault * MAXF), ("rf", _Fault * MAXF),
                ("fired", ctypes.c_int64 * 16), ("traps", ctypes.c_int64), ("overflow", ctypes.c_int64),
                ("unsupported", ctypes.c_int64), ("outside", ctypes.c_int64), ("post_crash", ctypes.c_int64),
                ("escaped_threads", ctypes.c_int64), ("log_used", ctypes.c_uint64), ("log_cap", ctypes.c_uint64)]


class Rec:
    __slots__ = ("kind", "op", "ino", "off", "len", "ret", "flags", "fault", "p1", "p2", "data")

    def key(self):
        return (OPNAME[self.kind], self.op, self.off if self.kind == OP_WRITE else 0, self.len, self.ret if self.ret < 0 else 0, self.fault)

    def __repr__(self):
        return f"<{OPNAME[self.kind]} op={self.op} {self.p1}{' -> ' + self.p2 if self.p2 else ''} off={self.off} len={self.len} ret={self.ret} fault={self.fault}>"


_HDR = struct.Struct("<IIqqqqqiiII")


class SimDisk:
    """One per process.  root: scratch directory all simulated storage lives in."""

    def __init__(self, root, so=None):
        self.root = os.path.realpath(root)
        os.makedirs(self.root, exist_ok=True)
        so = so or build(os.path.join(self.root, ".."))
        self.lib = ctypes.PyDLL(so)
        self.lib.sd_ctl.restype = ctypes.POINTER(_Ctl)
        self.lib.sd_log.restype = ctypes.c_void_p
        self.lib.sd_init.argtypes = [ctypes.c_char_p, ctypes.c_uint64]
        r = self.lib.sd_init(self.root.encode(), 1 << 30)
        if r != 0:
            raise RuntimeError(f"sd_init failed: {r}")
        self.lib.sd_reset()
        self.c = self.lib.sd_ctl().contents
        self.tot = {}
        self._depth = threading.local()

    # -- plans -------------------------------------------------------------
    def reset(self, faults=(), rfaults=(), budget=-1, budget_errno=errno.ENOSPC):
        """faults: iterable of (op, action, arg); op counts state-changing operations from 0."""
        for i in range(16):
            if self.c.fired[i]:
                self.tot[i] = self.tot.get(i, 0) + self.c.fired[i]
        self.tot["ops"] = self.tot.get("ops", 0) + self.c.next_op
        self.tot["reads"] = self.tot.get("reads", 0) + self.c.next_read
        self.tot["traps"] = self.tot.get("traps", 0) + self.c.traps
        self.lib.sd_reset()
        c = self.c
        c.active = 1
        c.budget = budget
        c.budget_errno = budget_errno
        for arr, items, n in ((c.f, list(faults), "nf"), (c.rf, list(rfaults), "nrf")):
            items = items[:MAXF]
            for i, (op, act, arg) in enumerate(items):
                arr[i].op, arr[i].action, arr[i].arg = op, act, arg
            setattr(c, n, len(items))
        if rfaults == () and False:
            pass

    @contextlib.contextmanager
    def inside(self):
        """Run the body with this thread's system calls going through the simulator."""
        d = getattr(self._depth, "n", 0)
        self._depth.n = d + 1
        if d == 0:
            sys.stdout.flush()
            r = self.lib.sd_enter()
            if r != 0:
                self._depth.n = 0
                raise RuntimeError(f"syscall user dispatch unavailable: {r}")
        try:
            yield
        finally:
            self._depth.n -= 1
            if self._depth.n == 0:
                self.lib.sd_leave()

    @property
    def frozen(self):
        return bool(self.c.frozen)

    def log(self):
        n = self.c.log_used
        if self.c.overflow:
            raise RuntimeError("simdisk log overflow")
        buf = ctypes.string_at(self.lib.sd_log(), n) if n else b""
        out, p = [], 0
        while p < n:
            size, kind, op, ino, off, ln, ret, flags, fault, l1, l2 = _HDR.unpack_from(buf, p)
            r = Rec()
            r.kind, r.op, r.ino, r.off, r.len, r.ret, r.flags, r.fault = kind, op, ino, off, ln, ret, flags, fault
            q = p + _HDR.size
            r.p1 = buf[q:q + l1 - 1].decode() if l1 else ""
            r.p2 = buf[q + l1:q + l1 + l2 - 1].decode() if l2 else ""
            r.data = buf[q + l1 + l2:q + l1 + l2 + ln] if kind == OP_WRITE else b""
            out.append(r)
            p += size
        return out


def build(outdir):
    """Compile simdisk.c into a scratch directory of this run."""
    outdir = os.path.realpath(outdir)
    os.makedirs(outdir, exist_ok=True)
    so = os.path.join(outdir, "simdisk.so")
    if not os.path.exists(so):
        tmp = so + f".{os.getpid()}"
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, os.path.join(HERE, "simdisk.c")], check=True)
        os.replace(tmp, so)
    return so


# ---------------------------------------------------------------------------
# crash images

class Node:
    __slots__ = ("data", "pending", "synced")

    def __init__(self, data=b""):
        self.data = bytearray(data)      # content in the page cache
        self.synced = bytes(data)        # content on the platter
        self.pending = []                # ops since the last fsync: ("w", off, bytes) / ("t", length)


class DiskModel:
    """Model of a journaling disk.

    File data is durable once the file is fsynced; data written since then may be
    lost entirely, in part, or per block.  Directory operations go through one ordered
    journal: they become durable in order, all of them up to any fsync (of any file or
    directory), and after a power loss an arbitrary longer prefix of the journal may have
    reached the disk too.
    """

    def __init__(self, root):
        self.root = root
        self.tree = {}       # path -> Node | "dir"    (volatile view)
        self.dur = {}        # path -> Node | "dir"    (journal committed)
        self.journal = []    # namespace ops not yet known durable
        self.inomap = {}
        self.supported = True

    def snapshot_real(self):
        """Take the real directory as a fully durable starting point."""
        self.tree, self.inomap, self.journal = {}, {}, []
        for d, ds, fs in os.walk(self.root):
            for n in ds:
                self.tree[os.path.join(d, n)] = "dir"
            for n in fs:
                p = os.path.join(d, n)
                if os.path.islink(p):
                    self.supported = False      # histories with links only use kill images
                    continue
                with open(p, "rb") as fh:
                    nd = Node(fh.read())
                self.tree[p] = nd
                self.inomap[os.lstat(p).st_ino] = nd
        self.dur = dict(self.tree)

    @staticmethod
    def _ns(tree, op):
        k = op[0]
        if k == "create":
            tree[op[1]] = op[2]
        elif k == "mkdir":
            tree[op[1]] = "dir"
        elif k in ("unlink", "rmdir"):
            tree.pop(op[1], None)
        elif k == "rename":
            src, dst = op[1], op[2]
            if src == dst or src not in tree:
                return
            moved = {p: n for p, n in tree.items() if p == src or p.startswith(src + "/")}
            for p in [p for p in tree if p == dst or p.startswith(dst + "/")]:
                del tree[p]
            for p, n in moved.items():
                del tree[p]
                tree[dst + p[len(src):]] = n
        elif k == "exchange":
            a, b = op[1], op[2]
            if a in tree and b in tree:
                tree[a], tree[b] = tree[b], tree[a]
        elif k == "link":
            if op[1] in tree:
                tree[op[2]] = tree[op[1]]

    def _meta(self, *op):
        self._ns(self.tree, op)
        self.journal.append(op)

    def apply(self, r):
        if r.kind in (OP_UNSUPPORTED, OP_SYMLINK):
            self.supported = False
            return
        if r.ret < 0:
            return
        if r.kind == OP_OPEN:
            if r.off < 0:
                nd = Node()
                self.inomap[r.ino] = nd
                self._meta("create", r.p1, nd)
            elif r.flags & os.O_TRUNC:
                nd = self.inomap.get(r.ino)
                if nd is not None:
                    nd.pending.append(("t", 0))
                    del nd.data[:]
        elif r.kind == OP_WRITE:
            nd = self.inomap.get(r.ino)
            if nd is None:
                self.supported = False
                return
            end = r.off + r.len
            if len(nd.data) < end:
                nd.data.extend(b"\0" * (end - len(nd.data)))
            nd.data[r.off:end] = r.data
            nd.pending.append(("w", r.off, r.data))
            if r.flags & (os.O_SYNC | os.O_DSYNC):
                self._sync(nd)
        elif r.kind == OP_TRUNC:
            nd = self.inomap.get(r.ino)
            if nd is not None:
                if len(nd.data) > r.len:
                    del nd.data[r.len:]
                else:
                    nd.data.extend(b"\0" * (r.len - len(nd.data)))
                nd.pending.append(("t", r.len))
        elif r.kind == OP_FSYNC:
            nd = self.inomap.get(r.ino)
            if nd is not None:
                self._sync(nd)
            for op in self.journal:
                self._ns(self.dur, op)
            self.journal = []
        elif r.kind == OP_RENAME:
            self._meta("rename", r.p1, r.p2)
        elif r.kind == OP_EXCHANGE:
            self._meta("exchange", r.p1, r.p2)
        elif r.kind == OP_LINK:
            self._meta("link", r.p1, r.p2)
        elif r.kind == OP_UNLINK:
            self._meta("unlink", r.p1)
        elif r.kind == OP_RMDIR:
            self._meta("rmdir", r.p1)
        elif r.kind == OP_MKDIR:
            self._meta("mkdir", r.p1)

    def _sync(self, nd):
        nd.synced = bytes(nd.data)
        nd.pending = []

    # -- images --------------------------------------------------------------
    def power_image(self, rng, mode):
        """Content of the disk after a power loss now.  mode: 'none' keeps only what was
        synced; 'meta' additionally keeps all directory operations but no unsynced data (the
        classic zero-length file); 'random' keeps a random journal prefix and random parts of the
        unsynced data."""
        tree = dict(self.dur)
        if mode == "none":
            n = 0
        elif mode == "meta":
            n = len(self.journal)
        else:
            n = rng.randint(0, len(self.journal))
        for op in self.journal[:n]:
            self._ns(tree, op)
        out = {}
        lost = 0
        cache = {}
        for p, nd in tree.items():
            if nd == "dir":
                out[p] = "dir"
                continue
            if id(nd) not in cache:
                buf = bytearray(nd.synced)
                for w in nd.pending:
                    if mode in ("none", "meta"):
                        keep = False
                    else:
                        keep = rng.random() < 0.5
                    if not keep:
                        lost += 1
                        continue
                    if w[0] == "t":
                        if len(buf) > w[1]:
                            del buf[w[1]:]
                        else:
                            buf.extend(b"\0" * (w[1] - len(buf)))
                    else:
                        off, data = w[1], w[2]
                        if mode == "random" and len(data) > 1 and rng.random() < 0.4:
                            data = data[:rng.randint(1, len(data) - 1)]
                            lost += 1
                        end = off + len(data)
                        if len(buf) < end:
                            buf.extend(b"\0" * (end - len(buf)))
                        buf[off:end] = data
                cache[id(nd)] = bytes(buf)
            out[p] = cache[id(nd)]
        # a directory entry needs its parents
        for p in list(out):
            d = os.path.dirname(p)
            while d != self.root and len(d) > len(self.root):
                if d not in out:
                    out.pop(p, None)
                    break
                d = os.path.dirname(d)
        return out, lost + (len(self.journal) - n)

    def volatile_image(self):
        return {p: (n if n == "dir" else bytes(n.data)) for p, n in self.tree.items()}


def real_image(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            p = os.path.join(d, n)
            out[p] = "link:" + os.readlink(p) if os.path.islink(p) else "dir"
        for n in fs:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[p] = "link:" + os.readlink(p)
            else:
                with open(p, "rb") as fh:
                    out[p] = fh.read()
    return out


def materialise(image, root):
    """Make the scratch directory hold exactly this image."""
    wipe(root)
    for p in sorted(image):
        v = image[p]
        assert p.startswith(root + "/"), p
        if v == "dir":
            os.makedirs(p, exist_ok=True)
        elif isinstance(v, str):
            os.symlink(v[5:], p)
    for p, v in image.items():
        if isinstance(v, (bytes, bytearray)):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(v)


def wipe(root):
    assert "hxsim-" in root, root
    for n in os.listdir(root):
        p = os.path.join(root, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)


def digest_log(recs, root):
    h = hashlib.sha256()
    for r in recs:
        h.update(repr(r.key()).encode())
        h.update(r.data)
    return h.hexdigest()
