"""Ghost file system: path (str) -> content (bytes), absent if the file does not exist.
Trusted models of the os / tempfile / open calls the code uses."""
import mmap
import os
import tempfile
import z3
from .values import *
from .interp import uf

FS0 = z3.Const("FS0", ArrU)


def setup(I):
    I.ghost["world"] = {"fs": DictV(base=FS0, ty=TMap(TBytes))}
    I.ghost["seq"] = 0


def fs(I):
    return I.ghost["world"]["fs"]


def strterm(I, v):
    return esc(v) if isinstance(v, str) else v.t


def may_fail(I, tag, cls, *us):
    us = [u if z3.is_expr(u) else I.to_u(u) for u in us]
    ok = uf(tag + "!ok", *([U] * len(us)), Bool)(*us) if us else z3.Const(tag + "!ok", Bool)
    if not I.path.decide(ok, tag):
        t = uf(tag + "!exc", *([U] * len(us)), U)(*us) if us else z3.Const(tag + "!exc", U)
        if cls is not None:
            I.path.assume(I.isinst(t, cls))
        raise PyRaise(ExcV(term=t))


def mkstemp(I, suffix=None, prefix=None, dir=None, text=False):
    may_fail(I, "mkstemp", OSError)
    n = I.ghost["seq"] = I.ghost["seq"] + 1
    path = z3.Const("tmp!%d" % n, Str)
    I.path.assume(z3.Select(I.arr(fs(I)), I.key_term(Sym("str", path))) == U.absent)
    fd = z3.Const("fd!%d" % n, Int)
    I.ghost.setdefault("tmp", []).append(path)
    I.dict_set(fs(I), Sym("str", path), b"")
    return (Sym("int", fd), Sym("str", path))


def os_close(I, fd):
    return None


def os_remove(I, path):
    cur = I.dict_get(fs(I), path)
    if cur is ABSENT:
        I.raise_(FileNotFoundError, path)
    I.dict_del(fs(I), path)
    return None


def content(I, path):
    c = I.dict_get(fs(I), path)
    if c is ABSENT:
        I.raise_(FileNotFoundError, path)
    return I.prim(c, "bytes")


def splice(t, pos, new):
    """t with new written at position pos"""
    n, m = z3.Length(t), z3.Length(new)
    return z3.Concat(z3.SubString(t, 0, pos), new, z3.SubString(t, pos + m, n - pos - m))


def store(I, path, t):
    I.dict_set(fs(I), path, Sym("bytes", z3.simplify(t)))


def cut(I, path, n):
    """truncate to n bytes"""
    t = content(I, path)
    if not I.path.decide(n <= z3.Length(t), "truncate"):
        raise Unsupported("extending a file")
    store(I, path, z3.SubString(t, 0, n))


class FdV(ModelObj):
    def __init__(self, path, mode):
        ModelObj.__init__(self, FdV)
        self.path, self.mode = path, mode


class FileV(ModelObj):
    def __init__(self, path, mode):
        ModelObj.__init__(self, open)
        self.path, self.mode = path, mode
        self.pos = z3.IntVal(0)

    def cm_enter(self, I):
        return self

    def cm_exit(self, I, exc):
        return False

    def m_close(self, I):
        return None

    def m_fileno(self, I):
        return FdV(self.path, self.mode)

    def m_seek(self, I, pos, whence=0):
        if whence != 0:
            raise Unsupported("seek relative")
        self.pos = I.prim(pos, "int")
        return pos

    def m_read(self, I, *n):
        if n or "b" not in self.mode or "w" in self.mode:
            raise Unsupported("read")
        t = content(I, self.path)
        r = z3.simplify(z3.SubString(t, self.pos, z3.Length(t) - self.pos))
        self.pos = z3.Length(t)
        return Sym("bytes", r)

    def m_truncate(self, I, n=None):
        if "+" not in self.mode and "w" not in self.mode:
            raise Unsupported("truncate of file opened " + self.mode)
        cut(I, self.path, self.pos if n is None else I.prim(n, "int"))

    def m_write(self, I, data):
        if "w" in self.mode:
            cur = I.dict_get(fs(I), self.path)
            if cur is ABSENT:
                raise Unsupported("write to removed file")
            if I.ghost.get("write_fails", True):
                may_fail(I, "write", OSError, cur, data)
            new = I.models.binop(I, __import__("ast").Add(), cur, data)
            I.dict_set(fs(I), self.path, new)
        elif "+" in self.mode:
            t, d = content(I, self.path), I.prim(data, "bytes")
            if not I.path.decide(self.pos <= z3.Length(t), "write inside"):
                raise Unsupported("write past the end")
            store(I, self.path, splice(t, self.pos, d))
            self.pos = z3.simplify(self.pos + z3.Length(d))
        else:
            raise Unsupported("write to file opened " + self.mode)
        return Sym("int", I.path.fresh("written", Int))

    def m_flush(self, I):
        return None


class MmapV(ModelObj):
    """shared map of a whole file: what it does to its bytes, it does to the file"""

    def __init__(self, path, writable):
        ModelObj.__init__(self, mmap.mmap)
        self.path, self.writable = path, writable

    def cm_enter(self, I):
        return self

    def cm_exit(self, I, exc):
        return False

    def m_close(self, I):
        return None

    def m_flush(self, I, *a):
        return None

    def cur(self, I):
        return content(I, self.path)

    def m_size(self, I):
        return Sym("int", z3.Length(self.cur(I)))

    def py_len(self, I):
        return self.m_size(I)

    def m_find(self, I, *a):
        return I.models.str_method(I, Sym("bytes", self.cur(I)), "find", list(a), {}, kind="bytes")

    def m_rfind(self, I, *a):
        return I.models.str_method(I, Sym("bytes", self.cur(I)), "rfind", list(a), {}, kind="bytes")

    def m_move(self, I, dest, src, count):
        if not self.writable:
            I.raise_(TypeError, "read-only map")
        t = self.cur(I)
        d, s, c = (I.prim(x, "int") for x in (dest, src, count))
        n = z3.Length(t)
        if not I.path.decide(z3.And(d >= 0, s >= 0, c >= 0, d + c <= n, s + c <= n), "move in range"):
            I.raise_(ValueError, "source, destination, or count out of range")
        store(I, self.path, splice(t, d, z3.SubString(t, s, c)))

    def m_resize(self, I, n):
        if not self.writable:
            I.raise_(TypeError, "read-only map")
        n = I.prim(n, "int")
        if not I.path.decide(n > 0, "resize"):
            I.raise_(ValueError, "new size out of range")
        cut(I, self.path, n)


def m_mmap(I, fd, length, access=mmap.ACCESS_DEFAULT, **kw):
    if not isinstance(fd, FdV) or length != 0 or kw:
        raise Unsupported("mmap of part of a file")
    writable = "+" in fd.mode and access in (mmap.ACCESS_WRITE, mmap.ACCESS_DEFAULT)
    if access == mmap.ACCESS_WRITE and not writable:
        I.raise_(PermissionError, "file is not writable")
    if I.path.decide(z3.Length(content(I, fd.path)) == 0, "empty file"):
        I.raise_(ValueError, "cannot mmap an empty file")
    return MmapV(fd.path, writable)


def getsize(I, path):
    return Sym("int", z3.Length(content(I, path)))


def truncate(I, path, n):
    if isinstance(path, FdV):
        path = path.path
    cut(I, path, I.prim(n, "int"))


def m_open(I, path, mode="r", *a, **k):
    if "w" in mode:
        if I.ghost.get("write_fails", True):
            may_fail(I, "open_w", OSError)
        I.dict_set(fs(I), path, b"")
    elif "b" in mode and ("+" in mode or "r" in mode):
        content(I, path)
    return FileV(path, mode)


def basename(I, p):
    I.engine.assumed = getattr(I.engine, "assumed", set()) | {"os.path.basename"}
    if isinstance(p, str):
        return os.path.basename(p)
    return Sym("str", uf("basename", Str, Str)(p.t))


MODELS = {tempfile.mkstemp: mkstemp, os.close: os_close, os.remove: os_remove, os.unlink: os_remove, open: m_open,
          mmap.mmap: m_mmap, os.path.getsize: getsize, os.truncate: truncate,
          os.path.basename: basename}
