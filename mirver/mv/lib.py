"""Contracts of the library functions bromine is built on (std, tokio, bytes, byteorder, dashmap, the crypto crates).
They are the trusted base: what each of them assumes is listed by `trusted()` and exercised against the real library by
the conformance runs of the harness. A library function without a contract makes the paths that call it undecided."""
import fnmatch
import re
import z3
from vals import *
import machine
from core import Fork, Undecided, Panic, PUSHED, DEAD, KFrame, Call

NONE = Agg(0, ())


def Some(v):
    return Agg(1, (v,))


def Ok(v=UNIT):
    return Agg(0, (v,))


def Err(e):
    return Agg(1, (e,))


def Ready(v):
    return Agg(0, (v,))


PENDING = Agg(1, ())

IOKINDS = ["NotFound", "PermissionDenied", "ConnectionRefused", "ConnectionReset", "HostUnreachable", "NetworkUnreachable", "ConnectionAborted", "NotConnected", "AddrInUse", "AddrNotAvailable", "NetworkDown", "BrokenPipe", "AlreadyExists", "WouldBlock", "NotADirectory", "IsADirectory", "DirectoryNotEmpty", "ReadOnlyFilesystem", "FilesystemLoop", "StaleNetworkFileHandle", "InvalidInput", "InvalidData", "TimedOut", "WriteZero", "StorageFull", "NotSeekable", "QuotaExceeded", "FileTooLarge", "ResourceBusy", "ExecutableFileBusy", "Deadlock", "CrossesDevices", "TooManyLinks", "InvalidFilename", "ArgumentListTooLong", "Interrupted", "Unsupported", "UnexpectedEof", "OutOfMemory"]


def ioerr(kind, msg=None):
    return Obj("ioerr", kind=kind, msg=msg)


EXACT, PATS = {}, []
NOTES = {}


def c(*paths, note=None):
    def d(f):
        for p in paths:
            if "*" in p:
                # `[` is literal in our patterns
                rx = re.compile("^" + ".*".join(re.escape(x) for x in p.split("*")) + "$")
                PATS.append((rx, f))
            else:
                EXACT[p] = f
            if note:
                NOTES[p] = note
        return f
    return d


def const_fn(v):
    return lambda ex, st, a: v


class Lib:
    def __init__(self):
        self.cache = {}
        self.shared_atomics = True

    # ---------------------------------------------------------------- lookup
    def contract(self, path, fn, inst, m):
        key = (path, fn["path"])
        if "::poll_fn::PollFn" in path:
            return None
        if key in self.cache:
            return self.cache[key]
        f = EXACT.get(path)
        if f is None:
            for rx, g in PATS:
                if rx.match(path):
                    f = g
                    break
        self.cache[key] = f
        return f

    def poll(self, ex, st, a):
        return poll_obj(ex, st, a)

    def contract_virtual(self, ex, st, fn, inst, args):
        p = fn["path"]
        if p == "core::future::future::Future::poll":
            return poll_obj
        if p.startswith("core::ops::function::Fn"):
            return call_dyn
        if p.startswith("tokio::io::async_write::AsyncWrite::") or p.startswith("tokio::io::async_read::AsyncRead::"):
            return EXACT.get(p)
        return None

    def generic(self, ex, st, fn, inst, args):
        """poll of a library future whatever its type; clones and defaults of library objects"""
        path = inst["path"] if inst else fn["path"]
        if fn["path"] == "core::future::future::Future::poll" or path.endswith("::{closure#0}"):
            if args:
                _, v = ex.deref_obj(st, args[0])
                if isinstance(v, Obj) and v.k == "fut":
                    return poll_obj
        if inst is not None and inst["kind"] == "intrinsic":
            return None
        return None

    # ---------------------------------------------------------------- symbolic values of library types
    def sym_adt(self, ex, st, t, name):
        p = t["path"]
        if p in ("alloc::string::String", "bytes::bytes::Bytes", "bytes::bytes_mut::BytesMut"):
            r = ex.symbytes(st, name)
            if p == "alloc::string::String":
                ex.set_utf8(st, r)
            return r
        if p == "alloc::vec::Vec":
            if ex.m.T[t["args"][0]]["name"] == "u8":
                return ex.symbytes(st, name)
            return Obj("symvec", name=name, elem=t["args"][0])
        if p in ("alloc::rcs::arc::Arc", "alloc::sync::Arc"):
            a = ("S", name)
            if a not in st.mem:
                st.mem[a] = ex.sym(st, t["args"][0], name + ".*")
            return Ptr(a)
        if p in ("tokio::sync::mutex::Mutex", "tokio::sync::rwlock::RwLock"):
            return Agg(0, (ex.sym(st, t["args"][0], name + ".in"),))
        if p == "core::time::Duration":
            n = z3.BitVec(name + ".nanos", 32)
            st.assume(z3.ULT(n, 1000000000))
            return Obj("dur", s=z3.BitVec(name + ".secs", 64), n=n)
        if p == "core::cell::Cell":
            return Obj("cell", v=ex.sym(st, t["args"][0], name + ".in"))
        if p.startswith("core::sync::atomic::Atomic"):
            b = ex.m.T[t["args"][0]].get("bits", 64)
            return Obj("atomic", v=z3.BitVec(name + ".v", b), bits=b, id=name, shared=False)
        if p in ("x25519_dalek::x25519::PublicKey", "x25519_dalek::x25519::StaticSecret", "x25519_dalek::x25519::SharedSecret"):
            return Rope([("s", name, 0, 32)])
        if p == "dashmap::DashMap":
            return Obj("dashmap", id=name)
        if p == "std::collections::hash::map::HashMap":
            return Obj("hmap", base=name, ins=(), kty=t["args"][0], vty=t["args"][1])
        if p == "roots::opq::AnyReader" or p == "roots::opq::AnyWriter" or p == "roots::opq::AnyStream":
            return Obj(p.split("::")[-1], id=name, pos=0)
        if p.startswith("roots::opq::Any"):
            return Obj(p.split("::")[-1], id=name)
        if p.startswith("chacha20poly1305::ChaChaPoly1305"):
            return Obj("chacha", key=Rope([("s", name + ".key", 0, 32)]))
        if p == "tokio::sync::mpsc::bounded::Receiver":
            return Obj("rx", ch=name)
        if p == "tokio::sync::mpsc::bounded::Sender":
            return Obj("tx", ch=name)
        if p == "tokio::sync::oneshot::Sender":
            return Obj("otx", ch=name)
        if p == "tokio::io::read_buf::ReadBuf":
            cap = z3.BitVec(name + ".remaining", 64)
            st.assume(z3.ULT(cap, LENMAX))
            return Obj("readbuf", cap=cap, filled=Rope())
        if t["opaque"]:
            return Obj("sym", id=name, ty=t["name"])
        return None

    def const_adt(self, ex, st, t, fs):
        if t["path"] == "core::time::Duration":
            n = fs[1]
            while isinstance(n, Agg):
                n = n.f[0]
            return Obj("dur", s=fs[0], n=n)
        return None

    def opaque_const(self, ex, st, ty, t):
        if t["k"] == "adt":
            if t["path"].startswith("core::sync::atomic::Atomic"):
                return None
            if t["path"] in ("std::time::SystemTime", "std::time::UNIX_EPOCH"):
                return Obj("systime", id="epoch")
        return None

    def static(self, ex, st, path, ty):
        t = ex.m.T[ty]
        if "lazy" in t["name"].lower():
            return Obj("lazy", id=path)
        return shared_parts(ex.sym(st, ty, "static!" + path))

    def obj_elem(self, ex, st, v, i):
        if v.k == "symvec":
            a = ("S", "%s[%s]" % (v.name, i))
            if a not in st.mem:
                st.mem[a] = ex.sym(st, v.elem, a[1])
            return st.mem[a]
        return None

    def call_obj(self, ex, st, o, args):
        if o.k == "callback":
            return call_callback(ex, st, o, args)
        return None

    # ---------------------------------------------------------------- drop
    DROPS = ("tokio::sync::mutex::MutexGuard", "tokio::sync::rwlock::read_guard::RwLockReadGuard", "tokio::sync::rwlock::write_guard::RwLockWriteGuard", "dashmap::mapref::one::Ref", "dashmap::mapref::one::RefMut", "tokio::sync::mutex::OwnedMutexGuard",
             "tokio::sync::oneshot::Sender", "tokio::sync::mpsc::bounded::Receiver")

    def has_drop(self, t):
        return t["path"] in self.DROPS

    def drop(self, ex, st, t, ptr, v):
        if isinstance(v, Obj) and v.k == "guard":
            st.ev("unlock", v.m.a)
        elif isinstance(v, Obj) and v.k == "mapref":
            st.ev("map_unlock", v.map)
        elif isinstance(v, Obj) and v.k == "otx":
            st.ev("oneshot_drop", v.ch)
        elif isinstance(v, Obj) and v.k == "rx":
            st.ev("rx_drop", v.ch)


# ==================================================================== helpers

def u8ty(ex, i):
    return ex.m.T[i]["name"] == "u8"


def rope_of(ex, st, v):
    """byte content of a container value or of what a pointer leads to"""
    for _ in range(8):
        if isinstance(v, Rope):
            return v
        if isinstance(v, Ptr):
            v = ex.read(st, v)
            continue
        if isinstance(v, Agg) and len(v.f) == 1:
            v = v.f[0]
            continue
        if isinstance(v, Obj) and "rope" in v.d:
            return v.rope
        break
    raise Undecided("no byte content: %r" % (v,))


def cont_of(ex, st, v):
    for _ in range(8):
        if isinstance(v, (Rope, Seq)):
            return v
        if isinstance(v, Obj) and v.k in ("symvec",):
            return v
        if isinstance(v, Ptr):
            v = ex.read(st, v)
            continue
        break
    raise Undecided("no container: %r" % (v,))


def slice_ptr(ex, st, p):
    """a shared slice of the content p leads to"""
    p0 = p
    for _ in range(8):
        v = ex.read(st, p0)
        if isinstance(v, Ptr):
            p0 = v
            continue
        break
    if isinstance(v, Rope):
        return Ptr(Const(v))
    return p0


def res(*outs):
    return [o for o in outs if o[0] is not None]


def opt(st, x):
    return st if x else None


# ==================================================================== containers of bytes and of other things

VECS = ["alloc::vec::Vec::<T>", "alloc::vec::Vec::<T, A>"]


@c("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity", "<alloc::vec::Vec<T> as core::default::Default>::default")
def vec_new(ex, st, a):
    e = a.fn["args"][0]
    if a.inst and a.inst["args"]:
        e = a.inst["args"][0]
    if a.path.endswith("with_capacity"):
        st.ev("alloc", a.args[0])
    return Rope() if u8ty(ex, e) else Seq(())


@c("alloc::string::String::new", "bytes::bytes::Bytes::new", "bytes::bytes_mut::BytesMut::new", "<alloc::string::String as core::default::Default>::default",
   "<bytes::bytes::Bytes as core::default::Default>::default", "<bytes::bytes_mut::BytesMut as core::default::Default>::default")
def bytes_new(ex, st, a):
    return Rope()


@c("bytes::bytes_mut::BytesMut::with_capacity", "alloc::string::String::with_capacity")
def bytes_cap(ex, st, a):
    st.ev("alloc", a.args[0])
    return Rope()


@c("bytes::bytes_mut::BytesMut::zeroed")
def bytes_zeroed(ex, st, a):
    st.ev("alloc", a.args[0])
    return Rope([("f", 0, norm_int(a.args[0]))])


@c("alloc::vec::from_elem")
def from_elem(ex, st, a):
    v, n = a.args
    st.ev("alloc", n)
    if u8ty(ex, a.inst["args"][0]):
        return Rope([("f", norm_int(v) if not isinstance(v, int) else v, norm_int(n))])
    if isinstance(n, int) and n < 64:
        return Seq([v] * n)
    raise Undecided("vec![_; n]")


@c("*::reserve", "*::reserve_exact", "*::shrink_to_fit")
def reserve(ex, st, a):
    if len(a.args) > 1:
        st.ev("alloc", a.args[1])
    return UNIT


def _len(ex, st, a):
    p = a.args[0]
    return ex.seq_len(st, Ptr(*_through(ex, st, p)))


def _through(ex, st, p):
    """follow &&..T to the pointer that holds the container"""
    for _ in range(8):
        if p.m and p.m[0] == "sl":
            break
        v = ex.load(st, p.a, p.p)
        if isinstance(v, Ptr):
            p = v
        else:
            break
    return p.a, p.p, p.m


LEN = ["alloc::vec::Vec::<T, A>::len", "alloc::string::String::len", "bytes::bytes::Bytes::len", "bytes::bytes_mut::BytesMut::len",
       "core::slice::<impl [T]>::len", "core::str::<impl str>::len", "<bytes::bytes_mut::BytesMut as bytes::buf::buf_impl::Buf>::remaining",
       "<bytes::bytes::Bytes as bytes::buf::buf_impl::Buf>::remaining", "bytes::buf::buf_impl::<impl bytes::buf::buf_impl::Buf for &[u8]>::remaining"]
c(*LEN)(_len)


@c("alloc::vec::Vec::<T, A>::is_empty", "alloc::string::String::is_empty", "bytes::bytes::Bytes::is_empty", "bytes::bytes_mut::BytesMut::is_empty",
   "core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty")
def is_empty(ex, st, a):
    return leq(_len(ex, st, a), 0)


@c("bytes::buf::buf_impl::Buf::has_remaining", "*Buf>::has_remaining")
def has_remaining(ex, st, a):
    return NOT(leq(_len(ex, st, a), 0))


@c("alloc::vec::Vec::<T, A>::capacity", "bytes::bytes_mut::BytesMut::capacity", "alloc::string::String::capacity")
def capacity(ex, st, a):
    n = z3.BitVec(st.fresh("cap"), 64)
    st.assume(z3.UGE(n, bv(_len(ex, st, a), 64)))
    return n


@c("<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref", "<alloc::string::String as core::ops::deref::Deref>::deref",
   "<bytes::bytes::Bytes as core::ops::deref::Deref>::deref", "<bytes::bytes_mut::BytesMut as core::ops::deref::Deref>::deref",
   "<alloc::vec::Vec<T, A> as core::convert::AsRef<*", "<alloc::string::String as core::convert::AsRef<*", "<bytes::bytes::Bytes as core::convert::AsRef<*",
   "<bytes::bytes_mut::BytesMut as core::convert::AsRef<*", "<[T] as core::convert::AsRef<[T]>>::as_ref", "<str as core::convert::AsRef<*",
   "alloc::vec::Vec::<T, A>::as_slice", "alloc::string::String::as_str", "alloc::string::String::as_bytes", "core::str::<impl str>::as_bytes",
   "bytes::bytes::Bytes::as_slice", "core::array::<impl [T; N]>::as_slice", "<generic_array::GenericArray<T, N> as core::ops::deref::Deref>::deref",
   "<alloc::vec::Vec<T, A> as core::borrow::Borrow<*", "<alloc::string::String as core::borrow::Borrow<*", "<bytes::bytes::Bytes as core::borrow::Borrow<*",
   "generic_array::GenericArray::<T, N>::as_slice", "core::array::<impl core::convert::AsRef<[T]> for [T; N]>::as_ref",
   "alloc::string::<impl core::convert::AsRef<*", "core::str::<impl core::convert::AsRef<[u8]> for str>::as_ref",
   "<bytes::bytes_mut::BytesMut as bytes::buf::buf_impl::Buf>::chunk", "<bytes::bytes::Bytes as bytes::buf::buf_impl::Buf>::chunk",
   "core::convert::<impl core::convert::AsRef<*", "core::str::<impl str>::as_str", "alloc::string::String::into_boxed_str", "<T as core::borrow::Borrow<T>>::borrow")
def as_slice(ex, st, a):
    p = a.args[0]
    if not isinstance(p, Ptr):
        return p
    return slice_ptr(ex, st, p)


@c("<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut", "<bytes::bytes_mut::BytesMut as core::ops::deref::DerefMut>::deref_mut",
   "alloc::vec::Vec::<T, A>::as_mut_slice", "<alloc::vec::Vec<T, A> as core::convert::AsMut<*", "<[T] as core::convert::AsMut<*",
   "<generic_array::GenericArray<T, N> as core::ops::deref::DerefMut>::deref_mut", "<bytes::bytes_mut::BytesMut as core::convert::AsMut<*")
def as_mut_slice(ex, st, a):
    p = a.args[0]
    if p.m and p.m[0] == "sl":
        return p
    p = Ptr(*_through(ex, st, p))
    if p.m and p.m[0] == "sl":
        return p
    return Ptr(p.a, p.p, ("sl", 0, ex.seq_len(st, p)))


CLONES = ["<alloc::string::String as core::clone::Clone>::clone", "<alloc::vec::Vec<T, A> as core::clone::Clone>::clone", "<bytes::bytes::Bytes as core::clone::Clone>::clone",
          "<bytes::bytes_mut::BytesMut as core::clone::Clone>::clone", "<core::time::Duration as core::clone::Clone>::clone",
          "<x25519_dalek::*Clone>::clone", "<chacha20poly1305::*Clone>::clone", "<generic_array::*Clone>::clone", "<*core::clone::Clone for [T; N]>::clone",
          "core::array::<impl core::clone::Clone for [T; N]>::clone", "<std::collections::hash::map::HashMap<K, V, S, A> as core::clone::Clone>::clone",
          "<tokio::sync::mpsc::bounded::Sender<T> as core::clone::Clone>::clone", "<opq::Any* as core::clone::Clone>::clone", "<roots::opq::Any* as core::clone::Clone>::clone",
          "<alloc::rcs::arc::Arc<T, A> as core::clone::Clone>::clone", "<trait_bound_typemap*Clone>::clone", "<core::io::error::ErrorKind as core::clone::Clone>::clone",
          "core::clone::impls::<impl core::clone::Clone for *"]


@c(*CLONES)
def clone(ex, st, a):
    p = a.args[0]
    v = ex.read(st, p)
    if isinstance(v, Seq) and a.inst and a.inst["args"]:
        e = a.inst["args"][0]
        if ex.m.T[e]["k"] == "adt" and not ex.m.T[e]["opaque"]:
            # a vector of values with their own Clone: clone one by one
            return clone_items(ex, st, p, v, e)
    if isinstance(v, Obj) and v.k == "symvec":
        # a vector of arbitrary length: what cloning does to an element is what cloning an arbitrary one does
        i = find_inst(ex, "core::clone::Clone::clone", v.elem) if ex.m.T[v.elem]["k"] == "adt" and not ex.m.T[v.elem]["opaque"] else None
        if i is None:
            return v
        st.ev("clone_elem", v.name, "e")

        def cont(ex, s, val):
            nm = v.name + "'"
            s.mem[("S", "%s[e]" % nm)] = val
            return v.set(name=nm)
        st.frames.append(KFrame(cont))
        ex.push_fn(st, i, [Ptr(p.a, p.p + (("e", "e"),))])
        return PUSHED
    return v


def find_inst(ex, trait_method, ty):
    for i, f in enumerate(ex.m.F):
        if f["trait"] == trait_method and f["body"] is not None and f["body"]["argc"] == 1:
            lt = ex.m.T[f["body"]["locals"][1]]
            if lt["k"] == "ref" and lt["to"] == ty:
                return i
    return None


def clone_items(ex, st, p, v, e):
    i = find_inst(ex, "core::clone::Clone::clone", e)
    if i is None:
        raise Undecided("clone of elements")

    def step(k, done):
        def cont(ex, s, val):
            d = done + ([val] if val is not None else [])
            if len(d) == len(v.items):
                return Seq(d)
            s.frames.append(KFrame(step(k + 1, d)))
            ex.push_fn(s, i, [Ptr(p.a, p.p + (("e", len(d)),))])
            return PUSHED
        return cont
    return step(0, [])(ex, st, None)


@c("core::slice::<impl [T]>::to_vec", "alloc::slice::<impl [T]>::to_vec", "alloc::slice::<impl *to_owned", "alloc::str::<impl *to_owned", "<T as alloc::borrow::ToOwned>::to_owned",
   "alloc::slice::<impl [T]>::into_vec", "<T as alloc::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec",
   "bytes::bytes::Bytes::copy_from_slice", "bytes::bytes::Bytes::from_static", "alloc::string::<impl *to_string", "<alloc::string::String as core::convert::From<&*",
   "<alloc::vec::Vec<*> as core::convert::From<&*", "<str as alloc::string::ToString>::to_string", "<alloc::string::String as alloc::string::ToString>::to_string",
   "<bytes::bytes::Bytes as core::convert::From<&*", "<bytes::bytes_mut::BytesMut as core::convert::From<&*", "alloc::str::<impl str>::to_owned", "alloc::string::String::from_utf8_unchecked",
   "alloc::str::<impl str>::into_string", "core::str::converts::from_utf8_unchecked")
def to_vec(ex, st, a):
    v = a.args[0]
    if isinstance(v, Rope):
        return v
    x = ex.read(st, v)
    for _ in range(4):
        if isinstance(x, Ptr):
            x = ex.read(st, x)
    if isinstance(x, (Rope,)):
        return x
    if isinstance(x, (int,)) or is_sym(x):
        bits = 8 if isinstance(x, int) else x.size()
        return text("dec", x, bits)
    return x


@c("<T as alloc::string::ToString>::to_string", "<T as alloc::string::SpecToString>::spec_to_string")
def to_string(ex, st, a):
    x = ex.read(st, a.args[0])
    for _ in range(4):
        if isinstance(x, Ptr):
            x = ex.read(st, x)
    if isinstance(x, Rope):
        return x
    return display(ex, st, a.args[0], a.fn["args"][0])


def text(tag, *args):
    n = z3.BitVec("textlen(%s)" % (",".join([tag] + [str(x) for x in args])), 64)
    return Rope([("t", (tag,) + tuple(str(x) for x in args), n)])


def display(ex, st, p, ty):
    """Display of a value, as text"""
    v = ex.read(st, p)
    for _ in range(4):
        if isinstance(v, Ptr):
            v = ex.read(st, v)
    if isinstance(v, Rope):
        return v
    if isinstance(v, int):
        return rconst(str(v).encode())
    if is_sym(v) and isinstance(v, z3.BitVecRef):
        r = text("dec", v)
        st.assume(z3.ULE(r.len, 20))
        st.assume(z3.UGE(r.len, 1))
        st.assume(ex.utf8_pred(r))
        return r
    return None


@c("<bytes::bytes::Bytes as core::convert::From<*", "<alloc::vec::Vec<*> as core::convert::From<*", "bytes::bytes_mut::BytesMut::freeze", "alloc::string::String::into_bytes",
   "<bytes::bytes_mut::BytesMut as core::convert::From<*", "<alloc::string::String as core::convert::From<alloc*", "alloc::vec::Vec::<T, A>::into_boxed_slice",
   "bytes::bytes_mut::<impl core::convert::From<*", "bytes::bytes::<impl core::convert::From<*", "alloc::boxed::convert::*", "generic_array::impls::<impl core::convert::From<*",
   "generic_array::<impl *From*", "alloc::string::<impl core::convert::From<*", "<generic_array::GenericArray<*From<*", "<bytes::bytes::Bytes as core::iter::traits::collect::FromIterator<u8>>::from_iter",
   "bytes::bytes_mut::BytesMut::split", "alloc::string::<impl core::convert::From<alloc::string::String> for alloc::vec::Vec<u8>>::from",
   "bytes::bytes::Bytes::to_vec")
def identity_bytes(ex, st, a):
    v = a.args[0]
    if a.path.endswith("::split"):
        r = rope_of(ex, st, v)
        ex.write(st, v, Rope())
        return r
    if isinstance(v, Ptr):
        return rope_of(ex, st, v)
    if isinstance(v, Seq) and all(isinstance(x, int) for x in v.items):
        return rconst(bytes(v.items))
    if not isinstance(v, (Rope, Seq)):
        raise Undecided("conversion of %r in %s" % (v, a.path))
    return v


def seqm(m, its):
    """a sequence that starts with any number m.n of elements, of which m.x is an arbitrary one"""
    return Obj("seqm", many=m, items=tuple(its), n=ladd(m.n, len(its)))


@c("alloc::vec::Vec::<T, A>::push", "alloc::string::String::push")
def push(ex, st, a):
    p, x = a.args
    v = ex.read(st, p)
    if isinstance(v, Rope):
        if a.path.startswith("alloc::string"):
            if isinstance(x, int):
                x = rconst(chr(x).encode())
            else:
                raise Undecided("push of a symbolic char")
        else:
            x = rint(x, 1)
        ex.write(st, p, v + x)
    elif isinstance(v, Seq):
        ex.write(st, p, Seq(v.items + (x,)))
    elif isinstance(v, Obj) and v.k == "seqm":
        ex.write(st, p, seqm(v.many, v.items + (x,)))
    else:
        raise Undecided("push to %r" % (v,))
    return UNIT


@c("alloc::vec::Vec::<T, A>::pop", "alloc::string::String::pop")
def pop(ex, st, a):
    p = a.args[0]
    v = ex.read(st, p)
    if isinstance(v, Seq):
        if not v.items:
            return NONE
        ex.write(st, p, Seq(v.items[:-1]))
        return Some(v.items[-1])
    if isinstance(v, Rope) and v.segs and v.segs[-1][0] == "c" and v.segs[-1][1][-1] < 128:
        last = v.segs[-1][1]
        ex.write(st, p, Rope(v.segs[:-1] + (("c", last[:-1]),)))
        return Some(last[-1])
    if isinstance(v, Rope) and not v.segs:
        return NONE
    raise Undecided("pop")


@c("alloc::vec::Vec::<T, A>::extend_from_slice", "bytes::bytes_mut::BytesMut::extend_from_slice", "alloc::string::String::push_str", "<bytes::bytes_mut::BytesMut as bytes::buf::buf_mut::BufMut>::put_slice",
   "<bytes::bytes_mut::BytesMut as bytes::buf::buf_mut::BufMut>::put", "<alloc::vec::Vec<u8> as bytes::buf::buf_mut::BufMut>::put_slice", "bytes::buf::buf_mut::BufMut::put_slice",
   "bytes::buf::buf_mut::BufMut::put", "bytes::buf::buf_mut::<impl bytes::buf::buf_mut::BufMut for alloc::vec::Vec<u8>>::put*", "<bytes::bytes_mut::BytesMut as core::iter::traits::collect::Extend<*>>::extend",
   "bytes::bytes_mut::BytesMut::unsplit", "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<*>>::extend")
def append_bytes(ex, st, a):
    p, x = a.args
    m = a.path.rsplit("::", 1)[-1]
    q = Ptr(*_through(ex, st, p))
    v = ex.read(st, q)
    if not isinstance(v, Rope):
        if isinstance(v, Seq):
            y = cont_of(ex, st, x)
            if isinstance(y, Seq):
                ex.write(st, q, Seq(v.items + y.items))
                return UNIT
        raise Undecided("append to %r" % (v,))
    if m == "put" and isinstance(x, Ptr):
        # a Buf by mutable reference is consumed
        r = rope_of(ex, st, x)
        if not isinstance(x.a, Const):
            raise Undecided("put of a borrowed buffer")
    else:
        r = rope_of(ex, st, x)
    ex.write(st, q, v + r)
    return UNIT


@c("bytes::buf::buf_mut::BufMut::put_*", "*BufMut>::put_u*", "*BufMut>::put_i*", "*BufMut for *::put_u*")
def put_int(ex, st, a):
    m = a.path.rsplit("::", 1)[-1]
    g = re.match(r"put_([ui])(8|16|32|64|128)(_le)?$", m)
    if not g:
        raise Undecided("no contract for %s" % a.path)
    n = int(g.group(2)) // 8
    p = Ptr(*_through(ex, st, a.args[0]))
    v = ex.read(st, p)
    x = bv(a.args[1], 8 * n)
    if g.group(3):
        x = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n)])
    if not isinstance(v, Rope):
        raise Undecided("put into %r" % (v,))
    ex.write(st, p, v + rint(norm_int(x), n))
    return UNIT


@c("byteorder::io::WriteBytesExt::write_*")
def wr_int(ex, st, a):
    m = a.path.rsplit("::", 1)[-1]
    g = re.match(r"write_([ui])(8|16|32|64)$", m)
    n = int(g.group(2)) // 8
    x = bv(a.args[1], 8 * n)
    if "Little" in "".join(ex.m.tn(t) for t in a.fn["args"]):
        x = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n)]) if n > 1 else x
    p = Ptr(*_through(ex, st, a.args[0]))
    v = ex.read(st, p)
    if not isinstance(v, Rope):
        raise Undecided("write into %r" % (v,))
    ex.write(st, p, v + rint(norm_int(x), n))
    return Ok()


@c("*BufMut>::put_bytes", "bytes::buf::buf_mut::BufMut::put_bytes")
def put_bytes(ex, st, a):
    p = Ptr(*_through(ex, st, a.args[0]))
    v = ex.read(st, p)
    ex.write(st, p, v + Rope([("f", norm_int(a.args[1]), norm_int(a.args[2]))]))
    return UNIT


@c("alloc::io::impls::<impl alloc::io::write::Write for alloc::vec::Vec<u8*>::write_all", "*Write for *Vec<u8*>::write_all")
def vec_write_all(ex, st, a):
    p = Ptr(*_through(ex, st, a.args[0]))
    v = ex.read(st, p)
    ex.write(st, p, v + rope_of(ex, st, a.args[1]))
    return Ok()


def split_front(ex, st, p, n):
    """remove n bytes from the front of the buffer; panics when there are fewer"""
    p = Ptr(*_through(ex, st, p))
    v = ex.read(st, p)
    ok, bad = ex.split(st, lule(n, v.len))
    out = []
    if bad is not None:
        out.append((bad, Panic("not enough bytes in the buffer")))
    if ok is not None:
        head = ex.rope_slice(ok, v, 0, n)
        tail = ex.rope_slice(ok, v, n, lsub(v.len, n))
        out.append((ok, head, tail, p))
    return out


@c("<bytes::bytes_mut::BytesMut as bytes::buf::buf_impl::Buf>::copy_to_bytes", "bytes::bytes_mut::BytesMut::split_to", "bytes::bytes::Bytes::split_to",
   "<bytes::bytes::Bytes as bytes::buf::buf_impl::Buf>::copy_to_bytes", "bytes::buf::buf_impl::Buf::copy_to_bytes")
def split_to(ex, st, a):
    out = []
    for o in split_front(ex, st, a.args[0], norm_int(a.args[1])):
        if len(o) == 2:
            out.append(o)
        else:
            s, head, tail, p = o
            ex.write(s, p, tail)
            out.append((s, head))
    return out


@c("bytes::bytes_mut::BytesMut::split_off", "bytes::bytes::Bytes::split_off", "alloc::vec::Vec::<T, A>::split_off")
def split_off(ex, st, a):
    out = []
    for o in split_front(ex, st, a.args[0], norm_int(a.args[1])):
        if len(o) == 2:
            out.append(o)
        else:
            s, head, tail, p = o
            ex.write(s, p, head)
            out.append((s, tail))
    return out


@c("*Buf>::advance", "bytes::buf::buf_impl::<impl *>::advance", "bytes::bytes_mut::BytesMut::advance", "bytes::bytes::Bytes::advance")
def advance(ex, st, a):
    out = []
    p0 = a.args[0]
    v0 = ex.read(st, p0)
    if isinstance(v0, Ptr):   # &mut &[u8]
        r = rope_of(ex, st, v0)
        ok, bad = ex.split(st, lule(a.args[1], r.len))
        if bad is not None:
            out.append((bad, Panic("advance past the end")))
        if ok is not None:
            ex.write(ok, p0, Ptr(Const(ex.rope_slice(ok, r, a.args[1], lsub(r.len, a.args[1])))))
            out.append((ok, UNIT))
        return out
    for o in split_front(ex, st, p0, norm_int(a.args[1])):
        if len(o) == 2:
            out.append(o)
        else:
            s, head, tail, p = o
            ex.write(s, p, tail)
            out.append((s, UNIT))
    return out


@c("*Buf>::copy_to_slice", "bytes::buf::buf_impl::Buf::copy_to_slice")
def copy_to_slice(ex, st, a):
    dst = a.args[1]
    n = ex.seq_len(st, dst)
    out = []
    for o in split_front(ex, st, a.args[0], n):
        if len(o) == 2:
            out.append(o)
        else:
            s, head, tail, p = o
            ex.write(s, p, tail)
            write_slice(ex, s, dst, head)
            out.append((s, UNIT))
    return out


@c("*Buf>::get_u*", "bytes::buf::buf_impl::Buf::get_u*")
def buf_get(ex, st, a):
    m = a.path.rsplit("::", 1)[-1]
    g = re.match(r"get_u(8|16|32|64|128)(_le)?$", m)
    if not g:
        raise Undecided("no contract for %s" % a.path)
    n = int(g.group(1)) // 8
    out = []
    v0 = ex.read(st, a.args[0])
    if isinstance(v0, Ptr) or (isinstance(v0, Obj) and v0.k == "cursor"):
        loc = reader_loc(ex, st, a.args[0])
        r = reader_rest(ex, st, loc)
        ok, bad = ex.split(st, lule(n, r.len))
        if bad is not None:
            out.append((bad, Panic("buffer underflow")))
        if ok is not None:
            out.append((ok, _end(rope_int(ex.rope_slice(ok, r, 0, n), n), n, g.group(2))))
            reader_adv(ex, ok, loc, n)
        return out
    for o in split_front(ex, st, a.args[0], n):
        if len(o) == 2:
            out.append(o)
        else:
            s, head, tail, p = o
            ex.write(s, p, tail)
            out.append((s, _end(rope_int(head, n), n, g.group(2))))
    return out


def _end(v, n, le):
    if not le or n == 1:
        return v
    x = bv(v, 8 * n)
    return norm_int(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n)]))


@c("alloc::vec::Vec::<T, A>::truncate", "bytes::bytes_mut::BytesMut::truncate", "bytes::bytes::Bytes::truncate")
def truncate(ex, st, a):
    p, n = a.args
    v = ex.read(st, p)
    ok, no = ex.split(st, lult(n, v.len if isinstance(v, Rope) else len(v.items)))
    if ok is not None:
        if isinstance(v, Rope):
            ex.write(ok, p, ex.rope_slice(ok, v, 0, n))
        else:
            ex.write(ok, p, Seq(v.items[:n]))
    return res((ok, UNIT), (no, UNIT))


@c("alloc::vec::Vec::<T, A>::resize", "bytes::bytes_mut::BytesMut::resize")
def resize(ex, st, a):
    p, n, x = a.args
    v = ex.read(st, p)
    if not isinstance(v, Rope):
        raise Undecided("resize")
    st.ev("alloc", n)
    lo, hi = ex.split(st, lule(n, v.len))
    if lo is not None:
        ex.write(lo, p, ex.rope_slice(lo, v, 0, n))
    if hi is not None:
        ex.write(hi, p, v + Rope([("f", x, lsub(n, v.len))]))
    return res((lo, UNIT), (hi, UNIT))


@c("alloc::vec::Vec::<T, A>::clear", "bytes::bytes_mut::BytesMut::clear", "bytes::bytes::Bytes::clear", "alloc::string::String::clear")
def clear(ex, st, a):
    v = ex.read(st, a.args[0])
    ex.write(st, a.args[0], Rope() if isinstance(v, Rope) else Seq(()))
    return UNIT


def range_of(ex, st, r, rty, n):
    """(start, end) of an index range value; None end for an index"""
    t = ex.m.T[rty]["name"]
    if "RangeFull" in t:
        return 0, n
    if "RangeFrom" in t:
        return r.f[0], n
    if "RangeToInclusive" in t:
        return 0, ladd(r.f[0], 1)
    if "RangeTo" in t:
        return 0, r.f[0]
    if "RangeInclusive" in t:
        return r.f[0], ladd(r.f[1], 1)
    if "Range" in t:
        return r.f[0], r.f[1]
    return None


def do_index(ex, st, base, idx, ity, mut):
    """outcomes of base[idx]; base a Ptr to a slice or container"""
    base = Ptr(*_through(ex, st, base))
    n = ex.seq_len(st, base)
    off = base.m[1] if base.m and base.m[0] == "sl" else 0
    rg = range_of(ex, st, idx, ity, n)
    if rg is None:
        if not (isinstance(idx, int) or is_sym(idx)):
            raise Undecided("index by %s" % ex.m.tn(ity))
        ok, bad = ex.split(st, lult(idx, n))
        v = ex.read(st, base)
        if isinstance(v, Obj) and v.k == "symvec":
            w = str(idx)
            if off != 0 or w not in ("idx_i", "idx_j"):
                raise Undecided("index of a container of any length")
            return ok, bad, (lambda s: Ptr(base.a, base.p + (("e", w[4:]),)))
        return ok, bad, (lambda s: Ptr(base.a, base.p + (("e", ladd(idx, off)),)))
    s0, e0 = rg
    ok, bad = ex.split(st, AND(lule(s0, e0), lule(e0, n)))

    def mk(s):
        v = ex.load(s, base.a, base.p)
        if isinstance(v, Rope) and not mut:
            return Ptr(Const(ex.rope_slice(s, v, ladd(s0, off), lsub(e0, s0))))
        return Ptr(base.a, base.p, ("sl", ladd(s0, off), lsub(e0, s0)))
    return ok, bad, mk


def int_val(ex, st, p):
    return p


@c("core::slice::index::<impl core::ops::index::Index<I> for [T]>::index", "<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index", "core::str::traits::<impl core::ops::index::Index<I> for str>::index",
   "core::array::<impl core::ops::index::Index<I> for [T; N]>::index", "<alloc::string::String as core::ops::index::Index<I>>::index", "<bytes::bytes::Bytes as core::ops::index::Index*")
def index(ex, st, a):
    ity = a.inst["args"][1] if len(a.inst["args"]) > 1 else a.fn["args"][1]
    for i in a.inst["args"]:
        if "ops::range" in ex.m.tn(i) or ex.m.tn(i) == "usize":
            ity = i
    ok, bad, mk = do_index(ex, st, a.args[0], a.args[1], ity, False)
    out = []
    if ok is not None:
        out.append((ok, mk(ok)))
    if bad is not None:
        out.append((bad, Panic("index out of bounds")))
    return out


@c("core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut", "<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut", "core::array::<impl core::ops::index::IndexMut<I> for [T; N]>::index_mut")
def index_mut(ex, st, a):
    ity = None
    for i in a.inst["args"]:
        if "ops::range" in ex.m.tn(i) or ex.m.tn(i) == "usize":
            ity = i
    ok, bad, mk = do_index(ex, st, a.args[0], a.args[1], ity, True)
    out = []
    if ok is not None:
        out.append((ok, mk(ok)))
    if bad is not None:
        out.append((bad, Panic("index out of bounds")))
    return out


@c("core::slice::<impl [T]>::get", "core::str::<impl str>::get")
def slice_get(ex, st, a):
    ity = a.inst["args"][-1]
    ok, bad, mk = do_index(ex, st, a.args[0], a.args[1], ity, False)
    out = []
    if ok is not None:
        out.append((ok, Some(mk(ok))))
    if bad is not None:
        out.append((bad, NONE))
    return out


@c("core::slice::<impl [T]>::first")
def slice_first(ex, st, a):
    b = Ptr(*_through(ex, st, a.args[0]))
    n = ex.seq_len(st, b)
    z, nz = ex.split(st, leq(n, 0))
    off = b.m[1] if b.m and b.m[0] == "sl" else 0
    return res((z, NONE), (nz, Some(Ptr(b.a, b.p + (("e", off),)))))


def write_slice(ex, st, dst, rope):
    """fill the whole slice dst with rope (same length)"""
    dst = Ptr(*_through(ex, st, dst))
    ex.write(st, dst, rope)


@c("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def copy_from_slice(ex, st, a):
    dst, src = a.args
    r = cont_of(ex, st, src)
    n = ex.seq_len(st, Ptr(*_through(ex, st, dst)))
    ok, bad = ex.split(st, leq(n, r.len if isinstance(r, Rope) else len(r.items)))
    if ok is not None:
        write_slice(ex, ok, dst, r)
    return res((ok, UNIT), (bad, Panic("copy_from_slice: lengths differ")))


@c("alloc::slice::<impl [T]>::repeat", "alloc::str::<impl str>::repeat")
def repeat(ex, st, a):
    r = rope_of(ex, st, a.args[0])
    n = a.args[1]
    if not isinstance(n, int) or n > 64:
        raise Undecided("repeat")
    out = Rope()
    for _ in range(n):
        out = out + r
    return out


@c("alloc::slice::<impl [T]>::concat")
def concat(ex, st, a):
    v = cont_of(ex, st, a.args[0])
    if isinstance(v, Seq):
        out = Rope()
        for x in v.items:
            out = out + rope_of(ex, st, x)
        return out
    raise Undecided("concat")


@c("core::slice::<impl [T]>::contains")
def contains(ex, st, a):
    v = cont_of(ex, st, a.args[0])
    x = ex.read(st, a.args[1])
    if isinstance(v, Obj) and v.k == "symvec":
        k = ex.rope_key(x) if isinstance(x, Rope) else str(x)
        st.ev("contains", v.name, x)
        st.assume(z3.Implies(z3.Bool("contains(%s,%s)" % (v.name, k)), zb(lult(0, symvec_len(v)))))
        return z3.Bool("contains(%s,%s)" % (v.name, k))
    if isinstance(v, Seq) and isinstance(x, Rope):
        return OR(*[rope_eq_atom(ex, st, y, x) for y in v.items])
    if isinstance(v, Seq):
        return OR(*[norm_bool(bv(y, 64) == bv(x, 64)) for y in v.items])
    if isinstance(v, Rope) and isinstance(v.len, int) and v.len <= 256:
        return OR(False, *[norm_bool(bv(rope_byte(v, i), 8) == bv(x, 8)) for i in range(v.len)])
    raise Undecided("contains")


def rope_eq_atom(ex, st, x, y):
    """formula for equality of two byte contents, used as an assumption as well"""
    if rope_same(x, y):
        return True
    if x.const() is not None and y.const() is not None:
        return x.const() == y.const()
    le = leq(x.len, y.len)
    if le is False:
        return False
    if isinstance(x.len, int) and isinstance(y.len, int) and x.len <= 64:
        return AND(*[norm_bool(bv(rope_byte(x, i), 8) == bv(rope_byte(y, i), 8)) for i in range(x.len)])
    cst = x if x.const() is not None else y if y.const() is not None else None
    if cst is not None and len(cst.const()) <= 64:
        o = y if cst is x else x
        return AND(le, *[norm_bool(bv(rope_byte(o, i), 8) == b) for i, b in enumerate(cst.const())])
    kx, ky = sorted([ex.rope_key(x), ex.rope_key(y)])
    return AND(le, z3.Bool("eq(%s;%s)" % (kx, ky)))


@c("*core::cmp::PartialEq*>::eq", "*core::cmp::PartialEq*>::ne")
def peq(ex, st, a):
    def get(v):
        for _ in range(8):
            if isinstance(v, Ptr):
                v = ex.read(st, v)
        return v
    x, y = get(a.args[0]), get(a.args[1])
    ne = a.path.endswith("::ne")

    def cmp(x, y):
        if isinstance(x, Rope) and isinstance(y, Rope):
            return rope_eq_atom(ex, st, x, y)
        if isinstance(x, (bool, z3.BoolRef)) and isinstance(y, (bool, z3.BoolRef)):
            return norm_bool(zb(x) == zb(y))
        if (isinstance(x, int) or is_sym(x)) and (isinstance(y, int) or is_sym(y)):
            b = x.size() if is_sym(x) else y.size() if is_sym(y) else 128
            return norm_bool(bv(x, b) == bv(y, b))
        if isinstance(x, Sym) or isinstance(y, Sym):
            vx = ex.variant(st, x)
            vy = ex.variant(st, y)
            if vx != vy:
                return False
            fx = ex.expand(st, x) if isinstance(x, Sym) else x
            fy = ex.expand(st, y) if isinstance(y, Sym) else y
            return AND(*[cmp(get(p), get(q)) for p, q in zip(fx.f, fy.f)])
        if isinstance(x, Agg) and isinstance(y, Agg):
            if x.v != y.v:
                return False
            return AND(*[cmp(get(p), get(q)) for p, q in zip(x.f, y.f)])
        if isinstance(x, Obj) and isinstance(y, Obj) and x.k == "dur" and y.k == "dur":
            return AND(norm_bool(bv(x.s, 64) == bv(y.s, 64)), norm_bool(bv(x.n, 32) == bv(y.n, 32)))
        raise Undecided("comparison of %r and %r" % (x, y))
    # the bodies of derived implementations in bromine are executed, not assumed
    r = cmp(x, y)
    return NOT(r) if ne else r


@c("alloc::string::String::from_utf8")
def from_utf8(ex, st, a):
    r = a.args[0]
    u = ex.is_utf8(st, r)
    ok, bad = ex.split(st, u)
    return res((ok, Ok(r)), (bad, Err(Obj("utf8err", rope=r))))


@c("core::str::converts::from_utf8", "core::str::<impl str>::from_utf8")
def str_from_utf8(ex, st, a):
    r = rope_of(ex, st, a.args[0])
    ok, bad = ex.split(st, ex.is_utf8(st, r))
    return res((ok, Ok(Ptr(Const(r)))), (bad, Err(Obj("utf8err", rope=r))))


@c("alloc::string::String::from_utf8_lossy")
def lossy(ex, st, a):
    r = rope_of(ex, st, a.args[0])
    ok, bad = ex.split(st, ex.is_utf8(st, r))
    return res((ok, Agg(0, (Ptr(Const(r)),))), (bad, Agg(1, (text("lossy", ex.rope_key(r)),))))


@c("alloc::borrow::Cow::<'_, B>::into_owned", "<alloc::borrow::Cow<*Deref>::deref")
def cow(ex, st, a):
    v = a.args[0]
    if isinstance(v, Ptr):
        return Ptr(Const(rope_of(ex, st, ex.read(st, v).f[0])))
    return rope_of(ex, st, v.f[0])


# ---- iteration over containers

@c("<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter", "core::slice::<impl [T]>::iter", "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &*>::into_iter",
   "<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter", "alloc::vec::<impl core::iter::traits::collect::IntoIterator for &*", "core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter",
   "core::array::<impl core::iter::traits::collect::IntoIterator for &*", "core::slice::<impl [T]>::iter_mut")
def into_iter(ex, st, a):
    v = a.args[0]
    if isinstance(v, (Rope, Seq)):
        n = v.len if isinstance(v, Rope) else len(v.items)
        return Obj("iter", src=v, i=0, n=n, by="val")
    if isinstance(v, Obj) and v.k == "seqm":
        return Obj("iter", src=v, i=0, n=None, by="val")
    if isinstance(v, Obj) and v.k == "symvec":
        return Obj("iter", src=st.alloc(v, "vec"), i=0, n=None, by="all")
    p = Ptr(*_through(ex, st, v)) if isinstance(v, Ptr) else None
    if p is None:
        raise Undecided("into_iter of %r" % (v,))
    cv = ex.read(st, p)
    n = ex.seq_len(st, p) if not (isinstance(cv, Obj) and cv.k == "symvec") else None
    return Obj("iter", src=p, i=0, n=n, by="ref")


@c("std::collections::hash::map::HashMap::<K, V, S, A>::iter", "std::collections::hash::map::HashMap::<K, V, S>::iter", "std::collections::hash::map::HashMap::<K, V, S, A>::keys", "std::collections::hash::map::HashMap::<K, V, S>::keys",
   "std::collections::hash::map::HashMap::<K, V, S, A>::values", "std::collections::hash::map::HashMap::<K, V, S>::values", "<&'a std::collections::hash::map::HashMap<K, V, S*> as core::iter::traits::collect::IntoIterator>::into_iter")
def hm_iter(ex, st, a):
    p = Ptr(*_through(ex, st, a.args[0]))
    mp = ex.read(st, p)
    if mp.base in st.gh.get("emptymaps", ()) or any(v is REMOVED for _, v in mp.ins):
        raise Undecided("iteration over a map that was found empty or had entries removed")
    by = {"keys": "key", "values": "value"}.get(a.path.rsplit("::", 1)[1], "entry")
    return Obj("iter", src=p, i=0, n=None, by=by)


def iter_item(ex, st, o, i):
    if o.by == "val":
        if isinstance(o.src, Rope):
            return rope_byte(o.src, i)
        return o.src.items[i]
    p = o.src
    off = p.m[1] if p.m and p.m[0] == "sl" else 0
    return Ptr(p.a, p.p + (("e", ladd(i, off)),))


@c("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next", "<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::next",
   "<core::array::iter::IntoIter<T, N> as core::iter::traits::iterator::Iterator>::next", "<std::collections::hash::map::Iter<'a, K, V> as core::iter::traits::iterator::Iterator>::next",
   "<std::collections::hash::map::Keys<'a, K, V> as core::iter::traits::iterator::Iterator>::next", "<std::collections::hash::map::Values<'a, K, V> as core::iter::traits::iterator::Iterator>::next")
def iter_next(ex, st, a):
    o = ex.read(st, a.args[0])
    if is_unbounded(ex, st, o):
        def put(s, o2, x):
            ex.write(s, a.args[0], o2)
            return NONE if x is None else Some(x)
        return [(s, put(s, o2, x)) for s, o2, x in unbounded_next(ex, st, o, ())]
    if not isinstance(o, Obj) or o.k != "iter" or not isinstance(o.n, int):
        raise Undecided("iteration over a container of unknown length")
    if o.i >= o.n:
        return NONE
    ex.write(st, a.args[0], o.set(i=o.i + 1))
    return Some(iter_item(ex, st, o, o.i))


def is_unbounded(ex, st, o):
    """an iterator over a list of any length whose elements are arbitrary, or over the entries of a map"""
    if not (isinstance(o, Obj) and o.k == "iter" and o.n is None and o.by in ("ref", "all", "entry", "key", "value")):
        return False
    v = ex.read(st, o.src)
    return isinstance(v, Obj) and (v.k == "symvec" or v.k == "hmap")


def repeated(ex, st, roots):
    """the loop is in a state in which it was before, after no further events: whatever it does from here it did from there"""
    m = machine.machine(ex, st, roots)
    seen = st.gh.get("loops", ())
    if any(n == len(st.trace) and x == m for n, x in seen):
        return True
    if len(seen) > 24:
        raise Undecided("a loop over a container of unknown length does not come back to a state it was in")
    st.gh["loops"] = seen + ((len(st.trace), m),)
    return False


def members(ex, st, v):
    """the values the goal tells apart in lists and maps of any length"""
    if v.k == "hmap":
        # the keys it was asked for
        x = st.gh.get("asked", {}).get(v.base or "", ())
        if not x:
            raise Undecided("iteration over a map without a key to tell apart")
        return x
    x = st.gh.get("members", {}).get(v.name, ())
    if x == "peer":
        # the key the peer sends: what was read first from the transport that was read from last
        tags = [e[1] for e in st.trace if e[0] == "read" and not isinstance(e[1], tuple)]
        return (ex.rope_slice(st, stream_content(ex, st, tags[-1]), 0, 32),) if tags else ()
    return x


def unbounded_next(ex, st, o, roots):
    """[(state, iterator, element | None)]: the next element of a list of any length. It is one of the values the goal tells apart (members),
    which the list contains exactly when contains() holds, or another one. A state that comes back is not followed again."""
    if repeated(ex, st, (o,) + tuple(roots)):
        return []
    v = ex.read(st, o.src)
    mine = o.d.get("seen", ())
    cands = members(ex, st, v)
    out = []

    def has(x):
        return z3.Bool(("has(%s,%s)" % (v.base, ex.rope_key(x))) if v.k == "hmap" else "contains(%s,%s)" % (v.name, ex.rope_key(x)))

    def item(s, w, key):
        p = Ptr(o.src.a, o.src.p + (("e", w),))
        if key is not None:
            s.mem[("S", "%s[%s]" % (v.name, w))] = key
        return p if o.by == "ref" else ex.read(s, p)
    if v.k == "hmap":
        return entries_next(ex, st, o, v, mine, cands, has)
    # the end: every member was there, and nothing at all if the list is empty
    e = st.copy()
    conds = [norm_bool(zb(has(x)) == zb(i in mine)) for i, x in enumerate(cands)]
    if v.k == "symvec":
        conds.append(norm_bool(zb(leq(symvec_len(v), 0)) == zb("some" not in o.d)))
    e, _ = ex.split(e, AND(*conds))
    if e is not None:
        e.assume(AND(*conds))
        out.append((e, o, None))
    for i, x in enumerate(cands):
        s, _ = ex.split(st.copy(), has(x))
        if s is not None:
            out.append((s, o.set(seen=tuple(sorted(set(mine) | {i})), some=True), item(s, "c%d" % i, x)))
    s = st.copy()
    w = s.fresh("f")
    it = item(s, w, None)
    key = ex.read(s, Ptr(o.src.a, o.src.p + (("e", w),)))
    if cands and not isinstance(key, Rope):
        raise Undecided("elements of %r" % (v,))
    diff = AND(*[NOT(rope_eq_atom(ex, s, key, x)) for x in cands])
    s, _ = ex.split(s, diff)
    if s is not None:
        s.assume(diff)
        out.append((s, o.set(seen=mine, some=True), it))
    if v.k == "symvec":
        out = [(q, o2, x) for q, o2, x in out if x is None or q.assume(lult(0, symvec_len(v))) is None]
    return out


def entries_next(ex, st, o, v, mine, cands, has):
    """the next entry of a map, in any order: one that was inserted and not replaced, that of a key the map was asked for, or another one"""
    out = []

    def item(s, key, vp):
        kp = Ptr(Const(key))
        return kp if o.by == "key" else vp if o.by == "value" else Agg(0, (kp, vp))

    def take(cond, tag, key, vp):
        s, _ = ex.split(st.copy(), cond)
        if s is not None:
            s.assume(cond)
            out.append((s, o.set(seen=tuple(sorted(set(mine) | {tag}))) if tag else o, item(s, key, vp(s))))
    keys = [k for k, _ in v.ins]
    live = [AND(*[NOT(rope_eq_atom(ex, st, k, k2)) for k2 in keys[i + 1:]]) for i, k in enumerate(keys)]

    def others(x):
        return [NOT(rope_eq_atom(ex, st, k, x)) for k in keys]
    base = [AND(*(([has(x)] if v.base is not None else [False]) + others(x))) for x in cands]
    conds = [norm_bool(zb(c) == zb(("c%d" % i) in mine)) for i, c in enumerate(base)] + [norm_bool(zb(c) == zb(("i%d" % i) in mine)) for i, c in enumerate(live)]
    e, _ = ex.split(st.copy(), AND(*conds))
    if e is not None:
        e.assume(AND(*conds))
        out.append((e, o, None))
    for i, c in enumerate(live):
        if "i%d" % i not in mine:
            take(c, "i%d" % i, keys[i], lambda s, i=i: Ptr(Const(v.ins[i][1])))
    for i, c in enumerate(base):
        if "c%d" % i not in mine:
            take(c, "c%d" % i, cands[i], lambda s, x=cands[i]: hm_base_ptr(ex, s, v, x))
    if v.base is not None:
        w = st.fresh("f")
        key = text("key", "%s,%s" % (v.base, w))
        take(AND(z3.Bool("has(%s,%s)" % (v.base, ex.rope_key(key))), *(others(key) + [NOT(rope_eq_atom(ex, st, key, x)) for x in cands])), None, key, lambda s: hm_base_ptr(ex, s, v, key))
    return out


@c("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::fold", "<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::fold")
def iter_fold(ex, st, a):
    o, init, f = a.args
    if is_unbounded(ex, st, o):
        fp = st.alloc(f, "clos")

        def turn(ex, s0, o1, acc):
            out = []
            for s, o2, x in unbounded_next(ex, s0, o1, (fp, acc)):
                q = acc if x is None else ex.call_closure(s, fp, [acc, x], lambda ex, s, r, o2=o2: settled(ex, s, o2, r))
                out += q if isinstance(q, list) else [(s, q)]
            return out

        def settled(ex, s, o2, r):
            if not isinstance(r, z3.BoolRef):
                return turn(ex, s, o2, r)
            y, n = ex.split(s, r)
            return (turn(ex, y, o2, True) if y is not None else []) + (turn(ex, n, o2, False) if n is not None else [])
        return turn(ex, st, o, init)
    if not isinstance(o, Obj) or not isinstance(o.n, int):
        raise Undecided("iteration over a container of unknown length")
    fp = st.alloc(f, "clos")

    def step(i):
        def cont(ex, s, acc):
            if i >= o.n:
                return acc
            return ex.call_closure(s, fp, [acc, iter_item(ex, s, o, i)], step(i + 1))
        return cont
    return step(o.i)(ex, st, init)


@c("<core::slice::iter::Iter<'a, T> as core::iter::traits::exact_size::ExactSizeIterator>::len", "<core::slice::iter::Iter<'_, T> as core::iter::traits::exact_size::ExactSizeIterator>::len")
def iter_len(ex, st, a):
    o = ex.read(st, a.args[0])
    return o.n - o.i


def any_item(ex, st, it, ty, w):
    """(condition that it is one of the iterator's, the element, its position, number of positions): element w of an iterator over a container
    of any length"""
    if isinstance(it, Obj) and it.k == "iter" and it.n is None and it.by == "ref" and it.i == 0:
        v = ex.read(st, it.src)
        if not (isinstance(v, Obj) and v.k == "symvec"):
            raise Undecided("iteration over a container of unknown length")
        n, i = symvec_len(v), z3.BitVec("idx_" + w, 64)
        return lult(i, n), Ptr(it.src.a, it.src.p + (("e", w),)), i, n
    t = ex.m.T[ty]
    p = t.get("path", "")
    if not isinstance(it, Agg) or not p.startswith("core::iter::adapters::"):
        raise Undecided("iteration over %s" % t["name"])
    kind = p.rsplit("::", 1)[1]
    c, x, i, n = any_item(ex, st, it.f[0], t["args"][0], w)
    if kind == "Rev":
        return c, x, lsub(lsub(n, 1), i), n
    if kind == "Enumerate":
        return c, Agg(0, (ladd(it.f[1], i), x)), i, n
    if kind == "Take":
        return AND(c, lult(i, it.f[1])), x, i, z3.If(zb(lult(n, it.f[1])), bv(n, 64), bv(it.f[1], 64))
    if kind == "Skip":
        return AND(c, lule(it.f[1], i)), x, lsub(i, it.f[1]), z3.If(zb(lult(n, it.f[1])), bv(0, 64), bv(lsub(n, it.f[1]), 64))
    raise Undecided("iteration over %s" % t["name"])


def symvec_len(v):
    return z3.BitVec("len(%s)" % v.name, 64)


@c("core::iter::traits::iterator::Iterator::min_by_key", "core::iter::traits::iterator::Iterator::max_by_key", "core::iter::traits::iterator::Iterator::min_by", "core::iter::traits::iterator::Iterator::max_by")
def min_by_key(ex, st, a):
    """the element with the least (greatest) key: the first (last) one of those"""
    o, f = a.args
    op = a.path.rsplit("::", 1)[1]
    ty = a.argtys[0] if a.argtys else None
    fp = st.alloc(f, "clos") if not isinstance(f, FnV) else f

    def below(ki, kj):
        if not ((is_sym(ki) or isinstance(ki, int)) and (is_sym(kj) or isinstance(kj, int))):
            raise Undecided("key of %s" % op)
        return lule(ki, kj) if op == "min_by_key" else lule(kj, ki)

    def ordering_is(ex, s, r, n):
        """the result of a comparison is Less (-1), Equal, Greater (1)"""
        return ex.variant(s, r) - 1 == n

    base = o
    while isinstance(base, Agg) and len(base.f) and ty is not None:
        base = base.f[0]
    if isinstance(base, Obj) and base.k == "iter" and base.n is None:
        # the chosen position i and an arbitrary position j of a vector of arbitrary length
        ci, xi, _, n = any_item(ex, st, o, ty, "i")
        cj, xj, _, _ = any_item(ex, st, o, ty, "j")
        empty, some = ex.split(st, leq(n, 0))
        out = []
        if empty is not None:
            out.append((empty, NONE))
        if some is not None:
            some.assume(ci)

            def chosen(ex, s):
                if any(e[0] == "pick" for e in s.trace):
                    raise Undecided("a second search of a container of any length")
                s.ev("pick", "i", "j")
                return Some(xi)
            if op.endswith("_key"):
                def k1(ex, s, ki):
                    def k2(ex, s2, kj):
                        s2.assume(OR(NOT(cj), below(ki, kj)))
                        return chosen(ex, s2)
                    return ex.call_closure(s, fp, [s.alloc(xj, "r")], k2)
                out.append((some, ex.call_closure(some, fp, [some.alloc(xi, "r")], k1)))
            else:
                def k1(ex, s, r):
                    bad = 1 if op == "min_by" else -1
                    s.assume(OR(NOT(cj), NOT(ordering_is(ex, s, r, bad))))
                    return chosen(ex, s)
                out.append((some, ex.call_closure(some, fp, [some.alloc(xi, "r"), some.alloc(xj, "r")], k1)))
        return out
    import lib2

    def over(ex, st, l):
        if op.endswith("_key"):
            return over_keys(ex, st, l)

        def step(i, best):
            def cont(ex, s, r):
                b = best
                if i > 0:
                    gt = ordering_is(ex, s, r, 1)
                    b = l[i] if gt == (op == "min_by") else best
                if i + 1 >= len(l):
                    return Some(b)
                return ex.call_closure(s, fp, [s.alloc(b, "r"), s.alloc(l[i + 1], "r")], step(i + 1, b))
            return cont
        return step(0, l[0])(ex, st, None) if l else NONE

    def over_keys(ex, st, l):
        def step(i, keys):
            def cont(ex, s, k):
                ks = keys + ([k] if i > 0 else [])
                if i == len(l):
                    if not l:
                        return NONE
                    out, rest = [], s
                    # the first minimum, the last maximum
                    for j in range(len(l)):
                        tie = ks[:j] if op == "min_by_key" else ks[j + 1:]
                        lt = (lambda x: lult(ks[j], x)) if op == "min_by_key" else (lambda x: lult(x, ks[j]))
                        cnd = AND(*([below(ks[j], x) for x in ks] + [lt(x) for x in tie]))
                        if rest is None:
                            break
                        y, rest = ex.split(rest, cnd)
                        if y is not None:
                            out.append((y, Some(l[j])))
                    return out
                return ex.call_closure(s, fp, [s.alloc(l[i], "r")], step(i + 1, ks))
            return cont
        return step(0, [])(ex, st, None)
    return lib2.items(ex, st, o, ty, over)


@c("<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter")
def vec_from_iter(ex, st, a):
    """collect: drive the iterator (Map over a vector of known length)"""
    it = a.args[0]
    src, f = None, None
    if isinstance(it, Obj) and it.k == "iter":
        src = it
    elif isinstance(it, Agg) and len(it.f) == 2 and isinstance(it.f[0], Obj) and it.f[0].k == "iter":
        src, f = it.f
    if src is None or not isinstance(src.n, int):
        raise Undecided("collect of %r" % (it,))
    if f is None:
        return Seq([iter_item(ex, st, src, i) for i in range(src.i, src.n)])
    fp = st.alloc(f, "clos") if not isinstance(f, FnV) else f

    def step(i, acc):
        def cont(ex, s, v):
            ac = acc + ([v] if i > src.i else [])
            if i >= src.n:
                return Seq(ac)
            return ex.call_closure(s, fp, [iter_item(ex, s, src, i)], step(i + 1, ac))
        return cont
    return step(src.i, [])(ex, st, None)


# ==================================================================== numbers, memory, intrinsics

@c("core::num::<impl *>::checked_*")
def checked(ex, st, a):
    g = re.match(r"core::num::<impl ([ui])(\w+)>::checked_(add|sub|mul|div|rem)$", a.path)
    if not g:
        raise Undecided(a.path)
    bits = 64 if g.group(2) == "size" else int(g.group(2))
    op = g.group(3).capitalize()
    x, y = a.args
    if op in ("Div", "Rem"):
        ovf = norm_bool(bv(y, bits) == 0)
        bad, ok = ex.split(st, ovf)
        return res((ok, Some(ex.arith(op, x, y, bits, g.group(1) == "i")[0])), (bad, NONE))
    r, o = ex.arith(op, x, y, bits, g.group(1) == "i")
    bad, ok = ex.split(st, o)
    return res((ok, Some(r)), (bad, NONE))


@c("core::num::<impl *>::wrapping_*", "core::num::<impl *>::unchecked_*")
def wrapping(ex, st, a):
    g = re.match(r"core::num::<impl ([ui])(\w+)>::(?:wrapping|unchecked)_(add|sub|mul|shl|shr)$", a.path)
    if not g:
        raise Undecided(a.path)
    bits = 64 if g.group(2) == "size" else int(g.group(2))
    return ex.arith(g.group(3).capitalize(), a.args[0], a.args[1], bits, g.group(1) == "i")[0]


@c("core::num::<impl *>::saturating_*")
def saturating(ex, st, a):
    g = re.match(r"core::num::<impl u(\w+)>::saturating_(add|sub|mul)$", a.path)
    if not g:
        raise Undecided(a.path)
    bits = 64 if g.group(1) == "size" else int(g.group(1))
    r, o = ex.arith(g.group(2).capitalize(), a.args[0], a.args[1], bits, False)
    lim = 0 if g.group(2) == "sub" else (1 << bits) - 1
    if isinstance(o, bool):
        return lim if o else r
    return norm_int(z3.If(o, z3.BitVecVal(lim, bits), bv(r, bits)))


@c("core::num::<impl *>::overflowing_*")
def overflowing(ex, st, a):
    g = re.match(r"core::num::<impl ([ui])(\w+)>::overflowing_(add|sub|mul)$", a.path)
    if not g:
        raise Undecided(a.path)
    bits = 64 if g.group(2) == "size" else int(g.group(2))
    return Agg(0, ex.arith(g.group(3).capitalize(), a.args[0], a.args[1], bits, g.group(1) == "i"))


@c("core::num::<impl *>::to_be_bytes", "core::num::<impl *>::to_le_bytes", "core::num::<impl *>::to_ne_bytes")
def to_be(ex, st, a):
    g = re.match(r"core::num::<impl [ui](\w+)>::to_(be|le|ne)_bytes$", a.path)
    n = (64 if g.group(1) == "size" else int(g.group(1))) // 8
    v = a.args[0]
    if g.group(2) != "be":
        v = _end(v, n, True)
    return rint(v, n)


@c("core::num::<impl *>::from_be_bytes", "core::num::<impl *>::from_le_bytes", "core::num::<impl *>::from_ne_bytes")
def from_be(ex, st, a):
    g = re.match(r"core::num::<impl [ui](\w+)>::from_(be|le|ne)_bytes$", a.path)
    n = (64 if g.group(1) == "size" else int(g.group(1))) // 8
    return _end(rope_int(a.args[0], n), n, g.group(2) != "be")


@c("core::num::<impl *>::swap_bytes", "core::num::<impl *>::to_be", "core::num::<impl *>::from_be")
def swap_bytes(ex, st, a):
    g = re.match(r"core::num::<impl [ui](\w+)>", a.path)
    n = (64 if g.group(1) == "size" else int(g.group(1))) // 8
    return _end(a.args[0], n, True)


@c("core::convert::num::<impl core::convert::TryFrom<*", "core::convert::num::ptr_try_from_impls::<impl core::convert::TryFrom<*")
def int_try_from(ex, st, a):
    g = re.search(r"TryFrom<(\w+)> for (\w+)>", a.path)
    from core import INT_BITS
    if not g or g.group(1) not in INT_BITS or g.group(1)[0] == "i" or g.group(2)[0] == "i":
        raise Undecided(a.path)
    fb, tb = INT_BITS[g.group(1)], INT_BITS[g.group(2)]
    x = a.args[0]
    if tb >= fb:
        return Ok(norm_int(z3.ZeroExt(tb - fb, bv(x, fb))) if tb > fb else x)
    ok, bad = ex.split(st, norm_bool(z3.ULT(bv(x, fb), 1 << tb)))
    return res((ok, Ok(norm_int(z3.Extract(tb - 1, 0, bv(x, fb))))), (bad, Err(Obj("tryfromint"))))


@c("core::intrinsics::integer_min", "core::intrinsics::integer_max", "core::cmp::impls::<impl core::cmp::Ord for *>::min", "core::cmp::impls::<impl core::cmp::Ord for *>::max")
def int_min(ex, st, a):
    x, y = a.args
    ty = a.argtys[0] if a.argtys else None
    bits = ex.m.T[ty].get("bits", 64) if ty is not None else 64
    if ty is not None and ex.m.T[ty].get("signed"):
        raise Undecided("signed min")
    lt = norm_bool(z3.ULE(bv(x, bits), bv(y, bits)))
    if a.path.endswith("max"):
        x, y = y, x
    s1, s2 = ex.split(st, lt)
    return res((s1, x), (s2, y))


@c("core::mem::replace", "core::mem::take_with")
def mem_replace(ex, st, a):
    old = ex.read(st, a.args[0])
    ex.write(st, a.args[0], a.args[1])
    return old


@c("core::mem::swap")
def mem_swap(ex, st, a):
    x, y = ex.read(st, a.args[0]), ex.read(st, a.args[1])
    ex.write(st, a.args[0], y)
    ex.write(st, a.args[1], x)
    return UNIT


@c("core::mem::drop")
def mem_drop(ex, st, a):
    ty = a.fn["args"][0]
    p = st.alloc(a.args[0], "drop")
    return ex.do_drop(st, p, ty)


@c("core::mem::forget", "core::intrinsics::cold_path", "core::intrinsics::assume", "core::intrinsics::assert_*", "core::hint::*assert_unchecked*", "core::panicking::*precondition*", "*::precondition_check",
   "core::task::poll::*_unused")
def nop(ex, st, a):
    return UNIT


@c("core::ptr::read", "core::intrinsics::read_via_copy", "core::ptr::const_ptr::<impl *>::read", "core::ptr::mut_ptr::<impl *>::read")
def ptr_read(ex, st, a):
    return ex.read(st, a.args[0])


@c("core::ptr::write", "core::intrinsics::write_via_move", "core::ptr::mut_ptr::<impl *>::write")
def ptr_write(ex, st, a):
    ex.write(st, a.args[0], a.args[1])
    return UNIT


@c("core::intrinsics::transmute", "core::intrinsics::transmute_unchecked")
def transmute(ex, st, a):
    return a.args[0]


@c("core::intrinsics::ub_checks", "core::ub_checks::*", "core::intrinsics::ub_checks*")
def false_(ex, st, a):
    return False


@c("core::mem::size_of*", "core::mem::align_of*", "core::intrinsics::size_of*", "core::intrinsics::align_of*", "core::mem::size_of", "core::mem::needs_drop")
def sizeof(ex, st, a):
    t = ex.m.T[a.fn["args"][0]] if a.fn["args"] else None
    if t and t["k"] == "int" and "size" in a.path:
        return t["bits"] // 8
    raise Undecided(a.path)


@c("core::panicking::*", "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed*", "std::rt::*panic*", "std::panicking::*", "core::slice::index::slice_*_fail*", "core::cell::panic*")
def panics(ex, st, a):
    return Panic("panic in %s" % a.path)


@c("alloc::boxed::Box::<T>::new", "alloc::boxed::Box::<T, A>::new_in", "alloc::rcs::arc::Arc::<T>::new", "alloc::sync::Arc::<T>::new", "alloc::boxed::Box::<T>::from")
def box_new(ex, st, a):
    return st.alloc(a.args[0], "box")


@c("alloc::boxed::Box::<T>::pin", "alloc::boxed::Box::<T, A>::into_pin", "<core::pin::Pin<alloc::boxed::Box<T, A>> as core::convert::From<*", "alloc::boxed::convert::<impl core::convert::From<alloc::boxed::Box<T, A>> for core::pin::Pin<*",
   "alloc::rcs::arc::Arc::<T>::pin")
def box_pin(ex, st, a):
    v = a.args[0]
    if a.path.endswith("::pin"):
        v = st.alloc(v, "box")
    return Agg(0, (v,))


@c("<alloc::boxed::Box<T, A> as core::ops::deref::Deref*", "<alloc::rcs::arc::Arc<T, A> as core::ops::deref::Deref>::deref", "<alloc::rcs::arc::Arc<T, A> as core::convert::AsRef<T>>::as_ref",
   "<alloc::boxed::Box<T, A> as core::convert::As*", "<alloc::rcs::arc::Arc<T, A> as core::borrow::Borrow<T>>::borrow")
def arc_deref(ex, st, a):
    v = ex.read(st, a.args[0])
    if isinstance(v, Ptr):
        return v
    raise Undecided("deref of %r" % (v,))


@c("<alloc::rcs::arc::Arc<T> as core::convert::From<T>>::from")
def arc_from(ex, st, a):
    return st.alloc(a.args[0], "box")


@c("alloc::rcs::arc::Arc::<T, A>::strong_count")
def strong(ex, st, a):
    return z3.BitVec(st.fresh("strong"), 64)


@c("alloc::rcs::arc::Arc::<T, A>::ptr_eq")
def ptr_eq(ex, st, a):
    x, y = ex.read(st, a.args[0]), ex.read(st, a.args[1])
    return x.a == y.a and x.p == y.p


def default_value(ex, st, ty):
    t = ex.m.T[ty]
    if t["k"] == "adt":
        p = t["path"]
        if p == "dashmap::DashMap":
            return Obj("dashmap", id=st.fresh("dashmap"))
        if p == "std::collections::hash::map::HashMap":
            return Obj("hmap", base=None, ins=(), kty=t["args"][0], vty=t["args"][1])
        if p.startswith("core::sync::atomic::Atomic"):
            return Obj("atomic", v=0, bits=ex.m.T[t["args"][0]].get("bits", 64), id=st.fresh("atomic"), shared=False)
        if p in ("alloc::string::String", "bytes::bytes::Bytes", "bytes::bytes_mut::BytesMut"):
            return Rope()
    return None


@c("<alloc::rcs::arc::Arc<T> as core::default::Default>::default", "<alloc::boxed::Box<T> as core::default::Default>::default")
def arc_default(ex, st, a):
    ty = a.inst["args"][0]
    v = default_value(ex, st, ty)
    if v is not None:
        return st.alloc(v, "box")
    for i, f in enumerate(ex.m.F):
        if f["trait"] == "core::default::Default::default" and f["body"] is not None and f["body"]["locals"][0] == ty:
            st.frames.append(KFrame(lambda ex, s, v: s.alloc(v, "box")))
            ex.push_fn(st, i, [])
            return PUSHED
    # a plain struct whose parts have known defaults
    t = ex.m.T[ty]
    if t["k"] == "adt" and t["raw"].startswith("bromine"):
        raise Undecided("default of %s" % t["name"])
    raise Undecided("default of %s" % t["name"])


@c("<std::collections::hash::map::HashMap<K, V, S> as core::default::Default>::default", "std::collections::hash::map::HashMap::<K, V>::new", "std::collections::hash::map::HashMap::<K, V>::with_capacity",
   "<dashmap::DashMap<K, V, S> as core::default::Default>::default", "dashmap::DashMap::<K, V>::new", "dashmap::DashMap::<K, V>::with_capacity", "<core::sync::atomic::Atomic<*Default>::default")
def lib_default(ex, st, a):
    if "HashMap" in a.path:
        k, v = a.inst["args"][0], a.inst["args"][1]
        return Obj("hmap", base=None, ins=(), kty=k, vty=v)
    if "DashMap" in a.path:
        return Obj("dashmap", id=st.fresh("dashmap"))
    g = re.match(r"<core::sync::atomic::Atomic<([ui]\w+|bool|T)> as", a.path)
    if g:
        from core import INT_BITS
        return Obj("atomic", v=0 if g.group(1) != "bool" else False, bits=INT_BITS.get(g.group(1), 64), id=st.fresh("atomic"), shared=False)
    raise Undecided(a.path)


# ==================================================================== hash maps (String -> V)

REMOVED = Obj("removed")


def hm_lookup(ex, st, mp, key):
    """[(state, index of the inserted entry | 'base' | None)]"""
    asked, base = st.gh.get("asked", {}), mp.base or ""
    if not any(rope_same(x, key) for x in asked.get(base, ())):
        st.gh["asked"] = {**asked, base: asked.get(base, ()) + (key,)}
    out = []
    cur = st
    for i in range(len(mp.ins) - 1, -1, -1):
        if cur is None:
            break
        k, v = mp.ins[i]
        e = rope_eq_atom(ex, cur, k, key)
        hit, cur = ex.split(cur, e)
        if hit is not None:
            out.append((hit, None if v is REMOVED else i))
    if cur is not None:
        if mp.base is None or mp.base in cur.gh.get("emptymaps", ()):
            out.append((cur, None))
        else:
            b = z3.Bool("has(%s,%s)" % (mp.base, ex.rope_key(key)))
            y, n = ex.split(cur, b)
            if y is not None:
                out.append((y, "base"))
            if n is not None:
                out.append((n, None))
    return out


def hm_base_ptr(ex, st, mp, key):
    a = ("S", "%s[%s]" % (mp.base, ex.rope_key(key)))
    if a not in st.mem:
        if "dyn" in ex.m.tn(mp.vty) and "Fn(" in ex.m.tn(mp.vty):
            cb = ("S", a[1] + ".cb")
            st.mem[cb] = Obj("callback", id=a[1], key=key)
            st.mem[a] = Ptr(cb)
        else:
            st.mem[a] = ex.sym(st, mp.vty, a[1])
    return Ptr(a)


def key_rope(ex, st, k):
    for _ in range(6):
        if isinstance(k, Ptr):
            k = ex.read(st, k)
    if not isinstance(k, Rope):
        raise Undecided("map key %r" % (k,))
    return k


@c("std::collections::hash::map::HashMap::<K, V, S, A>::get", "std::collections::hash::map::HashMap::<K, V, S>::get", "std::collections::hash::map::HashMap::<K, V, S, A>::contains_key",
   "std::collections::hash::map::HashMap::<K, V, S, A>::get_mut")
def hm_get(ex, st, a):
    p = Ptr(*_through(ex, st, a.args[0]))
    mp = ex.read(st, p)
    key = key_rope(ex, st, a.args[1])
    out = []
    for s, w in hm_lookup(ex, st, mp, key):
        if a.path.endswith("contains_key"):
            out.append((s, w is not None))
        elif w is None:
            out.append((s, NONE))
        elif w == "base":
            out.append((s, Some(hm_base_ptr(ex, s, mp, key))))
        else:
            if a.path.endswith("get_mut"):
                raise Undecided("get_mut")
            out.append((s, Some(Ptr(Const(mp.ins[w][1])))))
    return out


@c("<std::collections::hash::map::HashMap<K, Q, V, S, A> as core::ops::index::Index*", "<std::collections::hash::map::HashMap<K, V, S*> as core::ops::index::Index*")
def hm_index(ex, st, a):
    p = Ptr(*_through(ex, st, a.args[0]))
    mp = ex.read(st, p)
    key = key_rope(ex, st, a.args[1])
    out = []
    for s, w in hm_lookup(ex, st, mp, key):
        if w is None:
            out.append((s, Panic("no entry for the key")))
        elif w == "base":
            out.append((s, hm_base_ptr(ex, s, mp, key)))
        else:
            out.append((s, Ptr(Const(mp.ins[w][1]))))
    return out


@c("std::collections::hash::map::HashMap::<K, V, S, A>::insert", "std::collections::hash::map::HashMap::<K, V, S>::insert")
def hm_insert(ex, st, a):
    p = a.args[0]
    key, v = key_rope(ex, st, a.args[1]), a.args[2]
    mp = ex.read(st, p)
    out = []
    for s, w in hm_lookup(ex, st, mp, key):
        old = NONE if w is None else Some(ex.read(s, hm_base_ptr(ex, s, mp, key))) if w == "base" else Some(mp.ins[w][1])
        ex.write(s, p, mp.set(ins=mp.ins + ((key, v),)))
        out.append((s, old))
    return out


@c("std::collections::hash::map::HashMap::<K, V, S, A>::remove", "std::collections::hash::map::HashMap::<K, V, S>::remove")
def hm_remove(ex, st, a):
    p = Ptr(*_through(ex, st, a.args[0]))
    mp = ex.read(st, p)
    key = key_rope(ex, st, a.args[1])
    out = []
    for s, w in hm_lookup(ex, st, mp, key):
        old = NONE if w is None else Some(ex.read(s, hm_base_ptr(ex, s, mp, key))) if w == "base" else Some(mp.ins[w][1])
        if w is not None:
            ex.write(s, p, mp.set(ins=mp.ins + ((key, REMOVED),)))
        out.append((s, old))
    return out


@c("std::collections::hash::map::HashMap::<K, V, S, A>::is_empty", "std::collections::hash::map::HashMap::<K, V, S>::is_empty")
def hm_is_empty(ex, st, a):
    p = Ptr(*_through(ex, st, a.args[0]))
    mp = ex.read(st, p)
    if any(v is REMOVED for _, v in mp.ins):
        raise Undecided("is_empty of a map after a removal")
    if mp.ins:
        return False
    if mp.base is None or mp.base in st.gh.get("emptymaps", ()):
        return True
    # empty, so that it has none of the keys, or not
    e, n = ex.split(st.copy(), z3.Bool("empty(%s)" % mp.base))
    out = []
    if e is not None:
        e.gh["emptymaps"] = tuple(sorted(set(e.gh.get("emptymaps", ())) | {mp.base}))
        for k in e.gh.get("asked", {}).get(mp.base, ()):
            e.assume(z3.Not(z3.Bool("has(%s,%s)" % (mp.base, ex.rope_key(k)))))
        if ex.check(e.pc) != "unsat":
            out.append((e, True))
    if n is not None:
        out.append((n, False))
    return out


@c("std::collections::hash::map::HashMap::<K, V, S, A>::entry", "std::collections::hash::map::HashMap::<K, V, S>::entry")
def hm_entry(ex, st, a):
    p = a.args[0]
    return Obj("hentry", map=p, key=key_rope(ex, st, a.args[1]))


@c("std::collections::hash::map::Entry::<'a, K, V*>::or_insert*")
def hm_or_insert(ex, st, a):
    e = a.args[0]
    op = a.path.rsplit("::", 1)[1]
    if op not in ("or_insert", "or_insert_with", "or_insert_with_key"):
        raise Undecided(op)
    mp = ex.read(st, e.map)

    def add(ex, s, v):
        ex.write(s, e.map, mp.set(ins=mp.ins + ((e.key, v),)))
        return Ptr(Const(v))
    out = []
    for s, w in hm_lookup(ex, st, mp, e.key):
        if w is None and op == "or_insert":
            out.append((s, add(ex, s, a.args[1])))
        elif w is None:
            out.append((s, ("call", [s.alloc(e.key, "key")] if op.endswith("key") else [])))
        elif w == "base":
            out.append((s, hm_base_ptr(ex, s, mp, e.key)))
        else:
            out.append((s, Ptr(Const(mp.ins[w][1]))))
    return calls(ex, out, a.args[1], add)


def calls(ex, out, clos, cont):
    """the results of a contract, those marked ("call", arguments) given by calling the closure first"""
    r = []
    for s, v in out:
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "call":
            q = ex.call_closure(s, clos, v[1], cont)
            r += [(s, q)] if q is PUSHED else _deliver_list(ex, q if isinstance(q, list) else [(s, q)])
        else:
            r.append((s, v))
    return r


# ==================================================================== dashmap (reply listeners): shared with other tasks

@c("dashmap::DashMap::<K, V, S>::insert")
def dm_insert(ex, st, a):
    mp = ex.read(st, Ptr(*_through(ex, st, a.args[0])))
    s2 = st.copy()
    for x in (st, s2):
        x.ev("map_insert", mp.id, a.args[1], a.args[2])
    # a value of the same key may have been there
    return [(st, NONE), (s2, Some(Obj("tx", ch=("listener", mp.id, "replaced"))))]


@c("dashmap::DashMap::<K, V, S>::remove")
def dm_remove(ex, st, a):
    mp = ex.read(st, Ptr(*_through(ex, st, a.args[0])))
    k = ex.read(st, a.args[1])
    st.ev("map_remove", mp.id, k)
    s2 = st.copy()
    return [(st, NONE), (s2, Some(Agg(0, (k, Obj("tx", ch=("listener", mp.id, "removed"))))))]


@c("dashmap::DashMap::<K, V, S>::remove_if")
def dm_remove_if(ex, st, a):
    """the entry is removed if there is one and the closure says so of its key and value"""
    mp = ex.read(st, Ptr(*_through(ex, st, a.args[0])))
    k = ex.read(st, a.args[1])
    none = st.copy()
    none.ev("map_remove", mp.id, k)
    tx = Obj("tx", ch=("listener", mp.id, keyname(k)))

    def done(ex, s, r):
        no = s.copy()
        yes, no = ex.split(s, r)
        out = []
        if yes is not None:
            yes.ev("map_remove", mp.id, k)
            out.append((yes, Some(Agg(0, (k, tx)))))
        if no is not None:
            no.ev("map_kept", mp.id, k)
            out.append((no, NONE))
        return out
    return calls(ex, [(none, NONE), (st, ("call", [st.alloc(k, "key"), st.alloc(tx, "tx")]))], a.args[2], done)


@c("dashmap::DashMap::<K, V, S>::contains_key")
def dm_contains(ex, st, a):
    mp = ex.read(st, Ptr(*_through(ex, st, a.args[0])))
    k = ex.read(st, a.args[1])
    s2 = st.copy()
    st.ev("map_get", mp.id, k, False)
    s2.ev("map_get", mp.id, k, True)
    return [(st, False), (s2, True)]


@c("dashmap::DashMap::<K, V, S>::get", "dashmap::DashMap::<K, V, S>::get_mut")
def dm_get(ex, st, a):
    mp = ex.read(st, Ptr(*_through(ex, st, a.args[0])))
    k = ex.read(st, a.args[1])
    hit = st.copy()
    st.ev("map_get", mp.id, k, False)
    hit.ev("map_get", mp.id, k, True)
    tx = hit.alloc(Obj("tx", ch=("listener", mp.id, keyname(k))), "tx")
    return [(st, NONE), (hit, Some(Obj("mapref", map=mp.id, key=k, val=tx)))]


def keyname(k):
    return str(k).replace("\n", " ")


@c("dashmap::mapref::one::Ref::<'a, K, V, S>::value", "<dashmap::mapref::one::Ref<'a, K, V, S> as core::ops::deref::Deref>::deref", "dashmap::mapref::one::RefMut::<'a, K, V, S>::value")
def dm_value(ex, st, a):
    return ex.read(st, a.args[0]).val


@c("dashmap::mapref::one::Ref::<'a, K, V, S>::key")
def dm_key(ex, st, a):
    return st.alloc(ex.read(st, a.args[0]).key)


# ==================================================================== atomics, time, randomness, lazies

def _atomic_op(a):
    return a.path.rsplit("::", 1)[-1]


@c("core::sync::atomic::Atomic::<*>::*")
def atomic(ex, st, a):
    g = re.match(r"core::sync::atomic::Atomic::<([ui]\w+|bool|T)>::(\w+)$", a.path)
    if not g:
        raise Undecided(a.path)
    op = g.group(2)
    from core import INT_BITS
    bits = INT_BITS.get(g.group(1), 64)
    if op == "new":
        return Obj("atomic", v=a.args[0], bits=bits, id=st.fresh("atomic"), shared=False)
    if op == "into_inner":
        return a.args[0].v
    p = Ptr(*_through(ex, st, a.args[0]))
    o = ex.read(st, p)
    if not isinstance(o, Obj) or o.k != "atomic":
        raise Undecided("atomic %r" % (o,))
    if op == "into_inner":
        return o.v
    cur = o.v
    if o.shared:
        # other threads may have run in between; which values they can have left is stated by the goal through `inv`
        cur = z3.BitVec(st.fresh(o.id), bits)
    if op == "load":
        st.ev("a_load", o.id, cur)
        return cur
    if op == "store":
        st.ev("a_store", o.id, a.args[1])
        ex.write(st, p, o.set(v=a.args[1]))
        return UNIT
    rmw = {"fetch_add": "Add", "fetch_sub": "Sub", "fetch_or": "BitOr", "fetch_and": "BitAnd", "fetch_xor": "BitXor"}
    if op in rmw:
        nv, _ = ex.arith(rmw[op], cur, a.args[1], bits, False)
        st.ev("a_rmw", o.id, cur, nv)
        ex.write(st, p, o.set(v=nv))
        return cur
    if op in ("fetch_max", "fetch_min"):
        lt = norm_bool(z3.ULT(bv(cur, bits), bv(a.args[1], bits)))
        x, y = (a.args[1], cur) if op == "fetch_max" else (cur, a.args[1])
        nv = (x if lt else y) if isinstance(lt, bool) else norm_int(z3.If(lt, bv(x, bits), bv(y, bits)))
        st.ev("a_rmw", o.id, cur, nv)
        ex.write(st, p, o.set(v=nv))
        return cur
    if op == "swap":
        st.ev("a_rmw", o.id, cur, a.args[1])
        ex.write(st, p, o.set(v=a.args[1]))
        return cur
    if op in ("compare_exchange", "compare_exchange_weak"):
        eq = norm_bool(bv(cur, bits) == bv(a.args[1], bits))
        y, n = ex.split(st, eq)
        out = []
        if y is not None:
            y.ev("a_rmw", o.id, cur, a.args[2])
            ex.write(y, p, o.set(v=a.args[2]))
            out.append((y, Ok(cur)))
        if n is not None:
            n.ev("a_load", o.id, cur)
            out.append((n, Err(cur)))
        return out
    raise Undecided(a.path)


@c("lazy_static::lazy::Lazy::<T>::get", "lazy_static::inline_lazy::Lazy::<T>::get")
def lazy_get(ex, st, a):
    p = a.args[0]
    ident = p.a if not isinstance(p.a, Const) else "const"
    key = ("lazy", str(ident))
    if key not in st.mem:
        v = shared_parts(ex.sym(st, a.inst["args"][0], "lazy!" + str(ident)))
        st.mem[key] = v
        mark_shared(ex, st, v)
    return Ptr(key)


def shared_parts(v):
    """the value with its atomics marked as shared with other threads"""
    if isinstance(v, Obj) and v.k == "atomic":
        return v.set(shared=True)
    if isinstance(v, Agg):
        return Agg(v.v, tuple(shared_parts(x) for x in v.f))
    return v


def mark_shared(ex, st, v):
    if isinstance(v, Ptr) and not isinstance(v.a, Const):
        x = ex.read(st, v)
        if isinstance(x, Obj) and x.k == "atomic":
            ex.write(st, v, x.set(shared=True))
        elif isinstance(x, Ptr):
            mark_shared(ex, st, x)


@c("std::sync::once_lock::OnceLock::<T>::get_or_init", "<std::sync::lazy_lock::LazyLock<T, F> as core::ops::deref::Deref>::deref", "std::sync::lazy_lock::LazyLock::<T, F>::force")
def oncelock(ex, st, a):
    p = a.args[0]
    key = ("lazy", str(p.a))
    if key not in st.mem:
        v = shared_parts(ex.sym(st, a.inst["args"][0], "lazy!" + str(p.a)))
        st.mem[key] = v
        mark_shared(ex, st, v)
    return Ptr(key)


@c("std::time::SystemTime::now", "std::time::Instant::now", "tokio::time::instant::Instant::now")
def now(ex, st, a):
    return Obj("systime", id=st.fresh("now"))


@c("std::time::SystemTime::duration_since")
def since(ex, st, a):
    n = st.fresh("clock")
    ns = z3.BitVec(n + ".n", 32)
    st.assume(z3.ULT(ns, 1000000000))
    return Ok(Obj("dur", s=z3.BitVec(n + ".s", 64), n=ns))


@c("std::time::SystemTime::elapsed")
def elapsed(ex, st, a):
    n = st.fresh("clock")
    ns = z3.BitVec(n + ".n", 32)
    st.assume(z3.ULT(ns, 1000000000))
    return Ok(Obj("dur", s=z3.BitVec(n + ".s", 64), n=ns))


def dur(ex, st, a):
    v = a.args[0]
    if isinstance(v, Ptr):
        v = ex.read(st, v)
    if not isinstance(v, Obj) or v.k != "dur":
        raise Undecided("duration %r" % (v,))
    return v


@c("core::time::Duration::as_secs")
def as_secs(ex, st, a):
    return dur(ex, st, a).s


@c("core::time::Duration::subsec_nanos")
def subsec_nanos(ex, st, a):
    return dur(ex, st, a).n


@c("core::time::Duration::subsec_millis")
def subsec_millis(ex, st, a):
    d = dur(ex, st, a)
    r = z3.UDiv(bv(d.n, 32), z3.BitVecVal(1000000, 32))
    return norm_int(r)


@c("core::time::Duration::subsec_micros")
def subsec_micros(ex, st, a):
    return norm_int(z3.UDiv(bv(dur(ex, st, a).n, 32), z3.BitVecVal(1000, 32)))


@c("core::time::Duration::as_millis")
def as_millis(ex, st, a):
    d = dur(ex, st, a)
    return norm_int(z3.ZeroExt(64, bv(d.s, 64)) * 1000 + z3.ZeroExt(96, z3.UDiv(bv(d.n, 32), z3.BitVecVal(1000000, 32))))


@c("core::time::Duration::from_secs")
def from_secs(ex, st, a):
    return Obj("dur", s=a.args[0], n=0)


@c("core::time::Duration::new")
def dur_new(ex, st, a):
    if not isinstance(a.args[1], int) or a.args[1] >= 1000000000:
        raise Undecided("Duration::new")
    return Obj("dur", s=a.args[0], n=a.args[1])


@c("core::time::Duration::from_millis")
def from_millis(ex, st, a):
    x = bv(a.args[0], 64)
    return Obj("dur", s=norm_int(z3.UDiv(x, z3.BitVecVal(1000, 64))), n=norm_int(z3.Extract(31, 0, z3.URem(x, z3.BitVecVal(1000, 64))) * 1000000))


@c("rand::rngs::thread::thread_rng", "rand::rng", "rand_core::os::*")
def thread_rng(ex, st, a):
    return Obj("rng")


@c("<rand::rngs::thread::ThreadRng as rand_core::RngCore>::fill_bytes", "<rand*RngCore>::fill_bytes", "rand::rng::Rng::fill")
def fill_bytes(ex, st, a):
    n = ex.seq_len(st, Ptr(*_through(ex, st, a.args[1])))
    name = st.fresh("rand")
    st.ev("rand", name, n)
    write_slice(ex, st, a.args[1], Rope([("s", name, 0, n)]))
    return UNIT


@c("tokio::macros::support::thread_rng_n")
def rng_n(ex, st, a):
    n = a.args[0]
    x = z3.BitVec(st.fresh("branch"), 32)
    st.assume(z3.ULT(x, bv(n, 32)))
    return x


# ==================================================================== errors, formatting

@c("<core::io::error::Error as core::convert::From<core::io::error::ErrorKind>>::from")
def io_from_kind(ex, st, a):
    return ioerr(kindname(ex, st, a.args[0]))


def kindname(ex, st, k):
    if isinstance(k, Agg):
        for t in ex.m.T:
            if t["k"] == "adt" and t["path"] == "core::io::error::ErrorKind" and t["variants"]:
                return t["variants"][k.v]["name"]
    return None


@c("alloc::io::error::<impl core::io::error::Error>::new", "core::io::error::Error::new", "alloc::io::error::<impl core::io::error::Error>::other")
def io_new(ex, st, a):
    if a.path.endswith("other"):
        return ioerr("Other")
    return ioerr(kindname(ex, st, a.args[0]))


@c("core::io::error::Error::kind")
def io_kind(ex, st, a):
    """the kind of an error made by the code; the transport's errors have any kind, the same one whenever asked"""
    o = ex.read(st, a.args[0])
    for ty, t in enumerate(ex.m.T):
        if t["k"] == "adt" and t["path"] == "core::io::error::ErrorKind" and t["variants"]:
            names = [v["name"] for v in t["variants"]]
            if o.d.get("kind") in names:
                return Agg(names.index(o.kind), ())
            if o.d.get("kind") == TRANSPORT:
                if o.d.get("sel") is None:
                    o = o.set(sel=st.fresh("ekind"))
                    ex.write(st, a.args[0], o)
                return Sym(ty, o.sel)
    raise Undecided("io error kind")


@c("alloc::io::error::<impl *From<*", "core::io::error::<impl *From<*", "<alloc::boxed::Box<dyn core::error::Error*")
def io_conv(ex, st, a):
    return a.args[0]


@c("num_enum::TryFromPrimitiveError::<Enum>::new")
def num_err(ex, st, a):
    return Obj("numerr")


@c("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_*")
def fmt_arg(ex, st, a):
    kind = a.path.rsplit("_", 1)[-1]
    v = a.args[0]
    r = None
    if kind == "display":
        r = display(ex, st, v, a.inst["args"][0] if a.inst and a.inst["args"] else 0)
    if r is None:
        x = ex.read(st, v)
        st.n += 1
        r = Rope([("t", ("fmt_" + kind, "%d" % st.n), z3.BitVec("fmtlen!%d" % st.n, 64))])
        st.assume(z3.ULT(r.len, LENMAX))
        ex.set_utf8(st, r)
        st.ev("fmt", kind, x, r)
    return Obj("fmtarg", rope=r)


@c("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst")
def fmt_str(ex, st, a):
    return Obj("fmtargs", rope=rope_of(ex, st, a.args[0]))


@c("core::fmt::Arguments::<'a>::new")
def fmt_new(ex, st, a):
    tmpl, args = a.args
    t = cont_of(ex, st, tmpl)
    ar = ex.read(st, args)
    tb = t.const() if isinstance(t, Rope) else None
    if tb is None or not isinstance(ar, Seq):
        raise Undecided("format arguments")
    out, i, k = Rope(), 0, 0
    while i < len(tb) and tb[i] != 0:
        b = tb[i]
        if b < 0x80:
            out = out + rconst(tb[i + 1:i + 1 + b])
            i += 1 + b
        elif b == 0x80:
            n = tb[i + 1] | tb[i + 2] << 8
            out = out + rconst(tb[i + 3:i + 3 + n])
            i += 3 + n
        elif b == 0xC0:
            out = out + ar.items[k].rope
            k += 1
            i += 1
        else:
            # a placeholder with options: the text is not modelled further
            st.n += 1
            return Obj("fmtargs", rope=Rope([("t", ("fmt", "%d" % st.n), z3.BitVec("fmtlen!%d" % st.n, 64))]))
    return Obj("fmtargs", rope=out)


@c("alloc::fmt::format", "alloc::fmt::format::format_inner")
def fmt_format(ex, st, a):
    return a.args[0].rope


# ==================================================================== synchronous readers

def reader_loc(ex, st, v):
    """location of the reader state a `&mut R` leads to"""
    p = v
    for _ in range(8):
        x = ex.read(st, p)
        if isinstance(x, Ptr):
            y = ex.read(st, x)
            if isinstance(y, Rope):
                return p          # p holds a &[u8]
            p = x
            continue
        if isinstance(x, Obj) and x.k in ("cursor", "take", "AnyReader"):
            return p
        if isinstance(x, Agg) and len(x.f) == 1:
            p = Ptr(p.a, p.p + (0,))
            continue
        break
    raise Undecided("reader %r" % (x,))


def reader_rest(ex, st, loc):
    x = ex.read(st, loc)
    if isinstance(x, Ptr):
        return ex.read(st, x)
    if x.k == "cursor":
        r = rope_of(ex, st, x.data)
        return ex.rope_slice(st, r, x.pos, lsub(r.len, x.pos))
    if x.k == "take":
        inner = reader_rest(ex, st, reader_loc(ex, st, x.inner))
        n = inner.len
        le = lule(x.limit, n)
        if ex.entails(st, le):
            return ex.rope_slice(st, inner, 0, x.limit)
        if ex.entails(st, NOT(le)):
            return inner
        raise Fork([lambda s: s.assume(le), lambda s: s.assume(NOT(le))])
    raise Undecided("reader")


def reader_adv(ex, st, loc, n):
    x = ex.read(st, loc)
    if isinstance(x, Ptr):
        r = ex.read(st, x)
        ex.write(st, loc, Ptr(Const(ex.rope_slice(st, r, n, lsub(r.len, n)))))
    elif x.k == "cursor":
        ex.write(st, loc, x.set(pos=ladd(x.pos, n)))
    elif x.k == "take":
        reader_adv(ex, st, reader_loc(ex, st, x.inner), n)
        ex.write(st, loc, x.set(limit=lsub(x.limit, n)))


@c("core::io::cursor::Cursor::<T>::new", "alloc::io::cursor::Cursor::<T>::new")
def cursor_new(ex, st, a):
    return Obj("cursor", data=a.args[0], pos=0)


@c("core::io::cursor::Cursor::<T>::position")
def cursor_pos(ex, st, a):
    return ex.read(st, a.args[0]).pos


@c("core::io::cursor::Cursor::<T>::into_inner")
def cursor_inner(ex, st, a):
    return a.args[0].data


@c("core::io::cursor::Cursor::<T>::get_ref")
def cursor_ref(ex, st, a):
    return Ptr(Const(rope_of(ex, st, ex.read(st, a.args[0]).data)))


@c("core::io::cursor::Cursor::<T>::set_position")
def cursor_setpos(ex, st, a):
    ex.write(st, a.args[0], ex.read(st, a.args[0]).set(pos=a.args[1]))
    return UNIT


@c("*Read for *>::read_exact", "alloc::io::read::Read::read_exact", "<*Read>::read_exact", "core::io::read::Read::read_exact")
def read_exact(ex, st, a):
    loc = reader_loc(ex, st, a.args[0])
    rest = reader_rest(ex, st, loc)
    n = ex.seq_len(st, Ptr(*_through(ex, st, a.args[1])))
    ok, bad = ex.split(st, lule(n, rest.len))
    out = []
    if ok is not None:
        write_slice(ex, ok, a.args[1], ex.rope_slice(ok, rest, 0, n))
        reader_adv(ex, ok, loc, n)
        out.append((ok, Ok()))
    if bad is not None:
        reader_adv(ex, bad, loc, rest.len)
        out.append((bad, Err(ioerr("UnexpectedEof"))))
    return out


@c("*Read for *>::read", "<*Read>::read")
def read_some(ex, st, a):
    loc = reader_loc(ex, st, a.args[0])
    rest = reader_rest(ex, st, loc)
    dst = Ptr(*_through(ex, st, a.args[1]))
    n = ex.seq_len(st, dst)
    le, gt = ex.split(st, lule(n, rest.len))
    out = []
    for s, k in ((le, n), (gt, rest.len)):
        if s is None:
            continue
        off = dst.m[1] if dst.m and dst.m[0] == "sl" else 0
        ex.write(s, Ptr(dst.a, dst.p, ("sl", off, k)), ex.rope_slice(s, rest, 0, k))
        reader_adv(ex, s, loc, k)
        out.append((s, Ok(k)))
    return out


@c("byteorder::io::ReadBytesExt::read_*")
def bo_read(ex, st, a):
    g = re.match(r".*::read_u(8|16|24|32|48|64|128)$", a.path)
    if not g:
        raise Undecided("no contract for %s" % a.path)
    n = int(g.group(1)) // 8
    le = any("LittleEndian" in ex.m.tn(t) for t in a.fn["args"])
    loc = reader_loc(ex, st, a.args[0])
    rest = reader_rest(ex, st, loc)
    ok, bad = ex.split(st, lule(n, rest.len))
    out = []
    if ok is not None:
        v = rope_int(ex.rope_slice(ok, rest, 0, n), n)
        reader_adv(ex, ok, loc, n)
        out.append((ok, Ok(_end(v, n, le))))
    if bad is not None:
        reader_adv(ex, bad, loc, rest.len)
        out.append((bad, Err(ioerr("UnexpectedEof"))))
    return out


@c("*Read for *>::read_to_end", "alloc::io::read::Read::read_to_end", "<*Read>::read_to_end", "core::io::read::Read::read_to_end")
def read_to_end(ex, st, a):
    loc = reader_loc(ex, st, a.args[0])
    rest = reader_rest(ex, st, loc)
    p = Ptr(*_through(ex, st, a.args[1]))
    v = ex.read(st, p)
    ex.write(st, p, v + rest)
    reader_adv(ex, st, loc, rest.len)
    return Ok(rest.len)


@c("*Read for *>::read_to_string", "alloc::io::read::Read::read_to_string")
def read_to_string(ex, st, a):
    loc = reader_loc(ex, st, a.args[0])
    rest = reader_rest(ex, st, loc)
    p = Ptr(*_through(ex, st, a.args[1]))
    v = ex.read(st, p)
    ok, bad = ex.split(st, ex.is_utf8(st, rest))
    for s in (ok, bad):
        if s is not None:
            reader_adv(ex, s, loc, rest.len)
    if ok is not None:
        ex.write(ok, p, v + rest)
    return res((ok, Ok(rest.len)), (bad, Err(ioerr("InvalidData"))))


@c("alloc::io::read::Read::take", "core::io::read::Read::take", "*Read for *>::take")
def rd_take(ex, st, a):
    r = a.args[0]
    if not isinstance(r, Ptr) or isinstance(r.a, Const):
        r = st.alloc(r, "rd")
    return Obj("take", inner=r, limit=a.args[1])


@c("core::io::util::Take::<T>::*", "tokio::io::util::take::Take::<R>::*")
def take_part(ex, st, a):
    op = a.path.rsplit("::", 1)[1]
    x = a.args[0] if op == "into_inner" else ex.read(st, a.args[0])
    if not isinstance(x, Obj) or x.k not in ("take", "atake"):
        raise Undecided(a.path)
    if op == "limit":
        return x.limit
    if op == "set_limit":
        ex.write(st, a.args[0], x.set(limit=a.args[1]))
        return UNIT
    if op in ("get_ref", "get_mut"):
        return x.inner
    raise Undecided(a.path)


@c("alloc::io::read::Read::by_ref", "core::io::read::Read::by_ref", "tokio::io::util::async_read_ext::AsyncReadExt::by_ref")
def by_ref(ex, st, a):
    return a.args[0]


# ==================================================================== the opaque parties of the proof roots

@c("<*opq::Any* as bromine::events::payload::IntoPayload>::into_payload")
def any_into(ex, st, a):
    p = a.args[0]
    r = ex.symbytes(st, "payload(%s)" % p.id)
    ok, bad = st, st.copy()
    ok.ev("into_payload", p.id)
    bad.ev("into_payload", p.id)
    bad.ev("payload_failed", p.id)
    return [(ok, Ok(r)), (bad, Err(Obj("payload_error", id=p.id)))]


@c("<*opq::Any* as bromine::events::payload::FromPayload>::from_payload")
def any_from(ex, st, a):
    v = a.args[0]
    if isinstance(v, Ptr) and isinstance(ex.read(st, v), Rope):
        rest = ex.read(st, v)
        loc = None
    else:
        tmp = st.alloc(v, "rd")
        loc = reader_loc(ex, st, tmp)
        rest = reader_rest(ex, st, loc)
    k = "AnyFrom2" if "AnyFrom2" in a.path else "AnyFrom"
    bad = st.copy()
    st.ev("from_payload", k, rest)
    bad.ev("from_payload", k, rest)
    bad.ev("from_failed", k)
    if loc is not None and not (isinstance(v, Ptr) and isinstance(v.a, Const)):
        # any amount may have been consumed
        n = z3.BitVec(st.fresh("consumed"), 64)
        st.assume(lule(n, rest.len))
        reader_adv(ex, st, loc, n)
    return [(st, Ok(Obj(k, src=rest))), (bad, Err(Obj("payload_error", id=k)))]


SER = {"bincode::serialize": "bincode", "bincode::internal::serialize": "bincode", "postcard::ser::to_allocvec": "postcard", "rmp_serde::encode::to_vec": "rmp", "serde_json::ser::to_vec": "json",
       "bincode::serialize_into": None, "rmp_serde::encode::to_vec_named": "rmp_named", "serde_json::ser::to_vec_pretty": "json_pretty"}


@c(*[k for k in SER if SER[k]])
def ser(ex, st, a):
    f = SER[a.path]
    d = ex.read(st, a.args[0]) if isinstance(a.args[0], Ptr) else a.args[0]
    for _ in range(3):
        if isinstance(d, Ptr):
            d = ex.read(st, d)
    n = z3.BitVec("serlen(%s,%s)" % (f, d.id), 64)
    bad = st.copy()
    st.assume(z3.ULT(n, LENMAX))
    st.ev("serialize", f, d.id)
    bad.ev("ser_failed", f, d.id)
    return [(st, Ok(Rope([("t", ("ser", f, d.id), n)]))), (bad, Err(Obj("ser_error", fmt=f)))]


DE = {"bincode::deserialize_from": "bincode", "rmp_serde::decode::from_read": "rmp", "serde_json::de::from_reader": "json", "postcard::de::from_bytes": "postcard", "rmp_serde::decode::from_slice": "rmp",
      "serde_json::de::from_slice": "json", "bincode::deserialize": "bincode"}


@c(*DE)
def de(ex, st, a):
    f = DE[a.path]
    v = a.args[0]
    if isinstance(v, Ptr) and isinstance(ex.read(st, v), Rope):
        rest = ex.read(st, v)
    else:
        tmp = st.alloc(v, "rd")
        rest = reader_rest(ex, st, reader_loc(ex, st, tmp))
    st.ev("deserialize", f, rest)
    if a.path == "bincode::deserialize_from":
        # its reader allocates the length the bytes claim for a string before it reads one
        st.ev("alloc", z3.BitVec(st.fresh("claimed"), 64))
    bad = st.copy()
    return [(st, Ok(Obj("AnyData", id=("de", f, ex.rope_key(rest)), src=rest, fmt=f))), (bad, Err(Obj("de_error", fmt=f)))]


@c("opq::any_cb1", "opq::any_cb2", "roots::opq::any_cb1", "roots::opq::any_cb2")
def any_cb(ex, st, a):
    name = a.path.rsplit("_", 1)[-1]
    return call_callback(ex, st, Obj("callback", id=name, key=None), a.args)


def call_callback(ex, st, o, args):
    """a registered callback: any future; what it got is recorded"""
    st.ev("callback", o.id, args[0], args[1])
    f = st.alloc(Obj("fut", op="callback", id=o.id), "cbfut")
    return Agg(0, (f,))


def call_dyn(ex, st, a):
    _, v = ex.deref_obj(st, a.args[0])
    if isinstance(v, Obj) and v.k == "callback":
        tup = a.args[1]
        return call_callback(ex, st, v, list(tup.f))
    raise Undecided("call of %r" % (v,))


@c("opq::*protocol_into_split", "<*opq::AnyStream as bromine::protocol::AsyncProtocolStreamSplit>::protocol_into_split")
def any_split(ex, st, a):
    s = a.args[0]
    st.ev("split", s.id)
    return Agg(0, (Obj("AnyReader", id=s.id, pos=s.pos), Obj("AnyWriter", id=s.id, pos=0)))


@c("<*opq::AnyStream as bromine::protocol::AsyncProtocolStream>::protocol_connect")
def any_connect(ex, st, a):
    return Agg(0, (st.alloc(Obj("fut", op="connect", addr=a.args[0], opts=a.args[1]), "fut"),))


@c("<*opq::AnyListener as bromine::protocol::AsyncStreamProtocolListener>::protocol_bind")
def any_bind(ex, st, a):
    return Agg(0, (st.alloc(Obj("fut", op="bind", addr=a.args[0], opts=a.args[1]), "fut"),))


@c("<*opq::AnyListener as bromine::protocol::AsyncStreamProtocolListener>::protocol_accept")
def any_accept(ex, st, a):
    l = ex.read(st, Ptr(*_through(ex, st, a.args[0])))
    return Agg(0, (st.alloc(Obj("fut", op="accept", lid=l.id), "fut"),))


@c("<*opq::Any* as core::default::Default>::default")
def any_default(ex, st, a):
    return Obj("AnyDefault", id="default")


@c("<*opq::AnyProvider as bromine::namespaces::provider_trait::NamespaceProvider>::name")
def prov_name(ex, st, a):
    r = ex.symbytes(st, "provider.name")
    ex.set_utf8(st, r)
    st.gh["provider.name"] = r
    return Ptr(Const(r))


@c("<*opq::AnyProvider as bromine::namespaces::provider_trait::NamespaceProvider>::register")
def prov_reg(ex, st, a):
    st.ev("register", ex.read(st, a.args[0]))
    p = Ptr(*_through(ex, st, a.args[0]))
    h = ex.read(st, p)
    # the provider may register anything: afterwards the handler has unknown content
    mp = first_map(ex, st, p)
    ex.write(st, mp, ex.read(st, mp).set(base="provider", ins=()))
    return UNIT


def first_map(ex, st, p):
    v = ex.read(st, p)
    if isinstance(v, Obj) and v.k == "hmap":
        return p
    if isinstance(v, Agg):
        for i in range(len(v.f)):
            q = first_map(ex, st, Ptr(p.a, p.p + (i,)))
            if q is not None:
                return q
    return None


# ==================================================================== async readers and writers

def io_target(ex, st, v):
    """(Ptr, kind) of the reader/writer behind &mut / Pin / Box / dyn"""
    p, x = None, v
    for _ in range(8):
        if isinstance(x, Ptr):
            p = x
            x = ex.read(st, x)
        elif isinstance(x, Agg) and len(x.f) == 1 and isinstance(x.f[0], Ptr):
            x = x.f[0]
        else:
            break
    if isinstance(x, Obj) and x.k in ("AnyReader", "AnyWriter", "AnyStream", "atake"):
        return p, x.k
    if isinstance(x, Agg):
        ch = find_objs(x, "chacha", ex, st)
        if ch:
            return p, "enc"
    raise Undecided("reader or writer %r" % (x,))


def find_objs(v, kind, ex, st, seen=None):
    """all library objects of a kind inside a value (not following shared pointers)"""
    out = []
    if isinstance(v, Obj):
        if v.k == kind:
            out.append(v)
    elif isinstance(v, Agg):
        for x in v.f:
            out += find_objs(x, kind, ex, st)
    return out


def find_paths(v, pred, path=()):
    out = []
    if pred(v):
        out.append(path)
    if isinstance(v, Agg):
        for i, x in enumerate(v.f):
            out += find_paths(x, pred, path + (i,))
    return out


def stream_content(ex, st, rid):
    """(content, ends) of the byte stream a reader delivers: given by the goal, or arbitrary"""
    d = st.gh.get(("in", rid))
    if d is None:
        d = ex.symbytes(st, "in(%s)" % rid)
        st.gh[("in", rid)] = d
    return d


def starved(ex, st):
    """the goal cuts polls after a number of packets: the transport delivers nothing more, and the state is kept (machine.py)"""
    m = st.gh.get("packets")
    if m is None:
        return None
    if sum(1 for e in st.trace if e[0] in ("decrypt", "decrypt_fail")) < m and sum(1 for e in st.trace if e[0] == "read") < 2 * m + 2:
        return None
    s = pending(st, "read")
    if not st.gh.get("calm"):
        s.gh["cut"] = len(ex.cuts)
        ex.cuts.append(st.copy())
    return [(s, PENDING)]


def reached(st):
    """the goal polls again to see whether the same place is reached"""
    return [(st.copy(), ("cut", "leaf"))] if st.gh.get("again") else None


def take_stream(ex, st, p, n, label):
    """read exactly n bytes from the reader at p: outcomes (state, rope | None)"""
    x = ex.read(st, p)
    if x.k == "atake":
        q, k = io_target(ex, st, x.inner)
        ok, bad = ex.split(st, lule(n, x.limit))
        out = []
        if ok is not None:
            for s, r in take_stream(ex, ok, q, n, label):
                if r is not None:
                    ex.write(s, p, x.set(limit=lsub(x.limit, n)))
                out.append((s, r))
        if bad is not None:
            out.append((bad, None))
        return out
    d = stream_content(ex, st, x.id)
    avail = lsub(d.len, x.pos)
    if st.gh.get("truncates") and not st.gh.get("calm"):
        # the goal gives content without an end: the stream may end anywhere
        bad = st.copy()
        ok = st
        st.assume(lule(n, avail))
    else:
        ok, bad = ex.split(st, lule(n, avail))
    out = []
    if ok is not None:
        r = ex.rope_slice(ok, d, x.pos, n)
        ex.write(ok, p, x.set(pos=ladd(x.pos, n)))
        ok.ev("read", x.id, x.pos, n)
        out.append((ok, r))
    if bad is not None:
        ex.write(bad, p, x.set(pos=d.len))
        bad.ev("read_end", x.id)
        out.append((bad, None))
    return out


def avail_of(ex, st, p):
    x = ex.read(st, p)
    if x.k == "atake":
        q, k = io_target(ex, st, x.inner)
        n = avail_of(ex, st, q)
        le = lule(x.limit, n)
        if ex.entails(st, le):
            return x.limit
        if ex.entails(st, NOT(le)):
            return n
        raise Fork([lambda s: s.assume(le), lambda s: s.assume(NOT(le))])
    d = stream_content(ex, st, x.id)
    return lsub(d.len, x.pos)


@c("tokio::io::util::async_read_ext::AsyncReadExt::read_*", "tokio::io::util::async_read_ext::AsyncReadExt::read")
def ar_read(ex, st, a):
    m = a.path.rsplit("::", 1)[-1]
    g = re.match(r"read_u(8|16|32|64|128)(_le)?$", m)
    if g:
        return Obj("fut", op="read_int", n=int(g.group(1)) // 8, le=bool(g.group(2)), r=a.args[0])
    if m in ("read_exact", "read_to_end", "read", "read_buf"):
        return Obj("fut", op=m, r=a.args[0], buf=a.args[1])
    raise Undecided(a.path)


@c("tokio::io::util::async_read_ext::AsyncReadExt::take")
def ar_take(ex, st, a):
    r = a.args[0]
    if not isinstance(r, Ptr):
        r = st.alloc(r, "rd")
    return Obj("atake", inner=r, limit=a.args[1])


@c("tokio::io::util::async_write_ext::AsyncWriteExt::*")
def aw(ex, st, a):
    m = a.path.rsplit("::", 1)[-1]
    if m in ("write_all", "write"):
        return Obj("fut", op=m, w=a.args[0], buf=a.args[1])
    if m in ("flush", "shutdown"):
        return Obj("fut", op=m, w=a.args[0])
    g = re.match(r"write_u(8|16|32|64)(_le)?$", m)
    if g:
        n = int(g.group(1)) // 8
        return Obj("fut", op="write_all", w=a.args[0], buf=Ptr(Const(rint(_end(a.args[1], n, g.group(2)), n))))
    if m == "write_all_buf":
        return Obj("fut", op="write_all_buf", w=a.args[0], buf=a.args[1])
    raise Undecided(a.path)


def poll_obj(ex, st, a):
    """Future::poll of a library future"""
    p, v = ex.deref_obj(st, a.args[0])
    if not isinstance(v, Obj) or v.k != "fut":
        raise Undecided("poll of %r" % (v,))
    if v.op == "done":
        return Panic("future polled after completion")
    h = FUT.get(v.op)
    if h is None:
        raise Undecided("poll of %s" % v.op)
    return h(ex, st, p, v)


c("tokio::io::util::*core::future::future::Future>::poll", "<tokio::*core::future::future::Future>::poll", "tokio::sync::*::{closure#0}", "tokio::time::*::{closure#0}")(poll_obj)

FUT = {}


def fut(name):
    def d(f):
        FUT[name] = f
        return f
    return d


def done(ex, st, p, v):
    ex.write(st, p, Obj("fut", op="done"))
    return v


def pending(st, what):
    """not ready: the transport (or whatever is waited for) wakes the task later"""
    s = st.copy()
    s.gh["woken"] = True
    return s


TRANSPORT = "transport"


@fut("read_int")
def f_read_int(ex, st, p, f):
    q, k = io_target(ex, st, f.r)
    if k == "enc":
        return enc_read(ex, st, p, f, q, f.n)
    out = [] if st.gh.get("calm") else [(pending(st, "read"), PENDING)]
    cut = reached(st) or starved(ex, st)
    if cut:
        return cut
    for s, r in take_stream(ex, st, q, f.n, "int"):
        if r is None:
            done(ex, s, p, None)
            out += read_fail(ex, s)
        else:
            done(ex, s, p, None)
            out.append((s, Ready(Ok(_end(rope_int(r, f.n), f.n, f.le)))))
    return out


def read_fail(ex, s):
    """the stream ended or failed before the bytes were there"""
    s2 = s.copy()
    return [(s, Ready(Err(ioerr("UnexpectedEof")))), (s2, Ready(Err(ioerr(TRANSPORT))))]


@fut("read_exact")
def f_read_exact(ex, st, p, f):
    q, k = io_target(ex, st, f.r)
    n = ex.seq_len(st, Ptr(*_through(ex, st, f.buf)))
    if k == "enc":
        return enc_read(ex, st, p, f, q, n)
    out = [] if st.gh.get("calm") else [(pending(st, "read"), PENDING)]
    cut = reached(st) or starved(ex, st)
    if cut:
        return cut
    for s, r in take_stream(ex, st, q, n, "exact"):
        done(ex, s, p, None)
        if r is None:
            out += read_fail(ex, s)
        else:
            write_slice(ex, s, f.buf, r)
            out.append((s, Ready(Ok(n))))
    return out


@fut("read_to_end")
def f_read_to_end(ex, st, p, f):
    q, k = io_target(ex, st, f.r)
    if k == "enc":
        raise Undecided("read_to_end of an encrypted stream")
    n = avail_of(ex, st, q)
    x = ex.read(st, q)
    out = [] if st.gh.get("calm") else [(pending(st, "read"), PENDING)]
    fail = st.copy()
    b = Ptr(*_through(ex, st, f.buf))
    for s, r in take_stream(ex, st, q, n, "end"):
        if r is None:
            continue
        old = ex.read(s, b)
        ex.write(s, b, old + r)
        done(ex, s, p, None)
        out.append((s, Ready(Ok(n))))
    if st.gh.get("calm"):
        return out
    # the transport fails: some bytes were appended, an error is returned
    done(ex, fail, p, None)
    ex.write(fail, b, ex.symbytes(fail, fail.fresh("partial")))
    fail.ev("read_end", "transport")
    out.append((fail, Ready(Err(ioerr(TRANSPORT)))))
    return out


@fut("read")
def f_read(ex, st, p, f):
    q, k = io_target(ex, st, f.r)
    if k == "enc":
        raise Undecided("read of an encrypted stream")
    cut = reached(st) or starved(ex, st)
    if cut:
        return cut
    dst = Ptr(*_through(ex, st, f.buf))
    cap = ex.seq_len(st, dst)
    av = avail_of(ex, st, q)
    out = [(pending(st, "read"), PENDING)]
    fail = st.copy()
    done(ex, fail, p, None)
    out.append((fail, Ready(Err(ioerr(TRANSPORT)))))
    n = z3.BitVec(st.fresh("nread"), 64)
    st.assume(z3.ULE(n, bv(cap, 64)))
    st.assume(z3.ULE(n, bv(av, 64)))
    st.assume(z3.Implies(n == 0, z3.Or(bv(cap, 64) == 0, bv(av, 64) == 0)))
    for s, r in take_stream(ex, st, q, n, "some"):
        if r is None:
            continue
        off = dst.m[1] if dst.m and dst.m[0] == "sl" else 0
        ex.write(s, Ptr(dst.a, dst.p, ("sl", off, n)), r)
        done(ex, s, p, None)
        out.append((s, Ready(Ok(n))))
    return out


def enc_state(ex, st, q):
    """key of the stream's cipher; the counters are advanced by an unknown number of packets"""
    v = ex.read(st, q)
    chs = find_objs(v, "chacha", ex, st)
    return chs


def enc_havoc(ex, st, q, which):
    v = ex.read(st, q)
    for path in find_paths(v, lambda x: isinstance(x, Ptr) and not isinstance(x.a, Const) and isinstance(st.mem.get(x.a), Obj) and st.mem[x.a].k == "atomic"):
        a = ex.load(st, q.a, q.p + path)
        o = ex.read(st, a)
        ex.write(st, a, o.set(v=z3.BitVec(st.fresh("count"), o.bits)))


def enc_read(ex, st, p, f, q, n):
    """exact read from an encrypted stream, by the contract of the encrypted stream (C17): plaintext bytes of the peer"""
    keys = [c0.key for c0 in enc_state(ex, st, q)]
    out = [(pending(st, "read"), PENDING)]
    bad = st.copy()
    done(ex, bad, p, None)
    enc_havoc(ex, bad, q, "r")
    bad.ev("enc_read_fail", tuple(keys))
    out.append((bad, Ready(Err(ioerr(TRANSPORT)))))
    name = st.fresh("encin")
    r = Rope([("s", name, 0, n)])
    st.ev("enc_read", tuple(keys), r)
    enc_havoc(ex, st, q, "r")
    done(ex, st, p, None)
    if f.op == "read_exact":
        write_slice(ex, st, f.buf, r)
        out.append((st, Ready(Ok(n))))
    else:
        out.append((st, Ready(Ok(_end(rope_int(r, n), n, f.le)))))
    return out


def wtag(ex, st, q, k):
    x = ex.read(st, q)
    if k == "enc":
        return ("enc", tuple(c0.key for c0 in find_objs(x, "chacha", ex, st)))
    return x.id


@fut("write_all")
def f_write_all(ex, st, p, f):
    q, k = io_target(ex, st, f.w)
    r = rope_of(ex, st, f.buf)
    out = [(pending(st, "write"), PENDING)]
    bad = st.copy()
    tag = wtag(ex, st, q, k)
    done(ex, bad, p, None)
    bad.ev("write_fail", tag, r)
    done(ex, st, p, None)
    st.ev("write", tag, r)
    if st.gh.get("calm"):
        return [(st, Ready(Ok()))]
    if k == "enc":
        enc_havoc(ex, st, q, "w")
        enc_havoc(ex, bad, q, "w")
    out.append((bad, Ready(Err(ioerr(TRANSPORT)))))
    out.append((st, Ready(Ok())))
    return out


@fut("write_all_buf")
def f_write_all_buf(ex, st, p, f):
    q, k = io_target(ex, st, f.w)
    b = Ptr(*_through(ex, st, f.buf))
    r = rope_of(ex, st, b)
    out = [(pending(st, "write"), PENDING)]
    bad = st.copy()
    tag = wtag(ex, st, q, k)
    done(ex, bad, p, None)
    bad.ev("write_fail", tag, r)
    done(ex, st, p, None)
    st.ev("write", tag, r)
    ex.write(st, b, Rope())
    if st.gh.get("calm"):
        return [(st, Ready(Ok()))]
    out.append((bad, Ready(Err(ioerr(TRANSPORT)))))
    out.append((st, Ready(Ok())))
    return out


@fut("write")
def f_write(ex, st, p, f):
    q, k = io_target(ex, st, f.w)
    r = rope_of(ex, st, f.buf)
    out = [(pending(st, "write"), PENDING)]
    bad = st.copy()
    tag = wtag(ex, st, q, k)
    done(ex, bad, p, None)
    bad.ev("write_fail", tag, r)
    done(ex, st, p, None)
    n = z3.BitVec(st.fresh("nwritten"), 64)
    st.assume(z3.ULE(n, bv(r.len, 64)))
    if st.gh.get("calm"):
        st.ev("write", tag, r)
        return [(st, Ready(Ok(r.len)))]
    st.ev("write", tag, ex.rope_slice(st, r, 0, n))
    out.append((bad, Ready(Err(ioerr(TRANSPORT)))))
    out.append((st, Ready(Ok(n))))
    return out


def _simple_w(name):
    def f_(ex, st, p, f):
        q, k = io_target(ex, st, f.w)
        out = [(pending(st, name), PENDING)]
        bad = st.copy()
        tag = wtag(ex, st, q, k)
        done(ex, bad, p, None)
        bad.ev(name + "_fail", tag)
        done(ex, st, p, None)
        st.ev(name, tag)
        if st.gh.get("calm"):
            return [(st, Ready(Ok()))]
        if k == "enc":
            enc_havoc(ex, st, q, "w")
            enc_havoc(ex, bad, q, "w")
        out.append((bad, Ready(Err(ioerr(TRANSPORT)))))
        out.append((st, Ready(Ok())))
        return out
    return f_


FUT["flush"] = _simple_w("flush")
FUT["shutdown"] = _simple_w("shutdown")


# direct polls of the opaque transport

@c("<*opq::AnyWriter as tokio::io::async_write::AsyncWrite>::poll_write", "<*opq::AnyStream as tokio::io::async_write::AsyncWrite>::poll_write")
def any_poll_write(ex, st, a):
    q, k = io_target(ex, st, a.args[0])
    r = rope_of(ex, st, a.args[2])
    x = ex.read(st, q)
    if st.gh.get("calm"):
        st.ev("write", x.id, r)
        return [(st, Ready(Ok(r.len)))]
    out = [(pending(st, "write"), PENDING)]
    bad = st.copy()
    bad.ev("write_fail", x.id, r)
    out.append((bad, Ready(Err(ioerr(TRANSPORT)))))
    n = z3.BitVec(st.fresh("nwritten"), 64)
    st.assume(z3.ULE(n, bv(r.len, 64)))
    st.ev("write", x.id, ex.rope_slice(st, r, 0, n))
    out.append((st, Ready(Ok(n))))
    return out


def _poll_simple(name):
    def f_(ex, st, a):
        q, k = io_target(ex, st, a.args[0])
        x = ex.read(st, q)
        if st.gh.get("calm"):
            st.ev(name, x.id)
            return [(st, Ready(Ok()))]
        out = [(pending(st, name), PENDING)]
        bad = st.copy()
        bad.ev(name + "_fail", x.id)
        out.append((bad, Ready(Err(ioerr(TRANSPORT)))))
        st.ev(name, x.id)
        out.append((st, Ready(Ok())))
        return out
    return f_


c("<*opq::AnyWriter as tokio::io::async_write::AsyncWrite>::poll_flush", "<*opq::AnyStream as tokio::io::async_write::AsyncWrite>::poll_flush")(_poll_simple("flush"))
c("<*opq::AnyWriter as tokio::io::async_write::AsyncWrite>::poll_shutdown", "<*opq::AnyStream as tokio::io::async_write::AsyncWrite>::poll_shutdown")(_poll_simple("shutdown"))


# ReadBuf of the caller of poll_read

@c("tokio::io::read_buf::ReadBuf::<'a>::remaining", "tokio::io::read_buf::ReadBuf::<'_>::remaining")
def rb_remaining(ex, st, a):
    o = ex.read(st, Ptr(*_through(ex, st, a.args[0])))
    return lsub(o.cap, o.filled.len)


@c("tokio::io::read_buf::ReadBuf::<'a>::capacity", "tokio::io::read_buf::ReadBuf::<'_>::capacity")
def rb_cap(ex, st, a):
    o = ex.read(st, Ptr(*_through(ex, st, a.args[0])))
    if o.d.get("mem") is not None:
        return o.cap
    n = z3.BitVec("readbuf.capacity", 64)
    st.assume(z3.UGE(n, bv(o.cap, 64)))
    st.assume(z3.ULT(n, LENMAX))
    return n


@c("tokio::io::read_buf::ReadBuf::<'a>::put_slice", "tokio::io::read_buf::ReadBuf::<'_>::put_slice")
def rb_put(ex, st, a):
    p = Ptr(*_through(ex, st, a.args[0]))
    o = ex.read(st, p)
    r = rope_of(ex, st, a.args[1])
    ok, bad = ex.split(st, lule(r.len, lsub(o.cap, o.filled.len)))
    if ok is not None:
        rb_add(ex, ok, p, r)
    return res((ok, UNIT), (bad, Panic("read buffer too small")))


def rb_add(ex, st, p, r):
    o = ex.read(st, p)
    m = o.d.get("mem")
    if m is not None:
        off = m.m[1] if m.m and m.m[0] == "sl" else 0
        ex.write(st, Ptr(m.a, m.p, ("sl", ladd(off, o.filled.len), r.len)), r)
    ex.write(st, p, o.set(filled=o.filled + r))


@c("tokio::io::read_buf::ReadBuf::<'a>::new")
def rb_new(ex, st, a):
    m = Ptr(*_through(ex, st, a.args[0]))
    return Obj("readbuf", cap=ex.seq_len(st, m), filled=Rope(), mem=m)


@c("tokio::io::read_buf::ReadBuf::<'a>::filled", "tokio::io::read_buf::ReadBuf::<'_>::filled")
def rb_filled(ex, st, a):
    return st.alloc(ex.read(st, Ptr(*_through(ex, st, a.args[0]))).filled, "filled")


@c("<*opq::AnyReader as tokio::io::async_read::AsyncRead>::poll_read", "<*opq::AnyStream as tokio::io::async_read::AsyncRead>::poll_read")
def any_poll_read(ex, st, a):
    q, k = io_target(ex, st, a.args[0])
    b = Ptr(*_through(ex, st, a.args[2]))
    o = ex.read(st, b)
    cap = lsub(o.cap, o.filled.len)
    cut = reached(st) or starved(ex, st)
    if cut:
        return cut
    av = avail_of(ex, st, q)
    out = [(pending(st, "read"), PENDING)]
    fail = st.copy()
    out.append((fail, Ready(Err(ioerr(TRANSPORT)))))
    n = z3.BitVec(st.fresh("nread"), 64)
    st.assume(z3.ULE(n, bv(cap, 64)))
    st.assume(z3.ULE(n, bv(av, 64)))
    st.assume(z3.Implies(n == 0, z3.Or(bv(cap, 64) == 0, bv(av, 64) == 0)))
    for s, r in take_stream(ex, st, q, n, "some"):
        if r is not None:
            rb_add(ex, s, b, r)
            out.append((s, Ready(Ok())))
    return out


@c("tokio::io::read_buf::ReadBuf::<'a>::clear")
def rb_clear(ex, st, a):
    p = Ptr(*_through(ex, st, a.args[0]))
    ex.write(st, p, ex.read(st, p).set(filled=Rope(), cleared=True))
    return UNIT


# ==================================================================== tasks, channels, locks, timers

@c("tokio::task::spawn::spawn", "tokio::task::spawn", "tokio::runtime::handle::Handle::spawn")
def spawn(ex, st, a):
    f = a.args[-1]
    p = st.alloc(f, "task")
    st.ev("spawn", p)
    return Obj("join", task=p)


@c("tokio::runtime::task::join::JoinHandle::<T>::abort", "tokio::runtime::task::abort::AbortHandle::abort")
def abort(ex, st, a):
    o = ex.read(st, a.args[0])
    st.ev("abort", o.task)
    return UNIT


@c("tokio::runtime::task::join::JoinHandle::<T>::abort_handle")
def abort_handle(ex, st, a):
    return ex.read(st, a.args[0])


@c("tokio::sync::mpsc::bounded::channel", "tokio::sync::mpsc::unbounded::unbounded_channel")
def channel(ex, st, a):
    ch = st.fresh("chan")
    st.ev("channel", ch, a.args[0] if a.args else None)
    return Agg(0, (Obj("tx", ch=ch), Obj("rx", ch=ch)))


@c("tokio::sync::mpsc::bounded::Sender::<T>::send")
def mpsc_send(ex, st, a):
    tx = ex.read(st, a.args[0])
    return Obj("fut", op="mpsc_send", tx=tx, val=a.args[1])


@c("tokio::sync::mpsc::bounded::Sender::<T>::try_send")
def mpsc_try_send(ex, st, a):
    tx = ex.read(st, a.args[0])
    f, cl = st.copy(), st.copy()
    st.ev("sent", tx.ch, a.args[1])
    f.ev("send_full", tx.ch)
    cl.ev("send_fail", tx.ch, a.args[1])
    return [(st, Ok()), (f, Err(Agg(0, (a.args[1],)))), (cl, Err(Agg(1, (a.args[1],))))]


@c("tokio::sync::mpsc::bounded::Sender::<T>::capacity", "tokio::sync::mpsc::bounded::Sender::<T>::max_capacity")
def mpsc_capacity(ex, st, a):
    """how much room there is at the moment"""
    tx = ex.read(st, Ptr(*_through(ex, st, a.args[0])))
    m = z3.BitVec("capacity(%s)" % (tx.ch,), 64)
    st.assume(AND(z3.UGT(m, 0), z3.ULT(m, 1 << 61)))
    if a.path.endswith("max_capacity"):
        return m
    n = z3.BitVec(st.fresh("room"), 64)
    st.assume(z3.ULE(n, m))
    return n


@c("tokio::sync::mpsc::bounded::Sender::<T>::is_closed")
def mpsc_closed(ex, st, a):
    return z3.Bool(st.fresh("closed"))


@fut("mpsc_send")
def f_mpsc_send(ex, st, p, f):
    pend = pending(st, "send")
    bad = st.copy()
    done(ex, bad, p, None)
    bad.ev("send_fail", f.tx.ch, f.val)
    done(ex, st, p, None)
    st.ev("sent", f.tx.ch, f.val)
    return [(pend, PENDING), (bad, Ready(Err(Agg(0, (f.val,))))), (st, Ready(Ok()))]


@c("tokio::sync::mpsc::bounded::Receiver::<T>::recv")
def mpsc_recv(ex, st, a):
    return Obj("fut", op="recv", rx=a.args[0])


@c("tokio::sync::mpsc::bounded::Receiver::<T>::poll_recv")
def mpsc_poll_recv(ex, st, a):
    rx = ex.read(st, Ptr(*_through(ex, st, a.args[0])))
    s2, s3 = st.copy(), st.copy()
    s2.ev("recv_none", rx.ch)
    e = recv_event(ex, s3, rx)
    return [(st, PENDING), (s2, Ready(NONE)), (s3, Ready(Some(e)))]


def recv_event(ex, st, rx):
    n = st.gh.get(("nrecv", rx.ch), 0)
    st.gh[("nrecv", rx.ch)] = n + 1
    ty = ex.m.by_name["bromine::events::event::Event"]
    e = ex.sym(st, ty, "%s.msg%d" % (rx.ch, n))
    st.ev("recv", rx.ch, n)
    return e


@fut("recv")
def f_recv(ex, st, p, f):
    rx = ex.read(st, f.rx)
    pend = pending(st, "recv")
    pend.gh["receiving"] = rx.ch
    none = st.copy()
    none.ev("recv_none", rx.ch)
    done(ex, none, p, None)
    done(ex, st, p, None)
    e = recv_event(ex, st, rx)
    return [(pend, PENDING), (none, Ready(NONE)), (st, Ready(Some(e)))]


@c("tokio::sync::mpsc::bounded::Receiver::<T>::close")
def mpsc_close(ex, st, a):
    st.ev("rx_close", ex.read(st, a.args[0]).ch)
    return UNIT


@c("tokio::sync::oneshot::channel")
def oneshot(ex, st, a):
    ch = st.fresh("oneshot")
    return Agg(0, (Obj("otx", ch=ch), Obj("orx", ch=ch)))


@c("tokio::sync::oneshot::Sender::<T>::send")
def oneshot_send(ex, st, a):
    bad = st.copy()
    st.ev("oneshot_send", a.args[0].ch)
    bad.ev("oneshot_send_fail", a.args[0].ch)
    out = [(st, Ok()), (bad, Err(a.args[1]))]
    return out[1:] if a.args[0].ch in st.gh.get("gone", ()) else out


@c("tokio::sync::oneshot::Sender::<T>::is_closed")
def oneshot_is_closed(ex, st, a):
    """whether the receiver is gone (once it is, it stays gone)"""
    ch = ex.deref_obj(st, a.args[0])[1].ch
    gone = st.gh.get("gone", ())
    if ch in gone:
        return True
    y = st.copy()
    y.gh["gone"] = gone + (ch,)
    return [(y, True), (st, False)]


@c("<tokio::sync::oneshot::Receiver<T> as core::future::future::Future>::poll")
def oneshot_poll(ex, st, a):
    p, v = ex.deref_obj(st, a.args[0])
    bad = st.copy()
    pend = st.copy()
    st.ev("oneshot_recv", v.ch)
    bad.ev("oneshot_closed", v.ch)
    return [(pend, PENDING), (st, Ready(Ok(UNIT))), (bad, Ready(Err(Obj("recverror"))))]


@c("tokio::sync::mutex::Mutex::<T>::new", "tokio::sync::rwlock::RwLock::<T>::new")
def mutex_new(ex, st, a):
    return Agg(0, (a.args[0],))


@c("tokio::sync::mutex::Mutex::<T>::lock", "tokio::sync::rwlock::RwLock::<T>::read", "tokio::sync::rwlock::RwLock::<T>::write", "tokio::sync::mutex::Mutex::<T>::lock_owned")
def mutex_lock(ex, st, a):
    p = a.args[0]
    return Obj("fut", op="lock", m=Ptr(p.a, p.p, p.m), shared=a.path.endswith("::read"))


@c("tokio::sync::mutex::Mutex::<T>::try_lock")
def mutex_try(ex, st, a):
    s2 = st.copy()
    p = a.args[0]
    st.ev("lock", p.a)
    return [(st, Ok(Obj("guard", m=p))), (s2, Err(Obj("trylockerror")))]


@fut("lock")
def f_lock(ex, st, p, f):
    pend = pending(st, "lock")
    held = 0
    for e in st.trace:
        if e[0] in ("lock", "unlock") and e[1] == f.m.a:
            held = held + 1 if e[0] == "lock" else max(0, held - 1)
    if held and not (f.shared and st.gh.get(("shared", f.m.a))):
        # this task holds the lock itself: it waits for ever
        return [(pend, PENDING)]
    done(ex, st, p, None)
    st.gh[("shared", f.m.a)] = f.shared
    st.ev("lock", f.m.a)
    return [(pend, PENDING), (st, Ready(Obj("guard", m=f.m)))]


@c("<tokio::sync::mutex::MutexGuard<'_, T> as core::ops::deref::DerefMut>::deref_mut", "<tokio::sync::mutex::MutexGuard<'_, T> as core::ops::deref::Deref>::deref",
   "<tokio::sync::mutex::OwnedMutexGuard<T> as core::ops::deref::Deref*", "<tokio::sync::rwlock::*Guard<*Deref*")
def guard_deref(ex, st, a):
    g = ex.read(st, a.args[0])
    m = g.m
    return Ptr(m.a, m.p + (0,), m.m)


@c("tokio::time::sleep::sleep")
def sleep(ex, st, a):
    return Obj("fut", op="sleep", t=a.args[0])


@fut("sleep")
def f_sleep(ex, st, p, f):
    pend = pending(st, "sleep")
    pend.gh["sleeping"] = f.t
    done(ex, st, p, None)
    st.ev("slept", f.t)
    return [(pend, PENDING), (st, Ready(UNIT))]


@c("tokio::time::timeout::timeout")
def timeout(ex, st, a):
    inner = st.alloc(a.args[1], "tofut")
    return Obj("fut", op="timeout", t=a.args[0], inner=inner, ity=a.inst["args"][0])


@fut("timeout")
def f_timeout(ex, st, p, f):
    def cont(ex, s, v):
        if v.v == 0:
            done(ex, s, p, None)
            return Ready(Ok(v.f[0]))
        pend = s.copy()
        pend.gh["sleeping"] = f.t
        done(ex, s, p, None)
        s.ev("slept", f.t)
        return [(pend, PENDING), (s, Ready(Err(Obj("elapsed"))))]
    return poll_value(ex, st, f.inner, cont)


def poll_value(ex, st, inner, cont):
    """poll the future stored at `inner`, then cont(result)"""
    v = ex.read(st, inner)
    pin = Agg(0, (inner,))
    if isinstance(v, Obj) and v.k == "fut":
        st.frames.append(KFrame(cont))
        a = Call({"path": "core::future::future::Future::poll", "args": []}, None, [pin, Ptr(("CX",))], None)
        r = poll_obj(ex, st, a)
        # results go through the continuation frame
        if not isinstance(r, list):
            r = [(st, r)]
        return r if r is PUSHED else _deliver_list(ex, r)
    if isinstance(v, Cor):
        st.frames.append(KFrame(cont))
        ex.push_fn(st, ex.m.T[v.ty]["inst"], [pin, Ptr(("CX",))])
        return PUSHED
    raise Undecided("poll of %r" % (v,))


def _deliver_list(ex, r):
    out = []
    for s, v in r:
        for t in ex.deliver(s, v) if not isinstance(v, Panic) else ex.finish(s, v):
            out.append((t, PUSHED))
    return out


@fut("callback")
def f_callback(ex, st, p, f):
    pend = pending(st, "callback")
    bad = st.copy()
    done(ex, st, p, None)
    done(ex, bad, p, None)
    r = ex.symbytes(st, "response(%s)" % f.id)
    st.ev("callback_ok", f.id, r)
    bad.ev("callback_err", f.id)
    resp = Agg(0, (r,))
    return [(pend, PENDING), (st, Ready(Ok(resp))), (bad, Ready(Err(Obj("anyerror", id=f.id))))]


@fut("connect")
def f_connect(ex, st, p, f):
    bad = st.copy()
    pend = pending(st, "connect")
    left = st.gh.get("connects")
    if left is not None:
        # the goal looks at one connection at a time
        pend.gh["connecting"] = True
        if left == 0:
            return [(pend, PENDING)]
        st.gh["connects"] = bad.gh["connects"] = left - 1
    done(ex, st, p, None)
    done(ex, bad, p, None)
    bad.ev("connect_fail", f.addr, f.opts)
    n = sum(1 for e in st.trace if e[0] == "connect")
    st.ev("connect", f.addr, f.opts)
    return [(pend, PENDING), (bad, Ready(Err(Obj("anyerror", id="connect")))), (st, Ready(Ok(Obj("AnyStream", id="conn%s%d" % (st.gh.get("conn_base", ""), n), pos=0))))]


@fut("bind")
def f_bind(ex, st, p, f):
    bad = st.copy()
    pend = pending(st, "bind")
    done(ex, st, p, None)
    done(ex, bad, p, None)
    bad.ev("bind_fail", f.addr, f.opts)
    st.ev("bind", f.addr, f.opts)
    return [(pend, PENDING), (bad, Ready(Err(Obj("anyerror", id="bind")))), (st, Ready(Ok(Obj("AnyListener", id="listener"))))]


@fut("accept")
def f_accept(ex, st, p, f):
    bad = st.copy()
    pend = pending(st, "accept")
    pend.gh["accepting"] = f.lid
    done(ex, st, p, None)
    done(ex, bad, p, None)
    bad.ev("accept_fail", f.lid)
    n = sum(1 for e in st.trace if e[0] == "accept")
    if n >= st.gh.get("accepts", 1 << 30):
        return [(pend, PENDING)]
    st.ev("accept", f.lid, n)
    return [(pend, PENDING), (bad, Ready(Err(Obj("anyerror", id="accept")))),
            (st, Ready(Ok(Agg(0, (Obj("AnyStream", id="peer%d" % n, pos=0), Obj("AnyRemote", id="remote%d" % n))))))]


# ==================================================================== cryptography

def typenum(name):
    # UInt<UInt<UInt<UTerm, B1>, B0>, B0>: bits from the inside out
    bits = re.findall(r"B([01])", name)
    v = 0
    for b in bits:
        v = 2 * v + int(b)
    return v


@c("generic_array::GenericArray::<T, N>::from_slice", "generic_array::GenericArray::<T, N>::clone_from_slice")
def ga_from_slice(ex, st, a):
    r = rope_of(ex, st, a.args[0])
    n = typenum(ex.m.tn(a.inst["args"][1]))
    ok, bad = ex.split(st, leq(r.len, n))
    v = Ptr(Const(r)) if a.path.endswith("::from_slice") else r
    return res((ok, v), (bad, Panic("wrong key or nonce length")))


@c("chacha20poly1305::ChaChaPoly1305<*KeyInit>::new", "<chacha20poly1305::ChaChaPoly1305<C, N> as crypto_common::KeyInit>::new")
def chacha_new(ex, st, a):
    k = rope_of(ex, st, a.args[0])
    st.ev("cipher", k)
    return Obj("chacha", key=k)


@c("<*KeyInit>::new_from_slice", "crypto_common::KeyInit::new_from_slice")
def chacha_new_slice(ex, st, a):
    k = rope_of(ex, st, a.args[0])
    ok, bad = ex.split(st, leq(k.len, 32))
    if ok is not None:
        ok.ev("cipher", k)
    return res((ok, Ok(Obj("chacha", key=k))), (bad, Err(Obj("invalidlength"))))


def seal(ex, key, nonce, pt):
    return Rope([("t", ("seal", ex.rope_key(key), ex.rope_key(nonce), ex.rope_key(pt)), ladd(pt.len, 16))])


SEALED = {}


@c("<*aead::Aead>::encrypt", "aead::Aead::encrypt")
def encrypt(ex, st, a):
    cph = ex.read(st, Ptr(*_through(ex, st, a.args[0])))
    nonce = rope_of(ex, st, a.args[1])
    if isinstance(a.args[2], Agg) and len(a.args[2].f) == 2:
        raise Undecided("associated data")
    pt = rope_of(ex, st, a.args[2])
    # the AEAD refuses plaintexts of more than (2^32 - 1) * 64 bytes
    ok, bad = ex.split(st, lule(pt.len, ((1 << 32) - 1) * 64))
    out = []
    if bad is not None:
        bad.ev("encrypt_fail", cph.key, nonce, pt)
        out.append((bad, Err(Obj("aeaderror"))))
    if ok is not None:
        ct = seal(ex, cph.key, nonce, pt)
        SEALED[ct.segs[0][1]] = (cph.key, nonce, pt)
        ok.ev("encrypt", cph.key, nonce, pt, ct)
        out.append((ok, Ok(ct)))
    return out


@c("<*aead::Aead>::decrypt", "aead::Aead::decrypt")
def decrypt(ex, st, a):
    cph = ex.read(st, Ptr(*_through(ex, st, a.args[0])))
    nonce = rope_of(ex, st, a.args[1])
    if isinstance(a.args[2], Agg) and len(a.args[2].f) == 2:
        raise Undecided("associated data")
    ct = rope_of(ex, st, a.args[2])
    bad = st.copy()
    bad.ev("decrypt_fail", cph.key, nonce, ct)
    ok, short = ex.split(st, lule(16, ct.len))
    out = [(bad, Err(Obj("aeaderror")))]
    if ok is not None:
        pt = Rope([("t", ("open", ex.rope_key(cph.key), ex.rope_key(nonce), ex.rope_key(ct)), lsub(ct.len, 16))])
        ok.ev("decrypt", cph.key, nonce, ct, pt)
        out.append((ok, Ok(pt)))
    return out


@c("<x25519_dalek::x25519::PublicKey as core::convert::From<&'a x25519_dalek::x25519::StaticSecret>>::from")
def pk_from_sk(ex, st, a):
    sk = rope_of(ex, st, a.args[0])
    return Rope([("t", ("pub", ex.rope_key(sk)), 32)])


@c("<x25519_dalek::x25519::PublicKey as core::convert::From<[u8; 32]>>::from", "<x25519_dalek::x25519::StaticSecret as core::convert::From<[u8; 32]>>::from", "x25519_dalek::x25519::SharedSecret::to_bytes",
   "x25519_dalek::x25519::PublicKey::to_bytes", "x25519_dalek::x25519::StaticSecret::to_bytes")
def x_from(ex, st, a):
    v = a.args[0]
    return rope_of(ex, st, v)


@c("x25519_dalek::x25519::PublicKey::as_bytes", "x25519_dalek::x25519::SharedSecret::as_bytes", "x25519_dalek::x25519::StaticSecret::as_bytes", "<x25519_dalek::x25519::*AsRef*>::as_ref")
def x_bytes(ex, st, a):
    return Ptr(Const(rope_of(ex, st, a.args[0])))


@c("x25519_dalek::x25519::StaticSecret::diffie_hellman")
def dh(ex, st, a):
    sk, pk = rope_of(ex, st, a.args[0]), rope_of(ex, st, a.args[1])
    r = Rope([("t", ("dh", ex.rope_key(sk), ex.rope_key(pk)), 32)])
    st.ev("dh", sk, pk)
    return r


@c("x25519_dalek::x25519::SharedSecret::was_contributory")
def contributory(ex, st, a):
    """nothing is known about it: a peer may send a public key of low order"""
    return z3.Bool("contributory(%s)" % (ex.rope_key(rope_of(ex, st, a.args[0])),))


@c("<D as digest::digest::Digest>::digest", "digest::digest::Digest::digest")
def sha(ex, st, a):
    r = rope_of(ex, st, a.args[0])
    h = "sha256" if any("Sha256" in ex.m.tn(t) for t in a.fn["args"] + (a.inst["args"] if a.inst else [])) else "digest"
    n = 32
    out = Rope([("t", (h, ex.rope_key(r)), n)])
    st.ev("hash", h, r)
    return out


@c("<trait_bound_typemap::*new", "<trait_bound_typemap::trait_maps::send_sync_typemap::SendSyncTypeMap as trait_bound_typemap::typemap_trait::TypeMap>::new")
def typemap(ex, st, a):
    return Obj("typemap", id=st.fresh("typemap"), ops=Agg(0, ()))


TM = "<trait_bound_typemap::trait_maps::send_sync_typemap::SendSyncTypeMap as "


@c(TM + "trait_bound_typemap::typemap_trait::TypeMap>::insert", TM + "core::iter::traits::collect::Extend<trait_bound_typemap::entry::TypeMapEntry<K>>>::extend",
   note="a type map is what it began as and the later insertions, the last one of a key")
def typemap_insert(ex, st, a):
    p = Ptr(*_through(ex, st, a.args[0]))
    o = ex.read(st, p)
    if isinstance(o, Sym):
        o = Obj("typemap", id=o.name, ops=Agg(0, ()))
    key = ex.m.tn(a.inst["args"][0]) if a.path.endswith("::insert") else "all of"
    ops = [x for x in o.ops.f if key == "all of" or x.f[0].id != key]
    ex.write(st, p, o.set(ops=Agg(0, tuple(ops) + (Agg(0, (Obj("key", id=key), a.args[1])),))))
    return UNIT


@c(TM + "trait_bound_typemap::typemap_trait::TypeMap>::contains_key", note="true after an insertion of the key, unknown (but one value) before")
def typemap_contains(ex, st, a):
    o = ex.read(st, Ptr(*_through(ex, st, a.args[0])))
    if isinstance(o, Sym):
        o = Obj("typemap", id=o.name, ops=Agg(0, ()))
    key = ex.m.tn(a.inst["args"][0])
    known = z3.Bool("haskey(%s,%s)" % (o.id, key))
    for x in o.ops.f:
        if x.f[0].id == key:
            return z3.BoolVal(True)
        if x.f[0].id == "all of":
            known = z3.Or(known, z3.Bool("haskey(%s,%s)" % (getattr(x.f[1], "id", "other"), key)))
    return norm_bool(known)


@c("tracing::enabled", note="whether logging is enabled is unknown, but one answer")
def tracing_enabled(ex, st, a):
    return z3.Bool("tracing.enabled")


@c("std::thread::functions::panicking", "std::thread::panicking", note="unknown: a destructor may run while the thread unwinds")
def thread_panicking(ex, st, a):
    return z3.Bool("panicking")


TRUSTED = [
    "cryptography: ChaCha20-Poly1305 is an uninterpreted sealing function of key, nonce and plaintext (16 bytes longer) whose opening either fails or gives bytes that only key, nonce and ciphertext determine; that nothing else than a sealed packet opens is the ideal-AEAD assumption. X25519, its public keys and SHA-256 are uninterpreted functions; keys are equal when their 32 bytes are; thread_rng gives fresh bytes",
    "the contracts of the library functions in mirver/mv/lib.py (std containers, bytes, byteorder, tokio I/O, channels, locks, timers and spawn, dashmap, num_enum errors, formatting)",
    "the MIR exporter and rustc nightly's front end: the MIR executed is the one rustc builds for the same source (the shipped binary is built by 1.85.1)",
    "the tracing crate is replaced by a stub whose macros evaluate the expressions they log if logging is enabled, which is left open, and nothing otherwise (subscribers, the formatting of what is logged and #[instrument] are taken to have no effect on the properties); unwinding paths are not followed: a panic is an outcome of its own",
    "z3 %s" % z3.get_version_string(),
    "an object is smaller than 2^47 bytes (x86-64 user address space) and memory allocation succeeds",
]

import lib2  # noqa: further contracts (they register themselves)
