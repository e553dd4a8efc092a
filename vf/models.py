"""Models of the operations of std and of the dependencies: what value they return and
what they write, as functions of their arguments."""
import re

from .terms import *
from . import linear
from .interp import Info, LEN_ADT

OPT = "std::option::Option"
RES = "std::result::Result"
NONE = agg((OPT, 0), ())


def SOME(x):
    return agg((OPT, 1), (x,))


def OK(x):
    return agg((RES, 0), (x,))


def ERR(x):
    return agg((RES, 1), (x,))


def is_some(t):
    return tag(t, 1, 2)


def opt_if(c, v):
    return ITE(c, SOME(v), NONE)


EXACT = {}
RX = []


def model(*paths):
    def d(f):
        for p in paths:
            EXACT[p] = f
        return f
    return d


def rx(*pats):
    def d(f):
        for p in pats:
            RX.append((re.compile(p), f))
        return f
    return d


class Models:
    def __init__(self, extra=None):
        self.extra = extra or {}
        self.memo = {}
        self.pure_ok = PURE_OK
        self.used = {}

    def get(self, E, fn):
        path = fn["path"]
        f = self.extra.get(path)
        if f is not None:
            return f
        if path in self.memo:
            f = self.memo[path]
        else:
            f = EXACT.get(path)
            if f is None:
                for r, g in RX:
                    if r.search(path):
                        f = g
                        break
            if f is None and fn.get("via") and fn.get("id") is None:
                f = VIA.get(fn["via"])
            self.memo[path] = f
        if f is not None:
            self.used[path] = self.used.get(path, 0) + 1
        return f

    def special(self, E, st, f, args, info):
        return None


VIA = {}
PURE_OK = set()


# ------------------------------------------------------------------ helpers
def deref_arg(E, st, a, info, i):
    """value of an argument that may be passed by &mut"""
    ti = info.atys[i] if info and info.atys and i < len(info.atys) else None
    if ti is not None:
        t = E.types[ti]
        if t["k"] == "ref" and t["mut"]:
            return E.load(st, a)
        if t["k"] == "ref":
            # & &mut T
            t2 = E.types[t["elem"]]
            if t2["k"] == "ref" and t2["mut"] and a.op == "ref":
                return E.load(st, a)
    elif a.op == "ref":
        return E.load(st, a)
    return a


def unit(v=None):
    return UNIT


def elem_ty(E, ti):
    t = E.types[ti]
    while t["k"] in ("ref", "ptr"):
        t = E.types[t["elem"]]
    if t["k"] in ("slice", "array"):
        return E.types[t["elem"]]
    if t["k"] == "adt" and t["args"]:
        return E.types[t["args"][0]]
    return None


# ------------------------------------------------------------------ identity-like
def ident(E, st, a, info):
    return deref_arg(E, st, a[0], info, 0)


def keep(E, st, a, info):
    return a[0]


for p in (
    "<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::string::String as std::ops::Deref>::deref",
    "std::vec::Vec::<T, A>::as_slice", "std::string::String::as_bytes", "std::string::String::as_str", "core::str::<impl str>::as_bytes",
    "std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::into_vec", "std::str::<impl std::borrow::ToOwned for str>::to_owned",
    "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned", "core::array::<impl [T; N]>::as_slice", "std::array::<impl [T; N]>::as_slice",
    "std::hint::must_use", "std::boxed::box_assume_init_into_vec_unsafe", "std::boxed::Box::<T>::new",
    "<std::vec::Vec<T> as std::convert::From<&[T]>>::from", "<std::vec::Vec<T> as std::convert::From<[T; N]>>::from",
    "std::vec::Vec::<T, A>::into_boxed_slice", "std::convert::identity", "core::str::<impl str>::to_string", "std::str::<impl str>::into_string",
    "std::string::String::into_bytes", "std::option::Option::<T>::as_deref", "std::vec::Vec::<T, A>::leak",
    "<std::ffi::CString as std::ops::Deref>::deref", "std::ffi::CString::as_bytes", "std::ffi::CString::as_c_str", "std::ffi::CStr::to_bytes",
    "<abe_policy::Attributes as std::ops::Deref>::deref", "<cosmian_crypto_base::GenericArray<T, N> as std::ops::Deref>::deref",
    "<cosmian_crypto_core::symmetric_crypto::key::Key<KeyLength> as cosmian_crypto_base::symmetric_crypto::SymKey>::as_bytes",
    "<cosmian_crypto_core::symmetric_crypto::key::Key<KeyLength> as cosmian_crypto_base::KeyTrait>::to_bytes",
    "<cosmian_crypto_base::symmetric_crypto::nonce::Nonce<NONCE_LENGTH> as cosmian_crypto_base::symmetric_crypto::nonce::NonceTrait>::as_slice",
):
    EXACT[p] = ident
for p in ("std::ptr::const_ptr::<impl *const T>::cast", "std::ptr::mut_ptr::<impl *mut T>::cast", "std::ptr::mut_ptr::<impl *mut T>::cast_const", "std::ptr::const_ptr::<impl *const T>::cast_mut",
          "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", "std::vec::Vec::<T, A>::as_mut_slice", "std::vec::Vec::<T, A>::as_mut_ptr", "core::slice::<impl [T]>::as_mut_ptr"):
    EXACT[p] = keep


@rx(r" as std::clone::Clone>::clone$", r"<impl std::clone::Clone for .*>::clone$", r" as std::borrow::ToOwned>::to_owned$", r"ToOwned for .*>::to_owned$",
    r" as std::borrow::Borrow<.*>::borrow$", r" as std::convert::AsRef<.*>::as_ref$", r"<impl std::convert::AsRef<.*>::as_ref$",
    r"<impl std::borrow::Borrow<.*>::borrow$")
def m_clone(E, st, a, info):
    return deref_arg(E, st, a[0], info, 0)


@rx(r" as std::convert::AsMut<.*>::as_mut$")
def m_asmut(E, st, a, info):
    return a[0]


VIA["std::clone::Clone::clone"] = m_clone


@model("std::clone::Clone::clone_from")
def m_clone_from(E, st, a, info):
    E.put(st, a[0], a[1])
    return UNIT


# ------------------------------------------------------------------ Vec / slice / array / String
@model("std::vec::Vec::<T>::new", "std::string::String::new", "<std::vec::Vec<T> as std::default::Default>::default",
       "<std::string::String as std::default::Default>::default")
def m_vnew(E, st, a, info):
    return NIL


@model("std::vec::Vec::<T>::with_capacity", "std::string::String::with_capacity")
def m_vcap(E, st, a, info):
    E.event(st, "alloc", size=a[0], ty=info.dty)
    return NIL


@model("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::reserve_exact", "std::string::String::reserve")
def m_reserve(E, st, a, info):
    E.event(st, "alloc", size=a[1], ty=None)
    return UNIT


@model("std::vec::Vec::<T, A>::shrink_to_fit")
def m_noop(E, st, a, info):
    return UNIT


@model("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "std::string::String::len", "core::str::<impl str>::len",
       "std::collections::VecDeque::<T, A>::len", "std::collections::HashMap::<K, V, S, A>::len", "std::iter::ExactSizeIterator::len",
       "js_sys::Uint8Array::length")
def m_len(E, st, a, info):
    v = deref_arg(E, st, a[0], info, 0)
    if v.op == "agg" and v.args[0][0] == "it":
        return p_sub(length(v.args[1][0]), v.args[1][1])
    return length(v)


@rx(r"core::slice::<impl \[T; ?N\]>::len$", r"std::array::.*::len$")
def m_len2(E, st, a, info):
    return m_len(E, st, a, info)


@model("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty", "std::string::String::is_empty",
       "std::collections::VecDeque::<T, A>::is_empty", "std::collections::HashMap::<K, V, S, A>::is_empty")
def m_empty(E, st, a, info):
    return P_eq_int(m_len(E, st, a, info), INT(0))


@model("std::vec::Vec::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back")
def m_push(E, st, a, info):
    E.put(st, a[0], cat([E.load(st, a[0]), seq([a[1]])]))
    return UNIT


@model("std::vec::Vec::<T, A>::append")
def m_append(E, st, a, info):
    x = E.load(st, a[1])
    E.put(st, a[0], cat([E.load(st, a[0]), x]))
    E.put(st, a[1], NIL)
    return UNIT


@model("std::vec::Vec::<T, A>::extend_from_slice", "std::string::String::push_str")
def m_extend_slice(E, st, a, info):
    E.put(st, a[0], cat([E.load(st, a[0]), deref_arg(E, st, a[1], info, 1)]))
    return UNIT


@rx(r"as std::iter::Extend<.*>::extend$")
def m_extend(E, st, a, info):
    it = into_it(E, st, a[1], info.atys[1] if info.atys else None)
    if it is None:
        return E.opaque(st, info.path, a, info)
    cur = E.load(st, a[0])
    if is_map_ty(E, info.atys[0] if info.atys else None):
        E.put(st, a[0], map_extend(cur, remaining(it)))
    else:
        E.put(st, a[0], cat([cur, remaining(it)]))
    return UNIT


@model("std::vec::Vec::<T, A>::pop")
def m_pop(E, st, a, info):
    v = E.load(st, a[0])
    n = length(v)
    c = P_lt(INT(0), n)
    last = p_sub(n, INT(1))
    E.put(st, a[0], ITE(c, sl(v, INT(0), last), v))
    return opt_if(c, at(v, last))


@model("std::vec::Vec::<T, A>::insert")
def m_insert(E, st, a, info):
    v = E.load(st, a[0])
    if not E.require(st, P_le(a[1], length(v)), "insert index"):
        return None
    E.put(st, a[0], cat([sl(v, INT(0), a[1]), seq([a[2]]), sl(v, a[1], length(v))]))
    return UNIT


@model("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove")
def m_remove(E, st, a, info):
    v = E.load(st, a[0])
    if not E.require(st, P_lt(a[1], length(v)), "remove index"):
        return None
    if info.path.endswith("swap_remove"):
        E.put(st, a[0], mk("unk", "swap_remove", (v, a[1])))
    else:
        E.put(st, a[0], cat([sl(v, INT(0), a[1]), sl(v, p_add(a[1], INT(1)), length(v))]))
    return at(v, a[1])


@model("std::vec::Vec::<T, A>::truncate")
def m_truncate(E, st, a, info):
    v = E.load(st, a[0])
    n = length(v)
    E.put(st, a[0], ITE(P_lt(a[1], n), sl(v, INT(0), a[1]), v))
    return UNIT


@model("std::vec::Vec::<T, A>::clear", "std::string::String::clear")
def m_clear(E, st, a, info):
    E.put(st, a[0], NIL)
    return UNIT


@model("std::vec::Vec::<T, A>::split_off")
def m_split_off(E, st, a, info):
    v = E.load(st, a[0])
    if not E.require(st, P_le(a[1], length(v)), "split_off"):
        return None
    E.put(st, a[0], sl(v, INT(0), a[1]))
    return sl(v, a[1], length(v))


@model("std::vec::Vec::<T, A>::resize")
def m_resize(E, st, a, info):
    v = E.load(st, a[0])
    E.event(st, "alloc", size=a[1], ty=None)
    E.put(st, a[0], do_resize(v, a[1], a[2]))
    return UNIT


def do_resize(v, n, x):
    if v.op == "ite" or n.op == "ite":
        return lift2(lambda p, q: do_resize(p, q, x), v, n)
    lv = length(v)
    d = p_sub(n, lv)
    if is_int(d) or nonneg(d):
        if is_int(d) and d.args[0] < 0:
            return sl(v, INT(0), n)
        return cat([v, flat(d, mk("k", "rep"), seq([x]))])
    c = P_le(lv, n)
    return ITE(c, cat([v, flat(d, mk("k", "rep"), seq([x]))]), sl(v, INT(0), n))


@model("std::vec::from_elem")
def m_from_elem(E, st, a, info):
    E.event(st, "alloc", size=a[1], ty=info.dty)
    return flat(a[1], mk("k", "rep"), seq([a[0]]))


@model("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first")
def m_last(E, st, a, info):
    v = deref_arg(E, st, a[0], info, 0)
    n = length(v)
    return opt_if(P_lt(INT(0), n), at(v, p_sub(n, INT(1)) if info.path.endswith("last") else INT(0)))


@model("std::collections::BinaryHeap::<T, A>::peek")
def m_peek(E, st, a, info):
    v = deref_arg(E, st, a[0], info, 0)
    n = length(v)
    return opt_if(P_lt(INT(0), n), ITE(P_eq_int(n, INT(1)), at(v, INT(0)), mk("call", "largest", (v,))))


@model("core::slice::<impl [T]>::swap")
def m_swap(E, st, a, info):
    v = E.load(st, a[0])
    n = length(v)
    if not E.require(st, AND(P_lt(a[1], n), P_lt(a[2], n)), "swap index"):
        return None
    E.put(st, a[0], store(store(v, a[1], at(v, a[2])), a[2], at(v, a[1])))
    return UNIT


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut", "core::str::<impl str>::split_at")
def m_split_at(E, st, a, info):
    v = deref_arg(E, st, a[0], info, 0)
    if not E.require(st, P_le(a[1], length(v)), "split_at", idx=a[1], len=length(v)):
        return None
    if info.path.endswith("mut"):
        return agg(("tuple", 0), (subref(E, a[0], ("sl", INT(0), a[1])), subref(E, a[0], ("sl", a[1], length(v)))))
    return agg(("tuple", 0), (sl(v, INT(0), a[1]), sl(v, a[1], length(v))))


@model("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def m_split_first(E, st, a, info):
    v = a[0]
    n = length(v)
    if info.path.endswith("first"):
        t = agg(("tuple", 0), (at(v, INT(0)), sl(v, INT(1), n)))
    else:
        m = p_sub(n, INT(1))
        t = agg(("tuple", 0), (at(v, m), sl(v, INT(0), m)))
    return opt_if(P_lt(INT(0), n), t)


def subref(E, r, e):
    if r.op == "ref":
        return mk("ref", r.args[0], r.args[1] + (e,))
    if r.op == "ite":
        return lift(lambda x: subref(E, x, e), r)
    return mk("ref", ("H", r), (e,))


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def m_copy_from(E, st, a, info):
    dst = E.load(st, a[0])
    src = deref_arg(E, st, a[1], info, 1)
    if not E.require(st, P_eq_int(length(dst), length(src)), "copy_from_slice"):
        return None
    E.event(st, "copy", dst=a[0], src=src)
    E.put(st, a[0], src)
    return UNIT


@model("core::slice::<impl [T]>::fill")
def m_fill(E, st, a, info):
    v = E.load(st, a[0])
    E.put(st, a[0], flat(length(v), mk("k", "rep"), seq([a[1]])))
    return UNIT


@model("core::slice::<impl [T]>::contains")
def m_contains(E, st, a, info):
    v = deref_arg(E, st, a[0], info, 0)
    k = mk("k", ("contains", E.chain()))
    return exists(length(v), k, eq_ty(E, at(v, k), a[1], info.atys[1] if info.atys else None))


@model("core::slice::<impl [T]>::concat", "std::slice::<impl [T]>::concat", "std::slice::<impl [T]>::join")
def m_concat(E, st, a, info):
    v = a[0]
    if info.path.endswith("concat"):
        if v.op in ("seq",):
            return cat(v.args)
        k = mk("k", ("concat", E.chain()))
        return flat(length(v), k, at(v, k))
    return E.opaque(st, info.path, a, info)


@model("core::slice::<impl [T]>::starts_with")
def m_starts(E, st, a, info):
    v, w = a
    n = length(w)
    return AND(P_le(n, length(v)), P_eq(sl(v, INT(0), n), w))


# ---- indexing
def range_of(E, st, i, n, info, what):
    """(lo, hi) of a range index, or None"""
    if i.op != "agg":
        return None
    nm = i.args[0][0]
    f = i.args[1]
    if nm.endswith("ops::Range"):
        return f[0], f[1]
    if nm.endswith("RangeTo"):
        return INT(0), f[0]
    if nm.endswith("RangeFrom"):
        return f[0], n
    if nm.endswith("RangeFull"):
        return INT(0), n
    if nm.endswith("RangeInclusive"):
        return f[0], p_add(f[1], INT(1))
    if nm.endswith("RangeToInclusive"):
        return INT(0), p_add(f[0], INT(1))
    return None


@rx(r"ops::RangeInclusive::<Idx>::new$", r"range::RangeInclusive::<Idx>::new$")
def m_range_inclusive(E, st, a, info):
    return agg(("core::ops::RangeInclusive", 0), (a[0], a[1], FALSE))


@rx(r"RangeInclusive::<Idx>::start$")
def m_range_start(E, st, a, info):
    return fld(a[0], 0, 0)


def is_range(i):
    return i.op == "agg" and "ops::" in str(i.args[0][0]) and "Range" in str(i.args[0][0])


def range_req(lo, hi, n):
    return AND(P_le(lo, hi), P_le(hi, n))


@model("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "core::slice::index::<impl std::ops::Index<I> for [T]>::index",
       "<std::string::String as std::ops::Index<I>>::index", "core::str::traits::<impl std::ops::Index<I> for str>::index",
       "std::array::<impl std::ops::Index<I> for [T; N]>::index", "core::array::<impl std::ops::Index<I> for [T; N]>::index")
def m_index(E, st, a, info):
    v = deref_arg(E, st, a[0], info, 0)
    i = a[1]
    n = length(v)
    if is_range(i):
        r = range_of(E, st, i, n, info, "slice")
        if r is None:
            return E.opaque(st, info.path, a, info)
        if not E.require(st, range_req(r[0], r[1], n), "slice", lo=r[0], hi=r[1], len=n, base=v, fr=info.fr):
            return None
        return sl(v, *r)
    if not E.require(st, P_lt(i, n), "index", idx=i, len=n, fr=info.fr):
        return None
    return at(v, i)


@model("<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut", "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut",
       "std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut", "core::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut")
def m_index_mut(E, st, a, info):
    v = E.load(st, a[0])
    i = a[1]
    n = length(v)
    if is_range(i):
        r = range_of(E, st, i, n, info, "slice")
        if r is None:
            return E.opaque(st, info.path, a, info)
        if not E.require(st, range_req(r[0], r[1], n), "slice", lo=r[0], hi=r[1], len=n, base=v, fr=info.fr):
            return None
        return subref(E, a[0], ("sl", r[0], r[1]))
    if not E.require(st, P_lt(i, n), "index", idx=i, len=n, fr=info.fr):
        return None
    return subref(E, a[0], ("ix", i))


@model("core::slice::<impl [T]>::get")
def m_get(E, st, a, info):
    v = deref_arg(E, st, a[0], info, 0)
    i = a[1]
    n = length(v)
    if is_range(i):
        r = range_of(E, st, i, n, info, "slice")
        if r is None:
            return E.opaque(st, info.path, a, info)
        return opt_if(range_req(r[0], r[1], n), sl(v, *r))
    return opt_if(P_lt(i, n), at(v, i))


@model("core::slice::<impl [T]>::get_mut")
def m_get_mut(E, st, a, info):
    v = E.load(st, a[0])
    i = a[1]
    n = length(v)
    if is_range(i):
        r = range_of(E, st, i, n, info, "slice")
        return opt_if(range_req(r[0], r[1], n), subref(E, a[0], ("sl", r[0], r[1])))
    return opt_if(P_lt(i, n), subref(E, a[0], ("ix", i)))


@model("core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut")
def m_first_mut(E, st, a, info):
    v = E.load(st, a[0])
    n = length(v)
    return opt_if(P_lt(INT(0), n), subref(E, a[0], ("ix", INT(0) if "first" in info.path else p_sub(n, INT(1)))))


# ---- VecDeque
@model("std::collections::VecDeque::<T>::new")
def m_dqnew(E, st, a, info):
    return NIL


@model("std::collections::VecDeque::<T, A>::pop_front")
def m_pop_front(E, st, a, info):
    v = E.load(st, a[0])
    n = length(v)
    c = P_lt(INT(0), n)
    E.put(st, a[0], ITE(c, sl(v, INT(1), n), v))
    return opt_if(c, at(v, INT(0)))


# ------------------------------------------------------------------ integers / conversions
@rx(r"core::num::<impl (u|i)(8|16|32|64|128|size)>::to_(be|le)_bytes$")
def m_to_bytes(E, st, a, info):
    m = re.search(r"impl (u|i)(\w+)>::to_(be|le)_bytes", info.path)
    w = 8 if m.group(2) == "size" else int(m.group(2)) // 8
    return enc(m.group(3) + ("s" if m.group(1) == "i" else ""), w, a[0])


@rx(r"core::num::<impl (u|i)(8|16|32|64|128|size)>::from_(be|le)_bytes$")
def m_from_bytes(E, st, a, info):
    m = re.search(r"impl (u|i)(\w+)>::from_(be|le)_bytes", info.path)
    w = 8 if m.group(2) == "size" else int(m.group(2)) // 8
    r = dec(m.group(3) + ("s" if m.group(1) == "i" else ""), w, a[0])
    return r


@rx(r"core::num::<impl i\w+>::unsigned_abs$", r"core::num::<impl i\w+>::abs$")
def m_abs(E, st, a, info):
    return ITE(P_lt(a[0], INT(0)), p_scale(a[0], -1), a[0])


def tyrange(E, ti):
    return E.int_range(E.types[ti])


def out_of(v, r):
    return OR(P_lt(v, INT(r[0])), P_lt(INT(r[1]), v))


@rx(r"core::num::<impl \w+>::checked_(add|sub|mul)$")
def m_checked(E, st, a, info):
    o = info.path.rsplit("_", 1)[1]
    v = {"add": p_add, "sub": p_sub, "mul": p_mul}[o](a[0], a[1])
    r = num_range(info.path)
    return opt_if(NOT(out_of(v, r)), v)


@rx(r"core::num::<impl \w+>::saturating_(add|sub|mul)$")
def m_saturating(E, st, a, info):
    o = info.path.rsplit("_", 1)[1]
    v = {"add": p_add, "sub": p_sub, "mul": p_mul}[o](a[0], a[1])
    r = num_range(info.path)
    return ITE(P_lt(v, INT(r[0])), INT(r[0]), ITE(P_lt(INT(r[1]), v), INT(r[1]), v))


@rx(r"core::num::<impl \w+>::wrapping_(add|sub|mul)$")
def m_wrapping(E, st, a, info):
    o = info.path.rsplit("_", 1)[1]
    v = {"add": p_add, "sub": p_sub, "mul": p_mul}[o](a[0], a[1])
    r = num_range(info.path)
    us = units(st.pc)
    if linear.holds(us, NOT(out_of(v, r))):
        return v
    t = mk("cast", v, re.search(r"impl (\w+)>", info.path).group(1))
    RANGE[t] = r
    return t


@rx(r"core::num::<impl \w+>::overflowing_(add|sub|mul)$")
def m_overflowing(E, st, a, info):
    o = info.path.rsplit("_", 1)[1]
    v = {"add": p_add, "sub": p_sub, "mul": p_mul}[o](a[0], a[1])
    r = num_range(info.path)
    c = out_of(v, r)
    t = mk("cast", v, re.search(r"impl (\w+)>", info.path).group(1))
    RANGE[t] = r
    return agg(("tuple", 0), (ITE(c, t, v), c))


def num_range(path):
    m = re.search(r"impl (u|i)(\w+)>", path)
    b = 64 if m.group(2) == "size" else int(m.group(2))
    return (0, 2 ** b - 1) if m.group(1) == "u" else (-(2 ** (b - 1)), 2 ** (b - 1) - 1)


@rx(r"core::num::<impl \w+>::is_negative$")
def m_isneg(E, st, a, info):
    return P_lt(a[0], INT(0))


@rx(r"core::num::<impl \w+>::is_positive$")
def m_ispos(E, st, a, info):
    return P_lt(INT(0), a[0])


@rx(r"<impl std::convert::From<(u|i)\w+> for (u|i)\w+>::from$", r"<impl std::convert::From<bool> for \w+>::from$")
def m_from_int(E, st, a, info):
    if "bool" in info.path:
        return ITE(b_norm(a[0]), INT(1), INT(0))
    return a[0]


@rx(r"<impl std::convert::TryFrom<(u|i)\w+> for (u|i)\w+>::try_from$")
def m_tryfrom_int(E, st, a, info):
    m = re.search(r" for ((u|i)\w+)>::try_from", info.path)
    b = m.group(1)
    w = 64 if b.endswith("size") else int(b[1:])
    r = (0, 2 ** w - 1) if b[0] == "u" else (-(2 ** (w - 1)), 2 ** (w - 1) - 1)
    c = E.simp(st, NOT(out_of(a[0], r)))
    return ITE(c, OK(a[0]), ERR(mk("const", "TryFromIntError", "")))


@rx(r"TryFrom<&'?a? ?(mut )?\[T\]> for \[T; N\]>::try_from$", r"TryFrom<&'a (mut )?\[T\]> for &'a (mut )?\[T; N\]>::try_from$",
    r"TryFrom<std::vec::Vec<T.*>> for \[T; N\]>::try_from$")
def m_try_array(E, st, a, info):
    # Result<[T; N], TryFromSliceError>
    t = E.types[info.dty]
    okt = E.types[t["args"][0]]
    while okt["k"] == "ref":
        okt = E.types[okt["elem"]]
    n = okt.get("len")
    v = deref_arg(E, st, a[0], info, 0)
    if n is None:
        return E.opaque(st, info.path, a, info)
    c = E.simp(st, P_eq_int(length(v), INT(n)))
    return ITE(c, OK(v), ERR(mk("const", "TryFromSliceError", "")))


@rx(r"^std::cmp::impls::<impl std::cmp::Ord for [ui](8|16|32|64|128|size)>::min$")
@model("std::cmp::min", "std::cmp::Ord::min", "core::cmp::Ord::min")
def m_min(E, st, a, info):
    return imin(a[0], a[1])


@rx(r"^std::cmp::impls::<impl std::cmp::Ord for [ui](8|16|32|64|128|size)>::clamp$")
@model("std::cmp::Ord::clamp", "core::cmp::Ord::clamp")
def m_clamp(E, st, a, info):
    return imin(imax(a[0], a[1]), a[2])


@rx(r"^std::cmp::impls::<impl std::cmp::Ord for [ui](8|16|32|64|128|size)>::max$")
@model("std::cmp::max", "std::cmp::Ord::max", "core::cmp::Ord::max")
def m_max(E, st, a, info):
    return imax(a[0], a[1])


# ------------------------------------------------------------------ equality
def eq_ty(E, x, y, ti):
    """equality of two values of the given type"""
    t = E.types[ti] if ti is not None else None
    while t is not None and t["k"] == "ref":
        t = E.types[t["elem"]]
    if t is not None and t["k"] in ("int", "char"):
        return P_eq_int(x, y)
    if t is not None and t["k"] == "adt" and t["kind"] == "Enum" and len(t["variants"]) <= 2 and t["adt"] == OPT:
        at_ = t["args"][0]
        sx, sy = is_some(x), is_some(y)
        return ITE(sx, AND(sy, eq_ty(E, fld(x, 1, 0), fld(y, 1, 0), at_)), NOT(sy))
    return P_eq(x, y)


@rx(r"as std::cmp::PartialEq(<.*>)?>::eq$", r"<impl std::cmp::PartialEq(<.*>)? for .*>::eq$")
def m_eq(E, st, a, info):
    fn = info.fn
    ta = info.atys[0] if info.atys else None
    # reference-to-reference comparison: compare what they point to
    x, y = deref_arg(E, st, a[0], info, 0), deref_arg(E, st, a[1], info, 1)
    if fn.get("id") is not None and "cmp::impls" not in info.path:
        return E.inline(st, E.P.inst[fn["id"]], a, info)
    return eq_deep(E, st, x, y, ta, info)


def eq_deep(E, st, x, y, ta, info):
    return eq_ty(E, x, y, ta)


@rx(r"as std::cmp::PartialEq(<.*>)?>::ne$", r"<impl std::cmp::PartialEq(<.*>)? for .*>::ne$", r"^std::cmp::PartialEq::ne$", r"^core::cmp::PartialEq::ne$")
def m_ne(E, st, a, info):
    ta = info.atys[0] if info.atys else None
    x, y = deref_arg(E, st, a[0], info, 0), deref_arg(E, st, a[1], info, 1)
    # the newtype around a scalar compares its content
    return NOT(eq_ty(E, unwrap_newtype(x), unwrap_newtype(y), ta))


def unwrap_newtype(x):
    return x


VIA["std::cmp::PartialEq::eq"] = m_eq
VIA["std::cmp::PartialEq::ne"] = m_ne


# ------------------------------------------------------------------ option/result leftovers
@rx(r"panicking::panic", r"option::expect_failed$", r"option::unwrap_failed$", r"result::unwrap_failed$", r"rt::begin_panic$", r"panicking::assert_failed", r"slice_.*_fail$")
def m_panic(E, st, a, info):
    E.require(st, FALSE, "panic " + info.path.rsplit("::", 1)[-1], fr=info.fr)
    return None


@model("std::mem::replace")
def m_replace(E, st, a, info):
    v = E.load(st, a[0])
    E.put(st, a[0], a[1])
    return v


@model("std::mem::take")
def m_take_mem(E, st, a, info):
    v = E.load(st, a[0])
    t = E.types[info.dty]
    if t["k"] == "adt" and t["adt"] in ("std::vec::Vec", "std::string::String"):
        E.put(st, a[0], NIL)
        return v
    if t["k"] == "adt" and t["adt"] == OPT:
        E.put(st, a[0], NONE)
        return v
    return E.opaque(st, info.path, a, info)


@model("std::mem::swap")
def m_swap_mem(E, st, a, info):
    x, y = E.load(st, a[0]), E.load(st, a[1])
    E.put(st, a[0], y)
    E.put(st, a[1], x)
    return UNIT


@model("std::mem::drop")
def m_drop(E, st, a, info):
    E.event(st, "drop", ty=info.atys[0] if info.atys else None, value=a[0])
    return UNIT


@model("std::boxed::Box::<T>::new_uninit")
def m_uninit(E, st, a, info):
    return UNDEF


# ------------------------------------------------------------------ maps
MAP = "std::collections::HashMap"


def is_map_ty(E, ti):
    if ti is None:
        return False
    t = E.types[ti]
    while t["k"] == "ref":
        t = E.types[t["elem"]]
    return t["k"] == "adt" and t["adt"].endswith(("HashMap", "BTreeMap"))


@model("std::collections::HashMap::<K, V>::new", "std::collections::BTreeMap::<K, V>::new", "<std::collections::HashMap<K, V, S> as std::default::Default>::default",
       "std::collections::HashSet::<T>::new", "std::collections::BTreeSet::<T>::new")
def m_mapnew(E, st, a, info):
    return MNIL


@model("std::collections::HashMap::<K, V>::with_capacity", "std::collections::HashSet::<T>::with_capacity")
def m_mapcap(E, st, a, info):
    E.event(st, "alloc", size=a[0], ty=info.dty)
    return MNIL


@rx(r"(HashMap|BTreeMap)::<K, V(, S)?(, A)?>::insert$")
def m_mapins(E, st, a, info):
    m = E.load(st, a[0])
    c = map_has(E, m, a[1])
    E.event(st, "mapinsert", map=a[0], key=a[1], value=a[2])
    E.put(st, a[0], mins(m, a[1], a[2]))
    return opt_if(c, mget(m, a[1]))


@rx(r"(HashSet|BTreeSet)::<T(, S)?(, A)?>::insert$")
def m_setins(E, st, a, info):
    m = E.load(st, a[0])
    c = map_has(E, m, a[1])
    E.event(st, "mapinsert", map=a[0], key=a[1], value=UNIT)
    E.put(st, a[0], mins(m, a[1], UNIT))
    return NOT(c)


def map_has(E, m, k):
    return mhas(m, k)


@rx(r"(HashMap|BTreeMap)::<K, V(, S)?(, A)?>::get$")
def m_mapget(E, st, a, info):
    m = deref_arg(E, st, a[0], info, 0)
    return opt_if(mhas(m, a[1]), mget(m, a[1]))


@rx(r"(HashMap|BTreeMap)::<K, V(, S)?(, A)?>::get_mut$")
def m_mapgetm(E, st, a, info):
    m = E.load(st, a[0])
    return opt_if(mhas(m, a[1]), subref(E, a[0], ("mk", a[1])))


@rx(r"(HashMap|BTreeMap|HashSet|BTreeSet)::<.*>::contains(_key)?$")
def m_mapc(E, st, a, info):
    m = deref_arg(E, st, a[0], info, 0)
    return mhas(m, a[1])


@rx(r"(HashMap|BTreeMap)::<K, V(, S)?(, A)?>::remove$")
def m_maprem(E, st, a, info):
    m = E.load(st, a[0])
    E.event(st, "mapremove", map=a[0], key=a[1])
    E.put(st, a[0], mk("mrem", m, a[1]))
    return opt_if(mhas(m, a[1]), mget(m, a[1]))


@rx(r"(HashMap|BTreeMap)<.*> as std::ops::Index<&.*>>::index$")
def m_mapidx(E, st, a, info):
    m = deref_arg(E, st, a[0], info, 0)
    if not E.require(st, mhas(m, a[1]), "map index", fr=info.fr):
        return None
    return mget(m, a[1])


@rx(r"(HashMap|BTreeMap)::<K, V(, S)?(, A)?>::(values|keys|iter|into_values|into_keys)$")
def m_mapvals(E, st, a, info):
    m = deref_arg(E, st, a[0], info, 0)
    return IT(mk("m" + info.path.rsplit("::", 1)[1].replace("into_", ""), m))


def map_extend(m, s):
    """insert all (key, value) pairs of a sequence"""
    if s.op == "seq":
        for p in s.args:
            m = mins(m, fld(p, 0, 0), fld(p, 0, 1))
        return m
    n = length(s)
    k = mk("k", ("mext", s.id))
    p = at(s, k)
    h = binder_h(p)
    v = mk("bv", h, "k")
    return mk("mbuild", h, n, m, subst(fld(p, 0, 0), {k: v}), subst(fld(p, 0, 1), {k: v}))


# ------------------------------------------------------------------ iterators
# it(seq, pos): remaining items are seq[pos..];   lz(kind, ...): unbounded
def IT(s, pos=None):
    return agg(("it", 0), (s, pos if pos is not None else INT(0)))


def is_it(x):
    return x.op == "agg" and x.args[0][0] == "it"


def remaining(it):
    s, p = it.args[1]
    if p is INT(0):
        return s
    return sl(s, p, length(s))


def into_it(E, st, v, ti):
    """iterator over a value of an iterable type"""
    if v.op == "ite":
        # gated iterables: gate the sequence
        ls = leaves(v)
        if all(is_it(x) for x in ls):
            return v if len(ls) == 1 else IT(lift(lambda x: remaining(x), v))
    if is_it(v):
        return v
    if v.op == "agg" and v.args[0][0].endswith(("ops::Range", "range::Range")):
        a, b = v.args[1]
        n = max0(p_sub(b, a))
        k = mk("k", ("rng",))
        return IT(flat(n, k, seq([p_add(a, k)])))
    if v.op == "agg" and v.args[0][0].endswith(("RangeInclusive",)):
        a, b = v.args[1][0], v.args[1][1]
        n = max0(p_add(p_sub(b, a), INT(1)))
        k = mk("k", ("rng",))
        return IT(flat(n, k, seq([p_add(a, k)])))
    if v.op == "agg" and v.args[0][0].endswith("RangeFrom"):
        return agg(("lz", 0), (mk("str", "from"), v.args[1][0]))
    if v.op == "agg" and v.args[0][0] == "lz":
        return v
    if v.op == "agg" and v.args[0][0] == OPT:
        return IT(seq(list(v.args[1])))
    t = E.types[ti] if ti is not None else None
    mutref = False
    while t is not None and t["k"] == "ref":
        mutref = t["mut"]
        t = E.types[t["elem"]]
    if mutref:
        w = E.load(st, v)
        if is_it(w) or (w.op == "agg" and w.args[0][0] in ("lz",)):
            return w
        if t is not None and (t["k"] in ("slice", "array") or (t["k"] == "adt" and t["adt"].endswith(("Vec", "VecDeque")))):
            return it_refs(E, v, w)
        if t is not None and t["k"] == "adt" and t["adt"].endswith("Range"):
            return into_it(E, st, w, None)
    if t is not None and t["k"] == "adt" and t["adt"].endswith(("HashMap", "BTreeMap")):
        return IT(mk("miter", v))
    if t is not None and (t["k"] in ("slice", "array") or (t["k"] == "adt" and t["adt"].endswith(("Vec", "VecDeque", "BinaryHeap")))):
        return IT(v)
    if t is not None and t["k"] == "adt" and t["adt"] == OPT:
        return IT(ITE(is_some(v), seq([fld(v, 1, 0)]), NIL))
    if v.op in ("seq", "cat", "flat", "sl", "bytes", "upd", "store"):
        return IT(v)
    return None


def it_refs(E, r, v):
    k = mk("k", ("itm",))
    return IT(mk("refs", *(r.args if r.op == "ref" else (("H", r), ())), length(v)))


def refs_at(s, i):
    return mk("ref", s.args[0], s.args[1] + (("ix", i),))


# refs: the sequence of mutable references to the elements of a place
import vf.terms as TT

_len0, _at0 = TT.length, TT.at


def _install():
    def length2(t):
        if t.op == "refs":
            return t.args[2]
        if t.op == "mvalues" or t.op == "mkeys" or t.op == "miter":
            return mk("len", t)
        return _len0(t)

    def at2(s, i):
        if s.op == "refs":
            return refs_at(s, i)
        return _at0(s, i)

    import vf.interp as I
    import vf.linear as L
    for mod in (TT, I, L, globals()):
        d = mod if isinstance(mod, dict) else mod.__dict__
        d["length"] = length2
        d["at"] = at2


_install()
length = TT.length
at = TT.at


def to_iter(E, st, a, info, i=0):
    return into_it(E, st, a[i], info.atys[i] if info and info.atys else None)


@model("core::slice::<impl [T]>::iter", "std::collections::BinaryHeap::<T, A>::iter", "std::collections::VecDeque::<T, A>::iter", "std::option::Option::<T>::iter")
def m_iter(E, st, a, info):
    r = to_iter(E, st, a, info)
    if r is None and not (info and info.atys) and "option" not in info.path:
        r = IT(E.load(st, a[0]) if a[0].op == "ref" else a[0])
    return r if r is not None else E.opaque(st, info.path, a, info)


@model("core::slice::<impl [T]>::iter_mut", "std::collections::VecDeque::<T, A>::iter_mut")
def m_iter_mut(E, st, a, info):
    return it_refs(E, a[0], E.load(st, a[0]))


@rx(r"as std::iter::IntoIterator>::into_iter$", r"std::vec::Vec::<T, A>::drain$")
def m_into_iter(E, st, a, info):
    if info.path.endswith("drain"):
        v = E.load(st, a[0])
        r = range_of(E, st, a[1], length(v), info, "drain")
        if r is None or not E.require(st, range_req(r[0], r[1], length(v)), "drain"):
            return E.opaque(st, info.path, a, info)
        E.put(st, a[0], cat([sl(v, INT(0), r[0]), sl(v, r[1], length(v))]))
        return IT(sl(v, *r))
    r = to_iter(E, st, a, info)
    return r if r is not None else E.opaque(st, info.path, a, info)


@model("core::str::<impl str>::chars")
def m_chars(E, st, a, info):
    return IT(mk("call", "chars", (a[0],)))


@model("core::str::<impl str>::bytes")
def m_sbytes(E, st, a, info):
    return IT(a[0])


def need_it(f):
    def g(E, st, a, info):
        it = to_iter(E, st, a, info)
        if it is None or not (is_it(it) or it.op == "agg"):
            return E.opaque(st, info.path, a, info)
        return f(E, st, it, a, info)
    return g


def by(name):
    """models of an Iterator method, whatever the implementing type"""
    def d(f):
        g = f
        RX.append((re.compile(r"as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::%s$|^std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)::%s$|<impl std::iter::(Iterator|DoubleEndedIterator) for .*>::%s$" % (name, name, name)), g))
        return f
    return d


@by("next")
def m_next(E, st, a, info):
    r = a[0]
    cur = E.load(st, r)
    if cur.op == "ite":
        cur = into_it(E, st, cur, None) or cur
    rng = cur.op == "agg" and cur.args[0][0].endswith("Range")
    if rng:
        x, y = cur.args[1]
        c = P_lt(x, y)
        c = E.simp(st, c)
        E.put(st, r, agg(cur.args[0], (ITE(c, p_add(x, INT(1)), x), y)))
        return opt_if(c, x)
    if cur.op == "agg" and cur.args[0][0].endswith("RangeFrom"):
        x = cur.args[1][0]
        E.put(st, r, agg(cur.args[0], (p_add(x, INT(1)),)))
        return SOME(x)
    if is_it(cur):
        s, p = cur.args[1]
        c = E.simp(st, P_lt(p, length(s)))
        E.put(st, r, IT(s, ITE(c, p_add(p, INT(1)), p)))
        v = at(s, p)
        if c is FALSE:
            return NONE
        if info.dty is not None:
            t = E.types[info.dty]
            if t["k"] == "adt" and t["adt"] == OPT:
                E.note(v, t["args"][0])
        return opt_if(c, v)
    if cur.op == "agg" and cur.args[0][0] == "lz" and cur.args[1][0].op == "str" and cur.args[1][0].args[0] == "repeat_with":
        v = E.apply(st, cur.args[1][1], [], Info(None, None, None))
        return SOME(v) if v is not None else None
    return E.opaque(st, info.path, a, info)


@by("next_back")
def m_next_back(E, st, a, info):
    r = a[0]
    cur = E.load(st, r)
    if is_it(cur):
        s, p = cur.args[1]
        n = length(s)
        c = E.simp(st, P_lt(p, n))
        m = p_sub(n, INT(1))
        E.put(st, r, IT(ITE(c, sl(s, INT(0), m), s), p))
        return opt_if(c, at(s, m))
    return E.opaque(st, info.path, a, info)


def named(f, nm):
    f.__name__ = nm
    return f


def apply1(E, st, f, args, info, ti=None):
    return E.apply(st, f, args, Info(None, None, ti))


@by("map")
@need_it
def m_map(E, st, it, a, info):
    f = a[1]
    if not is_it(it):
        return agg(("lz", 0), (mk("str", "map"), it, f))
    holder, f2 = hold(E, st, f)

    def body(s, x, k):
        v = E.apply(s, f2, [x], Info(None, None, None))
        return None if v is None else seq([v])

    r = E.foreach(st, remaining(it), body, "map")
    return None if r is None else IT(r)


def hold(E, st, f):
    """a closure whose captured state persists over the calls"""
    if f.op == "agg" and f.args[0][0] == "closure" and f.args[0][2] is not None:
        inst = E.P.inst[f.args[0][2]]
        t = E.types[inst["locals"][1]]
        if t["k"] == "ref" and t["mut"]:
            E.nfid += 1
            loc = ("L", E.nfid, -4)
            st.s[loc] = f
            return loc, mk("ref", loc, ())
    return None, f


@by("filter")
@need_it
def m_filter(E, st, it, a, info):
    _, f = hold(E, st, a[1])

    def body(s, x, k):
        v = E.apply(s, f, [x], Info(None, None, None))
        return None if v is None else ITE(E.simp(s, v), seq([x]), NIL)

    r = E.foreach(st, remaining(it), body, "filter")
    return None if r is None else IT(r)


@by("filter_map")
@need_it
def m_filter_map(E, st, it, a, info):
    _, f = hold(E, st, a[1])

    def body(s, x, k):
        v = E.apply(s, f, [x], Info(None, None, None))
        return None if v is None else ITE(is_some(v), seq([fld(v, 1, 0)]), NIL)

    r = E.foreach(st, remaining(it), body, "filter_map")
    return None if r is None else IT(r)


@by("flat_map")
@need_it
def m_flat_map(E, st, it, a, info):
    _, f = hold(E, st, a[1])

    def body(s, x, k):
        v = E.apply(s, f, [x], Info(None, None, None))
        if v is None:
            return None
        w = into_it(E, s, v, None)
        if w is None or not is_it(w):
            # unknown iterable: sequence valued term
            return v
        return remaining(w)

    r = E.foreach(st, remaining(it), body, "flat_map")
    return None if r is None else IT(r)


@by("flatten")
@need_it
def m_flatten(E, st, it, a, info):
    def body(s, x, k):
        w = into_it(E, s, x, None)
        if w is None or not is_it(w):
            return x
        return remaining(w)

    r = E.foreach(st, remaining(it), body, "flatten")
    return None if r is None else IT(r)


@by("for_each")
@need_it
def m_for_each(E, st, it, a, info):
    _, f = hold(E, st, a[1])

    def body(s, x, k):
        v = E.apply(s, f, [x], Info(None, None, None))
        return None if v is None else NIL

    r = E.foreach(st, remaining(it), body, "for_each")
    return None if r is None else UNIT


@by("enumerate")
@need_it
def m_enumerate(E, st, it, a, info):
    if not is_it(it):
        return agg(("lz", 0), (mk("str", "enumerate"), it))
    s = remaining(it)
    k = mk("k", ("enum",))
    return IT(mapseq(s, lambda x, i: agg(("tuple", 0), (i, x))))


def mapseq(s, f):
    if s.op == "ite":
        return lift(lambda x: mapseq(x, f), s)
    if s.op == "seq":
        return seq([f(x, INT(i)) for i, x in enumerate(s.args)])
    k = mk("k", ("mapseq", s.id))
    return flat(length(s), k, seq([f(at(s, k), k)]))


@by("zip")
def m_zip(E, st, a, info):
    x = to_iter(E, st, a, info, 0)
    y = into_it(E, st, a[1], info.atys[1] if info.atys else None)
    if x is None or y is None:
        return E.opaque(st, info.path, a, info)
    if is_it(x) and is_it(y):
        s, t = remaining(x), remaining(y)
        n, m = length(s), length(t)
        us = units(st.pc)
        if n is m:
            N = n
        else:
            N = imin(n, m)
            d = p_sub(n, m)
            if linear.holds(us, P_le0(d)):
                N = n
            elif linear.holds(us, P_le0(p_scale(d, -1))):
                N = m
        k = mk("k", ("zip", s.id, t.id))
        return IT(flat(N, k, seq([agg(("tuple", 0), (at(s, k), at(t, k)))])))
    if is_it(x) and y.args[1][0].op == "str" and y.args[1][0].args[0] == "from":
        b = y.args[1][1]
        return IT(mapseq(remaining(x), lambda v, i: agg(("tuple", 0), (v, p_add(b, i)))))
    if is_it(y) and not is_it(x) and x.args[1][0].args[0] == "from":
        b = x.args[1][1]
        return IT(mapseq(remaining(y), lambda v, i: agg(("tuple", 0), (p_add(b, i), v))))
    return E.opaque(st, info.path, a, info)


@by("chain")
def m_chain(E, st, a, info):
    x = to_iter(E, st, a, info, 0)
    y = into_it(E, st, a[1], info.atys[1] if info.atys else None)
    if x is None or y is None or not is_it(x) or not is_it(y):
        return E.opaque(st, info.path, a, info)
    return IT(cat([remaining(x), remaining(y)]))


@by("take")
@need_it
def m_take(E, st, it, a, info):
    n = a[1]
    if is_it(it):
        s = remaining(it)
        m = length(s)
        us = units(st.pc)
        if linear.holds(us, P_le(n, m)):
            return IT(sl(s, INT(0), n))
        if linear.holds(us, P_le(m, n)):
            return IT(s)
        return IT(sl(s, INT(0), imin(n, m)))
    return lz_take(E, st, it, n, info) or E.opaque(st, info.path, a, info)


def lz_take(E, st, it, n, info):
    kind = it.args[1][0].args[0]
    if kind == "repeat_with":
        holder, f2 = hold(E, st, it.args[1][1])

        def body(s, x, k):
            v = E.apply(s, f2, [], Info(None, None, None))
            return None if v is None else seq([v])

        r = E.foreach(st, None, body, "repeat_with", n=max0(n))
        return None if r is None else IT(r)
    if kind == "repeat":
        return IT(flat(max0(n), mk("k", "rep"), seq([it.args[1][1]])))
    if kind == "from":
        k = mk("k", ("from",))
        return IT(flat(max0(n), k, seq([p_add(it.args[1][1], k)])))
    if kind == "map":
        inner = lz_take(E, st, it.args[1][1], n, info)
        if inner is None:
            return None
        _, f2 = hold(E, st, it.args[1][2])

        def body(s, x, k):
            v = E.apply(s, f2, [x], Info(None, None, None))
            return None if v is None else seq([v])

        r = E.foreach(st, remaining(inner), body, "lzmap")
        return None if r is None else IT(r)
    return None


@by("skip")
@need_it
def m_skip(E, st, it, a, info):
    if not is_it(it):
        return E.opaque(st, info.path, a, info)
    s, p = it.args[1]
    n = length(s)
    np = p_add(p, a[1])
    us = units(st.pc)
    if not linear.holds(us, P_le(np, n)):
        c = E.simp(st, P_le(np, n))
        np = ITE(c, np, n)
    return IT(sl(s, np, n))


@by("rev")
@need_it
def m_rev(E, st, it, a, info):
    s = remaining(it)
    n = length(s)
    if s.op == "seq":
        return IT(seq(list(s.args)[::-1]))
    k = mk("k", ("rev", s.id))
    return IT(flat(n, k, seq([at(s, p_sub(p_sub(n, INT(1)), k))])))


@by("copied")
@need_it
def m_copied(E, st, it, a, info):
    return it


@by("cloned")
@need_it
def m_cloned(E, st, it, a, info):
    return it


@by("by_ref")
def m_by_ref(E, st, a, info):
    return a[0]


@by("peekable")
@need_it
def m_peekable(E, st, it, a, info):
    return it


@by("step_by")
@need_it
def m_step_by(E, st, it, a, info):
    if is_it(it) and is_int(a[1]) and a[1].args[0] > 0:
        s = remaining(it)
        c = a[1].args[0]
        n = divc(p_add(length(s), INT(c - 1)), c)
        k = mk("k", ("step", s.id))
        return IT(flat(n, k, seq([at(s, p_scale(k, c))])))
    return E.opaque(st, info.path, a, info)


@by("count")
@need_it
def m_count(E, st, it, a, info):
    return length(remaining(it))


@by("last")
@need_it
def m_it_last(E, st, it, a, info):
    s = remaining(it)
    n = length(s)
    return opt_if(P_lt(INT(0), n), at(s, p_sub(n, INT(1))))


@by("nth")
def m_nth(E, st, a, info):
    cur = E.load(st, a[0])
    if not is_it(cur):
        return E.opaque(st, info.path, a, info)
    s, p = cur.args[1]
    i = p_add(p, a[1])
    c = P_lt(i, length(s))
    E.put(st, a[0], IT(s, ITE(c, p_add(i, INT(1)), length(s))))
    return opt_if(c, at(s, i))


@by("fold")
@need_it
def m_fold(E, st, it, a, info):
    _, f = hold(E, st, a[2])
    return E.foldloop(st, remaining(it), a[1], lambda s, acc, x, k: E.apply(s, f, [acc, x], Info(None, None, None)), "fold")


@by("try_fold")
@need_it
def m_try_fold(E, st, it, a, info):
    _, f = hold(E, st, a[2])
    return early(E, st, it, a[1], lambda z, acc, x: E.apply(z, f, [acc, x], Info(None, None, None)), info, a)


@by("try_for_each")
@need_it
def m_try_for_each(E, st, it, a, info):
    _, f = hold(E, st, a[1])
    return early(E, st, it, UNIT, lambda z, acc, x: E.apply(z, f, [x], Info(None, None, None)), info, a)


def early(E, st, it, init, step, info, a):
    """elements in turn until one does not continue"""
    t = E.types[info.dty]
    if not is_it(it) or t["k"] != "adt" or t["adt"] not in (RES, OPT):
        return E.opaque(st, info.path, a, info)
    res = t["adt"] == RES
    good, wrap = (0, OK) if res else (1, SOME)

    def body(z, acc, x, k):
        v = step(z, acc, x)
        if v is None:
            return None
        return tag(v, 1 - good, 2), ERR(fld(v, 1, 0)) if res else NONE, wrap(fld(v, good, 0)) if not is_unit(E, t["args"][0]) else wrap(UNIT)

    # the accumulator is kept bare, the last one wrapped
    def bare(z, acc, x, k):
        r = body(z, acc, x, k)
        return None if r is None else (r[0], r[1], fld(r[2], good, 0))
    r = E.earlyloop(st, remaining(it), init, bare, "early")
    if r is None:
        return None
    v, stopped = r
    return ITE(stopped, v, wrap(v)) if stopped is not FALSE else wrap(v)


def is_unit(E, ti):
    t = E.types[ti]
    return t["k"] == "tuple" and not t["args"]


@by("reduce")
@need_it
def m_reduce(E, st, it, a, info):
    _, f = hold(E, st, a[1])
    s = remaining(it)
    n = length(s)
    c = E.simp(st, P_lt(INT(0), n))
    if c is FALSE:
        return NONE
    first = at(s, INT(0))
    # probe: if the operation adds to the accumulator, reduce = sum of all
    s2 = st.copy()
    ok = E.assume(s2, c) if c is not TRUE else s2
    r = E.foldloop(st, sl(s, INT(1), n), first, lambda z, acc, x, k: E.apply(z, f, [acc, x], Info(None, None, None)), "reduce")
    if r is None:
        return None
    return opt_if(c, r)


@by("sum")
@need_it
def m_sum(E, st, it, a, info):
    t = E.types[info.dty]
    s = remaining(it)
    if t["k"] == "int":
        return E.foldloop(st, s, INT(0), lambda z, acc, x, k: p_add(acc, x), "sum")
    return E.opaque(st, info.path, a, info)


@by("any")
def m_any(E, st, a, info):
    it = into_it(E, st, E.load(st, a[0]) if a[0].op == "ref" else a[0], None)
    if it is None or not is_it(it):
        return E.opaque(st, info.path, a, info)
    _, f = hold(E, st, a[1])
    r = E.foreach(st, remaining(it), lambda s, x, k: contrib(E.apply(s, f, [x], Info(None, None, None))), "any")
    if r is None:
        return None
    return exists_seq(r)


def contrib(v):
    return None if v is None else seq([v])


def exists_seq(r):
    if r.op == "seq":
        return p_any([b_norm(x) for x in r.args])
    k = mk("k", ("exs", r.id))
    return exists(length(r), k, b_norm(at(r, k)))


@by("all")
def m_all(E, st, a, info):
    it = into_it(E, st, E.load(st, a[0]) if a[0].op == "ref" else a[0], None)
    if it is None or not is_it(it):
        return E.opaque(st, info.path, a, info)
    _, f = hold(E, st, a[1])

    def body(s, x, k):
        v = E.apply(s, f, [x], Info(None, None, None))
        return None if v is None else seq([NOT(b_norm(v))])

    r = E.foreach(st, remaining(it), body, "all")
    return None if r is None else NOT(exists_seq(r))


@by("position")
def m_position(E, st, a, info):
    r = find_first(E, st, a, info)
    if r is None:
        return E.opaque(st, info.path, a, info)
    c, i, s = r
    return opt_if(c, i)


@by("find")
def m_find(E, st, a, info):
    r = find_first(E, st, a, info)
    if r is None:
        return E.opaque(st, info.path, a, info)
    c, i, s = r
    return opt_if(c, at(s, i))


def find_first(E, st, a, info):
    it = into_it(E, st, E.load(st, a[0]) if a[0].op == "ref" else a[0], None)
    if it is None or not is_it(it):
        return None
    _, f = hold(E, st, a[1])
    s = remaining(it)
    r = E.foreach(st, s, lambda z, x, k: contrib(E.apply(z, f, [x], Info(None, None, None))), "find")
    if r is None:
        return None
    if r.op == "seq":
        c, i = FALSE, INT(0)
        for n in range(len(r.args) - 1, -1, -1):
            b = b_norm(r.args[n])
            c, i = OR(b, c), ITE(b, INT(n), i)
        return c, i, s
    k = mk("k", ("find", r.id))
    cond = b_norm(at(r, k))
    n = length(r)
    c = exists(n, k, cond)
    if k in cond.free:
        h = binder_h(cond, k)
        i = mk("first", h, n, subst(cond, {k: mk("bv", h, "k")}))
        RANGE[i] = (0, 2 ** 63)
    else:
        i = INT(0)
    return c, i, s


@by("find_map")
@need_it
def m_find_map(E, st, it, a, info):
    if not is_it(it):
        return E.opaque(st, info.path, a, info)
    _, f = hold(E, st, a[1])

    def body(z, acc, x, k):
        v = E.apply(z, f, [x], Info(None, None, None))
        return None if v is None else (tag(v, 1, 2), v, acc)
    r = E.earlyloop(st, remaining(it), NONE, body, "find_map")
    return None if r is None else r[0]


@by("unzip")
@need_it
def m_unzip(E, st, it, a, info):
    s = remaining(it)
    return agg(("tuple", 0), (mapseq(s, lambda x, i: fld(x, 0, 0)), mapseq(s, lambda x, i: fld(x, 0, 1))))


@by("collect")
@need_it
def m_collect(E, st, it, a, info):
    if not is_it(it):
        return E.opaque(st, info.path, a, info)
    s = remaining(it)
    t = E.types[info.dty]
    if t["k"] == "adt" and t["adt"].endswith("::Vec") and s.op != "seq":
        # room for as many elements as the iterator announces
        E.event(st, "alloc", size=length(s), ty=info.dty)
    return collect_as(E, st, s, info.dty, info, a)


def collect_as(E, st, s, ti, info, a):
    t = E.types[ti]
    if t["k"] == "adt":
        n = t["adt"]
        if n.endswith(("::Vec", "::VecDeque", "::Box", "::String")):
            return s
        if n.endswith(("HashMap", "BTreeMap")):
            return map_extend(MNIL, s)
        if n.endswith(("HashSet", "BTreeSet")):
            return map_extend(MNIL, mapseq(s, lambda x, i: agg(("tuple", 0), (x, UNIT))))
        if n in (RES, OPT):
            bad = 1 if n == RES else 0
            good = 1 - bad
            if s.op == "seq":
                out = None
                r = collect_as(E, st, seq([fld(x, good, 0) for x in s.args]), t["args"][0], info, a)
                r = OK(r) if n == RES else SOME(r)
                for x in reversed(s.args):
                    r = ITE(tag(x, bad, 2), ERR(fld(x, 1, 0)) if n == RES else NONE, r)
                return r
            k = mk("k", ("col", s.id))
            c = tag(at(s, k), bad, 2)
            N = length(s)
            e = exists(N, k, c)
            inner = collect_as(E, st, mapseq_cond(s, lambda x: fld(x, good, 0)), t["args"][0], info, a)
            good_v = OK(inner) if n == RES else SOME(inner)
            if e is FALSE:
                return good_v
            if k in c.free:
                h = binder_h(c, k)
                kf = mk("first", h, N, subst(c, {k: mk("bv", h, "k")}))
                RANGE[kf] = (0, 2 ** 63)
            else:
                kf = INT(0)
            return ITE(e, ERR(fld(at(s, kf), 1, 0)) if n == RES else NONE, good_v)
    return E.opaque(st, info.path, a, info)


def mapseq_cond(s, f):
    k = mk("k", ("mapc", s.id))
    return flat(length(s), k, seq([f(at(s, k))]))


@model("std::iter::repeat_with")
def m_repeat_with(E, st, a, info):
    return agg(("lz", 0), (mk("str", "repeat_with"), a[0]))


@model("std::iter::repeat")
def m_repeat(E, st, a, info):
    return agg(("lz", 0), (mk("str", "repeat"), a[0]))


@model("std::iter::once")
def m_once(E, st, a, info):
    return IT(seq([a[0]]))


@model("std::iter::empty")
def m_iempty(E, st, a, info):
    return IT(NIL)


@model("core::slice::<impl [T]>::chunks_exact", "core::slice::<impl [T]>::chunks")
def m_chunks(E, st, a, info):
    v, n = a[0], a[1]
    if not E.require(st, NOT(P_eq_int(n, INT(0))), "chunks(0)"):
        return None
    if is_int(n) and info.path.endswith("exact"):
        c = n.args[0]
        m = divc(length(v), c)
        k = mk("k", ("chunk", v.id))
        return IT(flat(m, k, seq([sl(v, p_scale(k, c), p_add(p_scale(k, c), INT(c)))])))
    return E.opaque(st, info.path, a, info)


# ------------------------------------------------------------------ raw memory
@model("core::slice::<impl [T]>::as_ptr", "std::vec::Vec::<T, A>::as_ptr")
def m_as_ptr(E, st, a, info):
    def f(v):
        # the pointer a slice was made of, or one to the elements of this value
        return v.args[0] if v.op == "mem" else v if v is UNDEF else mk("sptr", v)
    return lift(f, deref_arg(E, st, a[0], info, 0))


def raw_read(E, st, p, n):
    """n elements read through a pointer"""
    def f(q):
        if q.op == "sptr":
            return sl(q.args[0], INT(0), n)
        if q.op == "ref":
            return E.load(st, q)
        return mk("mem", q, n)
    return lift(f, p)


@model("std::slice::from_raw_parts")
def m_frp(E, st, a, info):
    E.event(st, "rawslice", ptr=a[0], len=a[1], mut=False, info=info)
    return raw_read(E, st, a[0], a[1])


@model("std::slice::from_raw_parts_mut")
def m_frpm(E, st, a, info):
    E.event(st, "rawslice", ptr=a[0], len=a[1], mut=True, info=info)
    if a[0].op == "ref":
        return a[0]
    return mk("mem", a[0], a[1])


@rx(r"ptr::(const|mut)_ptr::<impl \*(const|mut) T>::is_null$")
def m_null(E, st, a, info):
    def f(p):
        if p.op in ("ref", "vptr", "sptr"):
            return FALSE
        return lit(mk("null", p))
    return lift(f, a[0])


@rx(r"ptr::(const|mut)_ptr::<impl \*(const|mut) T>::(add|offset)$")
def m_ptradd(E, st, a, info):
    return mk("ptradd", a[0], a[1])


@rx(r"ptr::(const|mut)_ptr::<impl \*(const|mut) T>::(write|read)$", r"^std::ptr::(write|read)$")
def m_ptrw(E, st, a, info):
    E.event(st, "deref", ptr=a[0], fr=info.fr)
    if info.path.endswith("write"):
        E.put(st, a[0], a[1], raw=True)
        return UNIT
    return E.load(st, a[0], raw=True)


@rx(r"ptr::(const|mut)_ptr::<impl \*(const|mut) T>::as_(ref|mut)$")
def m_ptr_asref(E, st, a, info):
    c = m_null(E, st, a, info)
    if info.path.endswith("as_ref"):
        return ITE(c, NONE, SOME(E.load(st, a[0], raw=True)))
    return ITE(c, NONE, SOME(a[0] if a[0].op == "ref" else mk("ref", ("P", a[0]), ())))


@rx(r"^std::ptr::copy(_nonoverlapping)?$", r"^std::intrinsics::copy(_nonoverlapping)?$")
def m_ptrcopy(E, st, a, info):
    E.event(st, "rawcopy", src=a[0], dst=a[1], len=a[2])
    src = raw_read(E, st, a[0], a[2])
    if a[1].op != "ref":
        E.event(st, "write", target=("H", mk("mem", a[1], a[2])), path=(), value=src)
        st.s[("H", mk("mem", a[1], a[2]))] = src
    return UNIT


# ------------------------------------------------------------------ algebra of scalars and groups
SC = "cosmian_bls12_381::Scalar"


def alg(f):
    def g(E, st, a, info):
        return f(*[deref_arg(E, st, x, info, i) for i, x in enumerate(a)])
    return g


B = r"cosmian_bls12_381::(Scalar|Gt|G1Affine|G2Affine|G1Projective|G2Projective)"
REFB = r"<(&'?\w* ?)?" + B + r" as std::ops::"


@rx(REFB + r"Add(<.*>)?>::add$")
@alg
def m_gadd(x, y):
    return p_add(x, y, "alg")


@rx(REFB + r"Sub(<.*>)?>::sub$")
@alg
def m_gsub(x, y):
    return p_sub(x, y, "alg")


@rx(REFB + r"Mul(<.*>)?>::mul$")
@alg
def m_gmul(x, y):
    return p_mul(x, y, "alg")


@rx(REFB + r"Neg>::neg$")
@alg
def m_gneg(x):
    return p_scale(x, -1, "alg")


def assign(opf):
    def g(E, st, a, info):
        y = deref_arg(E, st, a[1], info, 1)
        E.put(st, a[0], opf(E.load(st, a[0]), y))
        return UNIT
    return g


RX.append((re.compile(r"<" + B + r" as std::ops::AddAssign(<.*>)?>::add_assign$"), assign(lambda x, y: p_add(x, y, "alg"))))
RX.append((re.compile(r"<" + B + r" as std::ops::SubAssign(<.*>)?>::sub_assign$"), assign(lambda x, y: p_sub(x, y, "alg"))))
RX.append((re.compile(r"<" + B + r" as std::ops::MulAssign(<.*>)?>::mul_assign$"), assign(lambda x, y: p_mul(x, y, "alg"))))


@rx(r"ops::(AddAssign|SubAssign|MulAssign)<?.*>? for (u|i)\w+>::\w+_assign$")
def m_intassign(E, st, a, info):
    o = re.search(r"(add|sub|mul)_assign", info.path).group(1)
    f = {"add": p_add, "sub": p_sub, "mul": p_mul}[o]
    y = deref_arg(E, st, a[1], info, 1)
    v = f(E.load(st, a[0]), y)
    r = num_range_for(info.path)
    if r and not E.require(st, NOT(out_of(v, r)), "assert overflow", fr=info.fr):
        return None
    E.put(st, a[0], v)
    return UNIT


@rx(r"ops::(Add|Sub|Mul)<?.*>? for &?'?\w* ?(u|i)\w+>::(add|sub|mul)$")
def m_intop(E, st, a, info):
    o = info.path.rsplit("::", 1)[1]
    f = {"add": p_add, "sub": p_sub, "mul": p_mul}[o]
    v = f(deref_arg(E, st, a[0], info, 0), deref_arg(E, st, a[1], info, 1))
    t = E.types[info.dty]
    r = E.int_range(t)
    if r and not E.require(st, NOT(out_of(v, r)), "assert overflow", fr=info.fr):
        return None
    return v


def num_range_for(path):
    m = re.search(r" for (u|i)(\d+|size)>", path)
    if not m:
        return None
    b = 64 if m.group(2) == "size" else int(m.group(2))
    return (0, 2 ** b - 1) if m.group(1) == "u" else (-(2 ** (b - 1)), 2 ** (b - 1) - 1)


def ofint(p):
    """the ring homomorphism from the integers"""
    if p.op == "ite":
        return lift(ofint, p)
    if p is UNDEF:
        return p
    r = {}
    for m, c in poly_of(p, "int").items():
        key = tuple(sorted(((mk("ofint", a), e) for a, e in m), key=lambda x: x[0].id))
        r[key] = r.get(key, 0) + c
    return from_poly(r, "alg")


TT.REB["ofint"] = lambda a: ofint(a[0])


@rx(r"<cosmian_bls12_381::Scalar as std::convert::From<u64>>::from$")
@alg
def m_sc_from(x):
    return ofint(x)


@rx(r"^cosmian_bls12_381::(G1Projective|G2Projective|G1Affine|G2Affine|Gt)::identity$", r"<cosmian_bls12_381::(G1Projective|G2Projective|Gt) as group::Group>::identity$",
    r"<cosmian_bls12_381::(G1Projective|G2Projective|G1Affine|G2Affine|Gt) as std::default::Default>::default$")
@model("cosmian_bls12_381::Scalar::zero", "<cosmian_bls12_381::Scalar as ff::Field>::zero", "<cosmian_bls12_381::Scalar as std::default::Default>::default")
def m_zero(E, st, a, info):
    return ALG0


@model("cosmian_bls12_381::Scalar::one", "<cosmian_bls12_381::Scalar as ff::Field>::one")
def m_one(E, st, a, info):
    return ALG1


@rx(r"^cosmian_bls12_381::(G1|G2)(Projective|Affine)::generator$", r"<cosmian_bls12_381::(G1Projective|G2Projective|Gt) as group::Group>::generator$", r"^cosmian_bls12_381::Gt::generator$")
def m_gen(E, st, a, info):
    if "Gt" in info.path:
        return GT
    return mk("gen", "G1" if "G1" in info.path else "G2")


# the target group is generated by the pairing of the two generators: pairing = product of exponents
GT = p_mul(mk("gen", "G1"), mk("gen", "G2"), "alg")


@rx(r"^cosmian_bls12_381::pairing$")
def m_pairing(E, st, a, info):
    return lift2(lambda x, y: p_mul(x, y, "alg"), a[0], a[1])


@rx(r"^cosmian_bls12_381::multi_miller_loop$")
def m_miller(E, st, a, info):
    s = deref_arg(E, st, a[0], info, 0)
    k = mk("k", ("miller", E.chain(), tuple(E.kstack)))

    def f(q):
        p = at(q, k)
        return algsum(length(q), k, lift(lambda z: p_mul(fld(z, 0, 0), fld(z, 0, 1), "alg"), p))
    return mk("miller", sumseq(s, f))


def sumseq(s, f):
    """sum over a sequence, part by part; f handles a plain sequence"""
    if s.op == "ite":
        return lift(lambda x: sumseq(x, f), s)
    if s is NIL:
        return ALG0
    if s.op == "cat":
        r = ALG0
        for p in s.args:
            r = lift2(lambda x, y: p_add(x, y, "alg"), r, sumseq(p, f))
        return r
    if s.op == "seq":
        r = ALG0
        for i in range(len(s.args)):
            r = lift2(lambda x, y: p_add(x, y, "alg"), r, f(seq([s.args[i]])))
        return r
    if s.op == "flat":
        h, n, b = s.args
        k = mk("k", ("ss", s.id))
        body = subst(b, {mk("bv", h, "k"): k})
        e = sumseq(body, f)
        return algsum(n, k, e)
    return f(s)


@rx(r"^cosmian_bls12_381::MillerLoopResult::final_exponentiation$")
def m_finexp(E, st, a, info):
    x = deref_arg(E, st, a[0], info, 0)
    return lift(lambda y: y.args[0] if y.op == "miller" else mk("call", "final_exponentiation", (y,)), x)


@rx(r"<cosmian_bls12_381::(G1|G2)(Projective|Affine|Prepared) as std::convert::From<.*>>::from$")
def m_gconv(E, st, a, info):
    return deref_arg(E, st, a[0], info, 0)


@model("cosmian_bls12_381::Scalar::double", "<cosmian_bls12_381::Scalar as ff::Field>::double")
@alg
def m_dbl(x):
    return p_scale(x, 2, "alg")


@model("cosmian_bls12_381::Scalar::square", "<cosmian_bls12_381::Scalar as ff::Field>::square")
@alg
def m_sq(x):
    return p_mul(x, x, "alg")


@rx(r"^cosmian_bls12_381::Scalar::invert$", r"<cosmian_bls12_381::Scalar as ff::Field>::invert$")
def m_invert(E, st, a, info):
    x = a[0]
    return ITE(P_eq(x, ALG0), mk("ctnone"), mk("ctsome", alg_inv(x)))


# CtOption: ctnone | ctsome v | opaque
def ct_some(t):
    def f(x):
        if x.op == "ctsome":
            return TRUE
        if x.op == "ctnone":
            return FALSE
        if x is UNDEF:
            return x
        return lit(mk("tt", mk("ctok", x)))
    return lift(f, t)


def ct_val(t):
    def f(x):
        if x.op == "ctsome":
            return x.args[0]
        if x.op == "ctnone":
            return UNDEF
        if x is UNDEF:
            return x
        return mk("ctval", x)
    return lift(f, t)


@model("subtle::CtOption::<T>::is_some")
def m_ct_some(E, st, a, info):
    return ct_some(a[0])


@model("subtle::CtOption::<T>::is_none")
def m_ct_none(E, st, a, info):
    return NOT(ct_some(a[0]))


@model("subtle::<impl std::convert::From<subtle::Choice> for bool>::from")
def m_ct_bool(E, st, a, info):
    return a[0]


@model("subtle::CtOption::<T>::unwrap")
def m_ct_unwrap(E, st, a, info):
    c = ct_some(a[0])
    if not E.require(st, c, "CtOption::unwrap", fr=info.fr):
        return None
    return ct_val(E.rs(st, a[0]))


@rx(r"<impl std::convert::From<subtle::CtOption<T>> for std::option::Option<T>>::from$", r"<std::option::Option<T> as std::convert::From<subtle::CtOption<T>>>::from$")
def m_ct_opt(E, st, a, info):
    return opt_if(ct_some(a[0]), ct_val(a[0]))


def fixed(n, nm=None):
    def g(E, st, a, info):
        x = deref_arg(E, st, a[0], info, 0)
        r = mk("call", nm or info.path, (x,))
        FIXED_LEN[r] = INT(n)
        return r
    return g


def enc_pair(to, frm, n, ct=True):
    """to(x) has n bytes and frm(to(x)) = some(x)"""
    def t(E, st, a, info):
        x = deref_arg(E, st, a[0], info, 0)

        def f(y):
            if y.op == "ctval" and y.args[0].op == "call" and y.args[0].args[0] == frm:
                pass
            r = mk("call", to, (y,))
            FIXED_LEN[r] = INT(n)
            return r
        return lift(f, x)

    def d(E, st, a, info):
        b = deref_arg(E, st, a[0], info, 0)

        def f(y):
            if y.op == "call" and y.args[0] == to:
                return mk("ctsome", y.args[1][0])
            return mk("call", frm, (y,))
        return lift(f, b)
    EXACT[to] = t
    EXACT[frm] = d

    def reb(args):
        if args[0] == frm and len(args[1]) == 1:
            y = args[1][0]
            if y.op == "call" and y.args[0] == to:
                return mk("ctsome", y.args[1][0])
            if y.op == "ite":
                return lift(lambda z: reb((frm, (z,))), y)
        r = mk("call", *args)
        if args[0] == to:
            FIXED_LEN[r] = INT(n)
        return r
    REBCALL[frm] = reb
    REBCALL[to] = reb


REBCALL = {}


def reb_call(args):
    f = REBCALL.get(args[0])
    if f:
        return f(args)
    return mk("call", *args)


TT.REB["call"] = reb_call
TT.REB["ctok"] = lambda a: ct_some_v(a[0])
TT.REB["ctval"] = lambda a: ct_val(a[0])


def ct_some_v(x):
    return ct_some(x)


enc_pair("cosmian_bls12_381::Scalar::to_bytes", "cosmian_bls12_381::Scalar::from_bytes", 32)
enc_pair("cosmian_bls12_381::G1Affine::to_compressed", "cosmian_bls12_381::G1Affine::from_compressed", 48)
enc_pair("cosmian_bls12_381::G2Affine::to_compressed", "cosmian_bls12_381::G2Affine::from_compressed", 96)
enc_pair("cosmian_bls12_381::Gt::to_compressed", "cosmian_bls12_381::Gt::from_compressed", 288)


@rx(r"as std::string::ToString>::to_string$")
def m_to_string(E, st, a, info):
    t = E.types[info.atys[0]]
    while t["k"] == "ref":
        t = E.types[t["elem"]]
    v = deref_arg(E, st, a[0], info, 0)
    if t["k"] == "str" or (t["k"] == "adt" and t["adt"].endswith("String")):
        return v
    return mk("call", "to_string", (v, mk("str", t["s"])))


@model("std::fmt::format", "alloc::fmt::format")
def m_format(E, st, a, info):
    return a[0]


@rx(r"fmt::rt::Argument::<'_>::new_(display|debug|lower_hex|upper_hex|lower_exp|pointer)$")
def m_fmtarg(E, st, a, info):
    v = deref_arg(E, st, a[0], info, 0)
    nm = info.path.rsplit("new_", 1)[1]
    E.event(st, "fmt", how=nm, ty=info.atys[0], value=v)
    return mk("fmtarg", nm, v, E.types[info.atys[0]]["s"])


@rx(r"fmt::Arguments::<'a>::new$", r"fmt::Arguments::<'_>::new$", r"fmt::Arguments::<'a>::from_str", r"fmt::Arguments::<'_>::from_str")
def m_fmtnew(E, st, a, info):
    if info.path.endswith("from_str"):
        return a[0]
    return mk("call", "format", tuple(a))


# ------------------------------------------------------------------ randomness
# a generator is (seed, number of draws so far); a draw is a function of both
def rng_state(v):
    if v.op == "agg" and v.args[0][0] == "rng":
        return v.args[1]
    if v.op == "ite":
        return None
    return (v, INT(0))


def os_rng(E, info, s):
    """the operating system's generator is a unit value: each use is a fresh draw"""
    for ti in (info.atys or []) if info is not None else []:
        t = E.types[ti] if ti is not None else None
        while t is not None and t["k"] == "ref":
            t = E.types[t["elem"]]
        if t is not None and t["k"] == "adt" and t["adt"].endswith("::OsRng"):
            return mk("entropy", mk("site", E.chain(), tuple(E.kstack))), INT(0)
    return s


def draw(E, st, r, kind, info=None):
    v = E.load(st, r)
    s = rng_state(v)
    if s is None:
        s = (v, INT(0))
    s = os_rng(E, info, s)
    d = mk("draw", kind, s[0], s[1])
    E.put(st, r, agg(("rng", 0), (s[0], p_add(s[1], INT(1)))))
    E.event(st, "draw", of=kind, seed=s[0], value=d, ks=tuple(E.kstack), chain=E.chain())
    return d


@rx(r"SeedableRng>?::from_entropy$", r"cosmian_crypto_base::entropy::CsRng::new$", r"CsRng as std::default::Default>::default$",
    r"rngs::OsRng as std::default::Default>::default$")
def m_entropy(E, st, a, info):
    return agg(("rng", 0), (mk("entropy", mk("site", E.chain(), tuple(E.kstack))), INT(0)))


@rx(r"SeedableRng>?::(seed_from_u64|from_seed)$")
def m_seeded(E, st, a, info):
    return agg(("rng", 0), (mk("seed", a[0]), INT(0)))


@rx(r"<cosmian_bls12_381::Scalar as ff::Field>::random$", r"<cosmian_bls12_381::\w+ as group::Group>::random$")
def m_random(E, st, a, info):
    return draw(E, st, a[0], info.path.split(" as ")[0].rsplit("::", 1)[1], info)


# ------------------------------------------------------------------ hashing
@model("<sha3::digest::core_api::CoreWrapper<T> as std::default::Default>::default")
def m_shnew(E, st, a, info):
    return mk("sponge", E.types[info.dty]["s"][:200], NIL)


@model("sha3::digest::Update::chain")
def m_chain_upd(E, st, a, info):
    return sponge_add(a[0], a[1])


def sponge_add(s, x):
    if s.op == "sponge":
        return mk("sponge", s.args[0], cat([s.args[1], x]))
    return mk("call", "sponge_add", (s, x))


@rx(r"as sha3::digest::Update>::update$", r"^sha3::digest::Update::update$")
def m_upd(E, st, a, info):
    E.put(st, a[0], sponge_add(E.load(st, a[0]), deref_arg(E, st, a[1], info, 1)))
    return UNIT


@rx(r"as sha3::digest::ExtendableOutput>::finalize_xof$")
def m_finxof(E, st, a, info):
    return mk("xofr", a[0])


@rx(r"sha3::digest::XofReader::read_boxed$", r"sha3::digest::ExtendableOutput::finalize_boxed$")
def m_readboxed(E, st, a, info):
    r = deref_arg(E, st, a[0], info, 0)
    if r.op == "sponge":
        r = mk("xofr", r)
    if r.op == "xofr":
        E.event(st, "alloc", size=a[1], ty=None)
        if a[0].op == "ref":
            E.put(st, a[0], mk("call", "xofr_next", (r, a[1])))
        return mk("xof", r.args[0], a[1])
    return E.opaque(st, info.path, a, info)


@rx(r"as sha3::digest::XofReader>::read$", r"^sha3::digest::XofReader::read$")
def m_xofread(E, st, a, info):
    r = E.load(st, a[0])
    buf = E.load(st, a[1])
    if r.op == "xofr":
        E.put(st, a[1], mk("xof", r.args[0], length(buf)))
        E.put(st, a[0], mk("call", "xofr_next", (r, length(buf))))
        return UNIT
    return E.opaque(st, info.path, a, info)


# ------------------------------------------------------------------ serde / hex / policy / C strings
def pure(*paths):
    for p in paths:
        PURE_OK.add(p)


def keytrait_try_from(E, st, a, info):
    """Key::try_from_bytes: ok exactly when the length matches"""
    v = deref_arg(E, st, a[0], info, 0)
    t = E.types[E.types[info.dty]["args"][0]]
    n = key_len(t["s"])
    if n is None:
        return E.opaque(st, info.path, a, info)
    c = E.simp(st, P_eq_int(length(v), INT(n)))
    return ITE(c, OK(v), ERR(mk("call", "KeySizeError", (length(v),))))


def key_len(s):
    """U32-style typenum in a type string"""
    m = re.search(r"UInt<.*>", s)
    if not m:
        return None
    bits = re.findall(r"B([01])", m.group(0))
    if not bits:
        return None
    return int("".join(bits), 2)


EXACT["<cosmian_crypto_core::symmetric_crypto::key::Key<KeyLength> as cosmian_crypto_base::KeyTrait>::try_from_bytes"] = keytrait_try_from
EXACT["<cosmian_crypto_core::symmetric_crypto::key::Key<KeyLength> as std::convert::TryFrom<&'a [u8]>>::try_from"] = keytrait_try_from
LEN_ADT["cosmian_crypto_core::symmetric_crypto::key::Key"] = lambda E, t: key_len(t["s"])


# cosmian_crypto_core byte scanner: the bytes and the position
def scanner_next(E, st, r, n, info):
    v = E.load(st, r)
    if not (v.op == "agg" and v.args[0][0] == "scanner"):
        return None
    b, s = v.args[1]
    end = p_add(s, n)
    if not E.require(st, P_le(end, INT(2 ** 64 - 1)), "overflow in BytesScanner"):
        return "dead"
    c = E.simp(st, P_le(end, length(b)))
    E.put(st, r, ITE(c, agg(("scanner", 0), (b, end)), v))
    return ITE(c, OK(sl(b, s, end)), ERR(mk("call", "ScannerError", (n, p_sub(length(b), s)))))


@rx(r"BytesScanner::<'a>::new$")
def m_scanner_new(E, st, a, info):
    return agg(("scanner", 0), (deref_arg(E, st, a[0], info, 0), INT(0)))


@rx(r"BytesScanner::<'a>::next$")
def m_scanner_next(E, st, a, info):
    r = scanner_next(E, st, a[0], a[1], info)
    if r is None:
        return E.opaque(st, info.path, a, info)
    return None if r == "dead" else r


@rx(r"BytesScanner::<'a>::read_u32$")
def m_scanner_u32(E, st, a, info):
    r = scanner_next(E, st, a[0], INT(4), info)
    if r is None:
        return E.opaque(st, info.path, a, info)
    if r == "dead":
        return None
    return lift(lambda x: OK(dec("be", 4, x.args[1][0])) if x.op == "agg" and x.args[0][1] == 0 else x, r)


@rx(r"BytesScanner::<'a>::has_more$")
def m_scanner_more(E, st, a, info):
    v = deref_arg(E, st, a[0], info, 0)
    if not (v.op == "agg" and v.args[0][0] == "scanner"):
        return E.opaque(st, info.path, a, info)
    return P_lt(v.args[1][1], length(v.args[1][0]))


@rx(r"BytesScanner::<'a>::remainder$")
def m_scanner_rest(E, st, a, info):
    v = E.load(st, a[0])
    if not (v.op == "agg" and v.args[0][0] == "scanner"):
        return E.opaque(st, info.path, a, info)
    b, s = v.args[1]
    c = P_lt(s, length(b))
    E.put(st, a[0], agg(("scanner", 0), (b, imax(s, length(b)))))
    return ITE(c, agg(("std::option::Option", 1), (sl(b, s, length(b)),)), agg(("std::option::Option", 0), ()))


def nonce_len(s):
    m = re.search(r"Nonce<(\d+)", s)
    return int(m.group(1)) if m else None


def nonce_try_from(E, st, a, info):
    v = deref_arg(E, st, a[0], info, 0)
    n = nonce_len(E.types[E.types[info.dty]["args"][0]]["s"])
    if n is None:
        return E.opaque(st, info.path, a, info)
    c = E.simp(st, P_eq_int(length(v), INT(n)))
    return ITE(c, OK(v), ERR(mk("call", "NonceSizeError", (length(v),))))


_NT = "<cosmian_crypto_base::symmetric_crypto::nonce::Nonce<NONCE_LENGTH> as "
EXACT[_NT + "cosmian_crypto_base::symmetric_crypto::nonce::NonceTrait>::try_from_bytes"] = nonce_try_from
EXACT[_NT + "std::convert::TryFrom<&'a [u8]>>::try_from"] = nonce_try_from
LEN_ADT["cosmian_crypto_base::symmetric_crypto::nonce::Nonce"] = lambda E, t: nonce_len(t["s"])


@rx(r"<cosmian_crypto_base::symmetric_crypto::Metadata as std::default::Default>::default$")
def m_metadata_default(E, st, a, info):
    t = E.types[info.dty]
    fs = []
    for f in t["variants"][0]["fields"]:
        if f["name"] not in ("uid", "additional_data"):
            return E.opaque(st, info.path, a, info)
        fs.append(NIL if f["name"] == "uid" else agg(("std::option::Option", 0), ()))
    return agg((t["adt"], 0), fs)


@rx(r"typenum::UInt<U, B> as .*Unsigned>::to_(u32|usize|u64)$")
def m_typenum(E, st, a, info):
    n = key_len(info.fn["name"])
    return INT(n) if n is not None else E.opaque(st, info.path, a, info)


@model("std::ffi::CStr::from_ptr")
def m_cstr(E, st, a, info):
    E.event(st, "cstr", ptr=a[0], info=info)
    return mk("call", "cstr", (a[0],))


@model("std::ffi::CStr::to_str")
def m_cstr_str(E, st, a, info):
    v = a[0]
    ok = lit(mk("tt", mk("call", "utf8_ok", (v,))))
    return ITE(ok, OK(v), ERR(mk("call", "utf8_err", (v,))))


@model("std::string::String::from_utf8", "std::str::from_utf8", "core::str::from_utf8")
def m_utf8(E, st, a, info):
    v = a[0]
    ok = lit(mk("tt", mk("call", "utf8_ok", (v,))))
    return ITE(ok, OK(v), ERR(mk("call", "utf8_err", (v,))))


@model("std::ffi::CString::new")
def m_cstring(E, st, a, info):
    v = a[0]
    ok = lit(mk("tt", mk("call", "no_interior_nul", (v,))))
    return ITE(ok, OK(v), ERR(mk("call", "nul_err", (v,))))


@model("std::ffi::CString::as_bytes_with_nul", "std::ffi::CString::to_bytes_with_nul")
def m_cstring_nul(E, st, a, info):
    return cat([a[0], mk("bytes", (0,))])


# ------------------------------------------------------------------ JS / Python values
@model("js_sys::Uint8Array::to_vec")
def m_u8vec(E, st, a, info):
    return a[0]


@rx(r"<js_sys::Uint8Array as std::convert::From<&'a \[u8\]>>::from$")
def m_u8from(E, st, a, info):
    return a[0]


# ------------------------------------------------------------------ locks, statics
@rx(r"lazy_static::lazy::Lazy::<T>::get$")
def m_lazy(E, st, a, info):
    return a[0]


@rx(r"std::sync::(RwLock|Mutex)::<T>::(read|write|lock)$")
def m_lock(E, st, a, info):
    how = info.path.rsplit("::", 1)[1]
    lock = a[0]
    E.event(st, "lock", lock=lock, how=how)
    loc = ("G", lock)
    g = mk("ref", loc, ())
    ok = OK(g)
    bad = lit(mk("tt", mk("call", "poisoned", (lock,))))
    return ITE(bad, ERR(mk("call", "PoisonError", (lock,))), ok)


@rx(r"std::sync::(RwLock|Mutex)::<T>::(try_read|try_write|try_lock)$")
def m_trylock(E, st, a, info):
    E.event(st, "lock", lock=a[0], how=info.path.rsplit("::", 1)[1])
    g = mk("ref", ("G", a[0]), ())
    bad = lit(mk("tt", mk("call", "lock_busy", (a[0],))))
    return ITE(bad, ERR(mk("call", "TryLockError", (a[0],))), OK(g))


@rx(r"sync::(RwLock(Read|Write)Guard|MutexGuard)<'_, T> as std::ops::Deref>::deref$")
def m_guard(E, st, a, info):
    g = a[0]
    return E.load(st, g)


@rx(r"sync::(RwLock(Read|Write)Guard|MutexGuard)<'_, T> as std::ops::DerefMut>::deref_mut$")
def m_guardmut(E, st, a, info):
    g = E.load(st, a[0]) if a[0].op == "ref" and a[0].args[0][0] == "L" else a[0]
    return g


@rx(r"std::thread::LocalKey::<T>::with$")
def m_with(E, st, a, info):
    return E.apply(st, a[1], [a[0]], Info(None, None, info.dty))


@rx(r"std::cell::RefCell::<T>::borrow_mut$", r"std::cell::RefCell::<T>::borrow$")
def m_borrow(E, st, a, info):
    return mk("ref", ("G", a[0]), ())


@rx(r"<std::cell::RefMut<'_, T> as std::ops::DerefMut>::deref_mut$")
def m_refmut(E, st, a, info):
    return E.load(st, a[0]) if a[0].op == "ref" and a[0].args[0][0] == "L" else a[0]


@rx(r"<std::cell::(RefMut|Ref)<'_, T> as std::ops::Deref>::deref$")
def m_refm(E, st, a, info):
    return E.load(st, a[0])


@rx(r"std::thread::LocalKey::<std::cell::RefCell<T>>::(set|replace)$")
def m_lkset(E, st, a, info):
    r = mk("ref", ("G", a[0]), ())
    old = E.load(st, r)
    E.put(st, r, a[1])
    return UNIT if info.path.endswith("set") else old


@rx(r"sync::atomic::Atomic(::<i32>|I32|::<\w+>)::fetch_add$")
def m_fetch_add(E, st, a, info):
    E.event(st, "atomic", op="fetch_add", var=a[0], by=a[1])
    r = mk("call", "fetch_add", (a[0],), (mk("site", E.chain(), tuple(E.kstack))))
    E.note(r, info.dty)
    return r


@rx(r"sync::atomic::Atomic(::<\w+>|I32|U32|Usize|I64|U64|Bool)::(store|swap|compare_exchange|compare_exchange_weak|compare_and_swap|fetch_(?!add)\w+|load|get_mut|into_inner|as_ptr)$")
def m_atomic(E, st, a, info):
    op = info.path.rsplit("::", 1)[1]
    E.event(st, "atomic", op=op, var=a[0], by=a[1] if len(a) > 1 else UNDEF)
    if op == "store":
        return UNIT
    r = mk("call", "atomic " + op, (a[0],), (mk("site", E.chain(), tuple(E.kstack))))
    E.note(r, info.dty)
    return r


@model("std::panic::catch_unwind", "wasm_bindgen::__rt::maybe_catch_unwind")
def m_catch(E, st, a, info):
    return E.opaque(st, info.path, a, info)


# ------------------------------------------------------------------ reordering and thinning in place
@model("core::slice::<impl [T]>::reverse")
def m_reverse(E, st, a, info):
    s = E.load(st, a[0])
    n = length(s)
    if s.op == "seq":
        E.put(st, a[0], seq(list(s.args)[::-1]))
        return UNIT
    k = mk("k", ("rev", s.id))
    E.put(st, a[0], flat(n, k, seq([at(s, p_sub(p_sub(n, INT(1)), k))])))
    return UNIT


@rx(r"<impl \[T\]>::(sort|sort_unstable|sort_by|sort_by_key|sort_by_cached_key|sort_unstable_by|sort_unstable_by_key|rotate_left|rotate_right|select_nth_unstable)$",
    r"std::vec::Vec::<T, A>::(dedup|dedup_by|dedup_by_key)$")
def m_reorder(E, st, a, info):
    """another sequence, determined by the old one (and the counts given)"""
    s = E.load(st, a[0])
    op = info.path.rsplit("::", 1)[1]
    if s.op == "seq" and len(s.args) < 2:
        return UNIT
    extra = [x for x in a[1:] if intlike(x)]
    r = mk("call", "std::" + op, (s,) + tuple(extra))
    if not op.startswith("dedup"):
        n = length(s)
        k = mk("k", ("reord", s.id))
        r = flat(n, k, seq([at(r, k)]))
    E.put(st, a[0], r)
    return UNIT


@model("std::vec::Vec::<T, A>::retain")
def m_retain(E, st, a, info):
    s = E.load(st, a[0])
    _, f = hold(E, st, a[1])

    def body(s2, x, k):
        v = E.apply(s2, f, [x], Info(None, None, None))
        return None if v is None else ITE(E.simp(s2, v), seq([x]), NIL)

    r = E.foreach(st, s, body, "filter")
    if r is None:
        return None
    E.put(st, a[0], r)
    return UNIT


# ------------------------------------------------------------------ map entries
ENTRY = "std::collections::hash_map::Entry"


@rx(r"(HashMap|BTreeMap)::<K, V(, S)?(, A)?>::entry$")
def m_entry(E, st, a, info):
    m = E.load(st, a[0])
    x = agg(("mapentry", 0), (a[0], a[1]))
    return ITE(E.simp(st, mhas(m, a[1])), agg((ENTRY, 0), (x,)), agg((ENTRY, 1), (x,)))


def entry_of(e):
    x = e
    while x.op == "ite":
        x = x.args[1]
    if x.op == "agg" and x.args[0][0] == ENTRY:
        x = x.args[1][0]
    if x.op == "agg" and x.args[0][0] == "mapentry":
        return x.args[1]
    return None


@rx(r"(hash_map|btree_map|map::entry|entry)::Entry::<.*>::(or_insert|or_insert_with|or_default)$")
def m_or_insert(E, st, a, info):
    e = entry_of(a[0])
    op = info.path.rsplit("::", 1)[1]
    if e is None or op == "or_default":
        return E.opaque(st, info.path, a, info)
    ref, key = e
    m = E.load(st, ref)
    c = E.simp(st, mhas(m, key))
    v = a[1]
    if op == "or_insert_with":
        if c is TRUE:
            v = UNIT
        else:
            v = E.apply(st, hold(E, st, a[1])[1], [], Info(None, None, None))
            if v is None:
                return None
    E.put(st, ref, ITE(c, m, mins(m, key, v)))
    if c is not TRUE:
        E.event(st, "mapinsert", map=ref, key=key, value=v)
    return subref(E, ref, ("mk", key))


@rx(r"(hash_map|btree_map|map::entry|entry)::VacantEntry::<.*>::insert$")
def m_vac_insert(E, st, a, info):
    e = entry_of(a[0])
    if e is None:
        return E.opaque(st, info.path, a, info)
    ref, key = e
    E.event(st, "mapinsert", map=ref, key=key, value=a[1])
    E.put(st, ref, mins(E.load(st, ref), key, a[1]))
    return subref(E, ref, ("mk", key))


@rx(r"(hash_map|btree_map|map::entry|entry)::OccupiedEntry::<.*>::(get|get_mut|into_mut)$")
def m_occ_get(E, st, a, info):
    e = entry_of(deref_arg(E, st, a[0], info, 0))
    if e is None:
        return E.opaque(st, info.path, a, info)
    ref, key = e
    if info.path.endswith("::get"):
        return mget(E.load(st, ref), key)
    return subref(E, ref, ("mk", key))


@rx(r"(hash_map|btree_map|map::entry|entry)::OccupiedEntry::<.*>::(insert|remove)$")
def m_occ_ins(E, st, a, info):
    e = entry_of(deref_arg(E, st, a[0], info, 0))
    if e is None:
        return E.opaque(st, info.path, a, info)
    ref, key = e
    m = E.load(st, ref)
    if info.path.endswith("::remove"):
        E.event(st, "mapremove", map=ref, key=key)
        E.put(st, ref, mk("mrem", m, key))
    else:
        E.event(st, "mapinsert", map=ref, key=key, value=a[1])
        E.put(st, ref, mins(m, key, a[1]))
    return mget(m, key)


# ------------------------------------------------------------------ abe_policy
@rx(r"abe_policy.*From<\(.*\)>.*Attribute>?::from$", r"<abe_policy::Attribute as std::convert::From<\(.*\)>>::from$")
def m_attribute_from(E, st, a, info):
    """an attribute from its axis and name"""
    return agg(("abe_policy::Attribute", 0), (fld(a[0], 0, 0), fld(a[0], 0, 1)))


@rx(r"^abe_policy::(\w+::)*Attribute::new$")
def m_attribute_new(E, st, a, info):
    return agg(("abe_policy::Attribute", 0), (a[0], a[1]))
