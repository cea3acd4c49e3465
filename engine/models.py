"""Transfer functions for the external library surface the analysed code uses:
the Stylus storage/host API, alloy scalars, and core/alloc sequences and
iterators.  Everything not listed here is either inlined from its MIR or becomes
an uninterpreted application."""
import re
from .terms import *
from .keccak import keccak256
from . import interp as I

SCALAR_STORAGE = re.compile(r"^stylus_sdk::storage::Storage(Uint|Address|Bool|FixedBytes|Signed|BlockHash|BlockNumber)$")
ZERO_LIKE = ("alloy_primitives::Uint", "alloy_primitives::Address", "alloy_primitives::FixedBytes", "alloy_primitives::Signed")


def strip(p):
    """remove generic arguments from a path"""
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    return s.rstrip(":")


def last(p):
    return strip(p).split("::")[-1]


class Models:
    def __init__(self, interp):
        self.i = interp
        self.T = interp.T
        self.cache = {}

    # ------------------------------------------------------------ helpers
    def const(self, c):
        d = c.get("def", "")
        n = d.split("::")[-1]
        t = self.T[c["ty"]]
        if t["k"] in ("param", "alias"):
            if n in ("ZERO",):
                return ZERO
            if n in ("ONE",):
                return ONE
        if t["k"] == "adt" and t["path"] == "alloy_primitives::Uint" and n in ("ZERO", "MAX", "ONE", "MIN"):
            b = self.i.bits(c["ty"])
            if n in ("ZERO", "MIN"):
                return ZERO
            if n == "ONE":
                return ONE
            if b:
                return Int((1 << b) - 1)
        return None

    def peel(self, tid):
        n = 0
        while tid is not None and self.T[tid]["k"] in ("ref", "ptr") and n < 6:
            tid = self.T[tid]["to"]
            n += 1
        return tid

    def tp(self, tid):
        if tid is None:
            return ""
        t = self.T[tid]
        return t.get("path") or t["s"]

    def D(self, st, v):
        return self.i.deref_all(st, v)

    def DD(self, st, v, depth=0):
        """deep deref: references inside aggregates as well"""
        v = self.i.deref_all(st, v)
        if v.op == "agg" and depth < 4:
            l = list(v.a)
            ch = False
            for k in range(2, len(l)):
                if isinstance(l[k], Term) and l[k].op in ("ref", "agg"):
                    n = self.DD(st, l[k], depth + 1)
                    ch = ch or n is not l[k]
                    l[k] = n
            if ch:
                return mk("agg", *l)
        return v

    def some(self, dty, v):
        return agg(dty, 1, v)

    def none(self, dty):
        return agg(dty, 0)

    def ok(self, dty, v):
        return agg(dty, 0, v)

    def err(self, dty, v):
        return agg(dty, 1, v)

    def scalar(self, tid):
        if tid is None:
            return False
        t = self.T[tid]
        return t["k"] in ("int", "bool", "char", "str", "slice", "array", "param", "alias") or (
            t["k"] == "adt" and (t["path"] in ZERO_LIKE or t["path"] in I.SEQ_ADT or t["path"] in I.TRANSPARENT))

    def isnum(self, tid):
        if tid is None:
            return False
        t = self.T[tid]
        return t["k"] in ("int", "param", "alias") or (t["k"] == "adt" and t["path"] in ZERO_LIKE)

    def zero_of(self, tid):
        t = self.T[tid]
        if t["k"] == "bool":
            return FALSE
        if t["k"] in ("int", "param", "alias"):
            return ZERO
        if t["k"] == "adt":
            if t["path"] in ZERO_LIKE:
                return ZERO
            if t["path"] in I.SEQ_ADT or t["path"].endswith("::Bytes"):
                return agg("array", 0)
            if t["path"] == "core::option::Option":
                return agg(tid, 0)
        if t["k"] == "tuple":
            return tup(*[self.zero_of(f) for f in t["f"]])
        if t["k"] == "array" and isinstance(t["len"], int) and t["len"] <= 64:
            z = self.zero_of(t["of"])
            return None if z is None else agg("array", 0, *[z] * t["len"])
        return None

    # ------------------------------------------------------------ entry
    def call(self, st, f, args, dty, atys):
        tr = f.get("trait")
        name = f["name"]
        if f.get("ctor"):
            return None
        if tr:
            h = getattr(self, "t_" + last(tr) + "_" + name, None)
            if h:
                r = h(st, f, args, dty, atys)
                if r is not None:
                    return r
            h = getattr(self, "t_" + last(tr), None)
            if h:
                r = h(st, f, args, dty, atys)
                if r is not None:
                    return r
            return None
        if f.get("local"):
            return None
        rim = f.get("rimpl")
        path = f.get("rpath") or f["path"]
        if rim:
            base = "Slice" if rim.startswith("[") else (last(rim) if not rim.startswith("&") else "Ref")
            h = getattr(self, f"m_{base}_{name}", None)
            if h:
                r = h(st, f, args, dty, atys)
                if r is not None:
                    return r
            h = getattr(self, f"m_{base}", None)
            if h:
                r = h(st, f, args, dty, atys)
                if r is not None:
                    return r
            if base in ("u8", "u16", "u32", "u64", "u128", "usize", "Uint"):
                r = self.num_method(st, f, args, dty, atys, base)
                if r is not None:
                    return r
            return None
        h = getattr(self, "f_" + strip(path).replace("::", "_"), None)
        if h:
            return h(st, f, args, dty, atys)
        return None

    # ------------------------------------------------------------ environment
    def f_stylus_sdk_msg_sender(self, st, f, args, dty, atys):
        return [(st, mk("env", "sender"))]

    def f_stylus_sdk_msg_value(self, st, f, args, dty, atys):
        return [(st, mk("env", "value"))]

    def f_stylus_sdk_block_timestamp(self, st, f, args, dty, atys):
        return [(st, mk("env", "timestamp"))]

    def f_stylus_sdk_block_number(self, st, f, args, dty, atys):
        return [(st, mk("env", "number"))]

    def f_stylus_sdk_block_chainid(self, st, f, args, dty, atys):
        return [(st, mk("env", "chainid"))]

    def f_core_hint_must_use(self, st, f, args, dty, atys):
        return [(st, args[0])]

    f_core_hint_black_box = f_core_convert_identity = f_core_hint_must_use

    def f_stylus_sdk_contract_address(self, st, f, args, dty, atys):
        return [(st, mk("env", "this"))]

    def f_stylus_sdk_contract_balance(self, st, f, args, dty, atys):
        return [(st, mk("env", "balance", st.epoch))]

    def f_stylus_sdk_evm_log(self, st, f, args, dty, atys):
        self.i.event(st, "log", self.T[f["args"][0]]["s"], self.DD(st, args[0]), f["args"][0])
        return [(st, UNIT)]

    def t_AddressVM_has_code(self, st, f, args, dty, atys):
        return [(st, mk("app", "has_code", self.D(st, args[0])))]

    def t_AddressVM_balance(self, st, f, args, dty, atys):
        a = self.D(st, args[0])
        if a is mk("env", "this"):
            return [(st, mk("env", "balance", st.epoch))]
        return [(st, mk("app", "balance_of_address", st.epoch, a))]

    # ---- host VM object (self.vm()) : same environment through another door
    def vmcall(self, st, f, args, dty, atys):
        n = f["name"]
        m = {"msg_sender": "sender", "msg_value": "value", "block_timestamp": "timestamp", "chain_id": "chainid",
             "contract_address": "this", "block_number": "number"}
        if n in m:
            return [(st, mk("env", m[n]))]
        return None

    t_MessageAccess = vmcall
    t_BlockAccess = vmcall
    t_ChainAccess = vmcall
    t_AccountAccess = vmcall
    m_VM = vmcall

    # ---- calls
    def m_Call_new_in(self, st, f, args, dty, atys):
        return [(st, mk("callctx", self.D(st, args[0]), ZERO))]

    def m_Call_new(self, st, f, args, dty, atys):
        return [(st, mk("callctx", UNDEF, ZERO))]

    def m_Call_value(self, st, f, args, dty, atys):
        c = args[0]
        return [(st, mk("callctx", c.a[0] if c.op == "callctx" else UNDEF, args[1]))]

    def m_Call_gas(self, st, f, args, dty, atys):
        return [(st, args[0])]

    def xcount(self, st):
        return sum(1 for e in st.trace if e[0] == "xcall" and e[1][1] != "static_call")

    def do_xcall(self, st, name, kind, addr, args, value, ctx, dty, flush):
        if kind == "static_call":
            n = ("s", st.epoch)
        else:
            n = ("x", self.xcount(st) + 1, st.epoch)
        args = tuple(norm_empty(x) for x in args)
        res = mk("xres", name, n, addr, *args)
        self.i.event(st, "xcall", name, kind, addr, tuple(args), value, ctx, flush, res)
        if kind != "static_call":
            self.i.havoc_storage(st, n)
        if dty is not None and self.T[dty]["k"] == "ref":
            c = self.i.new_cell(st, res)
            return [(st, self.i.ref(c))]
        return [(st, res)]

    def xcall(self, st, body, kind, args, dty):
        name = "::".join(body["path"].split("::")[-2:])
        slf = self.D(st, args[0])
        addr = slf
        if slf.op == "agg":
            fs = [x for x in afields(slf)]
            addr = fs[0] if fs else slf
        ctx = args[1] if len(args) > 1 else UNDEF
        cv = self.D(st, ctx)
        value = ZERO
        if cv.op == "callctx":
            value = cv.a[1]
            cv = cv.a[0]
        vals = [self.DD(st, a) for a in args[2:]]
        return self.do_xcall(st, name, kind, addr, vals, value, cv, dty, True)

    def f_stylus_sdk_call_call(self, st, f, args, dty, atys, kind="call"):
        ctx = self.D(st, args[0])
        value = ctx.a[1] if ctx.op == "callctx" else ZERO
        return self.do_xcall(st, "raw", kind, self.D(st, args[1]), [self.DD(st, args[2])], value, ctx, dty, True)

    def f_stylus_sdk_call_static_call(self, st, f, args, dty, atys):
        return self.f_stylus_sdk_call_call(st, f, args, dty, atys, "static_call")

    def f_stylus_sdk_call_delegate_call(self, st, f, args, dty, atys):
        return self.f_stylus_sdk_call_call(st, f, args, dty, atys, "delegate_call")

    def f_stylus_sdk_call_transfer_transfer_eth(self, st, f, args, dty, atys):
        return self.do_xcall(st, "transfer_eth", "call", self.D(st, args[1]), [], args[2], UNDEF, dty, True)

    f_stylus_sdk_call_transfer_eth = f_stylus_sdk_call_transfer_transfer_eth

    # RawCall builder: mk("rawcall", kind, value, limit, flush)
    def m_RawCall(self, st, f, args, dty, atys):
        n = f["name"]
        if n in ("new", "new_with_value", "new_static", "new_delegate"):
            kind = {"new": "call", "new_with_value": "call", "new_static": "static_call", "new_delegate": "delegate_call"}[n]
            return [(st, mk("rawcall", kind, args[0] if args else ZERO, UNDEF, FALSE))]
        c = self.D(st, args[0])
        if c.op != "rawcall":
            return None
        k, v, l, fl = c.a
        if n == "limit_return_data":
            return [(st, mk("rawcall", k, v, tup(args[1], args[2]), fl))]
        if n in ("flush_storage_cache", "clear_storage_cache"):
            return [(st, mk("rawcall", k, v, l, TRUE))]
        if n in ("gas", "skip_return_data"):
            return [(st, c)]
        if n == "call":
            out = self.do_xcall(st, "rawcall", k, self.D(st, args[1]), [self.DD(st, args[2]), l], v, UNDEF, dty, fl is TRUE)
            if l.op == "agg" and afields(l)[1].op == "int" and out[0][1].op == "xres":
                # no more than the requested part of the reply is returned
                out = [(s, r) for s, r in out if s.assume(Lt(afields(l)[1], mk("len", mk("vfld", r, 0, 0))), False)]
            return out
        return None

    def t_BorrowMut_borrow_mut(self, st, f, args, dty, atys):
        return [(st, args[0])]

    def t_Borrow_borrow(self, st, f, args, dty, atys):
        # &T -> &U ; blanket impls are identities
        return [(st, args[0])]

    # ------------------------------------------------------------ storage
    def stor(self, st, v):
        v = self.D(st, v)
        return v if v.op == "stor" else None

    def m_StorageGuard_new(self, st, f, args, dty, atys):
        return [(st, args[0])]

    m_StorageGuardMut_new = m_StorageGuard_new

    def t_Deref_deref(self, st, f, args, dty, atys):
        return self.transparent_deref(st, f, args)

    t_DerefMut_deref_mut = t_Deref_deref

    def transparent_deref(self, st, f, args):
        p = self.tp(f.get("self"))
        if p in I.TRANSPARENT or p in I.SEQ_ADT or p.startswith("stylus_sdk::") or p.startswith("alloy_primitives::"):
            return [(st, args[0])]
        return None

    def is_scalar_storage(self, tid):
        t = self.T[tid]
        if t["k"] == "adt" and SCALAR_STORAGE.match(t["path"]):
            return True
        return t["k"] in ("param", "alias")

    def load(self, st, s, tid, dty=None):
        """load the storage object of type tid at stor term s"""
        t = self.T[tid]
        if self.is_scalar_storage(tid):
            return self.i.sload(st, s.a[1:])
        return [(st, s)]

    def erase(self, st, s, tid):
        t = self.T[tid]
        p = t.get("path", "")
        if self.is_scalar_storage(tid):
            z = FALSE if p.endswith("StorageBool") else ZERO
            self.i.sstore(st, s.a[1:], z)
        elif p.endswith("::StorageString") or p.endswith("::StorageBytes"):
            self.i.sstore(st, s.a[1:], agg("array", 0))
        elif p.endswith("::StorageVec"):
            self.i.sstore(st, s.a[1:] + ("#len",), ZERO)
        elif p.endswith("::StorageMap"):
            self.i.event(st, "opaque", "erase map", (s,), s)
        elif t.get("kind") == "struct" and "variants" in t:
            for fn, ft in t["variants"][0]["f"]:
                self.erase(st, mk("stor", ft, *(s.a[1:] + (fn,))), ft)
        return [(st, UNIT)]

    def child(self, s, vty, key):
        return mk("stor", vty, *(s.a[1:] + (("k", key),)))

    def m_StorageMap(self, st, f, args, dty, atys):
        n = f["name"]
        s = self.stor(st, args[0])
        if s is None:
            return None
        key = st.canon(self.DD(st, args[1]))
        vty = f["args"][1]
        c = self.child(s, vty, key)
        if n in ("getter", "setter"):
            return [(st, c)]
        if n == "get":
            return self.load(st, c, vty, dty)
        if n == "insert":
            self.i.sstore(st, c.a[1:], self.DD(st, args[2]))
            return [(st, UNIT)]
        if n == "replace":
            out = []
            for s2, v in self.i.sload(st, c.a[1:]):
                self.i.sstore(s2, c.a[1:], self.DD(s2, args[2]))
                out.append((s2, v))
            return out
        if n == "delete":
            return self.erase(st, c, vty)
        if n == "take":
            out = []
            for s2, v in self.i.sload(st, c.a[1:]):
                self.erase(s2, c, vty)
                out.append((s2, v))
            return out
        return None

    def scalar_storage(self, st, f, args, dty, atys):
        n = f["name"]
        s = self.stor(st, args[0])
        if s is None:
            return None
        if n == "get":
            return self.i.sload(st, s.a[1:])
        if n == "set":
            self.i.sstore(st, s.a[1:], self.D(st, args[1]))
            return [(st, UNIT)]
        return None

    m_StorageUint = scalar_storage
    m_StorageAddress = scalar_storage
    m_StorageBool = scalar_storage
    m_StorageFixedBytes = scalar_storage
    m_StorageSigned = scalar_storage

    def t_Accessor(self, st, f, args, dty, atys):
        # storage accessor abstraction of the checkpoint library
        if f.get("inst"):
            return None
        return self.scalar_storage(st, f, args, dty, atys)

    def t_Erase_erase(self, st, f, args, dty, atys):
        s = self.stor(st, args[0])
        if s is None or f.get("inst"):
            return None
        return self.erase(st, s, s.a[0])

    def m_StorageString(self, st, f, args, dty, atys):
        n = f["name"]
        s = self.stor(st, args[0])
        if s is None:
            return None
        if n in ("get_string", "get_bytes"):
            return self.i.sload(st, s.a[1:])
        if n in ("set_str", "set_bytes"):
            self.i.sstore(st, s.a[1:], self.DD(st, args[1]))
            return [(st, UNIT)]
        if n in ("len", "is_empty"):
            out = []
            for s2, v in self.i.sload(st, s.a[1:]):
                l = self.i.length(v)
                out.append((s2, l if n == "len" else Eq(l, ZERO)))
            return out
        return None

    m_StorageBytes = m_StorageString

    def m_StorageVec(self, st, f, args, dty, atys):
        n = f["name"]
        s = self.stor(st, args[0])
        if s is None:
            return None
        sty = f["args"][0]
        lp = s.a[1:] + ("#len",)
        out = []
        for s1, ln in self.i.sload(st, lp):
            if n == "len":
                out.append((s1, ln))
            elif n == "is_empty":
                out.append((s1, Eq(ln, ZERO)))
            elif n in ("get", "getter", "setter", "get_mut"):
                ix = self.D(s1, args[1])
                bw = self.i.bits(atys[1]) if len(atys) > 1 else 0
                if bw and bw < 256:
                    ix = self.i.zext(ix, bw, 256)
                for s2, b in self.i.branch(s1, Lt(ix, ln)):
                    if not b:
                        out.append((s2, self.none(dty)))
                        continue
                    c = self.child(s, sty, s2.canon(ix))
                    if n == "get":
                        for s3, v in self.load(s2, c, sty):
                            out.append((s3, self.some(dty, v)))
                    else:
                        out.append((s2, self.some(dty, c)))
            elif n == "push":
                self.i.sstore(s1, s.a[1:] + (("k", s1.canon(ln)),), self.D(s1, args[1]))
                self.i.sstore(s1, lp, add(256, ln, ONE))
                out.append((s1, UNIT))
            elif n == "grow":
                self.i.sstore(s1, lp, add(256, ln, ONE))
                out.append((s1, self.child(s, sty, s1.canon(ln))))
            elif n == "pop":
                for s2, b in self.i.branch(s1, Eq(ln, ZERO)):
                    if b:
                        out.append((s2, self.none(dty)))
                        continue
                    nl = sub(256, ln, ONE)
                    c = self.child(s, sty, s2.canon(nl))
                    for s3, v in self.load(s2, c, sty):
                        self.i.sstore(s3, lp, nl)
                        out.append((s3, self.some(dty, v)))
            elif n in ("shrink", "erase_last"):
                for s2, b in self.i.branch(s1, Eq(ln, ZERO)):
                    if not b:
                        self.i.sstore(s2, lp, sub(256, ln, ONE))
                    out.append((s2, UNIT if n == "erase_last" else mk("app", "shrink", ln)))
            elif n in ("truncate", "set_len"):
                nl = self.D(s1, args[1])
                if n == "set_len":
                    self.i.sstore(s1, lp, nl)
                    out.append((s1, UNIT))
                else:
                    for s2, b in self.i.branch(s1, Lt(nl, ln)):
                        if b:
                            self.i.sstore(s2, lp, nl)
                        out.append((s2, UNIT))
            else:
                return None
        return out

    # ------------------------------------------------------------ scalars
    def m_FixedBytes(self, st, f, args, dty, atys):
        n = f["name"]
        if n == "is_zero":
            return [(st, Eq(self.D(st, args[0]), ZERO))]
        if n in ("as_slice", "as_ref", "as_mut_slice", "as_mut"):
            return [(st, args[0])]
        if n == "new":
            return [(st, args[0])]
        if n == "from_slice":
            return [(st, self.D(st, args[0]))]
        if n in ("repeat_byte", "with_last_byte") and args[0].op == "int":
            w = self.i.bits(dty) // 8
            b = args[0].a[0]
            return [(st, Int(int.from_bytes(bytes([b]) * w, "big")) if n == "repeat_byte" else args[0])]
        if n == "zero" or n == "ZERO":
            return [(st, ZERO)]
        return None

    def m_Address(self, st, f, args, dty, atys):
        n = f["name"]
        if n == "is_zero":
            return [(st, Eq(self.D(st, args[0]), ZERO))]
        if n == "from_slice":
            return [(st, self.narrow_seq(st, self.D(st, args[0]), 20))]
        if n == "from_word":
            return [(st, mk("trunc", 160, self.D(st, args[0])))]
        if n == "into_word":
            return [(st, self.D(st, args[0]))]
        return self.m_FixedBytes(st, f, args, dty, atys)

    def narrow_seq(self, st, v, n):
        return v

    def m_Bytes(self, st, f, args, dty, atys):
        if f["name"] in ("new",):
            return [(st, agg("array", 0))]
        if f["name"] in ("from", "copy_from_slice", "to_vec"):
            return [(st, self.D(st, args[0]))]
        if f["name"] in ("as_slice", "as_ref"):
            return [(st, args[0])]
        if f["name"] == "len":
            return [(st, self.i.length(self.D(st, args[0])))]
        if f["name"] == "is_empty":
            return [(st, Eq(self.i.length(self.D(st, args[0])), ZERO))]
        return None

    def ovf(self, kind, bits, a, b):
        return Ovf(kind, bits, a, b)

    def num_method(self, st, f, args, dty, atys, base):
        n = f["name"]
        i = self.i
        tid = f.get("self")
        tid = self.peel(tid)
        bits = i.bits(tid) if tid is not None else i.bits(dty)
        A = [self.D(st, a) for a in args]
        a = A[0] if A else None
        b = A[1] if len(A) > 1 else None
        B = i.branch
        if n == "is_zero":
            return [(st, Eq(a, ZERO))]
        if n in ("wrapping_add",):
            return [(st, add(bits, a, b))]
        if n in ("wrapping_sub",):
            return [(st, sub(bits, a, b))]
        if n in ("wrapping_mul",):
            return [(st, mul(bits, a, b))]
        if n == "wrapping_neg":
            return [(st, neg(bits, a))]
        if n in ("overflowing_add", "overflowing_sub", "overflowing_mul"):
            k = n[12]
            if k == "s":
                return [(st, tup(sub(bits, a, b), Lt(a, b)))]
            return [(st, tup((add if k == "a" else mul)(bits, a, b), self.ovf(k, bits, a, b)))]
        if n in ("checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem"):
            k = n[8:]
            c = {"add": lambda: self.ovf("a", bits, a, b), "sub": lambda: Lt(a, b),
                 "mul": lambda: self.ovf("m", bits, a, b), "div": lambda: Eq(b, ZERO), "rem": lambda: Eq(b, ZERO)}[k]()
            fn = {"add": add, "sub": sub, "mul": mul, "div": i.div, "rem": i.rem}[k]
            out = []
            for s2, bad in B(st, c):
                out.append((s2, self.none(dty) if bad else self.some(dty, fn(bits, a, b))))
            return out
        if n in ("saturating_add", "saturating_sub", "saturating_mul"):
            k = n[11:]
            c = {"add": lambda: self.ovf("a", bits, a, b), "sub": lambda: Lt(a, b), "mul": lambda: self.ovf("m", bits, a, b)}[k]()
            fn = {"add": add, "sub": sub, "mul": mul}[k]
            out = []
            for s2, bad in B(st, c):
                out.append((s2, (ZERO if k == "sub" else Int((1 << bits) - 1)) if bad else fn(bits, a, b)))
            return out
        if n in ("checked_pow", "overflowing_pow"):
            x, y = cint(a), cint(b)
            if x is not None and y is not None:
                v = x ** y
                return [(st, self.none(dty) if v >= 1 << bits else self.some(dty, Int(v)))] if n == "checked_pow" else None
            out = []
            c = mk("app", "pow_ovf", bits, a, b)
            p = mk("app", "pow", a, b)
            if n == "checked_pow":
                for s2, bad in B(st, c):
                    out.append((s2, self.none(dty) if bad else self.some(dty, p)))
                return out
            return [(st, tup(p, c))]
        if n in ("pow", "wrapping_pow"):
            x, y = cint(a), cint(b)
            if x is not None and y is not None:
                return [(st, Int(pow(x, y, 1 << bits)))]
            return [(st, mk("app", "pow", a, b))]
        if n in ("min", "max"):
            return self.minmax(st, n, a, b)
        if n == "abs_diff":
            out = []
            for s2, lt in B(st, Lt(a, b)):
                out.append((s2, sub(bits, b, a) if lt else sub(bits, a, b)))
            return out
        if n in ("to", "try_to", "wrapping_to", "saturating_to", "from", "try_from", "to_be_bytes_vec") and base == "Uint":
            return self.uint_conv(st, n, f, a, dty, atys)
        if n == "from_limbs":
            v = a
            if v.op == "agg" and all(x.op == "int" for x in afields(v)):
                return [(st, Int(sum(x.a[0] << (64 * k) for k, x in enumerate(afields(v)))))]
            if v.op == "agg" and all(x is ZERO for x in afields(v)[1:]):
                return [(st, afields(v)[0])]
            if v.op == "app" and v.a[0] == "limbs":
                return [(st, v.a[1])]
            if v.op == "agg" and afields(v):
                f0 = afields(v)[0]
                if f0.op == "elem" and f0.a[0].op == "app" and f0.a[0].a[0] == "limbs":
                    m = 0
                    while m < len(afields(v)) and afields(v)[m] is mk("elem", f0.a[0], Int(m)):
                        m += 1
                    if m and all(x is ZERO for x in afields(v)[m:]):
                        x = f0.a[0].a[1]
                        return [(st, x if m == len(afields(v)) and (wid(x) or 1 << 30) <= bits else mk("trunc", 64 * m, x))]
            return [(st, mk("app", "from_limbs", v))]
        if n in ("from_limbs_slice", "checked_from_limbs_slice", "wrapping_from_limbs_slice") and a.op == "app" and a.a[0] == "limbs" and a.a[1].op != "int":
            x = a.a[1]
            v = x if x.op != "poly" or x.a[0] == bits else ceil_atom(st, x) or mk("trunc", bits, x)
            if n[0] == "w":
                return [(st, mk("trunc", bits, x))] if x.op == "poly" or (wid(x) or 1 << 30) > bits else [(st, x)]
            out = []
            for s2, fits in B(st, Lt(x, Int(1 << bits)) if x.op != "poly" or x.a[0] > bits else TRUE):
                if n[0] == "c":
                    out.append((s2, self.some(dty, v) if fits else self.none(dty)))
                elif fits:
                    out.append((s2, v))
                else:
                    i.panic(s2, "Uint conversion overflow")
            return out
        if n in ("from_be_bytes", "from_be_slice", "from_le_bytes", "from_le_slice", "try_from_be_slice"):
            r = a
            if v_const_bytes(a):
                by = v_const_bytes(a)
                r = Int(int.from_bytes(by, "big" if "be" in n else "little"))
            elif "le" in n:
                r = mk("app", "le", a)
            elif "slice" in n and a.op == "vfld" and a.a[0].op == "xres":
                r = mk("app", "beint", a)       # reply of any length
            if n.startswith("try"):
                return [(st, self.some(dty, r))]
            return [(st, r)]
        if n in ("to_be_bytes", "to_be_bytes_vec", "to_be_bytes_trimmed_vec", "as_le_slice"):
            if n == "to_be_bytes" or n == "to_be_bytes_vec":
                return [(st, mk("tobytes", bits, a) if a.op != "int" else mk("bytes", a.a[0].to_bytes(bits // 8, "big").hex()))]
            return [(st, mk("app", n, a))]
        if n == "to_le_bytes":
            if a.op == "int":
                return [(st, mk("bytes", a.a[0].to_bytes(bits // 8, "little").hex()))]
            return [(st, mk("app", "lebytes", bits, a))]
        if n in ("as_limbs", "into_limbs"):
            v = mk("app", "limbs", a)
            if n == "as_limbs":
                return [(st, i.ref(i.new_cell(st, v)))]
            return [(st, v)]
        if n in ("wrapping_shl", "wrapping_shr", "rotate_left"):
            if n == "rotate_left":
                return None
            return [(st, (i.shl if n.endswith("shl") else i.shr)(bits, a, b))]
        if n in ("checked_shl", "checked_shr", "overflowing_shl"):
            return None
        if n == "bit":
            return [(st, Not(Eq(i.bitop("band", bits, a, i.shl(bits, ONE, b)), ZERO)))]
        if n == "set_bit":
            x = self.D(st, args[0])
            ix, v = self.D(st, args[1]), self.D(st, args[2])
            m = i.shl(bits, ONE, ix)
            out = []
            for s2, bv in B(st, v):
                y = i.bitop("bor", bits, x, m) if bv else i.bitop("band", bits, x, i.bnot(bits, m))
                self.store_all(s2, args[0], y)
                out.append((s2, UNIT))
            return out
        if n in ("is_power_of_two",) and a.op == "int":
            return [(st, Bool(a.a[0] != 0 and a.a[0] & (a.a[0] - 1) == 0))]
        if n == "leading_zeros" and a.op == "int":
            return [(st, Int(bits - a.a[0].bit_length()))]
        if n == "trailing_zeros" and a.op == "int" and a.a[0]:
            return [(st, Int((a.a[0] & -a.a[0]).bit_length() - 1))]
        if n == "div_ceil":
            out = []
            for s2, z in B(st, Eq(b, ZERO)):
                if z:
                    i.panic(s2, "division by zero")
                else:
                    out.append((s2, ONE if b is a else mk("cdiv", bits, a, b) if cint(b) != 1 else a))
            return out
        if self.T[dty]["k"] == "ref" or not self.pure_args(atys):
            return None
        r = mk("app", "num." + n, bits, *A)
        i.opq[r] = n
        return [(st, r)]

    def pure_args(self, atys):
        return not any(t is not None and self.T[t]["k"] in ("ref", "ptr") and self.T[t]["mut"] for t in (atys or []))

    def store_all(self, st, r, val):
        while True:
            v = self.i.deref(st, r)
            if v.op == "ref":
                r = v
            else:
                break
        self.i.store(st, r, val)

    def uint_conv(self, st, n, f, a, dty, atys):
        i = self.i
        if n in ("from",):
            src = self.peel(atys[0]) if atys else None
            to = dty
        else:
            src = self.peel(f.get("self"))
            if n == "try_to" or n == "try_from":
                to = self.T[dty]["args"][0] if self.T[dty]["k"] == "adt" else None
            else:
                to = dty
        if src is None or to is None:
            return None
        if n == "try_from":
            src = self.peel(atys[0])
        ts = self.T[src]
        if ts["k"] == "bool":
            a = mk("b2i", a) if a.op != "bool" else Int(int(a.a[0]))
        bs, bt = i.bits(src), i.bits(to)
        if not bs or not bt:
            return None
        if n == "wrapping_to":
            return [(st, i.zext(a, bs, bt))]
        if bt >= bs and not ts.get("signed"):
            v = i.zext(a, bs, bt)
            if n in ("try_to", "try_from"):
                return [(st, self.ok(dty, v))]
            return [(st, v)]
        c = Lt(a, Int(1 << bt))
        out = []
        for s2, fits in i.branch(st, c):
            v = a if a.op != "poly" else ceil_atom(s2, a) or mk("trunc", bt, a)
            if n in ("try_to", "try_from"):
                out.append((s2, self.ok(dty, v) if fits else self.err(dty, mk("app", "conv_err", a))))
            elif n == "saturating_to":
                out.append((s2, v if fits else Int((1 << bt) - 1)))
            elif fits:
                out.append((s2, v))
            else:
                i.panic(s2, "Uint conversion overflow")
        return out

    def minmax(self, st, n, a, b):
        out = []
        if n == "min":
            for s2, lt in self.i.branch(st, Lt(b, a)):
                out.append((s2, b if lt else a))
        else:
            for s2, lt in self.i.branch(st, Lt(b, a)):
                out.append((s2, a if lt else b))
        return out

    def f_core_cmp_min(self, st, f, args, dty, atys):
        return self.minmax(st, "min", args[0], args[1]) if self.isnum(dty) else None

    def f_core_cmp_max(self, st, f, args, dty, atys):
        return self.minmax(st, "max", args[0], args[1]) if self.isnum(dty) else None

    # ------------------------------------------------------------ operator traits
    def arith(self, st, f, args, dty, atys, op, assign=False):
        s = self.peel(f.get("self"))
        if not self.isnum(s):
            return None
        if f.get("inst") and self.T[s]["k"] == "adt" and self.T[s]["path"] not in ZERO_LIKE:
            return None
        i = self.i
        bits = i.bits(s)
        a, b = self.D(st, args[0]), self.D(st, args[1])
        if self.T[s]["k"] in ("param", "alias"):
            tb = self.peel(atys[1]) if atys and len(atys) > 1 else None
            if tb is not None and self.T[tb]["k"] not in ("param", "alias") and op in ("mul",):
                return None
            bits = 0
        if op in ("div", "rem"):
            out = []
            for s2, z in i.branch(st, Eq(b, ZERO)):
                if z:
                    i.panic(s2, "division by zero")
                    continue
                r = (i.div if op == "div" else i.rem)(bits, a, b)
                out.append((s2, r))
        elif op == "bxor" and False:
            pass
        else:
            r = {"add": lambda: add(bits, a, b), "sub": lambda: sub(bits, a, b), "mul": lambda: mul(bits, a, b),
                 "band": lambda: i.bitop("band", bits, a, b), "bor": lambda: i.bitop("bor", bits, a, b),
                 "bxor": lambda: i.bitop("bxor", bits, a, b), "shl": lambda: i.shl(bits, a, b), "shr": lambda: i.shr(bits, a, b)}[op]()
            out = [(st, r)]
        if assign:
            o2 = []
            for s2, r in out:
                self.store_all(s2, args[0], r)
                o2.append((s2, UNIT))
            return o2
        return out

    # ------------------------------------------------------------ comparison
    def cmp_ok(self, f, atys):
        s = self.peel(f.get("self"))
        if s is None:
            return False
        return self.scalar(s)

    def t_PartialEq(self, st, f, args, dty, atys):
        s = self.peel(f.get("self"))
        if not self.cmp_ok(f, atys):
            if f.get("inst"):
                return None
        a, b = self.DD(st, args[0]), self.DD(st, args[1])
        e = self.seq_eq(a, b)
        return [(st, e if f["name"] == "eq" else Not(e))]

    def seq_eq(self, a, b):
        # scalar bytes vs array views
        if a.op == "tobytes" and b.op == "tobytes":
            return Eq(a.a[1], b.a[1])
        for x, y in ((a, b), (b, a)):
            if x.op == "bytes" and y.op == "agg" and y.a[0] == "array":
                if len(x.a[0]) // 2 != len(y.a) - 2:
                    return FALSE
                if len(y.a) == 2:
                    return TRUE
            if x.op == "str" and y.op == "agg" and y.a[0] == "array" and len(y.a) == 2:
                return Bool(x.a[0] == "")
            if (x.op == "agg" and x.a[0] == "array" and len(x.a) == 2) or (x.op == "str" and x.a[0] == ""):
                return Eq(self.i.length(y), ZERO)
        return Eq(a, b)

    def t_PartialOrd(self, st, f, args, dty, atys):
        if not self.cmp_ok(f, atys):
            return None
        a, b = self.D(st, args[0]), self.D(st, args[1])
        n = f["name"]
        if self.T[self.peel(f["self"])].get("signed"):
            if not (a.op == "int" and b.op == "int"):
                return None
        if n == "lt":
            return [(st, Lt(a, b))]
        if n == "le":
            return [(st, Le(a, b))]
        if n == "gt":
            return [(st, Lt(b, a))]
        if n == "ge":
            return [(st, Le(b, a))]
        if n == "partial_cmp":
            oty = self.T[dty]["args"][0]
            return [(s2, self.some(dty, agg(oty, v))) for s2, v in self.cmp3(st, a, b)]
        return None

    def t_Ord(self, st, f, args, dty, atys):
        if not self.cmp_ok(f, atys):
            return None
        a, b = self.D(st, args[0]), self.D(st, args[1])
        n = f["name"]
        if n == "cmp":
            return [(s2, agg(dty, v)) for s2, v in self.cmp3(st, a, b)]
        if n in ("min", "max"):
            return self.minmax(st, n, a, b)
        if n == "clamp":
            out = []
            c = self.D(st, args[2])
            for s2, v in self.minmax(st, "max", a, b):
                out += self.minmax(s2, "min", v, c)
            return out
        return None

    def cmp3(self, st, a, b):
        out = []
        for s2, lt in self.i.branch(st, Lt(a, b)):
            if lt:
                out.append((s2, 0))
                continue
            for s3, eq in self.i.branch(s2, Eq(a, b)):
                if eq:
                    out.append((s3, 1))
                elif s3.assume(Lt(b, a), True):
                    out.append((s3, 2))
        return out

    # ------------------------------------------------------------ clone / convert
    def t_Clone_clone(self, st, f, args, dty, atys):
        if f.get("inst") and f.get("local"):
            return None
        return [(st, self.D(st, args[0]))]

    def t_ToOwned_to_owned(self, st, f, args, dty, atys):
        return [(st, self.D(st, args[0]))]

    def t_ToString_to_string(self, st, f, args, dty, atys):
        v = self.D(st, args[0])
        s = self.peel(f.get("self"))
        if s is None or self.T[s]["k"] in ("param",):
            s = self.peel(atys[0]) if atys else s
        if s is not None and (self.T[s]["k"] == "str" or self.tp(s) == "alloc::string::String"):
            return [(st, v)]
        if v.op == "str":
            return [(st, v)]
        return [(st, mk("app", "to_string", v))]

    # ------------------------------------------------------------ formatting: Arguments denotes the text it renders to
    def m_Argument(self, st, f, args, dty, atys):
        n = f["name"]
        if not n.startswith("new_") or len(args) != 1:
            return None
        s = self.peel(atys[0]) if atys else None
        text = s is not None and (self.T[s]["k"] == "str" or self.tp(s) == "alloc::string::String")
        return [(st, mk("fmtarg", n[4:], int(text), self.D(st, args[0])))]

    def m_Arguments(self, st, f, args, dty, atys):
        n = f["name"]
        if n in ("from_str", "from_str_nonconst") and len(args) == 1:
            return [(st, self.D(st, args[0]))]
        if n != "new" or len(args) != 2:
            return None
        t, a = self.D(st, args[0]), self.D(st, args[1])
        b = t.a[0] if t.op == "bytes" else None
        if isinstance(b, str):
            b = bytes.fromhex(b)
        if t.op == "str":
            b = t.a[0].encode()
        if t.op == "agg" and t.a[0] == "array" and all(x.op == "int" for x in afields(t)):
            b = bytes(x.a[0] for x in afields(t))
        if b is None or a.op != "agg":
            return None
        fs = [self.D(st, x) for x in afields(a)]
        if any(x.op != "fmtarg" for x in fs):
            return None
        out, i, k = mk("str", ""), 0, 0

        def w16():
            nonlocal i
            i += 2
            return b[i - 2] | b[i - 1] << 8
        while i < len(b) and b[i]:
            c = b[i]
            i += 1
            if c <= 0x80:
                m = c if c < 0x80 else w16()
                out = self.i.concat(out, mk("str", b[i:i + m].decode()))
                i += m
                continue
            if c & 0x30:
                return None          # width or precision taken from an argument
            fl = wd = pr = None
            if c & 1:
                fl = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if c & 2:
                wd = w16()
            if c & 4:
                pr = w16()
            if c & 8:
                k = w16()
            x = fs[k]
            k += 1
            kind, text, v = x.a
            if fl is None and wd is None and pr is None and kind == "display":
                piece = v if text else mk("app", "to_string", v)
            else:
                piece = mk("app", "fmt", kind, fl or 0, -1 if wd is None else wd, -1 if pr is None else pr, v)
            out = self.i.concat(out, piece)
        return [(st, out)]

    def f_alloc_fmt_format(self, st, f, args, dty, atys):
        return [(st, self.D(st, args[0]))]

    def m_Formatter(self, st, f, args, dty, atys):
        if f["name"] in ("write_fmt", "write_str") and len(args) == 2:
            self.store_all(st, args[0], self.i.concat(self.D(st, args[0]), self.D(st, args[1])))
            return [(st, self.ok(dty, UNIT))]
        return None

    def t_Write(self, st, f, args, dty, atys):
        if f["name"] in ("write_fmt", "write_str") and len(args) == 2 and self.tp(self.peel(f.get("self"))) in ("alloc::string::String", "core::fmt::Formatter", "core::fmt::Formatter<'_>"):
            return self.m_Formatter(st, f, args, dty, atys)
        return None

    def t_Default_default(self, st, f, args, dty, atys):
        if f.get("inst") and f.get("local"):
            return None
        z = self.zero_of(dty)
        return None if z is None else [(st, z)]

    def t_From_from(self, st, f, args, dty, atys):
        if f.get("inst"):
            return None
        p = self.tp(dty)
        src = self.peel(atys[0]) if atys else None
        sp = self.tp(src)
        v = self.D(st, args[0])
        if p in ZERO_LIKE or p in I.TRANSPARENT or p in I.SEQ_ADT or self.T[dty]["k"] == "int":
            if self.T[src]["k"] in ("bool",):
                return [(st, mk("b2i", v))]
            return [(st, v)]
        if p == "stylus_sdk::call::Error" or p.endswith("::Error"):
            return [(st, mk("app", "from:" + p, v))]
        return [(st, mk("app", "from:" + p, v))]

    def t_Into_into(self, st, f, args, dty, atys):
        if f.get("inst"):
            return None
        return self.t_From_from(st, f, args, dty, atys)

    def t_TryFrom_try_from(self, st, f, args, dty, atys):
        if f.get("inst") and f.get("local"):
            return None
        to = self.T[dty]["args"][0] if self.T[dty]["k"] == "adt" and self.T[dty].get("args") else None
        src = self.peel(atys[0]) if atys else None
        if to is None or src is None or not isinstance(to, int):
            return None
        v = self.D(st, args[0])
        if self.isnum(to) and self.isnum(src):
            return self.uint_conv(st, "try_from", f, v, dty, atys)
        if self.T[self.peel(to)]["k"] in ("array",) or self.tp(to) in I.TRANSPARENT:
            # slice -> fixed array: fails unless the lengths agree
            tt = self.T[self.peel(to)]
            n = tt["len"] if tt["k"] == "array" else None
            if isinstance(n, int):
                out = []
                for s2, okk in self.i.branch(st, Eq(self.i.length(v), Int(n))):
                    val = v
                    if self.T[to]["k"] == "ref":
                        val = args[0]
                    out.append((s2, self.ok(dty, val) if okk else self.err(dty, mk("app", "conv_err", v))))
                return out
        return None

    def t_TryInto_try_into(self, st, f, args, dty, atys):
        if f.get("inst") and f["inst"] in self.i.prog.bodies:
            return None
        return self.t_TryFrom_try_from(st, f, args, dty, atys)

    def t_AsRef_as_ref(self, st, f, args, dty, atys):
        if f.get("inst") and f.get("local"):
            return None
        return [(st, args[0])]

    def t_AsMut_as_mut(self, st, f, args, dty, atys):
        return [(st, args[0])]

    def t_Not_not(self, st, f, args, dty, atys):
        s = self.peel(f.get("self"))
        if self.T[s]["k"] == "bool":
            return [(st, Not(self.D(st, args[0])))]
        if self.tp(s) == "alloy_primitives::Uint" or self.T[s]["k"] == "int":
            return [(st, self.i.bnot(self.i.bits(s), self.D(st, args[0])))]
        return None

    # ------------------------------------------------------------ closures
    def fncall(self, st, f, args, dty, atys):
        if f.get("inst") and f["inst"] in self.i.prog.bodies:
            fv = args[0]
            d = self.D(st, fv)
            if not (d.op == "fn" or (d.op == "agg" and isinstance(d.a[0], tuple))):
                return None
        al = args[1]
        al = list(afields(al)) if al.op == "agg" and al.a[0] == "tuple" else [al]
        fv = args[0]
        return self.i.call_value(st, fv, al, dty)

    t_FnOnce_call_once = fncall
    t_FnMut_call_mut = fncall
    t_Fn_call = fncall

    # ------------------------------------------------------------ sequences
    def seqv(self, st, a):
        return self.D(st, a)

    def m_Vec(self, st, f, args, dty, atys):
        n = f["name"]
        i = self.i
        if n in ("new", "with_capacity"):
            return [(st, agg("array", 0))]
        v = self.D(st, args[0])
        if n == "len":
            return [(st, i.length(v))]
        if n == "is_empty":
            return [(st, Eq(i.length(v), ZERO))]
        if n == "push":
            x = args[1]
            self.store_all(st, args[0], i.push(v, x))
            return [(st, UNIT)]
        if n in ("as_slice", "as_mut_slice", "as_ptr", "as_mut_ptr"):
            return [(st, args[0])]
        if n in ("into_boxed_slice", "shrink_to_fit"):
            return [(st, v)]
        if n in ("reserve", "reserve_exact"):
            return [(st, UNIT)]
        if n == "pop":
            if v.op == "agg":
                if len(v.a) == 2:
                    return [(st, self.none(dty))]
                self.store_all(st, args[0], mk("agg", *v.a[:-1]))
                return [(st, self.some(dty, v.a[-1]))]
            if v.op == "push":
                self.store_all(st, args[0], v.a[0])
                return [(st, self.some(dty, v.a[1]))]
            out = []
            ln = i.length(v)
            for s2, e in i.branch(st, Eq(ln, ZERO)):
                if e:
                    out.append((s2, self.none(dty)))
                else:
                    l1 = sub(64, ln, ONE)
                    self.store_all(s2, args[0], mk("slice", v, ZERO, l1))
                    out.append((s2, self.some(dty, i.index(s2, v, l1))))
            return out
        if n in ("extend_from_slice", "append"):
            w = self.D(st, args[1])
            self.store_all(st, args[0], i.concat(v, w))
            if n == "append":
                self.store_all(st, args[1], i.subrange(w, ZERO, ZERO))
            return [(st, UNIT)]
        if n in ("truncate", "clear"):
            nl = args[1] if n == "truncate" else ZERO
            self.store_all(st, args[0], i.subrange(v, ZERO, nl))
            return [(st, UNIT)]
        if n == "resize":
            return None
        return None

    def m_String(self, st, f, args, dty, atys):
        n = f["name"]
        if n in ("into_bytes", "into_boxed_str"):
            return [(st, self.D(st, args[0]))]
        if n in ("as_str", "as_bytes", "as_mut_str"):
            return [(st, args[0])]
        if n == "push_str":
            self.store_all(st, args[0], self.i.concat(self.D(st, args[0]), self.D(st, args[1])))
            return [(st, UNIT)]
        return self.m_Vec(st, f, args, dty, atys)

    def m_str(self, st, f, args, dty, atys):
        n = f["name"]
        v = self.D(st, args[0])
        if n in ("as_bytes", "as_ptr"):
            return [(st, args[0])]
        if n == "len":
            return [(st, self.i.length(v))]
        if n == "is_empty":
            return [(st, Eq(self.i.length(v), ZERO))]
        if n in ("to_string", "to_owned"):
            return [(st, v)]
        if n.startswith("trim") or n in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "repeat"):
            # pure functions of the text that are not the identity
            r = mk("app", "str::" + n, v, *[self.D(st, a) for a in args[1:]])
            if dty is not None and self.T[dty]["k"] == "ref":
                return [(st, self.i.ref(self.i.new_cell(st, r)))]
            return [(st, r)]
        return None

    def t_Add_add(self, st, f, args, dty, atys):
        if self.tp(f.get("self")) == "alloc::string::String":
            return [(st, self.i.concat(self.D(st, args[0]), self.D(st, args[1])))]
        return self.arith(st, f, args, dty, atys, "add")

    def t_AddAssign_add_assign(self, st, f, args, dty, atys):
        if self.tp(f.get("self")) == "alloc::string::String":
            self.store_all(st, args[0], self.i.concat(self.D(st, args[0]), self.D(st, args[1])))
            return [(st, UNIT)]
        return self.arith(st, f, args, dty, atys, "add", True)

    def m_Slice(self, st, f, args, dty, atys):
        n = f["name"]
        i = self.i
        v = self.D(st, args[0])
        if n == "len":
            return [(st, i.length(v))]
        if n == "is_empty":
            return [(st, Eq(i.length(v), ZERO))]
        if n in ("iter", "iter_mut"):
            return [(st, self.slice_iter(st, args[0], v))]
        if n == "concat":
            if v.op != "agg":
                return None
            r = EMPTY
            for x in afields(v):
                r = i.concat(r, self.D(st, x))
            return [(st, r)]
        if n in ("to_vec", "into_vec"):
            return [(st, v)]
        if n in ("as_ref", "as_slice", "as_ptr", "as_mut_ptr", "as_mut_slice"):
            return [(st, args[0])]
        if n in ("first", "last", "get", "get_mut", "first_mut", "last_mut"):
            ln = i.length(v)
            if n.startswith("first"):
                ix = ZERO
            elif n.startswith("last"):
                ix = sub(64, ln, ONE)
            else:
                ix = args[1]
                if ix.op == "agg":
                    return None
            c = Eq(ln, ZERO) if not n.startswith("get") else Not(Lt(ix, ln))
            out = []
            r = self.innermost(st, args[0])
            for s2, bad in i.branch(st, c):
                if bad:
                    out.append((s2, self.none(dty)))
                else:
                    out.append((s2, self.some(dty, self.elem_ref(s2, r, s2.canon(ix)))))
            return out
        if n in ("split_last", "split_first"):
            ln = i.length(v)
            r = self.innermost(st, args[0])
            out = []
            for s2, e in i.branch(st, Eq(ln, ZERO)):
                if e:
                    out.append((s2, self.none(dty)))
                    continue
                l1 = sub(64, ln, ONE)
                if n == "split_last":
                    x, rest = self.elem_ref(s2, r, l1), i.subrange(v, ZERO, l1)
                else:
                    x, rest = self.elem_ref(s2, r, ZERO), i.subrange(v, ONE, None)
                out.append((s2, self.some(dty, tup(x, i.ref(i.new_cell(s2, rest))))))
            return out
        if n in ("split_at", "split_at_mut"):
            ln = i.length(v)
            r = self.innermost(st, args[0])
            if r.op != "ref":
                r = i.ref(i.new_cell(st, v))
            mid = st.canon(args[1])
            out = []
            for s2, bad in i.branch(st, Lt(ln, mid)):
                if bad:
                    i.panic(s2, "mid > len")
                    continue
                a, b = (i.ref(r.a[0], r.a[1] + (("range", x, y),)) for x, y in ((ZERO, mid), (mid, ln)))
                out.append((s2, tup(a, b)))
            return out
        if n in ("chunks", "chunks_exact", "chunks_mut", "chunks_exact_mut", "windows"):
            r = self.innermost(st, args[0])
            if r.op != "ref":
                r = i.ref(i.new_cell(st, v))
            k = st.canon(args[1])
            out = []
            for s2, z in i.branch(st, Eq(k, ZERO)):
                if z:
                    i.panic(s2, "chunk size is zero")
                elif k.op != "int":
                    raise I.Unsupported("chunks of unknown size")
                else:
                    out.append((s2, mk("it", "chunks", r, ZERO, i.length(v), k, n.replace("_mut", ""))))
            return out
        if n == "copy_from_slice" or n == "clone_from_slice":
            w = self.D(st, args[1])
            l1, l2 = st.canon(i.length(v)), st.canon(i.length(w))
            if l1.op == "int" and l2.op == "int" and l1 is not l2:
                i.panic(st, "copy_from_slice: lengths differ")
                return []
            self.store_all(st, args[0], w)
            return [(st, UNIT)]
        if n == "contains":
            x = self.DD(st, args[1])
            if v.op == "agg" and v.a[0] == "array":
                r = FALSE
                for y in afields(v):
                    r = Or(r, Eq(self.DD(st, y), x))
                return [(st, r)]
            return [(st, mk("app", "contains", v, x))]
        if n in ("swap",):
            a, b = args[1], args[2]
            x, y = i.index(st, v, st.canon(a)), i.index(st, v, st.canon(b))
            v2 = i.upd(st, v, (("i", a),), y)
            v2 = i.upd(st, v2, (("i", b),), x)
            self.store_all(st, args[0], v2)
            return [(st, UNIT)]
        if n == "fill":
            if v.op == "agg":
                self.store_all(st, args[0], agg("array", 0, *[args[1]] * (len(v.a) - 2)))
                return [(st, UNIT)]
        return None

    def innermost(self, st, r):
        while r.op == "ref":
            v = self.i.deref(st, r)
            if v.op == "ref":
                r = v
            else:
                return r
        return r

    def elem_ref(self, st, r, ix):
        if r.op == "ref":
            return self.i.ref(r.a[0], r.a[1] + (("i", ix),))
        c = self.i.new_cell(st, self.i.index(st, self.D(st, r), ix))
        return self.i.ref(c)

    def slice_iter(self, st, r, v):
        r = self.innermost(st, r)
        if r.op != "ref":
            r = self.i.ref(self.i.new_cell(st, v))
        return mk("it", "slice", r, ZERO, self.i.length(v))

    # Index on Vec/slices
    def index_common(self, st, f, args, dty, atys):
        s = self.peel(f.get("self"))
        t = self.T[s]
        if not (t["k"] in ("slice", "array", "str") or (t["k"] == "adt" and (t["path"] in I.SEQ_ADT or t["path"] in I.TRANSPARENT))):
            return None
        i = self.i
        v = self.D(st, args[0])
        ln = i.length(v)
        r = self.innermost(st, args[0])
        ix = args[1]
        if ix.op == "agg":
            it = ix.a[0]
            nm = self.tp(it) if isinstance(it, int) else ""
            fs = afields(ix)
            if nm.endswith("RangeFull"):
                return [(st, args[0])]
            if nm.endswith("RangeTo"):
                lo, hi = ZERO, fs[0]
            elif nm.endswith("RangeFrom"):
                lo, hi = fs[0], ln
            elif nm.endswith("RangeInclusive"):
                lo, hi = fs[0], add(64, fs[1], ONE)
            elif nm.endswith("ops::Range"):
                lo, hi = fs[0], fs[1]
            else:
                return None
            out = []
            for s2, bad in i.branch(st, Lt(ln, hi)):
                if bad:
                    i.panic(s2, "slice index out of range")
                    continue
                for s3, bad2 in i.branch(s2, Lt(hi, lo)):
                    if bad2:
                        i.panic(s3, "slice index order")
                        continue
                    if r.op == "ref":
                        out.append((s3, i.ref(r.a[0], r.a[1] + (("range", s3.canon(lo), s3.canon(hi)),))))
                    else:
                        out.append((s3, i.ref(i.new_cell(s3, i.subrange(v, lo, hi)))))
            return out
        out = []
        for s2, okk in i.branch(st, Lt(ix, ln)):
            if not okk:
                i.panic(s2, "index out of bounds")
                continue
            out.append((s2, self.elem_ref(s2, r, s2.canon(ix))))
        return out

    t_Index_index = index_common
    t_IndexMut_index_mut = index_common

    # vec![..] lowering
    def m_Box_new_uninit(self, st, f, args, dty, atys):
        c = self.i.new_cell(st, UNDEF)
        return [(st, self.i.ref(c))]

    def m_Box_new(self, st, f, args, dty, atys):
        return [(st, args[0])]

    def f_alloc_boxed_box_assume_init_into_vec_unsafe(self, st, f, args, dty, atys):
        v = self.D(st, args[0])
        return [(st, v)]

    def f_alloc_vec_from_elem(self, st, f, args, dty, atys):
        n = args[1]
        if n.op == "int" and n.a[0] <= 64:
            return [(st, agg("array", 0, *[args[0]] * n.a[0]))]
        return [(st, mk("repeat", args[0], n))]

    def f_alloy_primitives_keccak256(self, st, f, args, dty, atys):
        return [(st, self.keccak(self.DD(st, args[0])))]

    def keccak(self, v):
        if v.op == "str":
            v = mk("bytes", v.a[0].encode().hex())
        if v.op == "bytes":
            return mk("bytes", keccak256(bytes.fromhex(v.a[0])).hex())
        if v.op == "agg" and v.a[0] == "array" and all(x.op == "int" and x.a[0] < 256 for x in afields(v)):
            return mk("bytes", keccak256(bytes(x.a[0] for x in afields(v))).hex())
        return mk("app", "keccak256", v)

    def m_Keccak256(self, st, f, args, dty, atys):
        n = f["name"]
        if n == "new":
            return [(st, mk("kst", mk("bytes", "")))]
        if n == "update" and len(args) == 2:
            c = self.D(st, args[0])
            if c.op == "kst":
                v = self.DD(st, args[1])
                if v.op == "str":
                    v = mk("bytes", v.a[0].encode().hex())
                c = mk("kst", self.i.concat(c.a[0], v))
                if self.T[dty]["k"] != "tuple":
                    return [(st, c)]
                self.store_all(st, args[0], c)
                return [(st, UNIT)]
        if n == "finalize":
            c = self.D(st, args[0])
            if c.op == "kst":
                return [(st, self.keccak(c.a[0]))]
        return None

    f_alloy_primitives_utils_keccak256 = f_alloy_primitives_keccak256
    f_stylus_sdk_crypto_keccak = f_alloy_primitives_keccak256

    def sol(self, st, f, args, dty, atys):
        n = f["name"]
        ty = self.T[f["self"]]["s"] if f.get("self") is not None else ""
        if n.startswith("abi_encode") and not n.endswith("_size") and not n.endswith("_sequence_to"):
            if any(t is not None and self.T[t]["k"] == "ref" and self.T[t]["mut"] for t in atys or []):
                return None
            v = self.DD(st, args[0])
            w = self.abi_norm(f, n, ty, v)
            return [(st, w if w is not None else mk("app", n, ty, v))]
        if n.startswith("abi_decode"):
            r = mk("app", n, ty, *[self.DD(st, a) for a in args])
            return [(st, r)]
        return None

    def abi_norm(self, f, n, ty, v):
        """encodings of static words do not depend on the carrier type"""
        if v.op != "agg":
            return None
        if ty.endswith("Call") and n == "abi_encode":
            return mk("app", "abi_call", ty.split("::")[-1], *afields(v))
        if n in ("abi_encode", "abi_encode_params", "abi_encode_sequence"):
            t = self.T[f["self"]] if f.get("self") is not None else None
            if t and t["k"] == "adt" and t.get("variants"):
                dyn = any(not self.static_word(i) for _, i in t["variants"][0]["f"])
            else:
                dyn = any(x in ty for x in ("::Bytes", "::String", "Array<", "Vec<", "Function"))
            if not dyn:
                return mk("app", "abi", *[self.to_word(x) for x in afields(v)])
        return None

    def static_word(self, i):
        s = self.T[i]["s"]
        return self.T[i]["k"] in ("int", "uint", "bool") or s in ("u8", "u16", "u32", "u64", "u128", "bool") or "Address" in s or "FixedBytes<32>" in s or "Uint<" in s

    def to_word(self, x):
        return x

    t_SolType = sol
    t_SolCall = sol
    t_SolValue = sol
    t_SolStruct = sol
    t_SolError = sol
    t_SolEvent = sol
    t_SolInterface = sol

    # ------------------------------------------------------------ iterators
    def t_IntoIterator_into_iter(self, st, f, args, dty, atys):
        v = args[0]
        if v.op == "it":
            return [(st, v)]
        ty = atys[0] if atys else None
        if v.op == "ref":
            x = self.D(st, v)
            if x.op == "it":
                return [(st, v)]
            return [(st, self.slice_iter(st, v, x))]
        if v.op == "agg" and isinstance(v.a[0], int):
            nm = self.tp(v.a[0])
            r = self.range_it(v, nm)
            if r is not None:
                return [(st, r)]
            if nm == "core::option::Option":
                return [(st, mk("it", "opt", v))]
            if v.a[0] != "array":
                return None
        t = self.T[ty] if ty is not None else None
        if (v.op == "agg" and v.a[0] == "array") or (t and (t["k"] == "array" or t.get("path") in I.SEQ_ADT)):
            c = self.i.new_cell(st, v)
            return [(st, mk("it", "vec", self.i.ref(c), ZERO, self.i.length(v)))]
        if t and t["k"] in ("param", "alias"):
            return [(st, v)]
        return None

    def range_it(self, v, nm):
        if nm == "core::ops::Range":
            return mk("it", "range", v.a[2], v.a[3])
        if nm == "core::ops::RangeInclusive":
            return mk("it", "rangei", v.a[2], v.a[3], FALSE)
        return None

    ADAPT = {"map", "filter", "filter_map", "flat_map", "skip_while", "take_while", "map_while", "inspect"}

    def as_it(self, st, v):
        v = self.D(st, v) if v.op == "ref" else v
        if v.op == "it":
            return v
        if v.op == "agg" and isinstance(v.a[0], int):
            return self.range_it(v, self.tp(v.a[0]))
        return None

    def stateful(self, st, c):
        """a closure that changes its own captured values lives in a cell of its own"""
        i = self.i
        if c.op == "agg" and isinstance(c.a[0], tuple) and c.a[0][0] == "closure":
            b = i.prog.bodies.get(c.a[0][1])
            t = b and i.T[b["locals"][1]]
            if t and t["k"] == "ref" and t.get("mut") and any(x.op != "ref" for x in afields(c)):
                return i.ref(i.new_cell(st, c))
        return c

    def m_Peekable_peek(self, st, f, args, dty, atys):
        it = self.as_it(st, args[0])
        if it is None:
            return None
        out = []
        for s, _, o in self.nexts(st, it):
            out.append((s, self.none(dty) if o is None else self.some(dty, self.i.ref(self.i.new_cell(s, o)))))
        return out

    def m_Peekable_next_if(self, st, f, args, dty, atys):
        it = self.as_it(st, args[0])
        if it is None:
            return None
        out = []
        for s, it2, o in self.nexts(st, it):
            if o is None:
                out.append((s, self.none(dty)))
                continue
            if f["name"] == "next_if":
                rs = self.i.call_value(s, args[1], [self.i.ref(self.i.new_cell(s, o))], None)
            else:
                w = self.D(s, args[1])
                o1 = self.D(s, o) if o.op == "ref" else o
                if w.op == "bool" or o1.op in ("bool", "sym") and w in (TRUE, FALSE):
                    rs = [(s, o1 if w is TRUE else Not(o1))]
                else:
                    rs = [(s, Eq(o1, w))]
            for s2, c in rs:
                for s3, b in self.i.branch(s2, c):
                    if b:
                        self.store_all(s3, args[0], it2)
                    out.append((s3, self.some(dty, o) if b else self.none(dty)))
        return out

    m_Peekable_next_if_eq = m_Peekable_next_if

    def t_Iterator(self, st, f, args, dty, atys):
        n = f["name"]
        i = self.i
        if f.get("inst") and f.get("local"):
            return None
        if n == "next" or n == "next_back":
            it = self.as_it(st, args[0])
            if it is None:
                return None
            out = []
            for s2, it2, o in self.nexts(st, it, n == "next_back"):
                self.store_all(s2, args[0], it2)
                out.append((s2, self.none(dty) if o is None else self.some(dty, o)))
            return out
        it = self.as_it(st, args[0])
        if it is None:
            return None
        if n in ("by_ref",):
            return [(st, args[0])]
        if n in self.ADAPT:
            return [(st, mk("it", n, it, self.stateful(st, args[1])))]
        if n in ("zip", "chain"):
            o = args[1]
            oi = self.as_it(st, o)
            if oi is None:
                r = self.t_IntoIterator_into_iter(st, f, [o], dty, [atys[1]] if atys else None)
                if not r:
                    return None
                st, oi = r[0]
                if oi.op != "it":
                    return None
            return [(st, mk("it", n, it, oi))]
        if n == "enumerate":
            return [(st, mk("it", "enum", it, ZERO))]
        if n == "rev":
            return [(st, mk("it", "rev", it))]
        if n in ("copied", "cloned"):
            return [(st, mk("it", "deref", it))]
        if n in ("skip", "take"):
            if n == "skip":
                r = self.skip_it(st, it, args[1])
                if r is not None:
                    return r
            return [(st, mk("it", n, it, args[1]))]
        if n == "peekable" or n == "fuse":
            return [(st, it)]
        if n == "count":
            if it.a[0] in ("slice", "vec", "range"):
                return [(st, sub(64, it.a[3] if it.a[0] != "range" else it.a[2], it.a[2] if it.a[0] != "range" else it.a[1]))]
        if n == "len":
            return None
        return self.consume(st, n, it, args, dty, atys)

    def t_ExactSizeIterator_len(self, st, f, args, dty, atys):
        it = self.as_it(st, args[0])
        if it is not None and it.a[0] in ("slice", "vec"):
            return [(st, sub(64, it.a[3], it.a[2]))]
        return None

    def t_DoubleEndedIterator_next_back(self, st, f, args, dty, atys):
        return self.t_Iterator(st, f, args, dty, atys)

    def t_DoubleEndedIterator_rev(self, st, f, args, dty, atys):
        return self.t_Iterator(st, f, args, dty, atys)

    def skip_it(self, st, it, c):
        """`it.skip(c)` as an iterator that starts later; None: keep it as an adaptor"""
        i = self.i
        if c.op == "ite" and c.a[1].op == "int" and c.a[2].op == "int" or c.op == "b2i":
            hi, lo = (c.a[1], c.a[2]) if c.op == "ite" else (ONE, ZERO)
            out = []
            for s2, z in i.branch(st, c.a[0]):
                r = self.skip_it(s2, it, hi if z else lo)
                out += r if r is not None else [(s2, mk("it", "skip", it, hi if z else lo))]
            return out
        if c is ZERO:
            return [(st, it)]
        k = it.a[0]
        if k in ("slice", "vec"):
            out = []
            ln, np = it.a[3], add(64, it.a[2], c)
            # start + c cannot wrap when it does not pass the end
            for s2, past in i.branch(st, Lt(sub(64, ln, it.a[2]), c)):
                out.append((s2, mk("it", k, it.a[1], ln if past else np, ln)))
            return out
        if k == "deref":
            r = self.skip_it(st, it.a[1], c)
            return r and [(s2, mk("it", "deref", x)) for s2, x in r]
        if k == "zip" and all(self.plain_it(x) for x in it.a[1:3]):
            out = []
            for s2, x in self.skip_it(st, it.a[1], c):
                out += [(s3, mk("it", "zip", x, y)) for s3, y in self.skip_it(s2, it.a[2], c)]
            return out
        return None

    def plain_it(self, it):
        return it.op == "it" and (it.a[0] in ("slice", "vec") or it.a[0] == "deref" and self.plain_it(it.a[1]))

    def symbranch(self, st, c):
        r = self.i.branch(st, c)
        if len(r) == 2:
            for s, _ in r:
                s.notes = s.notes + ("symnext",)
        return r

    def nexts(self, st, it, back=False):
        """[(state, iterator', elem or None)]"""
        i = self.i
        k = it.a[0]
        out = []
        if k == "op":
            return i.op_next(st, it, back)
        if k in ("slice", "vec"):
            _, r, pos, end = it.a
            for s2, more in self.symbranch(st, Lt(pos, end)):
                if not more:
                    out.append((s2, it, None))
                    continue
                if back:
                    e1 = sub(64, end, ONE)
                    ix, nit = e1, mk("it", k, r, pos, e1)
                else:
                    ix, nit = pos, mk("it", k, r, add(64, pos, ONE), end)
                ref = self.elem_ref(s2, r, s2.canon(ix))
                x = ref if k == "slice" else i.deref(s2, ref)
                out.append((s2, nit, x))
            return out
        if k == "chunks":
            _, r, pos, end, w, kind = it.a
            if back:
                raise I.Unsupported("chunks.next_back")
            full = Le(add(64, pos, w), end)
            for s2, more in self.symbranch(st, full if kind != "chunks" else Lt(pos, end)):
                if not more:
                    out.append((s2, it, None))
                    continue
                for s3, fl in self.symbranch(s2, full):
                    hi = add(64, pos, w) if fl else end
                    np = add(64, pos, ONE if kind == "windows" else w) if fl else end
                    out.append((s3, mk("it", k, r, np, end, w, it.a[5]), i.ref(r.a[0], r.a[1] + (("range", pos, hi),))))
            return out
        if k == "range":
            _, lo, hi = it.a
            for s2, more in self.symbranch(st, Lt(lo, hi)):
                if not more:
                    out.append((s2, it, None))
                elif back:
                    h1 = sub(64, hi, ONE)
                    out.append((s2, mk("it", k, lo, h1), h1))
                else:
                    out.append((s2, mk("it", k, add(64, lo, ONE), hi), lo))
            return out
        if k == "rangei":
            _, lo, hi, done = it.a
            for s2, more in self.symbranch(st, And(Not(done), Le(lo, hi))):
                if not more:
                    out.append((s2, it, None))
                elif back:
                    fin = Eq(lo, hi)
                    out.append((s2, mk("it", k, lo, sub(64, hi, ONE), fin), hi))
                else:
                    fin = Eq(lo, hi)
                    out.append((s2, mk("it", k, add(64, lo, ONE), hi, fin), lo))
            return out
        if k == "opt":
            o = it.a[1]
            if o.op == "agg":
                if o.a[1] == 0:
                    return [(st, it, None)]
                return [(st, mk("it", "opt", agg(o.a[0], 0)), o.a[2])]
        if k == "rev":
            return [(s2, mk("it", "rev", x), o) for s2, x, o in self.nexts(st, it.a[1], not back)]
        if k == "deref":
            return [(s2, mk("it", "deref", x), None if o is None else i.deref_all(s2, o)) for s2, x, o in self.nexts(st, it.a[1], back)]
        if k == "enum":
            if back:
                raise I.Unsupported("enumerate.next_back")
            return [(s2, mk("it", "enum", x, it.a[2] if o is None else add(64, it.a[2], ONE)), None if o is None else tup(it.a[2], o))
                    for s2, x, o in self.nexts(st, it.a[1])]
        if k == "zip":
            if back:
                raise I.Unsupported("zip.next_back")
            for s2, a2, o in self.nexts(st, it.a[1]):
                if o is None:
                    out.append((s2, mk("it", "zip", a2, it.a[2]), None))
                    continue
                for s3, b2, p in self.nexts(s2, it.a[2]):
                    out.append((s3, mk("it", "zip", a2, b2), None if p is None else tup(o, p)))
            return out
        if k == "chain":
            if back:
                raise I.Unsupported("chain.next_back")
            a, b = it.a[1], it.a[2]
            if a is UNDEF:
                return [(s2, mk("it", "chain", UNDEF, x), o) for s2, x, o in self.nexts(st, b)]
            for s2, a2, o in self.nexts(st, a):
                if o is not None:
                    out.append((s2, mk("it", "chain", a2, b), o))
                else:
                    out += [(s3, mk("it", "chain", UNDEF, x), p) for s3, x, p in self.nexts(s2, b)]
            return out
        if k == "map":
            for s2, x, o in self.nexts(st, it.a[1], back):
                if o is None:
                    out.append((s2, mk("it", "map", x, it.a[2]), None))
                    continue
                for s3, v in self.i.call_value(s2, it.a[2], [o], None):
                    out.append((s3, mk("it", "map", x, it.a[2]), v))
            return out
        if k == "flat_map":
            if back:
                raise I.Unsupported("flat_map.next_back")
            cur = it.a[3] if len(it.a) > 3 else None
            work = [(st, it.a[1], cur)]
            while work:
                s, x, c = work.pop()
                if c is not None:
                    for s2, c2, o in self.nexts(s, c):
                        if o is None:
                            work.append((s2, x, None))
                        else:
                            out.append((s2, mk("it", k, x, it.a[2], c2), o))
                    continue
                for s2, x2, o in self.nexts(s, x):
                    if o is None:
                        out.append((s2, mk("it", k, x2, it.a[2]), None))
                        continue
                    if "symnext" in s2.notes:
                        raise I.Unsupported("flat_map over unknown length")
                    for s3, v in i.call_value(s2, it.a[2], [o], None):
                        if v.op == "agg" and v.a[0] == "array":
                            v = mk("it", "vec", i.ref(i.new_cell(s3, v)), ZERO, Int(len(v.a) - 2))
                        if v.op != "it":
                            raise I.Unsupported("flat_map item")
                        work.append((s3, x2, v))
            return out
        if k in ("filter", "skip_while", "take_while", "filter_map"):
            n = 0
            work = [(st, it.a[1])]
            while work:
                s, x = work.pop()
                n += 1
                if n > 5000:
                    raise I.Unsupported("filter")
                for s2, x2, o in self.nexts(s, x, back):
                    if o is None:
                        out.append((s2, mk("it", k, x2, it.a[2]), None))
                        continue
                    if k == "filter_map":
                        raise I.Unsupported("filter_map")
                    for s3, c in self.i.call_value(s2, it.a[2], [self.i.ref(self.i.new_cell(s2, o))], None):
                        for s4, b in self.i.branch(s3, c):
                            if k == "filter":
                                if b:
                                    out.append((s4, mk("it", k, x2, it.a[2]), o))
                                elif "symnext" in s4.notes:
                                    raise I.Unsupported("filter over unknown length")
                                else:
                                    work.append((s4, x2))
                            elif k == "take_while":
                                out.append((s4, mk("it", k, x2, it.a[2]), o if b else None))
                            else:
                                if b:
                                    if "symnext" in s4.notes:
                                        raise I.Unsupported("skip_while over unknown length")
                                    work.append((s4, x2))
                                else:
                                    out.append((s4, x2, o))
            return out
        if k == "take":
            c = it.a[2]
            for s2, z in self.symbranch(st, Eq(c, ZERO)):
                if z:
                    out.append((s2, it, None))
                else:
                    for s3, x, o in self.nexts(s2, it.a[1]):
                        out.append((s3, mk("it", "take", x, sub(64, c, ONE)), o))
            return out
        if k == "skip":
            c = it.a[2]
            if c.op == "ite" and c.a[1].op == "int" and c.a[2].op == "int":
                for s2, z in self.symbranch(st, c.a[0]):
                    out += self.nexts(s2, mk("it", "skip", it.a[1], c.a[1] if z else c.a[2]))
                return out
            if c.op == "b2i":
                for s2, z in self.symbranch(st, c.a[0]):
                    out += self.nexts(s2, mk("it", "skip", it.a[1], ONE if z else ZERO))
                return out
            if c.op != "int":
                raise I.Unsupported("skip n")
            work = [(st, it.a[1], c.a[0])]
            while work:
                s, x, n = work.pop()
                for s2, x2, o in self.nexts(s, x):
                    if o is None:
                        out.append((s2, mk("it", "skip", x2, ZERO), None))
                    elif n:
                        work.append((s2, x2, n - 1))
                    else:
                        out.append((s2, mk("it", "skip", x2, ZERO), o))
            return out
        raise I.Unsupported("iterator " + str(k))

    def drive(self, st, it, body):
        """run body(s, elem) -> [("c"|"b", s, payload)] over the iterator;
        returns [(s, payload or None)] ; None = exhausted"""
        i = self.i
        ic = i.new_cell(st, it)
        done = []

        def step(s):
            backs, exits = [], []
            for s2, it2, o in self.nexts(s, s.mem[ic]):
                s2.mem[ic] = it2
                if o is None:
                    exits.append((None, s2))
                    continue
                for tag, s3, p in body(s2, o):
                    if tag == "c":
                        backs.append(s3)
                    else:
                        exits.append((("b", p), s3))
            return backs, exits
        outer = "symnext" in st.notes
        if outer:
            # the note belongs to the enclosing loop
            st.notes = tuple(x for x in st.notes if x != "symnext")
        snap = st.copy()
        np0 = len(i.panic_states)

        def noted(exits):
            for _, x in exits:
                if outer and "symnext" not in x.notes:
                    x.notes = x.notes + ("symnext",)
            return exits
        try:
            cur = [st]
            n = 0
            exits = []
            while cur:
                nx = []
                for s in cur:
                    b, e = step(s.copy())
                    if any("symnext" in x.notes for x in b) or any("symnext" in x.notes for _, x in e):
                        raise I._Summarise()
                    nx += b
                    exits += e
                cur = nx
                n += 1
                if n > i.UNROLL or len(cur) > 64:
                    raise I._Summarise()
            return noted(exits)
        except I._Summarise:
            pass
        del i.panic_states[np0:]
        return noted(i.summarise(snap, lambda h: step(h.copy()), (i.stack[-1][0], i.stack[-1][2], "iter")))

    def consume(self, st, n, it, args, dty, atys):
        i = self.i
        if n in ("fold", "for_each", "try_for_each", "try_fold", "all", "any", "sum", "product", "collect", "find", "position", "last", "max", "min", "count", "reduce"):
            pass
        else:
            return None
        acc = i.new_cell(st, {"fold": lambda: args[1], "try_fold": lambda: args[1], "sum": lambda: ZERO, "product": lambda: ONE, "collect": lambda: agg("array", 0),
                              "position": lambda: ZERO, "count": lambda: ZERO}.get(n, lambda: UNIT)())
        if n in ("last", "max", "min", "reduce"):
            return None
        if n == "collect" and self.tp(dty) not in I.SEQ_ADT and self.tp(dty) != "alloc::boxed::Box" and self.T[dty]["k"] != "adt":
            return None
        if n == "collect" and self.tp(dty) in ("core::result::Result", "core::option::Option"):
            return self.collect_try(st, it, dty)
        if n == "collect" and self.tp(dty) not in I.SEQ_ADT:
            return None
        bits = i.bits(dty) if dty is not None else 64
        ring = dty is not None and self.T[dty]["k"] in ("param", "alias")

        def body(s, e):
            out = []
            a = s.mem[acc]
            if n == "fold":
                for s2, v in i.call_value(s, args[2], [a, e], None):
                    s2.mem[acc] = v
                    out.append(("c", s2, None))
            elif n == "for_each":
                for s2, v in i.call_value(s, args[1], [e], None):
                    out.append(("c", s2, None))
            elif n in ("try_for_each", "try_fold"):
                rs = i.call_value(s, args[-1], [e] if n == "try_for_each" else [a, e], None)
                for s2, v in rs:
                    isopt = self.tp(dty) == "core::option::Option"
                    good = 1 if isopt else 0
                    if v.op == "agg":
                        if v.a[1] == good:
                            if n == "try_fold":
                                s2.mem[acc] = v.a[2]
                            out.append(("c", s2, None))
                        else:
                            out.append(("b", s2, mk("agg", dty, *v.a[1:])))
                    else:
                        d = i.discr(s2, v, dty)
                        for s3, bad in i.branch(s2, Not(Eq(d, Int(good)))):
                            if bad:
                                out.append(("b", s3, v))
                            else:
                                if n == "try_fold":
                                    s3.mem[acc] = mk("vfld", v, good, 0)
                                out.append(("c", s3, None))
            elif n in ("all", "any", "position", "find"):
                arg = e if n != "find" else i.ref(i.new_cell(s, e))
                for s2, v in i.call_value(s, args[1], [arg], None):
                    for s3, b in i.branch(s2, v):
                        if n == "all" and not b:
                            out.append(("b", s3, FALSE))
                        elif n == "any" and b:
                            out.append(("b", s3, TRUE))
                        elif n == "position" and b:
                            out.append(("b", s3, self.some(dty, s3.mem[acc])))
                        elif n == "find" and b:
                            out.append(("b", s3, self.some(dty, e)))
                        else:
                            if n == "position":
                                s3.mem[acc] = add(64, s3.mem[acc], ONE)
                            out.append(("c", s3, None))
            elif n == "count":
                s.mem[acc] = add(64, a, ONE)
                out.append(("c", s, None))
            elif n in ("sum", "product"):
                ev = self.D(s, e)
                if not (bits or ring):
                    raise I.Unsupported("sum type")
                s.mem[acc] = (add if n == "sum" else mul)(0 if ring else bits, a, ev)
                out.append(("c", s, None))
            elif n == "collect":
                s.mem[acc] = i.push(a, e)
                out.append(("c", s, None))
            return out
        res = []
        for tb, s in self.drive(st, it, body):
            if tb is not None:
                res.append((s, tb[1]))
                continue
            a = s.mem[acc]
            if n in ("fold", "sum", "product", "collect", "count"):
                res.append((s, a))
            elif n == "for_each":
                res.append((s, UNIT))
            elif n == "try_for_each":
                res.append((s, self.some(dty, UNIT) if self.tp(dty) == "core::option::Option" else self.ok(dty, UNIT)))
            elif n == "try_fold":
                res.append((s, self.some(dty, a) if self.tp(dty) == "core::option::Option" else self.ok(dty, a)))
            elif n == "all":
                res.append((s, TRUE))
            elif n == "any":
                res.append((s, FALSE))
            else:
                res.append((s, self.none(dty)))
        return res

    def collect_try(self, st, it, dty):
        i = self.i
        acc = i.new_cell(st, agg("array", 0))
        isopt = self.tp(dty) == "core::option::Option"
        good = 1 if isopt else 0

        def body(s, v):
            out = []
            if v.op == "agg":
                if v.a[1] == good:
                    s.mem[acc] = i.push(s.mem[acc], v.a[2])
                    out.append(("c", s, None))
                else:
                    out.append(("b", s, mk("agg", dty, *v.a[1:])))
                return out
            d = mk("discr", v)
            for s3, bad in i.branch(s, Not(Eq(d, Int(good)))):
                if bad:
                    out.append(("b", s3, agg(dty, 1 - good, *([] if isopt else [mk("vfld", v, 1, 0)]))))
                else:
                    s3.mem[acc] = i.push(s3.mem[acc], mk("vfld", v, good, 0))
                    out.append(("c", s3, None))
            return out
        res = []
        for tb, s in self.drive(st, it, body):
            if tb is not None:
                res.append((s, tb[1]))
            else:
                res.append((s, agg(dty, good, s.mem[acc])))
        return res

    def t_FromIterator_from_iter(self, st, f, args, dty, atys):
        it = self.as_it(st, args[0])
        if it is None:
            return None
        return self.consume(st, "collect", it, [it], dty, atys)

    def t_Extend_extend(self, st, f, args, dty, atys):
        v = self.D(st, args[0])
        w = args[1]
        if w.op == "it":
            out = []
            if w.a[0] in ("vec", "slice") and w.a[2] is ZERO:
                src = self.i.deref(st, w.a[1])
                self.store_all(st, args[0], self.i.concat(v, src))
                return [(st, UNIT)]
            return None
        self.store_all(st, args[0], self.i.concat(v, self.D(st, w)))
        return [(st, UNIT)]

    # ------------------------------------------------------------ field / ring abstraction (crypto)
    def ringself(self, f):
        s = self.peel(f.get("self"))
        return s is not None and self.T[s]["k"] in ("param", "alias") and not f.get("inst")

    def t_Field(self, st, f, args, dty, atys):
        if not self.ringself(f):
            return None
        n = f["name"]
        A = [self.D(st, a) for a in args]
        if n == "square":
            return [(st, mul(0, A[0], A[0]))]
        if n == "square_in_place":
            self.store_all(st, args[0], mul(0, A[0], A[0]))
            return [(st, args[0])]
        if n == "sum_of_products":
            a, b = A
            if a.op == "agg" and b.op == "agg":
                r = ZERO
                for x, y in zip(afields(a), afields(b)):
                    r = add(0, r, mul(0, self.D(st, x), self.D(st, y)))
                return [(st, r)]
            return None
        if n == "inverse":
            out = []
            for s2, z in self.i.branch(st, Eq(A[0], ZERO)):
                out.append((s2, self.none(dty) if z else self.some(dty, mk("inv", s2.canon(A[0])))))
            return out
        if n == "pow":
            e = A[1]
            if e.op == "agg" and e.a[0] == "array" and all(x.op == "int" for x in afields(e)):
                k = sum(x.a[0] << (64 * j) for j, x in enumerate(afields(e)))
                if k <= 16:
                    r = ONE
                    for _ in range(k):
                        r = mul(0, r, A[0])
                    return [(st, r)]
            return [(st, mk("app", "fpow", A[0], e))]
        if n == "extension_degree":
            return [(st, mk("app", "extension_degree"))]
        return None

    def t_AdditiveGroup(self, st, f, args, dty, atys):
        if not self.ringself(f):
            return None
        n = f["name"]
        a = self.D(st, args[0])
        if n == "double":
            return [(st, add(0, a, a))]
        if n == "double_in_place":
            self.store_all(st, args[0], add(0, a, a))
            return [(st, args[0])]
        if n == "neg_in_place":
            self.store_all(st, args[0], neg(0, a))
            return [(st, args[0])]
        return None

    def t_Neg_neg(self, st, f, args, dty, atys):
        if self.ringself(f):
            return [(st, neg(0, self.D(st, args[0])))]
        return None

    def t_Zero(self, st, f, args, dty, atys):
        if not self.ringself(f):
            return None
        if f["name"] == "zero":
            return [(st, ZERO)]
        if f["name"] == "is_zero":
            return [(st, Eq(self.D(st, args[0]), ZERO))]
        return None

    def t_One(self, st, f, args, dty, atys):
        if not self.ringself(f):
            return None
        if f["name"] == "one":
            return [(st, ONE)]
        if f["name"] == "is_one":
            return [(st, Eq(self.D(st, args[0]), ONE))]
        return None


def v_const_bytes(a):
    if a.op == "bytes":
        return bytes.fromhex(a.a[0])
    if a.op == "agg" and a.a[0] == "array" and len(a.a) > 2 and all(x.op == "int" and 0 <= x.a[0] < 256 for x in afields(a)):
        return bytes(x.a[0] for x in afields(a))
    return None


def _mk(op, assign):
    def h(self, st, f, args, dty, atys):
        return self.arith(st, f, args, dty, atys, op, assign)
    return h


for _t, _m, _o in (("Sub", "sub", "sub"), ("Mul", "mul", "mul"), ("Div", "div", "div"), ("Rem", "rem", "rem"), ("BitAnd", "bitand", "band"),
                   ("BitOr", "bitor", "bor"), ("BitXor", "bitxor", "bxor"), ("Shl", "shl", "shl"), ("Shr", "shr", "shr")):
    setattr(Models, f"t_{_t}_{_m}", _mk(_o, False))
    setattr(Models, f"t_{_t}Assign_{_m}_assign", _mk(_o, True))


def ceil_atom(st, a):
    """1 + n/d with a remainder is the rounded-up quotient"""
    x = sub(a.a[0], a, ONE)
    if x.op == "div" and st.decide(Eq(mk("rem", *x.a), ZERO)) is False:
        return mk("cdiv", *x.a)
    return None
