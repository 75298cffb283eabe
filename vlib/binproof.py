"""B01, B02: section files and headers, for every file.

The standard library's map, vector and string, the C++ run-time's exceptions and the system calls are contracts; the repository's functions
are executed as compiled. A throw ends a path; the postcondition says which paths may end so."""
import re
from . import mpz
from .groups import *
from .mpn import _args, ret
from .sumproof import *
from .msmproof import between, constant, div8

FMAX = 1 << 48


class BinCase(LoopCase):
    def __init__(self, im, name):
        super().__init__(im, name)
        m, ctx = self.m, self.ctx
        self.extra = []
        abi = m.abi_ok
        m.abi_ok = lambda s: None if "thrown" in s.aux else abi(s)
        self.strings()
        for k, a in im.sym.items():
            if k in ("__cxa_throw", "__cxa_rethrow") or k.startswith("_ZSt") and "__throw_" in k: m.contracts[a] = self.throw
            elif k == "__cxa_allocate_exception": m.contracts[a] = self.exception
            elif k in ("__cxa_free_exception", "_ZSt16generic_categoryv", "_ZNSt3_V216generic_categoryEv"): m.contracts[a] = lambda s: ret(m, s, wconst(0))
            elif k == "__errno_location": m.contracts[a] = lambda s: ret(m, s, Ptr("errno", 0))
        m.add_region("errno", 4)
        self.allowed |= {"errno"}
        for d, a in im.dem.items():
            if re.match(r"std::(invalid_argument|range_error|out_of_range|runtime_error|length_error|logic_error|domain_error|system_error|overflow_error)::\w+\(", d): m.contracts[a] = lambda s: ret(m, s, s.regs["rdi"])

    # ---- exceptions
    def throw(self, s):
        s.aux["thrown"] = True
        raise Replace([], [(s, None)])

    def exception(self, s):
        n = s.concretize(_args(self.m, s, 1)[0])
        s.heap += 1
        ret(self.m, s, self.m.add_region("heap_exc%d" % s.heap, n))

    # ---- strings: where they live and what they are
    def strings(self):
        m = self.m
        for d, a in self.im.dem.items():
            t = re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>", "STR", d)
            if re.search(r"(^|\s)std::operator\+<char", t) or re.match(r"STR std::operator\+", t) or t.startswith("std::__cxx11::to_string("): m.contracts[a] = self.text
            elif re.match(r"std::(allocator|__new_allocator)<char>::~?\w+\(", t) or "gnu_cxx::new_allocator<char>::" in t: m.contracts[a] = lambda s: ret(m, s, None)
            elif re.match(r"(bool )?std::operator(!=|==)<char", t): m.contracts[a] = lambda s, ne="!=" in t.split("<char")[0]: self.compare(s, ne)
            elif t.startswith("STR::basic_string(STR const&)") or t.startswith("STR::basic_string(STR&&)") or t.startswith("STR::operator=(STR"): m.contracts[a] = self.copy
            elif t.startswith("STR::basic_string("): m.contracts[a] = self.text
            elif t.startswith("STR::~basic_string("): m.contracts[a] = lambda s: ret(m, s, None)
            elif t.startswith("STR::assign(char const*, unsigned long)"): m.contracts[a] = self.assign
            elif t == "STR::c_str() const": m.contracts[a] = self.c_str

    def slot(self, p):
        if not isinstance(p, Ptr): raise Unsupported("a string at an unknown place")
        return (p.r, p.o)

    def tag(self, s, p): return s.aux.get("ghost:str", {}).get(self.slot(p))

    def settag(self, s, p, v):
        d = dict(s.aux.get("ghost:str", {}))
        d[self.slot(p)] = v
        s.aux["ghost:str"] = d

    def text(self, s):
        p = s.regs["rdi"]
        self.settag(s, p, None)
        ret(self.m, s, p)

    def copy(self, s):
        a, b = _args(self.m, s, 2)
        self.settag(s, a, self.tag(s, b))
        ret(self.m, s, a)

    def assign(self, s):
        a, p, n = _args(self.m, s, 3)
        p = s.regs["rsi"]
        self.settag(s, a, ("bytes", p.r, p.w.p.key() if isinstance(p, SPtr) else p.o, n.p.const() if n.is_const() else None) if isinstance(p, (Ptr, SPtr)) else None)
        ret(self.m, s, a)

    def c_str(self, s):
        t = self.tag(s, s.regs["rdi"])
        ret(self.m, s, Ptr("name", 0) if t == "name" else self.ctx.aword(self.ctx.atom("str", 1, 1 << 47, "fresh")))

    def compare(self, s, ne): raise Unsupported("a comparison of strings")

    def ok(self, s, q): return q.truth() is True or self.ctx.implies(s.path, q)


# ---------------------------------------------------------------- B02: headers
class Stored:
    """A section's bytes: the fields written by its layout, and unknown bytes elsewhere."""
    def __init__(self, case, sec): self.c, self.sec = case, sec

    def load(self, s, off, size):
        for o, n, v in self.c.layout[self.sec]:
            if n == size and izero(s, off.p - o.p): return v
        return self.c.ctx.aword(self.c.ctx.atom("other", 0, MASK[8 * size], "fresh"))

    def store(self, s, off, size, v): raise Fault("write into the file")


class HeaderCase(BinCase):
    """loadHeader of a well-formed header; the file's methods by contract (proved by B01)."""
    def __init__(self, im, kind):
        super().__init__(im, "%s loadHeader" % kind)
        self.kind = kind
        ctx, m = self.ctx, self.m
        u32 = lambda n, hi=MASK[32]: ctx.input(n, 0, hi)
        self.layout, self.fields, self.sizes = {1: [], 2: [], 4: []}, [], {}
        pos = wconst(0)

        def num(sec, field, hi=MASK[32]):
            nonlocal pos
            v = u32(field, hi)
            self.layout[sec].append((pos, 4, v))
            self.fields.append((field, "num", v))
            pos = ctx.add(pos, wconst(4))
            return v

        def data(sec, field, n, big):
            nonlocal pos
            self.fields.append((field, "mpz" if big else "ptr", (sec, pos, n)))
            pos = ctx.add(pos, n)
        if kind == "Zkey":
            self.protocol = num(1, None)
            self.sizes[1], pos = pos, wconst(0)
            q = num(2, "n8q", 1 << 20)
            data(2, "qPrime", q, True)
            r = num(2, "n8r", 1 << 20)
            data(2, "rPrime", r, True)
            for f in ("nVars", "nPublic", "domainSize"): num(2, f)
            for f, k in (("alpha1", 2), ("beta1", 2), ("beta2", 4), ("gamma2", 4), ("delta1", 2), ("delta2", 4)): data(2, "vk_" + f, ctx.scale(q, k), False)
            self.sizes[2] = pos
            nc = u32("nCoefs", 1 << 32)
            self.fields.append(("nCoefs", "long", nc))
            self.sizes[4] = ctx.add(ctx.mul(nc, ctx.add(r, wconst(12))), wconst(4))
            self.sections = (1, 2)
        else:
            q = num(1, "n8", 1 << 20)
            data(1, "prime", q, True)
            num(1, "nVars")
            self.sizes[1] = pos
            self.protocol = None
            self.sections = (1,)
        for k, n in self.sizes.items():
            m.add_region("sec%d" % k, n, arr=Arr("sec%d" % k))
        B = "BinFileUtils::BinFile::"
        for d, a in im.dem.items():
            if not d.startswith(B): continue
            h = dict(startReadSection=self.start, endReadSection=self.end, getSectionData=self.section_data, getSectionSize=self.section_size, readU32LE=lambda s: self.read_n(s, 4), readU64LE=lambda s: self.read_n(s, 8), read=self.read).get(re.match(r"(~?\w*)", d[len(B):]).group(1))
            if h: m.contracts[a] = h
        if im.sym.get("__gmpz_init"): m.contracts[im.sym["__gmpz_init"]] = self.mpz_init
        if im.sym.get("__gmpz_import"): m.contracts[im.sym["__gmpz_import"]] = self.mpz_import
        if im.sym.get("__gmpz_clear"): m.contracts[im.sym["__gmpz_clear"]] = lambda s: ret(m, s, None)

    # ---- the file
    def this(self, s):
        if s.regs["rdi"] != Ptr("file", 0): raise Unsupported("another file")

    def which(self, s):
        self.this(s)
        _, k, n = _args(self.m, s, 3)
        k, n = self.ctx.uview(k, 32), self.ctx.uview(n, 32)
        if not k.is_const() or not n.is_const(): raise Unsupported("a section that is not known")
        return k.p.const(), n.p.const()

    def start(self, s):
        k, n = self.which(s)
        if k not in self.sizes or n or s.aux.get("ghost:cur") is not None: self.throw(s)
        s.aux["ghost:cur"] = (k, wconst(0))
        ret(self.m, s, None)

    def end(self, s):
        self.this(s)
        b = self.ctx.uview(s.regs["rsi"], 8)
        c = s.aux.get("ghost:cur")
        if c is None: raise Fault("a section is ended that was not started")
        if not b.is_const(): raise Unsupported("an end that may be checked")
        if b.p.const() and not izero(s, c[1].p - self.sizes[c[0]].p): self.throw(s)
        s.aux["ghost:cur"] = None
        ret(self.m, s, None)

    def section_data(self, s):
        k, n = self.which(s)
        if k not in self.sizes or n: self.throw(s)
        ret(self.m, s, Ptr("sec%d" % k, 0))

    def section_size(self, s):
        k, n = self.which(s)
        if k not in self.sizes or n: self.throw(s)
        ret(self.m, s, self.sizes[k])

    def at(self, s, n):
        """the place the next n bytes are read from"""
        self.this(s)
        c = s.aux.get("ghost:cur")
        if c is None: raise Fault("a read outside every section")
        k, pos = c
        e = self.ctx.add(pos, n)
        if not self.ok(s, c_ge(self.sizes[k], e)): raise Fault("a read beyond the end of section %d" % k)
        s.aux["ghost:cur"] = (k, e)
        return Ptr("sec%d" % k, pos.p.const()) if pos.is_const() else SPtr("sec%d" % k, pos)

    def read_n(self, s, n):
        p = self.at(s, wconst(n))
        ret(self.m, s, s.load(p, n))

    def read(self, s):
        p = self.at(s, self.ctx.uview(s.regs["rsi"], 64))
        ret(self.m, s, p)

    # ---- big numbers
    def mpz_init(self, s):
        p = s.regs["rdi"]
        s.aux["ghost:mpz"] = dict(s.aux.get("ghost:mpz", {}), **{"%s+%d" % self.slot(p): None})
        ret(self.m, s, None)

    def mpz_import(self, s):
        z, n, order, size, end, nails = _args(self.m, s, 6)
        src = s.load(Ptr("stack", s.regs["rsp"].o + 8), 8)
        k = "%s+%d" % self.slot(z)
        g = s.aux.get("ghost:mpz", {})
        if k not in g: raise Fault("a number is set that was not initialised")
        c = [self.ctx.sview(x, 32) for x in (order, size, end)]
        one = c[1].is_const() and c[1].p.const() == 1 and nails.is_const() and nails.p.const() == 0 and c[0].is_const()
        if not one: raise Unsupported("a number imported in another way")
        v = None
        if isinstance(src, (Ptr, SPtr)): v = (c[0].p.const(), src.r, src.w if isinstance(src, SPtr) else wconst(src.o), self.ctx.uview(n, 64))
        s.aux["ghost:mpz"] = dict(g, **{k: v})
        ret(self.m, s, None)

    def prove(self):
        m = self.m
        m.add_region("file", None)
        m.add_region("r", 8)
        st = self.boot([Ptr("r", 0), Ptr("file", 0)])
        for k in self.sizes: st.aux["arr:sec%d" % k] = Stored(self, k)
        self.allowed |= {"r"}
        f = self.im.find(("ZKeyUtils" if self.kind == "Zkey" else "WtnsUtils") + "::loadHeader(")
        return self.run(st, f, [], [f]) + self.extra

    def post(self, s):
        bad = c_eq(self.protocol, wconst(1)).negate() if self.protocol is not None else None
        if "thrown" in s.aux: return [("only another protocol is rejected", bad is not None and self.ok(s, bad), "")]
        out = []
        if bad is not None: out.append(("another protocol is rejected", self.ok(s, bad.negate()), ""))
        out.append(("no section is left open", s.aux.get("ghost:cur") is None, ""))
        h = s.load(Ptr("r", 0), 8)
        if not isinstance(h, Ptr): return out + [("a header is returned", False, "")]
        g = s.aux.get("ghost:mpz", {})
        for f, kind, v in self.fields:
            if f is None: continue
            at = h.o + constant(self.im, "o_%s_%s" % (self.kind, f))
            if kind == "mpz":
                x = g.get("%s+%d" % (h.r, at))
                sec, pos, n = v
                good = x is not None and x[0] == -1 and x[1] == "sec%d" % sec and izero(s, x[2].p - pos.p) and izero(s, x[3].p - n.p)
            elif kind == "ptr":
                sec, pos, n = v
                x = s.load(Ptr(h.r, at), 8)
                good = isinstance(x, (Ptr, SPtr)) and x.r == "sec%d" % sec and izero(s, position(self.ctx, x, 8).p - pos.p)
            else:
                x = s.load(Ptr(h.r, at), 8 if kind == "long" else 4)
                good = isinstance(x, Word) and izero(s, self.ctx.uview(x, 64 if kind == "long" else 32).p - v.p)
            out.append(("field %s" % f, good, ""))
        return out


# ---------------------------------------------------------------- B01: section files
class File:
    """The bytes of the file: one unknown per place and size."""
    def __init__(self, case): self.c = case

    def load(self, s, off, size): return self.c.byte(s, off, size)

    def store(self, s, off, size, v): raise Fault("write into the file")


class Copied:
    """Bytes of the file from offset d on, n of them."""
    def __init__(self, case, d, n): self.c, self.d, self.n = case, d, n

    def load(self, s, off, size):
        if not self.c.ok(s, c_ge(self.n, self.c.ctx.add(off, wconst(size)))): raise Fault("read of bytes that were not copied")
        return self.c.byte(s, self.c.ctx.add(off, self.d), size)

    def store(self, s, off, size, v): raise Fault("write into the file's copy")


class Sections:
    """The sections of one number: addresses inside the copy, and lengths."""
    def __init__(self, case, k): self.c, self.k = case, k

    def load(self, s, off, size):
        if size != 8: raise Unsupported("a partial access to a section")
        c = self.c
        r = off.p.d.get((), 0) % c.ssize
        e = div8(c.ctx.sub(off, wconst(r)), c.ssize)
        o, z = c.section(s, self.k, e)
        if r == c.at["Section_start"]: return SPtr("copy", o)
        if r == c.at["Section_size"]: return z
        raise Unsupported("a part of a section that is not known")

    def store(self, s, off, size, v): raise Fault("a section is changed")


class FileCase(BinCase):
    def __init__(self, im, name):
        super().__init__(im, name)
        m, ctx = self.m, self.ctx
        self.at = {f: constant(im, "o_" + f) for f in ("File_addr", "File_pos", "File_sections", "File_readingSection", "File_total", "Section_start", "Section_size", "Section_total")}
        self.ssize = self.at["Section_total"]
        self.F = ctx.input("size", 0, FMAX)
        self.bytes, self.secs, self.keys = [], [], []
        m.add_region("obj", self.at["File_total"], init=lambda s, o, k: None)
        S = "BinFileUtils::BinFile::Section"
        M = r"std::map<int, std::vector<%s,.*>::(find|operator\[\]|at|count|insert|emplace|erase|clear|lower_bound|upper_bound|equal_range|size|empty|swap|try_emplace|emplace_hint)(<.*)?\(" % S
        V = r"(?:.* )?std::vector<%s, std::allocator<%s> >::(~vector|push_back|emplace_back|insert|resize|reserve|clear|erase|pop_back|swap|assign|at|emplace)(<.*>)?\(" % (S, S)
        for d, a in im.dem.items():
            g = re.match(r"(?:std::enable_if<.*>::type |std::pair<std::_Rb_tree_iterator<.*> |auto |unsigned long )?" + M, d)
            v = re.match(V, d)
            if g and "_Rb_tree" not in d.split("std::map<int")[0].replace("std::_Rb_tree_iterator", ""):
                f = {"find": self.m_find, "operator[]": self.m_index, "insert": self.m_insert, "at": self.m_at, "count": self.m_count}.get(g.group(1), self.unknown)
                m.contracts[a] = f
            elif v: m.contracts[a] = {"~vector": self.v_drop, "push_back": self.v_push, "emplace_back": self.v_emplace}.get(v.group(1), self.unknown)

    def unknown(self, s): raise Unsupported("a container operation that is not under contract")

    def byte(self, s, off, size):
        for o, n, v in self.bytes:
            if n == size and izero(s, o.p - off.p): return v
        v = self.ctx.aword(self.ctx.atom("file(%d)" % len(self.bytes), 0, MASK[8 * size], "ghost"))
        self.bytes.append((off, size, v))
        return v

    def fileptr(self, o): return Ptr("copy", o.p.const()) if o.is_const() else SPtr("copy", o)

    # ---- the map
    def key(self, s, p):
        """which number is asked for"""
        if s.regs["rdi"] != Ptr("obj", self.at["File_sections"]): raise Unsupported("another map")
        w = self.ctx.uview(s.load(p, 4), 32)
        for i, (k, _, _) in enumerate(self.keys):
            if izero(s, k.p - w.p): return i
        return self.newkey(w)

    def newkey(self, w):
        i = len(self.keys)
        ctx, m = self.ctx, self.m
        n, pres = ctx.aword(ctx.atom("count(%d)" % i, 0, MASK[32], "ghost")), ctx.aword(ctx.atom("present(%d)" % i, 0, 1, "ghost"))
        self.keys.append((w, n, pres))
        ve = [(0, Ptr("secs%d" % i, 0)), (8, SPtr("secs%d" % i, ctx.scale(n, self.ssize))), (16, SPtr("secs%d" % i, ctx.scale(n, self.ssize)))]
        m.add_region("node%d" % i, 64, init=lambda s, o, k: [(32, 4, w)] if o == 32 else [(40 + a, 8, x) for a, x in ve] if 40 <= o < 64 and self.whole else None)
        if self.whole: m.add_region("secs%d" % i, ctx.scale(n, self.ssize), arr=Const(Sections(self, i)))
        return i

    whole = True            # the lists of sections can be read

    def present(self, s, i):
        w, n, pres = self.keys[i]
        if s.decide(c_eq(pres, wconst(1))): return True
        fact(s, n.p)
        return False

    def m_find(self, s):
        i = self.key(s, s.regs["rsi"])
        p = self.present(s, i)
        ret(self.m, s, Ptr("node%d" % i, 0) if p else Ptr("obj", self.at["File_sections"] + 8))

    def m_count(self, s):
        p = self.present(s, self.key(s, s.regs["rsi"]))
        ret(self.m, s, wconst(1 if p else 0))

    def m_index(self, s):
        i = self.key(s, s.regs["rsi"])
        self.present(s, i)
        ret(self.m, s, Ptr("node%d" % i, 40))

    def m_at(self, s):
        i = self.key(s, s.regs["rsi"])
        if not self.present(s, i): self.throw(s)
        ret(self.m, s, Ptr("node%d" % i, 40))

    def m_insert(self, s): raise Fault("a section is added")

    def v_drop(self, s):
        p = s.load(s.regs["rdi"], 8)
        if not (isinstance(p, Word) and p.is_const() and p.p.const() == 0): raise Unsupported("a list of sections is destroyed")
        ret(self.m, s, None)

    def v_push(self, s): raise Fault("a section is added")

    def v_emplace(self, s): raise Fault("a section is added")

    def section(self, s, k, e):
        """address and length of section e of the numbers k"""
        for k1, e1, o, z in self.secs:
            if k1 == k and izero(s, e1.p - e.p): break
        else:
            n = len(self.secs)
            o, z = (self.ctx.aword(self.ctx.atom("%s(%d)" % (x, n), 0, FMAX, "ghost")) for x in ("start", "length"))
            self.secs.append((k, e, o, z))
        c = c_ge(self.F, self.ctx.add(o, z))
        if ckey(c) not in [ckey(x) for x in s.path if x.op == "ge"]: s.assume(c)
        return o, z

    def get(self, s, f): return s.load(Ptr("obj", self.at["File_" + f]), 8)

    def setf(self, st, f, v): st._cells("obj")[self.at["File_" + f]] = (8, v)

    def same(self, s, a, b):
        if isinstance(a, Word) and isinstance(b, Word): return izero(s, a.p - b.p)
        if isinstance(a, (Ptr, SPtr)) and isinstance(b, (Ptr, SPtr)): return a.r == b.r and izero(s, position(self.ctx, a, 8).p - position(self.ctx, b, 8).p)
        return False

    def mine(self): return [a for d, a in self.im.dem.items() if a in self.m.ins and (d.startswith("BinFileUtils::") or "::" not in d.split("(")[0])]


class Const:
    """An array that nobody changes."""
    def __init__(self, c): self.c = c

    def load(self, s, off, size): return self.c.load(s, off, size)

    def store(self, s, off, size, v): return self.c.store(s, off, size, v)


class Access(FileCase):
    """One method of an open file."""
    def __init__(self, im, what, open_=False):
        super().__init__(im, what + (", a section is open" if open_ else ""))
        self.what, self.open = what, open_
        ctx, m = self.ctx, self.m
        m.add_region("copy", self.F, arr=Const(File(self)))
        self.pos = ctx.input("pos", 0, FMAX)
        self.sid, self.n = ctx.input("id", 0, MASK[32]), ctx.input("position", 0, MASK[32])
        self.len, self.chk = ctx.input("len", 0, FMAX), ctx.input("check", 0, 1)

    def prove(self):
        m, ctx = self.m, self.ctx
        w = self.what
        if w == "endReadSection": args = [self.chk]
        elif w == "read": args = [self.len]
        elif w.startswith("readU"): args = []
        else: args = [self.sid, self.n]
        st = self.boot([Ptr("obj", 0)] + args)
        self.newkey(self.sid)
        self.setf(st, "addr", Ptr("copy", 0)); self.setf(st, "pos", self.pos)
        self.reading = wconst(0)
        if self.open:
            self.O, self.Z = ctx.input("start", 0, FMAX), ctx.input("length", 0, FMAX)
            m.add_region("current", self.ssize)
            st._cells("current")[self.at["Section_start"]] = (8, SPtr("copy", self.O))
            st._cells("current")[self.at["Section_size"]] = (8, self.Z)
            st.assume(c_ge(self.F, ctx.add(self.O, self.Z)))
            self.reading = Ptr("current", 0)
        self.setf(st, "readingSection", self.reading)
        need = {"readU32LE": wconst(4), "readU64LE": wconst(8), "read": self.len}.get(w, wconst(0))
        st.assume(c_ge(self.F, ctx.add(self.pos, need)))
        self.allowed |= {"obj"}
        self.need = need
        f = self.im.find("BinFileUtils::BinFile::%s(" % w)
        return self.run(st, f, [], self.mine()) + self.extra

    def post(self, s):
        ctx, w = self.ctx, self.what
        lo = self.at["File_sections"]
        out = [("the table of sections is left alone", not [1 for o, n in s.written.get("obj", ()) if lo <= o < lo + 48], ""),
               ("the file's address is kept", self.same(s, self.get(s, "addr"), Ptr("copy", 0)), "")]
        thrown = "thrown" in s.aux
        pos, rd = self.get(s, "pos"), self.get(s, "readingSection")
        here = ctx.add(self.pos, Word(-self.O.p, -FMAX, 0)) if self.open else None
        if w == "endReadSection":
            left = c_eq(here, self.Z)
            if thrown: return out + [("only an end before or after the section's end is rejected", self.ok(s, left.negate()) and self.ok(s, c_eq(self.chk, wconst(1))), ""), ("the section stays open", self.same(s, rd, self.reading), "")]
            return out + [("an end elsewhere than at the section's end is rejected", self.ok(s, left) or self.ok(s, c_eq(self.chk, wconst(0))), ""), ("no section is open", self.same(s, rd, wconst(0)), "")]
        if w.startswith("read"):
            out += [("nothing is rejected", not thrown, "")]
            if thrown: return out
            r = s.regs["rax"]
            if w == "read": good = self.same(s, r, self.fileptr(self.pos))
            else: good = isinstance(r, Word) and izero(s, ctx.uview(r, 8 * self.need.p.const()).p - self.byte(s, self.pos, self.need.p.const()).p)
            return out + [("the bytes at the cursor are returned", good, ""), ("the cursor moves past them", self.same(s, pos, ctx.add(self.pos, self.need)), ""), ("the open section is kept", self.same(s, rd, self.reading), "")]
        there = c_ge(ctx.sub(self.keys[0][1], wconst(1)), self.n)
        busy = w == "startReadSection" and self.open
        if thrown:
            out += [("only a section that does not exist is rejected" + (", or a second open one" if w[0] == "s" else ""), busy or self.ok(s, there.negate()), ""),
                    ("a rejected call changes nothing", self.same(s, pos, self.pos) and self.same(s, rd, self.reading), "")]
            return out
        out += [("a section that does not exist is rejected", self.ok(s, there), ""), ("a second open section is rejected", not busy, "")]
        if busy or not self.ok(s, there): return out
        o, z = self.section(s, 0, self.n)
        r = s.regs["rax"]
        if w == "startReadSection":
            return out + [("the cursor is at the section's start", self.same(s, pos, o), ""),
                          ("the section is open", isinstance(rd, (Ptr, SPtr)) and self.section_at(s, rd, o, z), "")]
        out += [("cursor and open section are kept", self.same(s, pos, self.pos) and self.same(s, rd, self.reading), "")]
        if w == "getSectionSize": return out + [("the section's length is returned", self.same(s, r, z), "")]
        return out + [("the section's address is returned", self.same(s, r, self.fileptr(o)), "")]

    def section_at(self, s, p, o, z):
        at = lambda f: s.load(SPtr(p.r, self.ctx.add(position(self.ctx, p, 8), wconst(self.at[f]))), 8)
        if not p.r.startswith("secs"): raise Unsupported("a section kept elsewhere")
        return self.same(s, at("Section_start"), self.fileptr(o)) and self.same(s, at("Section_size"), z)


class Open(FileCase):
    """A constructor, on a well-formed file: sections (number, length, bytes) one after another."""
    whole = False

    def __init__(self, im, image):
        super().__init__(im, "BinFile of %s" % ("an image" if image else "a file"))
        self.image = image
        m, ctx = self.m, self.ctx
        m.add_region("data", self.F, arr=Const(File(self)))
        m.add_region("name", None); m.add_region("type", 32); m.add_region("fname", 32)
        self.max = ctx.input("maxVersion", 0, MASK[32])
        S = im.sym
        for k, f in (("malloc", self.malloc), ("memcpy", self.parcpy), ("mmap", self.mmap), ("mmap64", self.mmap), ("munmap", self.munmap), ("open", self.open_), ("open64", self.open_), ("fstat", self.fstat), ("fstat64", self.fstat),
                     ("close", lambda s: ret(m, s, wconst(0))), ("omp_get_max_threads", lambda s: ret(m, s, ctx.aword(ctx.atom("max", 1, 1 << 16, "fresh"))))):
            if k in S: m.contracts[S[k]] = f
        for d, a in im.dem.items():
            if d.startswith("ThreadUtils::parcpy("): m.contracts[a] = self.parcpy

    # ---- memory and system
    def malloc(self, s):
        n = self.ctx.uview(s.regs["rdi"], 64)
        R = next(r for r in ("heap_f%d" % i for i in range(100)) if "ghost:at:" + r not in s.aux)
        s.aux["ghost:at:" + R] = n
        self.m.add_region(R, n, arr=Arr(R))
        ret(self.m, s, Ptr(R, 0))

    def parcpy(self, s):
        d, p, n = _args(self.m, s, 3)
        if not isinstance(d, Ptr) or not d.r.startswith("heap_f") or not isinstance(p, (Ptr, SPtr)) or p.r != "data": raise Unsupported("a copy that is not of the file")
        n = self.ctx.uview(n, 64)
        if p.r in s.freed: raise Fault("use of a file that is no longer mapped")
        o = position(self.ctx, p, 8)
        if d.o: raise Unsupported("a copy to the middle of a buffer")
        if not self.ok(s, c_ge(self.F, self.ctx.add(o, n))): raise Fault("a copy of bytes beyond the end of the file")
        if not self.ok(s, c_ge(s.aux["ghost:at:" + d.r], n)): raise Fault("a copy beyond the end of the buffer")
        s.aux["arr:" + d.r] = Copied(self, o, n)
        ret(self.m, s, d)

    def open_(self, s):
        if s.regs["rdi"] != Ptr("name", 0): raise Unsupported("another file is opened")
        fl = self.ctx.uview(s.regs["rsi"], 32)
        if not fl.is_const() or fl.p.const() & 3: raise Fault("the file is not opened for reading only")
        fd = self.fd()
        bad = s.decide(c_ge(wconst(-1), fd))
        ret(self.m, s, self.ctx.uview(wconst(-1), 32) if bad else fd)

    def fd(self):
        if "fdw" not in self.__dict__: self.fdw = self.ctx.aword(self.ctx.atom("fd", -1, (1 << 31) - 1, "ghost"))
        return self.fdw

    def is_fd(self, s, w):
        if not izero(s, self.ctx.sview(w, 32).p - self.fd().p): raise Fault("not the file that was opened")

    def fstat(self, s):
        fd, p = _args(self.m, s, 2)
        self.is_fd(s, fd)
        if "fsw" not in self.__dict__: self.fsw = self.ctx.aword(self.ctx.atom("fstat", 0, 1, "ghost"))
        if s.decide(c_eq(self.fsw, wconst(1))): return ret(self.m, s, self.ctx.uview(wconst(-1), 32))
        s.store(Ptr(p.r, p.o + 48), 8, self.F)
        ret(self.m, s, wconst(0))

    def mmap(self, s):
        a, n, prot, flags, fd, off = _args(self.m, s, 6)
        self.is_fd(s, fd)
        if not (off.is_const() and off.p.const() == 0 and izero(s, self.ctx.uview(n, 64).p - self.F.p) and prot.is_const() and prot.p.const() == 1): raise Unsupported("a mapping of a part of the file")
        ret(self.m, s, Ptr("data", 0))

    def munmap(self, s):
        if s.regs["rdi"] != Ptr("data", 0): raise Unsupported("something else is unmapped")
        s.freed.add("data")
        ret(self.m, s, wconst(0))

    # ---- the type
    def compare(self, s, ne):
        t = [self.tag(s, p) for p in _args(self.m, s, 2)]
        if "type" not in t: raise Unsupported("a comparison of strings")
        b = t[1 - t.index("type")]
        if not isinstance(b, tuple): raise Unsupported("a comparison of strings")
        _, r, o, n = b
        c = s.aux.get("arr:" + r)
        if r != "data" and not isinstance(c, Copied): raise Unsupported("a comparison of strings")
        if o != 0 or n != 4 or c is not None and not izero(s, c.d.p): raise Fault("the type is not the first four bytes of the file")
        same = s.decide(c_eq(self.match(), wconst(1)))
        ret(self.m, s, wconst(1 if same != ne else 0))

    def match(self):
        if "matchw" not in self.__dict__: self.matchw = self.ctx.aword(self.ctx.atom("the type matches", 0, 1, "ghost"))
        return self.matchw

    # ---- the table
    def gmap(self, s): return s.aux["ghost:map"]

    def present(self, s, i):
        base, log, made = self.gmap(s)
        if i in made or any(i == k for k, _, _ in log): return True
        return s.decide(c_eq(self.keys[i][2], wconst(1)))

    def make(self, s, i):
        base, log, made = self.gmap(s)
        if i not in made: s.aux["ghost:map"] = (base, log, made + (i,))

    def m_index(self, s):
        i = self.key(s, s.regs["rsi"])
        self.make(s, i)
        ret(self.m, s, Ptr("node%d" % i, 40))

    def m_insert(self, s):
        q = s.regs["rsi"]
        if not isinstance(q, Ptr): raise Unsupported("an insertion that is not understood")
        i = self.key(s, q)
        v = s.load(Ptr(q.r, q.o + 8), 8)
        if not (isinstance(v, Word) and v.is_const() and v.p.const() == 0): raise Unsupported("a list of sections is inserted")
        self.make(s, i)
        ret(self.m, s, Ptr("node%d" % i, 0))

    def push(self, s, v, a, n):
        g = re.match(r"node(\d+)$", v.r) if isinstance(v, Ptr) else None
        if g is None or v.o != 40: raise Unsupported("a section is added to another list")
        base, log, made = self.gmap(s)
        s.aux["ghost:map"] = (base, log + ((int(g.group(1)), a, n),), made)
        ret(self.m, s, None)

    def v_push(self, s):
        v, p = _args(self.m, s, 2)
        self.push(s, v, s.load(Ptr(p.r, p.o + self.at["Section_start"]), 8), s.load(Ptr(p.r, p.o + self.at["Section_size"]), 8))

    def v_emplace(self, s):
        v, a, n = _args(self.m, s, 3)
        if not isinstance(a, Ptr) or not isinstance(n, Ptr): raise Unsupported("a section made in a way that is not understood")
        self.push(s, v, s.load(a, 8), s.load(n, 8))

    def prove(self):
        m, ctx = self.m, self.ctx
        args = [Ptr("data", 0), self.F, Ptr("type", 0), self.max] if self.image else [Ptr("fname", 0), Ptr("type", 0), self.max]
        st = self.boot([Ptr("obj", 0)] + args)
        st.aux["ghost:str"] = {("type", 0): "type", ("fname", 0): "name"}
        st.aux["ghost:map"] = (wconst(0), (), ())
        st.assume(c_ge(self.F, wconst(12)))
        self.version, self.count = self.byte(st, wconst(4), 4), ctx.input("sections", 0, (1 << 31) - 1)
        self.bytes.append((wconst(8), 4, self.count))
        first = ctx.add(wconst(24), self.byte(st, wconst(16), 8))
        st.assume(c_or(c_ge(wconst(0), self.count), c_ge(self.F, first)))
        self.allowed |= {"obj"}
        f = self.im.find("BinFileUtils::BinFile::BinFile(%s" % ("void*" if self.image else "std::__cxx11::basic_string"))
        return self.run(st, f, [self.spec], [f] + self.mine()) + self.extra

    def spec(self, L, pr):
        for step in (1, -1):
            for k in counters(pr, step, (1, 2, 4, 8)): yield Table(self, pr.E, k, step)

    def post(self, s):
        bad = [c_eq(self.match(), wconst(0)), c_ge(self.version, self.ctx.add(self.max, wconst(1)))]
        if not self.image: io = [c_ge(wconst(-1), self.fd()), c_eq(self.fsw, wconst(1)) if "fsw" in self.__dict__ else FALSE]
        else: io = []
        if "thrown" in s.aux: return [("only another type, a newer version or a file that cannot be opened is rejected", any(self.ok(s, c) for c in bad + io), "")]
        addr = self.get(s, "addr")
        good = isinstance(addr, Ptr) and addr.o == 0 and addr.r not in s.freed
        c = s.aux.get("arr:" + addr.r) if good else None
        base, log, made = self.gmap(s)
        return [("another type is rejected", self.ok(s, bad[0].negate()), ""), ("a newer version is rejected", self.ok(s, bad[1].negate()), ""),
                ("a file that cannot be opened is rejected", all(self.ok(s, x.negate()) for x in io), ""),
                ("the object holds the whole file", isinstance(c, Copied) and izero(s, c.d.p) and izero(s, c.n.p - self.F.p), ""),
                ("every section is in the table, in order", izero(s, base.p - self.count.p) and not log and not made, ""),
                ("no section is open", self.same(s, self.get(s, "readingSection"), wconst(0)), "")]


class Table(Binding):
    """The first i sections are in the table, in order; the cursor is at the next one."""
    name = "sections so far"

    def __init__(self, case, E, k, step):
        self.c, self.step = case, step
        self.cnt = Counted(k, step, wconst(0), case.count, E)
        self.id = k
        self.buf = case.get(E, "addr")

    def where(self, s): return self.c.get(s, "pos")

    def after(self, s, P):
        ctx = self.c.ctx
        return ctx.add(ctx.add(P, wconst(12)), self.c.byte(s, ctx.add(P, wconst(4)), 8))

    def general(self, g):
        c, ctx = self.c, self.c.ctx
        v = self.cnt.fresh_counter(g)
        i = v if self.step == 1 else ctx.sub(c.count, v)
        P = ctx.aword(ctx.atom("place", 12, FMAX, "fresh"))
        out = []
        for more in (True, False):
            s = g.copy()
            self.cnt.set_counter(s, v)
            s.assume(c_ge(ctx.sub(c.count, i), wconst(1)) if more else c_ge(i, c.count))
            if ctx.unsat(s.path): continue
            c.setf(s, "pos", P)
            s.assume(c_ge(c.F, P))
            if more: s.assume(c_ge(c.F, self.after(s, P)))
            s.aux["ghost:map"] = (i, (), ())
            s.aux["ghost:place"] = P
            out.append(s)
        return out

    def check(self, s, g):
        c, ctx = self.c, self.c.ctx
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        if i is None: return out
        if self.step == -1: i = ctx.sub(c.count, i)
        base, log, made = c.gmap(s)
        pos = self.where(s)
        if not isinstance(pos, Word): return out + [("the cursor is a number", False, "")]
        if g is None or "ghost:place" not in g.aux or base is c.gmap(g)[0] and not log and izero(s, i.p - base.p):
            return out + [("the cursor is at the next section", izero(s, pos.p - 12) if izero(s, i.p) else False, ""), ("the table holds the sections so far", izero(s, base.p - i.p) and not log and not made, "")]
        P = g.aux["ghost:place"]
        one = len(log) == 1
        if one:
            k, a, n = log[0]
            T = c.byte(s, P, 4)
            one = izero(s, c.keys[k][0].p - T.p) and isinstance(a, (Ptr, SPtr)) and isinstance(self.buf, Ptr) and a.r == self.buf.r and izero(s, position(ctx, a, 8).p - P.p - 12) and isinstance(n, Word) and izero(s, n.p - self.after(s, P).p + P.p + 12)
            one = one and all(x == k for x in made)
        return out + [("the cursor is at the next section", izero(s, pos.p - self.after(s, P).p), ""), ("one section is added: its number, address and length", bool(one) and izero(s, i.p - base.p - 1), "")]


class OpenExisting(BinCase):
    """openExisting hands its arguments to the constructor."""
    def __init__(self, im): super().__init__(im, "openExisting")

    def made(self, s):
        o, f, t, v = _args(self.m, s, 4)
        good = isinstance(o, Ptr) and o.r.startswith("heap") and o.o == 0 and self.tag(s, f) == "name" and self.tag(s, t) == "type" and izero(s, self.ctx.uview(v, 32).p - self.max.p)
        self.extra.append(("the file is opened by its name, type and version", good, "", s.copy()))
        s.aux["ghost:made"] = o
        ret(self.m, s, None)

    def prove(self):
        m, im = self.m, self.im
        self.max = self.ctx.input("maxVersion", 0, MASK[32])
        for n, k in (("r", 8), ("type", 32), ("fname", 32)): m.add_region(n, k)
        m.contracts[im.find("BinFileUtils::BinFile::BinFile(std::__cxx11::basic_string")] = self.made
        st = self.boot([Ptr("r", 0), Ptr("fname", 0), Ptr("type", 0), self.max])
        st.aux["ghost:str"] = {("type", 0): "type", ("fname", 0): "name"}
        self.allowed |= {"r"}
        f = im.find("BinFileUtils::openExisting(")
        return self.run(st, f, [], [f]) + self.extra

    def post(self, s): return [("the opened file is returned", "ghost:made" in s.aux and s.load(Ptr("r", 0), 8) == s.aux["ghost:made"], "")]


def case(im, k):
    return dict(existing=lambda: OpenExisting(im), zkey=lambda: HeaderCase(im, "Zkey"), wtns=lambda: HeaderCase(im, "Wtns"),
                image=lambda: Open(im, True), file=lambda: Open(im, False), start=lambda: Access(im, "startReadSection"), start2=lambda: Access(im, "startReadSection", True), end=lambda: Access(im, "endReadSection", True),
                data=lambda: Access(im, "getSectionData", True), size=lambda: Access(im, "getSectionSize", True), u32=lambda: Access(im, "readU32LE", True), u64=lambda: Access(im, "readU64LE", True), read=lambda: Access(im, "read", True))[k]()


JOBS = dict(B01=["image", "file", "existing", "start", "start2", "end", "data", "size", "u32", "u64", "read"], B02=["zkey", "wtns"])
