"""Minimal ELF64 reader: sections, symbols, RELA relocations (enough for linked x86-64 images and AArch64 objects)."""
import struct


class Elf:
    def __init__(self, path):
        self.path = path
        b = self.b = open(path, "rb").read()
        assert b[:4] == b"\x7fELF" and b[4] == 2
        self.etype, self.machine = struct.unpack_from("<HH", b, 16)
        shoff, = struct.unpack_from("<Q", b, 40)
        shentsize, shnum, shstr = struct.unpack_from("<HHH", b, 58)
        S = []
        for i in range(shnum):
            S.append(list(struct.unpack_from("<IIQQQQIIQQ", b, shoff + i * shentsize)))
        so = S[shstr][4]
        self.sections = []   # (name, type, addr, data, size)
        for s in S:
            e = b.index(b"\0", so + s[0])
            self.sections.append(dict(name=b[so + s[0]:e].decode(), type=s[1], flags=s[2], addr=s[3], off=s[4], size=s[5], link=s[6], info=s[7],
                                      data=bytearray(b[s[4]:s[4] + s[5]]) if s[1] != 8 else bytearray(s[5])))
        if self.etype == 1:      # relocatable: give every allocated section an address of its own
            a = 0x400000
            for s in self.sections:
                if s["flags"] & 2:
                    s["addr"] = a
                    a = (a + s["size"] + 0xffff) & ~0xffff
        self.symbols, self.undef = {}, set()
        self.symlist = []
        for s in self.sections:
            if s["type"] != 2: continue
            st = self.sections[s["link"]]
            for i in range(s["size"] // 24):
                nm, info, oth, shndx, val, size = struct.unpack_from("<IBBHQQ", b, s["off"] + 24 * i)
                e = bytes(st["data"]).index(b"\0", nm)
                name = bytes(st["data"][nm:e]).decode()
                if shndx == 0:
                    if name: self.undef.add(name)
                    self.symlist.append((name, None)); continue
                v = val
                if shndx < len(self.sections) and self.etype == 1: v += self.sections[shndx]["addr"]
                if shndx < 0xff00 and (info & 15) == 3: name = name or self.sections[shndx]["name"]
                self.symlist.append((name, v))
                if name and shndx < 0xff00 and (info & 15) != 3:
                    if name not in self.symbols or (info >> 4) == 1: self.symbols[name] = v
        self.relocs = []
        if self.etype == 1:
            for s in self.sections:
                if s["type"] != 4: continue
                tgt = self.sections[s["info"]]
                for i in range(s["size"] // 24):
                    off, inf, add = struct.unpack_from("<QQq", b, s["off"] + 24 * i)
                    sym = self.symlist[inf >> 32]
                    ty = inf & 0xffffffff
                    self.relocs.append((tgt, off, ty, sym, add))
                    if self.machine == 183 and ty == 257 and sym[1] is not None:   # R_AARCH64_ABS64
                        struct.pack_into("<Q", tgt["data"], off, (sym[1] + add) & ((1 << 64) - 1))

    def section_at(self, addr):
        for s in self.sections:
            if s["flags"] & 2 and s["addr"] <= addr < s["addr"] + s["size"]: return s
        return None

    def read(self, addr, n):
        s = self.section_at(addr)
        if s is None: return None
        o = addr - s["addr"]
        d = bytes(s["data"][o:o + n])
        return d if len(d) == n else None

    def writable(self, addr):
        s = self.section_at(addr)
        return bool(s and s["flags"] & 1)
