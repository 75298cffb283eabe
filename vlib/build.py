"""Builds what a check needs from the working tree of the repository, in a scratch directory of its own."""
import os, subprocess, tempfile, shutil, atexit, sys, hashlib
from .elf import Elf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FFIASM_REPO", "/repo")
PRIMES = {
    "bn128r": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    "bn128q": 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    "bls381q": 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab,
    "bls381r": 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001,
    "secp256k1q": 2**256 - 2**32 - 977,
    "secp256k1r": 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141,
    "goldilocks": 2**64 - 2**32 + 1,
    "p63": 0x7fffffffffffffe7,
    "p255": 2**255 - 19,
    "mnt6753q": 41898490967918953402344214791240637128170709919953949071783502921025352812571106773058893763790338921418070971888253786114353726529584385201591605722013126468931404347949840543007986327743462853720628051692141265303114721689601,
}
_tmp = None


class BuildError(Exception):
    """The working tree does not build: undecided."""


def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="ffiasm-verif-")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def run(cmd, cwd=None, env=None, timeout=300):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
    if r.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), (r.stderr or r.stdout)[-1500:]))
    return r.stdout


_rendered = {}


def render(prime, name="Fr"):
    """Render the field templates for a prime (decimal or key of PRIMES) -> directory."""
    k = (prime, name)
    if k not in _rendered:
        d = os.path.join(scratch(), "r_%s_%s" % (prime, name))
        q = PRIMES.get(prime, prime)
        run(["node", os.path.join(VERIF, "render.js"), REPO, str(q), name, d])
        _rendered[k] = d
    return _rendered[k]


def link(objs, out, extra_undef=()):
    """Link relocatable objects into a static image; every undefined symbol becomes a stub that traps."""
    d = os.path.dirname(out)
    defined, undef = set(), set()
    for o in objs:
        e = Elf(o)
        defined |= set(e.symbols)
        undef |= e.undef
    undef -= defined
    st = out + ".stub.s"
    with open(st, "w") as f:
        f.write('.section extstub,"ax",@progbits\n')
        for u in sorted(undef):
            f.write('.globl "%s"\n.type "%s",@function\n"%s": ud2\n.byte 0x0f,0x1f,0x40,0x00\n' % (u, u, u))
        f.write('.section .note.GNU-stack,"",@progbits\n')
    run(["as", st, "-o", out + ".stub.o"])
    run(["ld", "-static", "-o", out, "-e", "0", "-z", "noexecstack", "--no-eh-frame-hdr", "--allow-multiple-definition"] + list(objs) + [out + ".stub.o"])
    return out


CXX0 = ["g++", "-w", "-std=c++11", "-O0", "-fno-pic", "-fno-pie", "-mno-red-zone", "-mgeneral-regs-only", "-fno-stack-protector", "-fcf-protection=none", "-fno-asynchronous-unwind-tables"]


def asm_image(d):
    """The x86-64 assembly of a rendered field, linked at a fixed address."""
    out = os.path.join(d, "asm.img")
    if not os.path.exists(out):
        run(["nasm", "-felf64", "fr.asm", "-o", "fr_asm.o"], cwd=d)
        link([os.path.join(d, "fr_asm.o")], out)
    return out


def generic_image(d):
    out = os.path.join(d, "gen.img")
    if not os.path.exists(out):
        for f in ("fr_generic", "fr_raw_generic"):
            run(CXX0 + ["-c", f + ".cpp", "-o", f + ".o0.o", "-I."], cwd=d)
        link([os.path.join(d, "fr_generic.o0.o"), os.path.join(d, "fr_raw_generic.o0.o")], out)
    return out


def arm_object(d):
    out = os.path.join(d, "arm.o")
    if not os.path.exists(out):
        run(["clang", "--target=aarch64-linux-gnu", "-c", "fr_raw_arm64.s", "-o", out], cwd=d)
    return out


def native(d, kind):
    """Shared library of a rendered field for replays: kind 'gen' or 'asm'."""
    out = os.path.join(d, "lib%s.so" % kind)
    if not os.path.exists(out):
        sh = os.path.join(VERIF, "harness", "field_shim.cpp")
        if kind == "gen":
            run(["g++", "-w", "-std=c++11", "-O1", "-fPIC", "-shared", "-o", out, "fr.cpp", "fr_generic.cpp", "fr_raw_generic.cpp", sh, "-I.", "-lgmp"], cwd=d)
        else:
            run(["nasm", "-felf64", "fr.asm", "-o", "fr_asm.o"], cwd=d)
            run(["g++", "-w", "-std=c++11", "-O1", "-fPIC", "-shared", "-DUSE_ASM", "-DARCH_X86_64", "-o", out, "fr.cpp", sh, "fr_asm.o", "-I.", "-lgmp",
                 "-Wl,-Bsymbolic", "-Wl,-z,notext"], cwd=d)
    return out


def cleanup():
    if _tmp is not None: shutil.rmtree(_tmp, ignore_errors=True)
