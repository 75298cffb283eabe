// conc_bin <scratch dir> <seed> <rounds> <big>: sectioned files and images against a model; then the two header loaders
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <stdexcept>
#include <system_error>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "binfile_utils.hpp"
#include "zkey_utils.hpp"
#include "wtns_utils.hpp"
using std::string; using std::vector; using namespace BinFileUtils;
typedef vector<uint8_t> Bytes;
static long count = 0; static uint64_t st; static uint64_t rnd(uint64_t n) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return n ? (st * 0x2545F4914F6CDD1Dull >> 8) % n : 0; }
static string hist; static string hex(const Bytes &b) { string s; char t[3]; for (size_t i = 0; i < b.size() && i < 900; i++) { sprintf(t, "%02x", b[i]); s += t; } return s; }
static Bytes img; static string kind;
static void fail(const string &what) { printf("FAIL {\"observed\": \"%s\", \"opened_from\": \"%s\", \"history\": \"%s\", \"image_size\": %zu, \"image\": \"%s\"}\nCOUNT %ld\n", what.c_str(), kind.c_str(), hist.c_str(), img.size(), hex(img).c_str(), count); fflush(stdout); _exit(0); }
// a section whose body is sparse: only the listed positions are non-zero
static uint64_t bigSize = 0; static vector<uint64_t> bigAt;
namespace ThreadUtils { void parcpy(void *d, const void *s, uint64_t n, int) { if (n > (1ull << 31)) { for (uint64_t a : bigAt) if (a + 4096 <= n) memcpy((char *)d + a, (const char *)s + a, 4096); } else memcpy(d, s, n); } }
extern "C" void *verif_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { if (n > (1ull << 31)) fl &= ~MAP_POPULATE; return mmap(a, n, pr, fl, fd, o); }
static void u32(Bytes &b, uint32_t v) { for (int i = 0; i < 4; i++) b.push_back(v >> 8 * i); } static void u64(Bytes &b, uint64_t v) { for (int i = 0; i < 8; i++) b.push_back(v >> 8 * i); }
template <class F> static bool rejects(F f) { try { f(); return false; } catch (std::exception *e) { delete e; return true; } catch (...) { return true; } }
struct Sec { uint32_t id; Bytes body; };
static BinFile *open_(const string &dir, bool file, const string &type, uint32_t maxv) {
    if (!file) { static vector<Bytes> keep(64); static int k; Bytes &b = keep[k++ % 64]; b = img; return new BinFile(b.data(), b.size(), type, maxv); }
    string p = dir + "/f.bin"; FILE *f = fopen(p.c_str(), "wb"); fwrite(img.data(), 1, img.size(), f); fclose(f);
    if (rnd(2)) return new BinFile(p, type, maxv); return openExisting(p, type, maxv).release();
}
static void image(const string &type, uint32_t version, const vector<Sec> &s) { img.clear(); for (char c : type) img.push_back(c); u32(img, version); u32(img, s.size()); for (auto &x : s) { u32(img, x.id); u64(img, x.body.size()); img.insert(img.end(), x.body.begin(), x.body.end()); } }
static void history(BinFile *f, const vector<Sec> &secs, int steps) {
    std::map<uint32_t, vector<const Bytes *>> m; for (auto &s : secs) m[s.id].push_back(&s.body);
    const Bytes *openS = 0; size_t pos = 0; char t[160];
    for (int i = 0; i < steps; i++) {
        uint32_t id = rnd(4) && secs.size() ? secs[rnd(secs.size())].id : rnd(3) ? rnd(6) : (uint32_t)rnd(1ull << 32); size_t have = m.count(id) ? m[id].size() : 0; uint32_t rep = rnd(5) ? rnd(have + 1) : rnd(4) ? rnd(4) : (uint32_t)rnd(1ull << 32); bool ok = rep < have;
        switch (rnd(9)) {
        case 0: case 1: { sprintf(t, "start(%u,%u) ", id, rep); hist += t; count++; bool r = rejects([&] { if (rep == 0 && i % 2) f->startReadSection(id); else f->startReadSection(id, rep); }); if (r != (!ok || openS)) fail(r ? "a valid start is rejected" : "an invalid start is accepted"); if (!r) { openS = m[id][rep]; pos = 0; } break; }
        case 2: { if (!openS) break; bool exact = pos == openS->size(); int c = rnd(3); sprintf(t, "end(%s) ", c ? "check" : "nocheck"); hist += t; count++; bool r = rejects([&] { if (c == 2) f->endReadSection(); else f->endReadSection(c == 1); }); if (r != (c && !exact)) fail(r ? "a section read to its end cannot be ended" : "ending a section not read to its end is accepted"); if (r) { f->endReadSection(false); } openS = 0; break; }
        case 3: { sprintf(t, "data(%u,%u) ", id, rep); hist += t; count++; void *p = 0; bool r = rejects([&] { p = rep == 0 && i % 2 ? f->getSectionData(id) : f->getSectionData(id, rep); }); if (r == ok) fail(ok ? "section data of a stored section is rejected" : "section data of a missing section is accepted"); if (ok && memcmp(p, m[id][rep]->data(), m[id][rep]->size())) fail("section data differs"); break; }
        case 4: { sprintf(t, "size(%u,%u) ", id, rep); hist += t; count++; uint64_t n = 0; bool r = rejects([&] { n = rep == 0 && i % 2 ? f->getSectionSize(id) : f->getSectionSize(id, rep); }); if (r == ok) fail(ok ? "section size of a stored section is rejected" : "section size of a missing section is accepted"); if (ok && n != m[id][rep]->size()) fail("section size is " + std::to_string(n) + ", stored " + std::to_string(m[id][rep]->size())); break; }
        default: {
            if (!openS) break; size_t left = openS->size() - pos; const uint8_t *b = openS->data() + pos; int k = rnd(4); count++;
            if (k == 0 && left >= 4) { hist += "u32 "; uint32_t v = f->readU32LE(), w; memcpy(&w, b, 4); if (v != w) fail("readU32LE differs"); pos += 4; }
            else if (k == 1 && left >= 8) { hist += "u64 "; uint64_t v = f->readU64LE(), w; memcpy(&w, b, 8); if (v != w) fail("readU64LE differs"); pos += 8; }
            else { size_t n = rnd(3) ? left : rnd(left + 1); sprintf(t, "read(%zu) ", n); hist += t; void *p = f->read(n); if (memcmp(p, b, n)) fail("read differs"); pos += n; }
        } }
    }
}
static Bytes body(size_t n) { Bytes b(n); for (auto &x : b) x = rnd(8) ? rnd(256) : 255; return b; }
static void files(const string &dir, int rounds) {
    for (int r = 0; r < rounds; r++) {
        vector<Sec> s; int n = rnd(9) ? rnd(7) : rnd(60); for (int i = 0; i < n; i++) { Sec x; x.id = rnd(3) ? rnd(5) : rnd(2) ? (uint32_t)rnd(1ull << 32) : 0x80000000u + rnd(3); x.body = body(rnd(5) == 0 ? 0 : rnd(20) == 0 ? rnd(5000) : rnd(40)); s.push_back(x); }
        static const char *T[] = {"zkey", "wtns", "r1cs", "abcd", "\x01\xff" "aZ"}; string type = T[rnd(5)]; uint32_t v = rnd(3) ? rnd(4) : (uint32_t)rnd(1ull << 32), mv = rnd(2) ? v : rnd(2) ? rnd(5) : v + (uint32_t)rnd(3) - 1;
        image(type, v, s); bool file = rnd(3) == 0; kind = file ? "file" : "memory"; hist.clear();
        string want = type; if (rnd(6) == 0) { int k = rnd(4); want[k] ^= 1 << rnd(7); if (rnd(3) == 0) want = T[rnd(5)]; }
        BinFile *f = 0; char t[120]; sprintf(t, "open(version %u, maximum %u, type %s, asked for %s) ", v, mv, type == T[4] ? "?" : type.c_str(), type == T[4] ? "?" : want.c_str()); hist = want == type || type != T[4] ? t : "open "; for (auto &c : hist) if (c < 32 || c == '"' || c == '\\' || c == 127) c = '?';
        bool rej = rejects([&] { f = open_(dir, file, want, mv); }); count++;
        bool bad = want != type || v > mv; if (rej != bad) fail(rej ? "a well-formed file is rejected" : "a file of another type or a newer version is accepted");
        if (f) { history(f, s, 60); delete f; }
    }
}
static void big(const string &dir, bool file) {       // a section of more than 4 GiB between two small ones
    uint64_t n = (1ull << 32) + 4096 * 5 + 12; kind = file ? "file" : "memory"; hist = "sections 1 (8 bytes), 2 (" + std::to_string(n) + " bytes, zero), 3 (16 bytes)"; Bytes a = body(8), c = body(16); img.clear();
    Bytes h; for (char ch : string("zkey")) h.push_back(ch); u32(h, 1); u32(h, 3); u32(h, 1); u64(h, 8); h.insert(h.end(), a.begin(), a.end()); u32(h, 2); u64(h, n); Bytes tail; u32(tail, 3); u64(tail, 16); tail.insert(tail.end(), c.begin(), c.end());
    uint64_t total = h.size() + n + tail.size(); bigAt = {0, (h.size() + n) / 4096 * 4096 - 4096, total - 4096}; BinFile *f;
    if (file) { string p = dir + "/big.bin"; int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, total) || pwrite(fd, h.data(), h.size(), 0) != (ssize_t)h.size() || pwrite(fd, tail.data(), tail.size(), h.size() + n) != (ssize_t)tail.size()) { unlink(p.c_str()); return; } close(fd); f = new BinFile(p, "zkey", 1); unlink(p.c_str()); }
    else { char *m = (char *)mmap(0, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) return; memcpy(m, h.data(), h.size()); memcpy(m + h.size() + n, tail.data(), tail.size()); f = new BinFile(m, total, "zkey", 1); munmap(m, total); }
    count += 4; bool e = rejects([&] {
        if (f->getSectionSize(2) != n) fail("size of a section of more than 4 GiB is " + std::to_string(f->getSectionSize(2)));
        if (f->getSectionSize(3) != 16 || memcmp(f->getSectionData(3), c.data(), 16)) fail("section behind one of more than 4 GiB");
        f->startReadSection(3); void *p = f->read(16); if (memcmp(p, c.data(), 16)) fail("section behind one of more than 4 GiB"); f->endReadSection();
        f->startReadSection(2); f->read(n); f->endReadSection(); f->startReadSection(1); if (memcmp(f->read(8), a.data(), 8)) fail("section 1"); f->endReadSection(); });
    if (e) fail("rejected"); delete f;
}
static Bytes prime(size_t n) { Bytes b = body(n); if (n) { b[0] |= 1; if (rnd(3) == 0) b[n - 1] = 0; if (rnd(3) == 0) b[n - 1] = 255; } return b; }
static void app(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
static bool same(mpz_t z, const Bytes &b) { mpz_t w; mpz_init(w); mpz_import(w, b.size(), -1, 1, 0, 0, b.data()); bool r = mpz_cmp(z, w) == 0; mpz_clear(w); return r; }
static void headers(const string &dir, int rounds) {
    for (int r = 0; r < rounds; r++) {
        bool file = rnd(5) == 0; kind = file ? "file" : "memory"; count++;
        uint32_t q = rnd(3) ? 8 * (1 + rnd(8)) : 1 + rnd(100), n = rnd(3) ? 8 * (1 + rnd(8)) : 1 + rnd(100), vars = rnd(1ull << 32), pub = rnd(1ull << 32), dom = rnd(2) ? 1u << rnd(32) : (uint32_t)rnd(1ull << 32); uint32_t proto = rnd(5) ? 1 : rnd(2) ? rnd(5) : rnd(2) ? 257 : (uint32_t)rnd(1ull << 32);
        Bytes P = prime(q), R = prime(n), pt[6]; int w[6] = {2, 2, 4, 4, 2, 4}; Sec s1, s2, s4; s1.id = 1; u32(s1.body, proto); s2.id = 2; u32(s2.body, q); app(s2.body, P); u32(s2.body, n); app(s2.body, R); u32(s2.body, vars); u32(s2.body, pub); u32(s2.body, dom);
        for (int i = 0; i < 6; i++) { pt[i] = body(q * w[i]); app(s2.body, pt[i]); } uint64_t nc = rnd(40); s4.id = 4; u32(s4.body, nc); app(s4.body, body(nc * (12 + n)));
        vector<Sec> s = {s1, s2, s4}; if (rnd(2)) { Sec x; x.id = 3; x.body = body(rnd(30)); s.push_back(x); } for (size_t i = s.size(); i-- > 1;) std::swap(s[i], s[rnd(i + 1)]);
        image("zkey", 1, s); char t[200]; sprintf(t, "zkey header: protocol %u, n8q %u, n8r %u, nVars %u, nPublic %u, domain %u, %lu coefficients ", proto, q, n, vars, pub, dom, (unsigned long)nc); hist = t;
        BinFile *f = open_(dir, file, "zkey", 1); std::unique_ptr<ZKeyUtils::Header> h; bool rej = rejects([&] { h = ZKeyUtils::loadHeader(f); });
        if (rej != (proto != 1)) fail(rej ? "a header of the supported protocol is rejected" : "another protocol is accepted");
        if (!rej) {
            if (h->n8q != q || h->n8r != n || h->nVars != vars || h->nPublic != pub || h->domainSize != dom) fail("a number of the header differs"); if (!same(h->qPrime, P) || !same(h->rPrime, R)) fail("a prime of the header differs");
            if (h->nCoefs != nc) fail("nCoefs is " + std::to_string(h->nCoefs)); void *g[6] = {h->vk_alpha1, h->vk_beta1, h->vk_beta2, h->vk_gamma2, h->vk_delta1, h->vk_delta2}; for (int i = 0; i < 6; i++) if (memcmp(g[i], pt[i].data(), pt[i].size())) fail("key point " + std::to_string(i) + " differs");
            count++; if (rejects([&] { f->startReadSection(4); f->endReadSection(false); })) fail("the file is left with an open section");
        }
        h.reset(); delete f;
        Sec a; a.id = 1; u32(a.body, n); app(a.body, R); u32(a.body, vars); Sec b; b.id = 2; b.body = body(rnd(64)); s = {a, b}; if (rnd(2)) std::swap(s[0], s[1]); image("wtns", 2, s); sprintf(t, "wtns header: n8 %u, nVars %u ", n, vars); hist = t; count++;
        f = open_(dir, file, "wtns", 2); std::unique_ptr<WtnsUtils::Header> wh; if (rejects([&] { wh = WtnsUtils::loadHeader(f); })) fail("a witness header is rejected"); if (wh->n8 != n || wh->nVars != vars || !same(wh->prime, R)) fail("a field of the witness header differs");
        if (rejects([&] { f->startReadSection(2); })) fail("the file is left with an open section"); wh.reset(); delete f;
    }
}
int main(int argc, char **argv) { setvbuf(stdout, 0, _IOFBF, 1 << 16);
    string dir = argv[1], mode = argv[2]; st = atoll(argv[3]) * 86028121 + 99; int rounds = atoi(argv[4]);
    if (mode == "files") files(dir, rounds); if (mode == "big") { big(dir, false); big(dir, true); } if (mode == "headers") headers(dir, rounds);
    printf("COUNT %ld\n", count); fflush(stdout); _exit(0);
}
