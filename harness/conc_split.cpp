// conc_split <alphabet> <maxlen> | rand <seed> <rounds>: every balanced text over an alphabet up to a length against the definition
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include "splitparstr.hpp"
using std::string; using std::vector;
static long count = 0; static char *cur;
static string esc(const string &s) { string r; char t[8]; for (unsigned char c : s) if (c < 32 || c > 126 || c == '"' || c == '\\') { sprintf(t, "\\u%04x", c); r += t; } else r += c; return r; }
static string arr(const vector<string> &v) { string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? ", \"" : "\"") + esc(v[i]) + "\""; return r + "]"; }
static void strip(string &s) {   // every pair of parentheses that encloses the whole text
    for (;;) { size_t n = s.size(); if (n < 2 || s[0] != '(' || s[n - 1] != ')') return; int d = 0; for (size_t i = 0; i < n; i++) { d += s[i] == '(' ? 1 : s[i] == ')' ? -1 : 0; if (!d && i + 1 < n) return; } s = s.substr(1, n - 2); }
}
static vector<string> want(const string &t) {
    string s; for (char c : t) if (!isspace((unsigned char)c)) s += c; strip(s);
    vector<string> r(1); int d = 0;
    for (char c : s) { if (c == ',' && !d) { r.push_back(""); continue; } d += c == '(' ? 1 : c == ')' ? -1 : 0; r.back() += c; }
    for (auto &x : r) strip(x); return r;
}
static bool balanced(const string &s) { int d = 0; for (char c : s) { d += c == '(' ? 1 : c == ')' ? -1 : 0; if (d < 0) return false; } return d == 0; }
static void onalarm(int) { printf("FAIL {\"text\": \"%s\", \"observed\": \"no answer within 10 s\", \"want\": %s}\nCOUNT %ld\n", esc(cur).c_str(), arr(want(cur)).c_str(), count); fflush(stdout); _exit(0); }
static void oncrash(int g) { printf("FAIL {\"text\": \"%s\", \"observed\": \"signal %d\", \"want\": %s}\nCOUNT %ld\n", esc(cur).c_str(), g, arr(want(cur)).c_str(), count); fflush(stdout); _exit(0); }
static void check(const string &t) {
    if (!balanced(t)) return;
    if (t.size() < 4000) strcpy(cur, t.c_str()); if (count++ % 65536 == 0) alarm(30);
    vector<string> g, w = want(t);
    try { g = splitParStr(t); } catch (...) { printf("FAIL {\"text\": \"%s\", \"observed\": \"an exception\", \"want\": %s}\nCOUNT %ld\n", esc(t).c_str(), arr(w).c_str(), count); fflush(stdout); _exit(0); }
    if (g != w) { printf("FAIL {\"text\": \"%s\", \"got\": %s, \"want\": %s}\nCOUNT %ld\n", esc(t).c_str(), arr(g).c_str(), arr(w).c_str(), count); fflush(stdout); _exit(0); }
}
static void all(const string &al, string &s, size_t left, int depth) {
    if (!depth) check(s);
    if (!left) return;
    for (char c : al) { int d = depth + (c == '(' ? 1 : c == ')' ? -1 : 0); if (d < 0 || (size_t)d > left - 1) continue; s += c; all(al, s, left - 1, d); s.pop_back(); }
}
static uint64_t st; static uint64_t rnd(uint64_t n) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (st * 0x2545F4914F6CDD1Dull >> 20) % n; }
static string ws() { static const char W[] = " \t\n\r\v\f"; string r; while (rnd(6) == 0) r += W[rnd(6)]; return r; }
static string gen(int d) {
    string r = ws(); int m = rnd(d > 0 ? 7 : 2);
    if (m == 0) return r;
    if (m == 1) { static const char *L[] = {"0", "1", "12345678901234567890", "-7", "abc", "0x1F", "\\", "[", "]", "{}", "\"", "'", ".", ";", "a b", "+", "\xc3\xa9"}; return r + L[rnd(17)] + ws(); }
    if (m == 2) return r + gen(d - 1) + gen(d - 1);
    if (m == 3) return r + gen(d - 1) + "," + gen(d - 1);
    int n = 1 + rnd(4); r += "("; for (int i = 0; i < n; i++) r += (i ? "," : "") + gen(d - 1); return r + ")" + ws();
}
int main(int argc, char **argv) {
    cur = (char *)calloc(8192, 1); signal(SIGALRM, onalarm);
    static char stack[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = oncrash; sa.sa_flags = SA_ONSTACK; for (int g : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE}) sigaction(g, &sa, 0);
    if (string(argv[1]) == "rand") { st = atoll(argv[2]) * 32452843 + 17; long n = atol(argv[3]); for (long i = 0; i < n; i++) { string s = gen(1 + rnd(7)); if (s.size() < 3000) check(s); }
        for (int k : {1, 2, 3, 10, 60, 255, 300}) for (int j : {0, 1, 2}) { string s = string(k, '(') + "1" + string(k, ')'); if (j) s += "," + string(k, '(') + "2,3" + string(k, ')'); check(j == 2 ? "(" + s + ")" : s); string u; for (int i = 0; i < k; i++) u += (i ? "," : "") + std::to_string(i); check(u); check("(" + u + ")"); }
        for (int k : {126, 127, 128, 254, 256, 32766, 32767, 32768, 65534, 65535, 65536, 70000}) { string s = "1,a" + string(k, '(') + "2,3" + string(k, ')') + "b,4"; check(s); check("(" + s + ")"); string u; for (int i = 0; i < k; i++) u += (i ? ",(x)" : "(x)"); check(u); } }
    else { string s; all(argv[1], s, atoi(argv[2]), 0); }
    printf("COUNT %ld\n", count); fflush(stdout); _exit(0);
}
