// sym_tower <level> <nr: neg1|gen> <op> <alias>: one path of one operation of an extension over the abstract field below it
#include <cassert>
#include <sstream>
#include <vector>
#include "sym_field.hpp"
#include "f2field.hpp"
#include "f6field.hpp"
#include "f12field.hpp"
long sym::counter = 0;
using std::string;
template <class E> struct Parts;
template <> struct Parts<F2Field<Sym<0>>::Element> { static const char **names() { static const char *n[] = {"a", "b", 0}; return n; }
    static int64_t *get(F2Field<Sym<0>>::Element &e, int i) { return i ? &e.b.id : &e.a.id; } };
template <> struct Parts<F6Field<Sym<1>>::Element> { static const char **names() { static const char *n[] = {"x", "y", "z", 0}; return n; }
    static int64_t *get(F6Field<Sym<1>>::Element &e, int i) { return i == 0 ? &e.x.id : i == 1 ? &e.y.id : &e.z.id; } };
template <> struct Parts<F12Field<Sym<2>>::Element> { static const char **names() { static const char *n[] = {"x", "y", 0}; return n; }
    static int64_t *get(F12Field<Sym<2>>::Element &e, int i) { return i ? &e.y.id : &e.x.id; } };
template <class E> void in(E &e, const string &v) { auto n = Parts<E>::names(); for (int i = 0; n[i]; i++) *Parts<E>::get(e, i) = sym::input((v + "." + n[i]).c_str()); }
template <class E> void out(E &e, const string &v) { auto n = Parts<E>::names(); for (int i = 0; n[i]; i++) sym::result(v + "." + n[i], *Parts<E>::get(e, i)); }

typedef F2Field<Sym<0>> T2; typedef F6Field<Sym<1>> T6; typedef F12Field<Sym<2>> T12;
static void extra(T2 &F, const string &op, T2::Element &r, T2::Element &a) {
    if (op == "mulXi") F.mulXi(r, a); else if (op == "dbl") F.dbl(r, a); else if (op == "conjugate") F.conjugate(r, a); else exit(6);
}
static void extra(T6 &F, const string &op, T6::Element &r, T6::Element &a) {
    if (op == "mulTau") F.mulTau(r, a); else if (op == "dbl") F.dbl(r, a);
    else if (op == "mulGFP") { Sym<0>::Element g; g.id = sym::input("g"); F.mulGFP(r, a, g); } else exit(6);
}
static void extra(T12 &F, const string &op, T12::Element &r, T12::Element &a) {
    if (op == "conjugate") F.conjugate(r, a); else exit(6);
}
template <class S, class T> void go(T &F, const string &op, const string &alias) {
    typename T::Element A, B, R;
    S s;
    in(A, "a"); in(B, "b"); s.id = sym::input("s");
    typename T::Element *r = &R, *a = &A, *b = &B;
    if (alias == "ab") b = a; else if (alias == "ra") r = a; else if (alias == "rb") r = b; else if (alias == "rab") { r = a; b = a; }
    out(F.zero(), "zero"); out(F.one(), "one"); out(F.negOne(), "negOne");
    if (op == "add") F.add(*r, *a, *b); else if (op == "sub") F.sub(*r, *a, *b); else if (op == "mul") F.mul(*r, *a, *b);
    else if (op == "div") F.div(*r, *a, *b); else if (op == "neg") F.neg(*r, *a); else if (op == "copy") F.copy(*r, *a);
    else if (op == "square") F.square(*r, *a); else if (op == "inv") F.inv(*r, *a); else if (op == "mulScalar") F.mulScalar(*r, *a, s);
    else if (op == "isZero") sym::truth(F.isZero(*a)); else if (op == "isOne") sym::truth(F.isOne(*a)); else if (op == "eq") sym::truth(F.eq(*a, *b));
    else if (op != "constants") extra(F, op, *r, *a);
    out(*r, "r"); out(*a, "a"); out(*b, "b");
    sym::result("s", s.id);
}
int main(int argc, char **argv) {
    string lv = argv[1], nr = argv[2], op = argv[3], al = argv[4];
    if (lv == "2" && nr == "neg1") { F2Field<Sym<0>> F("-1"); go<Sym<0>::Element>(F, op, al); }
    else if (lv == "2") { Sym<0>::Element e; e.id = sym::input("nr"); F2Field<Sym<0>> F(e); go<Sym<0>::Element>(F, op, al); }
    else if (lv == "6") { F6Field<Sym<1>> F; go<Sym<1>::Element>(F, op, al); }
    else if (lv == "12") { F12Field<Sym<2>> F; go<Sym<2>::Element>(F, op, al); }
    printf("end\n");
    return 0;
}
