// sym_curve <op> <r kind> <a kind> <b kind> <alias>: one path of one point operation over an abstract field. kinds: P extended, A affine
#include <cassert>
#include <sstream>
#include <vector>
#include "sym_field.hpp"
#include "curve.hpp"
long sym::counter = 0;
using std::string;
typedef Curve<Sym<0>> C;
static void in(C::Point &e, const string &v) { e.x.id = sym::input((v + ".x").c_str()); e.y.id = sym::input((v + ".y").c_str()); e.zz.id = sym::input((v + ".zz").c_str()); e.zzz.id = sym::input((v + ".zzz").c_str()); }
static void in(C::PointAffine &e, const string &v) { e.x.id = sym::input((v + ".x").c_str()); e.y.id = sym::input((v + ".y").c_str()); }
static void out(C::Point &e, const string &v) { sym::result(v + ".x", e.x.id); sym::result(v + ".y", e.y.id); sym::result(v + ".zz", e.zz.id); sym::result(v + ".zzz", e.zzz.id); }
static void out(C::PointAffine &e, const string &v) { sym::result(v + ".x", e.x.id); sym::result(v + ".y", e.y.id); }
template <class T> T *same(T *a, T *) { return a; }
template <class T, class U> T *same(T *a, U *) { exit(6); }
template <class R, class A, class B> struct Do {
    static void run(C &g, const string &op, const string &al) {
        R r0; A a0; B b0;
        in(a0, "a"); in(b0, "b");
        R *r = &r0; A *a = &a0; B *b = &b0;
        if (al == "ab") b = same(b, (B *)0), b = (B *)(void *)a; 
        if (al == "ra") r = (R *)(void *)a;
        if (al == "rb") r = (R *)(void *)b;
        if (al == "rab") { b = (B *)(void *)a; r = (R *)(void *)a; }
        if (op == "add") g.add(*r, *a, *b); else if (op == "sub") g.sub(*r, *a, *b);
        else if (op == "dbl") g.dbl(*r, *a); else if (op == "neg") g.neg(*r, *a); else if (op == "copy") g.copy(*r, *a);
        else if (op == "eq") sym::truth(g.eq(*a, *b)); else if (op == "isZero") sym::truth(g.isZero(*a));
        else exit(6);
        out(*r, "r"); out(*a, "a"); out(*b, "b");
    }
};
int main(int argc, char **argv) {
    Sym<0> F; Sym<0>::Element a, b, x, y;
    a.id = sym::input("ca"); b.id = sym::input("cb"); x.id = sym::input("gx"); y.id = sym::input("gy");
    string op = argv[1], k = string(argv[2]) + argv[3] + argv[4], al = argv[5];
    C g(F, a, b, x, y);
    if (op == "constants") {
        out(g.one(), "one"); out(g.oneAffine(), "oneAffine"); out(g.zero(), "zero"); out(g.zeroAffine(), "zeroAffine");
        sym::result("ca", g.a().id); sym::result("cb", g.b().id);
    } else if (k == "PPP") Do<C::Point, C::Point, C::Point>::run(g, op, al);
    else if (k == "PPA") Do<C::Point, C::Point, C::PointAffine>::run(g, op, al);
    else if (k == "PAP") Do<C::Point, C::PointAffine, C::Point>::run(g, op, al);
    else if (k == "PAA") Do<C::Point, C::PointAffine, C::PointAffine>::run(g, op, al);
    else if (k == "APP") Do<C::PointAffine, C::Point, C::Point>::run(g, op, al);
    else if (k == "APA") Do<C::PointAffine, C::Point, C::PointAffine>::run(g, op, al);
    else if (k == "AAP") Do<C::PointAffine, C::PointAffine, C::Point>::run(g, op, al);
    else Do<C::PointAffine, C::PointAffine, C::PointAffine>::run(g, op, al);
    printf("end\n");
}
