// Vectors, deflection, root finders, polynomials and splines, samplers.
#include "geo.h"
#include "num.h"
#include "PROPOSAL/math/Function.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/math/Spline.h"
#include <algorithm>
using namespace geo;
using mon::Mon; using mon::Rng; using mon::sfmt;
using json = nlohmann::json;

static V rvec(Rng& r, double lo = 1e-20, double hi = 1e20)
{
    V v;
    int t = r.i(0, 9);
    if (t == 0) { v = { 0, 0, 0 }; (&v.x)[r.i(0, 2)] = r.sgn() * r.logr(lo, hi); return v; }
    if (t == 1) { for (int i = 0; i < 3; ++i) (&v.x)[i] = r.i(-2, 2); return v; }
    double s = r.logr(lo, hi);
    for (int i = 0; i < 3; ++i) (&v.x)[i] = s * r.gauss();
    if (t == 2) for (int i = 0; i < 3; ++i) (&v.x)[i] *= r.logr(1e-12, 1);
    return { (double)v.x, (double)v.y, (double)v.z };
}
static V udir(Rng& r)
{
    int t = r.i(0, 9);
    V v;
    if (t == 0) { v = { 0, 0, 0 }; (&v.x)[r.i(0, 2)] = r.sgn(); return v; }
    if (t == 1) { // close to a pole
        LD e = r.logr(1e-14, 1e-3), f = r.range(0, 2 * M_PI);
        v = { e * cosl(f), e * sinl(f), (LD)r.sgn() };
    } else {
        LD z = r.range(-1, 1), f = r.range(0, 2 * M_PI), s = sqrtl(1 - z * z);
        v = { s * cosl(f), s * sinl(f), z };
    }
    Cartesian3D c = c3(v);
    c.normalize();
    return lv(c);
}
static V cross(V a, V b) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }

PROP(V01)
{
    m.cases("algebra", 60000, 6000000, [&](Rng& r) {
        V a = rvec(r), b = rvec(r);
        double s = r.sgn() * r.logr(1e-10, 1e10);
        if (r.p(0.05)) s = 0;
        m.describe(sfmt("a=(%.17Lg,%.17Lg,%.17Lg) b=(%.17Lg,%.17Lg,%.17Lg) s=%.17g", a.x, a.y, a.z, b.x, b.y, b.z, s));
        auto A = c3(a), B = c3(b);
        if (norm(a) > 0 && norm(b) > 0) m.nontrivial();
        auto comp = [&](const Cartesian3D& got, V want, LD tol, const char* rule) {
            V g = lv(got);
            m.check(fabsl(g.x - want.x) <= tol && fabsl(g.y - want.y) <= tol && fabsl(g.z - want.z) <= tol, rule, sfmt("got (%.17Lg,%.17Lg,%.17Lg) expected (%.17Lg,%.17Lg,%.17Lg)", g.x, g.y, g.z, want.x, want.y, want.z));
        };
        LD n = norm(a) + norm(b), e = 4e-16L;
        comp(A + B, a + b, e * n, "sum");
        comp(B + A, a + b, e * n, "sum");
        comp(A - B, a - b, e * n, "difference");
        comp(-A, a * -1, 0, "negative");
        comp(A * s, a * (LD)s, e * norm(a) * fabs(s), "scale");
        comp(s * A, a * (LD)s, e * norm(a) * fabs(s), "scale");
        auto C = A; C += B; comp(C, a + b, e * n, "add-assign");
        auto Self = A; Self += Self; comp(Self, a * 2, e * n, "add-assign-self");
        LD pm = norm(a) * norm(b);
        m.check(fabsl(A * B - dot(a, b)) <= 4 * e * pm, "scalar-product", sfmt("got %.17g expected %.17Lg", A * B, dot(a, b)));
        comp(vector_product(A, B), cross(a, b), 4 * e * pm, "vector-product");
        m.check(fabsl(A.magnitude() - norm(a)) <= 4 * e * norm(a), "magnitude", sfmt("got %.17g expected %.17Lg", A.magnitude(), norm(a)));
        m.check(A == c3(a) && !(A != c3(a)), "operand-unchanged", "operand changed by an operation");
        bool same = a.x == b.x && a.y == b.y && a.z == b.z;
        m.check((A == B) == same && (A != B) == !same, "equality", "equality of vectors");
        if (norm(a) > 0) {
            auto N = A; N.normalize();
            comp(N, a * (1 / norm(a)), 8 * e, "normalise");
            m.check(std::fabs(N.magnitude() - 1) <= 1e-15 * 4, "normalise-length", sfmt("length %.17g", N.magnitude()));
        }
        m.check(A[0] == (double)a.x && A[1] == (double)a.y && A[2] == (double)a.z && A.GetX() == A[0] && A.GetY() == A[1] && A.GetZ() == A[2], "components", "component access");
        auto w = A; w.SetX(1.5); w.SetZ(-2); w[1] = 7; m.check(w.GetX() == 1.5 && w.GetY() == 7 && w.GetZ() == -2, "setters", "setters");
        w.SetCoordinates(3, 4, 5); m.check(w.GetX() == 3 && w.GetY() == 4 && w.GetZ() == 5, "setters", "SetCoordinates");
    });
    m.cases("conversion", 60000, 6000000, [&](Rng& r) {
        V a = r.p(0.5) ? udir(r) : rvec(r);
        LD n = norm(a);
        m.describe(sfmt("a=(%.17Lg,%.17Lg,%.17Lg)", a.x, a.y, a.z));
        auto A = c3(a);
        Spherical3D S(A);
        Cartesian3D B(S);
        if (n > 0) m.nontrivial();
        LD pole = sqrtl(a.x * a.x + a.y * a.y);
        LD tol = n * 8e-16L + std::min(n * 3e-8L, n * n * 8e-16L / std::max(pole, n * 1e-18L)); // the zenith from its cosine
        V b = lv(B);
        m.check(norm(b - a) <= tol, "round-trip", sfmt("cartesian -> spherical -> cartesian (%.17Lg,%.17Lg,%.17Lg)", b.x, b.y, b.z));
        m.check(fabsl(S.GetRadius() - n) <= 1e-15L * n && fabsl(S.magnitude() - n) <= 1e-15L * n, "radius", sfmt("radius %.17g expected %.17Lg", S.GetRadius(), n));
        m.check(S.GetZenith() >= 0 && S.GetZenith() <= M_PI + 1e-15, "zenith-range", sfmt("zenith %g", S.GetZenith()));
        if (n > 0) {
            m.check(std::fabs(std::fabs(S.GetZenith()) - (double)atan2l(pole, a.z)) <= 3e-8 && (pole < 1e-2L * n || std::fabs(S.GetZenith() - (double)atan2l(pole, a.z)) < 1e-13), "zenith", sfmt("zenith %.17g expected %.17Lg", S.GetZenith(), atan2l(pole, a.z)));
            if (pole > 0) { LD d = remainderl(S.GetAzimuth() - atan2l(a.y, a.x), 2 * M_PIl); m.check(fabsl(d) < 1e-15L * 8, "azimuth", sfmt("azimuth %.17g expected %.17Lg", S.GetAzimuth(), atan2l(a.y, a.x))); }
            auto N = S; N.normalize();
            m.check(N.GetRadius() == 1 && N.GetAzimuth() == S.GetAzimuth() && N.GetZenith() == S.GetZenith(), "spherical-normalise", "normalising turned the vector");
        }
        // from spherical values
        double R = r.logr(1e-10, 1e10), az = r.range(-7, 7), ze = r.p(0.2) ? (r.p(0.5) ? 0 : M_PI) : r.range(0, M_PI);
        Spherical3D T(R, az, ze);
        Cartesian3D U(T);
        V u { R * sinl(ze) * cosl(az), R * sinl(ze) * sinl(az), R * cosl(ze) };
        m.check(norm(lv(U) - u) <= 1e-15L * R * 4, "spherical-to-cartesian", sfmt("(%.17g,%.17g,%.17g) -> (%.17g,%.17g,%.17g)", R, az, ze, U.GetX(), U.GetY(), U.GetZ()));
        auto q = T.GetCartesianCoordinates();
        m.check(q[0] == U.GetX() && q[1] == U.GetY() && q[2] == U.GetZ(), "coordinates", "GetCartesianCoordinates differs from conversion");
        auto ss = A.GetSphericalCoordinates();
        m.check(ss[0] == S.GetRadius() && ss[1] == S.GetAzimuth() && ss[2] == S.GetZenith(), "coordinates", "GetSphericalCoordinates differs from conversion");
        m.check(T.GetSphericalCoordinates()[0] == R && T.GetSphericalCoordinates()[1] == az && T.GetSphericalCoordinates()[2] == ze, "coordinates", "spherical coordinates of a spherical vector");
        // mixed operands: same result as with cartesian operands
        auto mix = [&](const Cartesian3D& x, const Cartesian3D& y) { return x == y; };
        m.check(mix(A + T, A + U) && mix(T + A, U + A) && mix(A - T, A - U) && mix(Cartesian3D(T) * 2., U * 2.), "mixed-sum", "sum of mixed representations");
        m.check(A * T == A * U && mix(vector_product(A, T), vector_product(A, U)), "mixed-product", "product of mixed representations");
        Cartesian3D acc = A; acc += T; m.check(mix(acc, A + U), "mixed-sum", "+= of mixed representations");
        const Vector3D& vA = A; const Vector3D& vT = T;
        m.check(Cartesian3D(vA) == A && Spherical3D(vT) == T && mix(Cartesian3D(vT), U), "through-base", "conversion through the base class");
        UnitSphericalVector us(S);
        m.check(us.zenith == S.GetZenith() && us.azimuth == S.GetAzimuth(), "unit-spherical", "UnitSphericalVector");
        json j = { (double)a.x, (double)a.y, (double)a.z };
        m.check(Cartesian3D(j) == A && Spherical3D(json({ R, az, ze })) == T, "json", "vector from a json array");
    });
    m.cases("bad-json", 300, 3000, [&](Rng& r) {
        json j = { r.u(), r.u(), r.u() };
        switch (r.i(0, 4)) {
        case 0: j.erase(r.i(0, 2)); break;
        case 1: j.push_back(1.); break;
        case 2: j[r.i(0, 2)] = "1"; break;
        case 3: j = { { "x", 1 }, { "y", 1 }, { "z", 1 } }; break;
        default: j[r.i(0, 2)] = nullptr;
        }
        m.describe(j.dump());
        m.nontrivial();
        int t = 0;
        try { Cartesian3D c(j); } catch (const std::exception&) { ++t; }
        try { Spherical3D c(j); } catch (const std::exception&) { ++t; }
        m.check(t == 2, "accepted", "malformed vector accepted");
    });
}

PROP(V02)
{
    m.cases("deflect", 150000, 12000000, [&](Rng& r) {
        V d = udir(r);
        double c, f = r.range(0, 2 * M_PI), g = r.range(0, 2 * M_PI);
        int t = r.i(0, 9);
        if (t == 0) c = 1; else if (t == 1) c = -1; else if (t == 2) c = 0;
        else if (t < 5) c = r.sgn() * (1 - r.logr(1e-16, 1e-2));
        else c = r.range(-1, 1);
        if (r.p(0.1)) f = r.pick(*new std::vector<double> { 0, M_PI / 2, M_PI, 3 * M_PI / 2 });
        m.describe(sfmt("d=(%.17Lg,%.17Lg,%.17Lg) cos=%.17g azimuth=%.17g,%.17g", d.x, d.y, d.z, c, f, g));
        Cartesian3D A = c3(d), B = c3(d);
        A.deflect(c, f);
        B.deflect(c, g);
        V a = lv(A), b = lv(B);
        LD s = sqrtl((1 - (LD)c) * (1 + (LD)c));
        LD pole = std::max(sqrtl(d.x * d.x + d.y * d.y), (LD)1e-18);
        LD ep = 4e-15L + std::min((LD)3e-8, 1e-15L / pole);             // zenith of the old direction from its cosine
        LD ec = 4e-15L + std::min((LD)3e-8, 1e-15L / std::max(fabsl((LD)c), (LD)1e-18)); // cosine from the sine
        LD tc = ec + s * ep;
        m.nontrivial();
        m.note(sfmt("%s, polar angle %s", pole < 1e-3L ? "near a pole" : "general direction", s < 1e-6L ? "tiny" : c < 0 ? "backward" : "forward"));
        m.check(fabsl(norm(a) - 1) <= 2 * tc, "unit", sfmt("length %.17Lg", norm(a)));
        if (c == 1) { m.check(norm(a - d) <= 1e-15L, "zero-angle", "zero polar angle turned the direction"); return; }
        m.check(fabsl(dot(a, d) - c) <= 2 * tc, "polar-cos", sfmt("cosine to the old direction %.17Lg", dot(a, d)));
        m.check(fabsl(norm(cross(a, d)) - s) <= s * 1e-12L + s * ep + 2e-15L + fabsl((LD)c) * 1e-15L + (s > 0.9L ? ec : 0), "polar-sin", sfmt("sine to the old direction %.17Lg expected %.17Lg", norm(cross(a, d)), s));
        // azimuth difference measured around the old direction
        V pa = a - d * dot(a, d), pb = b - d * dot(b, d);
        if (norm(pa) < 1e-7L) return;
        LD diff = atan2l(dot(cross(pa, pb), d), dot(pa, pb));
        LD err = remainderl(diff - ((LD)g - (LD)f), 2 * M_PIl);
        m.check(fabsl(err) <= 1e-13L + 4 * ep + 1e-14L / norm(pa), "azimuth", sfmt("azimuth difference %.17Lg expected %.17g", diff, g - f));
        m.sample(m.desc);
    });
}

// ---------------------------------------------------------------------------
static int sg(double x) { return (x > 0) - (x < 0); }
struct Fun { std::function<double(double)> f, d; double root, w; int mult; std::string name; };
static Fun rfun(Rng& r, double lo, double hi)
{
    Fun F;
    double x0 = r.range(lo, hi), s = r.sgn() * r.logr(1e-3, 1e3), w = (hi - lo) * r.logr(1e-3, 3);
    if (r.p(0.1)) x0 = lo; else if (r.p(0.1)) x0 = hi; else if (r.p(0.15)) x0 = (lo + hi) / 2;
    F.root = x0; F.mult = 1; F.w = w;
    if (r.p(0.2)) s *= r.logr(1e-200, 1e30); // products of two values leave the range of a double
    switch (r.i(0, 8)) {
    case 0: F.name = "linear"; F.f = [=](double x) { return s * (x - x0) / w; }; F.d = [=](double) { return s / w; }; break;
    case 1: { int n = 2 * r.i(1, 3) + 1; F.mult = n; F.name = sfmt("power %d", n); F.f = [=](double x) { return s * std::pow((x - x0) / w, n); }; F.d = [=](double x) { return s * n / w * std::pow((x - x0) / w, n - 1); }; break; }
    case 2: F.name = "exp"; F.f = [=](double x) { double t = (x - x0) / w; return s * std::expm1(std::max(-600., std::min(t, 600.))); }; F.d = [=](double x) { return s / w * std::exp(std::max(-600., std::min((x - x0) / w, 600.))); }; break;
    case 3: F.name = "tanh"; F.f = [=](double x) { return s * std::tanh((x - x0) / w); }; F.d = [=](double x) { double c = std::cosh(std::min(300., std::fabs(x - x0) / w)); return s / w / c / c; }; break;
    case 4: F.name = "atan"; F.f = [=](double x) { return s * std::atan((x - x0) / w); }; F.d = [=](double x) { double t = (x - x0) / w; return s / w / (1 + t * t); }; break;
    case 5: F.name = "signed root"; F.f = [=](double x) { return s * (x < x0 ? -1 : 1) * std::sqrt(std::fabs(x - x0) / w); }; F.d = [=](double x) { return s * 0.5 / w / std::sqrt(std::max(std::fabs(x - x0) / w, 1e-30)); }; break;
    case 6: F.name = "wavy"; F.f = [=](double x) { double t = (x - x0) / w; return s * (t + 0.9 * std::sin(4 * t)); }; F.d = [=](double x) { double t = (x - x0) / w; return s / w * (1 + 3.6 * std::cos(4 * t)); }; break;
    case 7: { double k = r.range(0.1, 0.9); F.name = "plateau"; F.f = [=](double x) { double t = (x - x0) / w; return s * (t > k ? (t - k) + t * t * t : t < -k ? (t + k) + t * t * t : t * t * t); }; F.mult = 3; F.d = [=](double x) { double t = (x - x0) / w; return s / w * ((std::fabs(t) > k) + 3 * t * t); }; break; }
    default: F.name = "cubic three roots"; { double a = w * 0.31; F.f = [=](double x) { double t = (x - x0); return s * (t * (t - a) * (t + 1.7 * a)) / (w * w * w); }; F.d = [=](double x) { double t = (x - x0); return s * (3 * t * t + 2 * t * 0.7 * a - 1.7 * a * a) / (w * w * w); }; }
    }
    return F;
}
PROP(M01)
{
    auto hasroot = [](const Fun& F, double x, double h) {
        // a sign change (or zero) of f within h of x
        double f0 = F.f(x);
        if (f0 == 0) return true;
        for (int i = 1; i <= 20; ++i) { if (sg(F.f(x - h * i / 20)) * sg(f0) <= 0 || sg(F.f(x + h * i / 20)) * sg(f0) <= 0) return true; }
        return false;
    };
    auto interval = [](Rng& r, double& lo, double& hi) {
        double c = r.p(0.3) ? 0 : r.sgn() * r.logr(1e-3, 1e6), w = r.logr(1e-3, 1e7);
        lo = c - w * r.u(); hi = c + w * r.u();
        if (r.p(0.2)) lo = 0, hi = w;
    };
    m.cases("newton", 60000, 5000000, [&](Rng& r) {
        double lo, hi;
        interval(r, lo, hi);
        Fun F = rfun(r, lo, hi);
        double xacc = r.p(0.4) ? 1e-6 : r.logr(1e-10, 1e-2) * (r.p(0.5) ? (hi - lo) : 1), init = r.p(0.4) ? (lo + hi) / 2 : r.range(lo, hi);
        if (r.p(0.05)) init = r.p(0.5) ? lo : hi;
        if (r.p(0.05)) init = F.root;
        xacc = std::min(xacc, 1e-3 * F.w); // finer than the features of the function
        double a = lo, b = hi;
        if (r.p(0.3)) std::swap(a, b);
        m.describe(sfmt("%s root %.17g interval %.17g %.17g start %.17g xacc %g", F.name.c_str(), F.root, a, b, init, xacc));
        double fa = F.f(a), fb = F.f(b);
        bool br = sg(fa) * sg(fb) <= 0;
        double x; bool thrown = false;
        long calls = 0;
        double outside = 0;
        auto f = [&](double t) { ++calls; if (t < lo || t > hi) outside = t; return F.f(t); };
        try { x = (xacc == 1e-6 && r.p(0.5)) ? NewtonRaphson(f, F.d, a, b, init) : NewtonRaphson(f, F.d, a, b, init, 101, xacc); }
        catch (const MathException&) { thrown = true; }
        if (!br) { m.check(thrown, "unbracketed", sfmt("no sign change (%g,%g) but %.17g was returned", fa, fb, x)); m.note("not bracketed"); return; }
        if (!m.check(!thrown, "refused", "bracketed root refused")) return;
        m.nontrivial();
        m.note("newton " + F.name);
        m.note("function calls", calls);
        m.check(x >= lo - 1e-15 * std::fabs(lo) && x <= hi + 1e-15 * std::fabs(hi), "inside", sfmt("%.17g outside the interval", x));
        double h = 1.5 * F.mult * xacc + 8e-16 * F.mult * (std::fabs(x) + std::fabs(lo) + std::fabs(hi));
        if (m.check(hasroot(F, x, h), "root", sfmt("%.17g is no root within %g: f=%g", x, h, F.f(x)))) m.sample(m.desc + sfmt(" -> %.17g", x));
    });
    m.cases("bisection", 60000, 5000000, [&](Rng& r) {
        double lo, hi;
        interval(r, lo, hi);
        Fun F = rfun(r, lo, hi);
        double xacc = std::max((hi - lo) * r.logr(1e-10, 0.3), 1e-15 * (std::fabs(lo) + std::fabs(hi))), a = lo, b = hi;
        int it = r.p(0.8) ? 100 : r.i(0, 20);
        if (r.p(0.3)) std::swap(a, b);
        m.describe(sfmt("%s root %.17g interval %.17g %.17g xacc %g iterations %d", F.name.c_str(), F.root, a, b, xacc, it));
        bool br = sg(F.f(a)) * sg(F.f(b)) <= 0, thrown = false;
        std::pair<double, double> p;
        try { p = Bisection(F.f, a, b, xacc, it); } catch (const MathException&) { thrown = true; }
        if (!br) { m.check(thrown, "unbracketed", sfmt("no sign change but (%.17g,%.17g) was returned", p.first, p.second)); m.note("not bracketed"); return; }
        if (!m.check(!thrown, "refused", "bracketed root refused")) return;
        m.nontrivial();
        m.note("bisection " + F.name);
        m.check(p.first >= lo && p.second <= hi && p.first <= p.second, "inside", sfmt("(%.17g,%.17g)", p.first, p.second));
        m.check(sg(F.f(p.first)) * sg(F.f(p.second)) <= 0, "bracket", sfmt("no sign change in (%.17g,%.17g)", p.first, p.second));
        double w = p.second - p.first;
        m.check(w < xacc || w <= (hi - lo) * std::pow(0.5, it) * 1.0000001, "width", sfmt("width %g, accuracy %g after at most %d steps", w, xacc, it));
        if (it >= 60) m.check(w < xacc, "accuracy", sfmt("width %g accuracy %g", w, xacc));
    });
}

// ---------------------------------------------------------------------------
struct PolyM {
    std::vector<double> c;
    LD operator()(LD x) const { LD s = 0; for (size_t i = c.size(); i-- > 0;) s = s * x + c[i]; return s; }
    LD mag(LD x) const { LD s = 0; x = fabsl(x); for (size_t i = c.size(); i-- > 0;) s = s * x + fabsl((LD)c[i]); return s; }
};
PROP(M02)
{
    m.cases("polynomial", 30000, 3000000, [&](Rng& r) {
        PolyM P;
        double S = r.logr(1e-3, 1e3);
        int n = r.i(1, 8);
        for (int i = 0; i < n; ++i) P.c.push_back(r.p(0.15) ? 0 : r.sgn() * r.logr(1e-2, 1e2) * std::pow(S, -i));
        std::unique_ptr<Polynom> p;
        if (r.p(0.3)) p = std::make_unique<Polynom>(json { { "coefficients", P.c } }); else p = std::make_unique<Polynom>(P.c);
        double x = S * r.range(-3, 3), s = r.sgn() * S * r.logr(1e-4, 10);
        m.describe(sfmt("%s x=%.17g shift=%.17g", json(P.c).dump().c_str(), x, s));
        m.nontrivial();
        LD e = 1e-15L * (n + 1);
        auto eq = [&](double got, LD want, LD tol, const char* rule) { m.check(fabsl(got - want) <= tol, rule, sfmt("got %.17g expected %.17Lg (tol %Lg)", got, want, tol)); };
        eq(p->evaluate(x), P(x), e * P.mag(x), "value");
        m.check(p->GetCoefficient() == P.c, "coefficients", "coefficients changed");
        PolyM D; for (int i = 1; i < n; ++i) D.c.push_back(P.c[i] * i); if (D.c.empty()) D.c.push_back(0);
        auto d = p->GetDerivative();
        eq(d.evaluate(x), D(x), 2 * e * D.mag(x), "derivative");
        double c0 = r.range(-3, 3);
        PolyM A; A.c.push_back(c0); for (int i = 0; i < n; ++i) A.c.push_back(P.c[i] / (i + 1));
        auto a = p->GetAntiderivative(c0);
        eq(a.evaluate(x), A(x), 2 * e * A.mag(x), "antiderivative");
        auto back = a.GetDerivative();
        eq(back.evaluate(x), P(x), 2 * e * P.mag(x), "antiderivative-derivative");
        Polynom q(*p), q2(std::vector<double> { 4. });
        q2 = *p;
        m.check(q == *p && q2 == *p && !(q != *p), "copy-equal", "copy compares unequal");
        q.shift(s);
        LD big = P.mag(fabsl((LD)x) + fabsl((LD)s) * 2);
        eq(q.evaluate(x), P((LD)x + s), 64 * e * big, "shift");
        m.check(q2.GetCoefficient() == P.c && p->GetCoefficient() == P.c, "copy-independent", "shifting a copy changed the original");
        if (n > 1 && q.GetCoefficient() != P.c) m.check(q != *p && *p != q, "different-equal", "different polynomials compare equal");
        auto f = p->GetFunction();
        p.reset();
        Polynom noise(std::vector<double>(n, 9.)); 
        eq(f(x), P(x), e * P.mag(x), "function");
        eq(q2.evaluate(x), P(x), e * P.mag(x), "copy-survives");
        auto z = P.c; z.push_back(0); m.check(Polynom(z) != q2, "length", "polynomials with different numbers of coefficients compare equal");
    });
    m.cases("spline", 15000, 1500000, [&](Rng& r) {
        bool cubic = r.p(0.6);
        int n = r.i(2, 12);
        double S = r.logr(1e-3, 1e4), x0 = r.p(0.4) ? 0 : S * r.range(-5, 5), Y = r.logr(1e-3, 1e3);
        std::vector<double> x, y;
        bool even = r.p(0.3);
        for (int i = 0; i < n; ++i) { x.push_back(x0); y.push_back(Y * r.range(-1, 1)); x0 += S * (even ? 1 : r.range(0.3, 2)); }
        auto pp = cubic ? num::natural(x, y) : num::linear(x, y);
        json j { { "x", x }, { "y", y } };
        m.describe(std::string(cubic ? "cubic " : "linear ") + j.dump());
        m.nontrivial();
        std::unique_ptr<Spline> s;
        bool viaj = r.p(0.3);
        if (cubic) s = viaj ? std::make_unique<Cubic_Spline>(j) : std::make_unique<Cubic_Spline>(x, y);
        else s = viaj ? std::unique_ptr<Spline>(new Linear_Spline(j)) : std::unique_ptr<Spline>(new Linear_Spline(x, y));
        LD e = 2e-14L;
        auto val = [&](Spline& sp, LD t, const char* rule) {
            double v = sp.evaluate((double)t);
            m.check(fabsl(v - pp((double)t)) <= e * (pp.mag(t) + Y), rule, sfmt("at %.17Lg got %.17g expected %.17Lg", t, v, pp((double)t)));
        };
        for (int i = 0; i < n; ++i) { double v = s->evaluate(x[i]); m.check(fabsl(v - y[i]) <= e * (pp.mag(x[i]) + Y), "node", sfmt("node %d: %.17g instead of %.17g", i, v, y[i])); }
        std::vector<double> qs;
        for (int i = 0; i < 8; ++i) qs.push_back(r.range(x.front() - 0.3 * S, x.back() + 0.3 * S));
        for (int i = 0; i < 3; ++i) { int k = r.i(0, n - 1); qs.push_back(std::nextafter(x[k], 1e300)); qs.push_back(std::nextafter(x[k], -1e300)); }
        for (double q : qs) val(*s, q, "curve");
        m.check(s->GetDomain().first == x.front() && s->GetDomain().second == x.back() && (int)s->GetNumberIntervalls() == n - 1 && s->GetSubintervalls() == x, "domain", "domain of the spline");
        // continuity of value and slope from the pieces
        auto fs = s->GetFunctions();
        for (int k = 1; k + 1 < n; ++k) {
            LD tol = 4 * e * (pp.mag(x[k]) + Y);
            m.check(std::fabs(fs[k - 1].evaluate(x[k]) - fs[k].evaluate(x[k])) <= tol, "continuous", sfmt("jump at node %d", k));
            if (cubic) {
                LD ts = tol * 8 / S + 8 * e * (pp.mag(x[k]) + Y) / std::max((LD)S * 0.3L, (LD)1e-300L);
                m.check(std::fabs(fs[k - 1].GetDerivative().evaluate(x[k]) - fs[k].GetDerivative().evaluate(x[k])) <= ts * 4, "smooth", sfmt("kink at node %d: slopes %.17g %.17g", k, fs[k - 1].GetDerivative().evaluate(x[k]), fs[k].GetDerivative().evaluate(x[k])));
            }
        }
        // copies
        std::unique_ptr<Spline> c(s->clone());
        m.check(*c == *s && !(*c != *s), "copy-equal", "copy compares unequal");
        // derivative of the curve
        std::unique_ptr<Spline> D(s->clone()), A(s->clone());
        D->Derivative();
        for (double q : qs) {
            double v = D->evaluate(q);
            m.check(fabsl(v - pp.d1(q)) <= 30 * e * (pp.mag(q) + Y) / S, "derivative", sfmt("slope at %.17g: %.17g expected %.17Lg", q, v, pp.d1(q)));
        }
        // antiderivative: continuous, constant at the lower end of the domain, differences are integrals
        double c0 = Y * r.range(-2, 2);
        A->Antiderivative(c0);
        LD scale = (fabsl((LD)x.front()) + fabsl((LD)x.back()) + S);
        LD atol = 40 * e * (std::max(pp.mag(x.front()), pp.mag(x.back())) + Y) * scale;
        m.check(fabsl(A->evaluate(x[0]) - c0) <= atol, "antiderivative-constant", sfmt("%.17g at the lower end instead of %.17g", A->evaluate(x[0]), c0));
        for (double q : qs) {
            std::vector<LD> pts { x[0] };
            if (q > x[0]) { for (double k : x) if (k > x[0] && k < q) pts.push_back(k); }
            pts.push_back(q);
            LD I = num::glb<8>([&](LD t) { return pp(t); }, pts);
            double v = A->evaluate(q);
            m.check(fabsl(v - c0 - I) <= atol, "antiderivative", sfmt("at %.17g: %.17g expected %.17Lg", q, v, c0 + I));
        }
        for (double q : qs) val(*c, q, "copy-independent");
        // stored and read back
        if (r.p(0.4)) {
            bool bin = r.p(0.5);
            std::string path = m.scratch + sfmt("/sp_%d_%ld", m.shard, m.index), file = path + (bin ? ".bin" : ".txt");
            std::unique_ptr<Spline>& w = r.p(0.3) ? A : s;
            m.check(w->save(path, bin), "save", "saving failed");
            std::unique_ptr<Spline> L;
            if (cubic) L = std::make_unique<Cubic_Spline>(path, bin); else L = std::make_unique<Linear_Spline>(path, bin);
            m.note(bin ? "saved binary" : "saved text");
            bool same = true; double at = 0;
            for (double q : qs) if (L->evaluate(q) != w->evaluate(q)) { same = false; at = q; }
            m.check(same, "saved-loaded", sfmt("at %.17g: %.17g loaded, %.17g stored", at, L->evaluate(at), w->evaluate(at)));
            m.check(*L == *w, "saved-equal", "loaded spline compares unequal");
            // a cut file
            if (r.p(0.3)) {
                std::ifstream in(file); std::stringstream ss; ss << in.rdbuf(); in.close();
                std::string t = ss.str();
                size_t last = t.find_last_not_of(" \n"), cut = r.i(0, (long)(last * 0.8));
                std::ofstream(file) << t.substr(0, cut);
                bool thrown = false;
                try { Linear_Spline b(path, bin); } catch (const std::exception&) { thrown = true; }
                m.check(thrown, "cut-file", sfmt("file cut to %zu bytes was accepted", cut));
            }
            unlink(file.c_str());
        }
        // built from the pieces
        Cubic_Spline G(fs, x);
        s.reset();
        for (double q : qs) val(G, q, "from-pieces");
        // changed node
        auto y2 = y; y2[r.i(0, n - 1)] += Y; 
        if (cubic) m.check(Cubic_Spline(x, y2) != *c, "different-equal", "different splines compare equal");
        else m.check(Linear_Spline(x, y2) != *c, "different-equal", "different splines compare equal");
        if (cubic) { // the stand-alone coefficients
            auto co = CalculateSpline(x, y);
            m.check((int)co.size() == n - 1, "coefficient-count", "CalculateSpline");
            for (int i = 0; i + 1 < n; ++i) {
                auto q = co[i].GetSpline();
                bool ok = q.first == x[i];
                LD h = (LD)x[i + 1] - x[i], p = 1;
                for (int k = 0; k < 4; ++k, p *= h) ok = ok && fabsl(q.second[k] * p - pp.c[i][k] * p) <= 1e-12L * Y * 20;
                m.check(ok, "coefficients", sfmt("coefficients of piece %d", i));
            }
        }
    });
    m.cases("bad-input", 600, 6000, [&](Rng& r) {
        int t = r.i(0, 5), thrown = 0;
        m.describe(sfmt("kind %d", t));
        m.nontrivial();
        auto must = [&](auto f, const char* w) { bool th = false; try { f(); } catch (const std::exception&) { th = true; } m.check(th, "accepted", w); };
        std::vector<double> x { 0, 1, 2, 3 }, y { 1, 2, 3 };
        if (r.p(0.5)) std::swap(x, y);
        if (t == 0) must([&] { Linear_Spline s(x, y); }, "spline from lists of different length");
        if (t == 1) must([&] { Cubic_Spline s(x, y); }, "spline from lists of different length");
        if (t == 2) must([&] { Cubic_Spline s(json { { "x", x }, { "y", y } }); }, "configured spline from lists of different length");
        if (t == 3) must([&] { Linear_Spline s(m.scratch + "/does-not-exist", r.p(0.5)); }, "spline from a missing file");
        if (t == 4) must([&] { json j { { "x", x }, { "y", x } }; j.erase(r.p(0.5) ? "x" : "y"); Linear_Spline s(j); }, "configured spline without nodes");
        if (t == 5) must([&] { Polynom p(json { { "coefficients", r.p(0.5) ? json("1") : json({ "a", "b" }) } }); }, "polynomial from text");
        (void)thrown;
    });
}

// ---------------------------------------------------------------------------
static LD Phi(LD z) { return 0.5L * erfcl(-z / sqrtl(2.0L)); }
static LD between(LD a, LD b) { return a > 0 ? Phi(-a) - Phi(-b) : Phi(b) - Phi(a); } // probability of a..b
PROP(M03)
{
    m.cases("normal-quantile", 100000, 8000000, [&](Rng& r) {
        double p = r.u();
        if (r.p(0.3)) p = r.logr(1e-300, 0.5);
        if (r.p(0.2)) p = 1 - r.logr(1e-16, 0.5);
        if (r.p(0.05)) p = r.i(1, 63) / 64.;
        if (!(p > 0 && p < 1)) throw mon::Skip();
        double x = normalppf(p);
        m.describe(sfmt("p=%.17g -> %.17g", p, x));
        m.nontrivial();
        LD q = p < 0.5 ? p : 1 - (LD)p;
        LD F = p < 0.5 ? Phi(x) : Phi(-x);
        m.check(fabsl(F - q) <= q * (1e-14L * (1 + (LD)x * x)) + 1e-16L, "inverts", sfmt("normal integral up to the quantile %.17Lg instead of %.17Lg", F, q));
        if (p >= 0.5 && 1 - p > 0) { double y = normalppf(1 - p); m.check(fabsl(x + y) <= 1e-12L * (1 + fabs(x)) + 4e-16L / (1e-300L + expl(-0.5L * x * x)), "antisymmetric", sfmt("%.17g and %.17g", x, y)); }
        double p2 = p * (1 + r.logr(1e-9, 1));
        if (p2 < 1) m.check(normalppf(p2) >= x - 1e-12 * (1 + std::fabs(x)), "monotonic", sfmt("quantile falls from p=%.17g to %.17g", p, p2));
    });
    m.cases("truncated-normal", 60000, 6000000, [&](Rng& r) {
        double S = r.logr(1e-3, 1e12), sigma = S * r.logr(1e-3, 10), mean = S * r.range(-3, 3);
        double za, zb;
        int t = r.i(0, 5);
        if (t == 0) { za = -1e30; zb = 1e30; }
        else if (t == 1) { za = r.range(-8, 30); zb = za + r.logr(1e-3, 10); }
        else if (t == 2) { zb = -r.range(-8, 30); za = zb - r.logr(1e-3, 10); }
        else if (t == 3) { za = r.range(-5, 0); zb = r.range(0, 5); }
        else { za = r.range(-6, 6); zb = za + r.logr(1e-3, 10); }
        double lo = mean + sigma * za, hi = mean + sigma * zb;
        if (t == 0) { lo = -std::numeric_limits<double>::infinity(); hi = r.p(0.5) ? mean + r.range(-1, 3) * sigma : -lo; }
        double u = r.u(), v = r.u();
        if (r.p(0.1)) u = r.logr(1e-12, 1);
        if (r.p(0.03) && std::isfinite(lo)) u = 0;
        if (lo == hi) throw mon::Skip();
        m.describe(sfmt("mean %.17g sigma %.17g range %.17g %.17g u %.17g", mean, sigma, lo, hi, u));
        double x = SampleFromGaussian(mean, sigma, u, lo, hi);
        m.nontrivial();
        m.note(sfmt("truncated normal range kind %d", t));
        if (!m.check(x >= lo && x <= hi, "inside", sfmt("%.17g outside", x))) return;
        LD a = ((LD)lo - mean) / sigma, b = ((LD)hi - mean) / sigma, z = ((LD)x - mean) / sigma;
        LD tot = between(a, b), F = between(a, z) / tot;
        LD pdf = expl(-0.5L * z * z) / sqrtl(2 * M_PIl) / tot;
        LD tol = 1e-9L + pdf * 4e-16L * (fabsl((LD)x) + fabs(mean) + (std::isfinite(lo) ? fabs(lo) : 0) + (std::isfinite(hi) ? fabs(hi) : 0)) / sigma * 4;
        LD az = std::min(fabsl(a), fabsl(b));
        tol += 1e-15L / tot * (a * b <= 0 || b < 0 || a > 0 ? (a > 0 || b < 0 ? tot * (1 + az * az) : 1) : 1);
        if (tol > 1e-3L) { m.note("ill-conditioned (range only)"); return; }
        m.check(fabsl(F - u) <= tol, "probability", sfmt("cumulative probability of %.17g is %.17Lg instead of %.17g", x, F, u));
        double y = SampleFromGaussian(mean, sigma, v, lo, hi);
        if (fabs(u - v) > 3 * tol) m.check((v > u) == (y > x) || y == x, "monotonic", sfmt("u %.17g -> %.17g, %.17g -> %.17g", u, x, v, y));
        m.sample(m.desc);
    });
    m.cases("no-width", 100, 1000, [&](Rng& r) {
        double mean = r.range(-5, 5);
        m.nontrivial();
        m.check(SampleFromGaussian(mean, 0, r.u(), mean - r.u(), mean + r.u()) == mean, "degenerate", "zero width does not give the mean");
    });
    m.cases("exponential", 60000, 5000000, [&](Rng& r) {
        double l = r.logr(1e-12, 1e12), p = r.p(0.3) ? r.logr(1e-18, 1) : r.u();
        if (r.p(0.02)) p = 0;
        double x = SampleFromExponential(p, l), q = p + (1 - p) * r.u();
        m.describe(sfmt("p=%.17g lambda=%.17g -> %.17g", p, l, x));
        m.nontrivial();
        LD F = -expm1l(-(LD)l * x);
        m.check(x >= 0 && std::isfinite(x), "inside", sfmt("%g", x));
        m.check(fabsl(F - p) <= 1e-14L * p * (1 + fabs(x * l)) , "probability", sfmt("cumulative probability %.17Lg", F));
        if (q < 1) m.check(SampleFromExponential(q, l) >= x, "monotonic", "not monotonic");
    });
}
int main(int c, char** v) { return mon::run(c, v); }
