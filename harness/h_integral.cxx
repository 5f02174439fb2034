// Numerical integration: values, inverted partial integrals, histories.
#include "num.h"
#include "PROPOSAL/math/Integral.h"
#include <array>
#include <algorithm>
using mon::Mon; using mon::Rng; using mon::sfmt;
using PROPOSAL::Integral;
typedef long double LD;

// integrand with its antiderivative
struct Fn {
    std::string name;
    std::function<LD(LD)> f, F;
    LD inf = NAN; // F at +infinity (decaying functions)
    LD minf = NAN; // F at -infinity
    bool pos = false; // positive on its whole domain
    double lo = -1e300, hi = 1e300; // domain
    std::vector<double> bumps; // where the function varies fast
    double scale = 1; // length over which it varies
};
static Fn rfn(Rng& r, bool positive)
{
    Fn f;
    double c = r.logr(1e-8, 1e8) * (positive ? 1 : r.sgn());
    f.pos = c > 0;
    int t = r.i(0, positive ? 5 : 8);
    double s = f.scale = r.logr(1e-3, 1e3);
    LD C = c, S = s;
    switch (t) {
    case 0: { // exponential
        double k = r.sgn();
        f.name = sfmt("%g*exp(%g*x/%g)", c, k, s);
        f.f = [=](LD x) { return C * expl(k * x / S); };
        f.F = [=](LD x) { return C * S / k * expl(k * x / S); };
        if (k < 0) f.inf = 0; else f.minf = 0;
        break;
    }
    case 1: { // Lorentz
        double m = s * r.range(-2, 2);
        f.name = sfmt("%g/(1+((x-%g)/%g)^2)", c, m, s);
        f.f = [=](LD x) { LD u = (x - m) / S; return C / (1 + u * u); };
        f.F = [=](LD x) { return C * S * atanl((x - m) / S); };
        f.inf = C * S * M_PIl / 2; f.minf = -f.inf;
        f.bumps = { m };
        break;
    }
    case 2: { // power on positive arguments
        double a = r.p(0.2) ? r.i(-4, 4) : r.range(-4, 4);
        if (std::fabs(a + 1) < 1e-3) a = -1;
        f.name = sfmt("%g*(x/%g)^%.17g", c, s, a);
        f.f = [=](LD x) { return C * powl(x / S, a); };
        f.F = [=](LD x) { return a == -1 ? C * S * logl(x / S) : C * S * powl(x / S, (LD)a + 1) / ((LD)a + 1); };
        if (a < -1) f.inf = 0;
        f.lo = 0;
        break;
    }
    case 3: { // 1/(x+s)^2
        f.name = sfmt("%g/(1+|x|/%g)^2", c, s);
        f.f = [=](LD x) { LD u = 1 + x / S; return C / (u * u); };
        f.F = [=](LD x) { return -C * S / (1 + x / S); };
        f.inf = 0; f.lo = 0;
        break;
    }
    case 4: { // gaussian
        double m = s * r.range(-1, 1);
        f.name = sfmt("%g*gauss(%g,%g)", c, m, s);
        f.f = [=](LD x) { LD u = (x - m) / S; return C * expl(-u * u / 2); };
        f.F = [=](LD x) { return C * S * sqrtl(M_PIl / 2) * erfl((x - m) / S / sqrtl(2)); };
        f.inf = C * S * sqrtl(M_PIl / 2); f.minf = -f.inf;
        f.bumps = { m };
        break;
    }
    case 5: { // 1/(x(1+ln^2 x)) : decays in the logarithm
        double k = r.logr(0.3, 3);
        if (r.p(0.5)) {
            f.name = sfmt("%g/x*exp(-(ln x/%g)^2)", c, k);
            f.f = [=](LD x) -> LD { if (!(x > 0) || std::isinf(x)) return 0; LD u = logl(x) / k; return C * expl(-u * u) / x; };
            f.F = [=](LD x) { return C * k * sqrtl(M_PIl) / 2 * erfl(logl(x) / k); };
            f.inf = C * k * sqrtl(M_PIl) / 2; f.lo = 0; f.minf = -f.inf;
            break;
        }
        f.name = sfmt("%g/x/(1+(ln x/%g)^2)", c, k);
        f.f = [=](LD x) { LD u = logl(x) / k; return C / x / (1 + u * u); };
        f.F = [=](LD x) { return C * k * atanl(logl(x) / k); };
        f.inf = C * k * M_PIl / 2; f.lo = 0;
        f.scale = 1; f.minf = -f.inf; // F at zero
        break;
    }
    case 6: { // polynomial
        int n = r.i(0, 7);
        std::vector<double> a;
        for (int i = 0; i <= n; ++i) a.push_back(r.gauss());
        f.name = sfmt("%g*poly%d(x/%g)[%g..]", c, n, s, a[0]);
        f.f = [=](LD x) { LD y = 0; for (int i = n; i >= 0; --i) y = y * (x / S) + a[i]; return C * y; };
        f.F = [=](LD x) { LD y = 0; for (int i = n; i >= 0; --i) y = y * (x / S) + (LD)a[i] / (i + 1); return C * y * x; };
        f.pos = false;
        break;
    }
    case 7: { // oscillating
        double p = r.range(0, 6.3);
        f.name = sfmt("%g*sin(x/%g+%g)", c, s, p);
        f.f = [=](LD x) { return C * sinl(x / S + p); };
        f.F = [=](LD x) { return -C * S * cosl(x / S + p); };
        f.pos = false;
        break;
    }
    default: { // logarithm
        f.name = sfmt("%g*ln(x/%g)", c, s);
        f.f = [=](LD x) { return C * logl(x / S); };
        f.F = [=](LD x) { return C * (x * logl(x / S) - x); };
        f.lo = 0; f.pos = false;
    }
    }
    return f;
}
static double rprec(Rng& r) { return r.p(0.5) ? 1e-6 : r.p(0.3) ? 1e-5 : r.logr(1e-10, 1e-3); }

// integration task: method, power, limits (as given), the interval that the documentation says is meant
struct Task {
    Fn f;
    int method; double pw, a, b;
    LD truth; // the documented value
    LD area; // integral of |f|
    bool infinite = false, empty = false;
    // transformed coordinate of the method
    LD u(LD x) const
    {
        if (method >= 4) x = logl(x);
        if ((method == 3 || method == 5) && pw > 0) return powl(x, -1 / (LD)pw);
        if ((method == 3 || method == 5) && pw < 0) return -powl(-x, 1 / (LD)pw);
        return x;
    }
    LD x(LD u) const
    {
        LD y = u;
        if ((method == 3 || method == 5) && pw > 0) y = powl(u, -(LD)pw);
        if ((method == 3 || method == 5) && pw < 0) y = -powl(-u, (LD)pw);
        return method >= 4 ? expl(y) : y;
    }
    // how well ten Gauss points resolve the integrand in the variable the method works in
    LD unresolved() const
    {
        if (empty) return 0;
        LD ul, uh;
        if (infinite) {
            bool awrong = method == 3 ? (pw > 0 ? a <= 0 : a >= 0) : (pw > 0 ? a <= 1 : a >= 1);
            ul = u(awrong ? b : a); uh = 0;
        } else { ul = u(a); uh = u(b); }
        auto g = [&](LD v) {
            LD X = x(v), jac = 1, base = method >= 4 ? logl(X) : X;
            if ((method == 3 || method == 5) && pw != 0) jac = fabsl(pw * base / v);
            if (method >= 4) jac *= X;
            return f.f(X) * jac;
        };
        LD i = num::gl<8>(g, ul, uh);
        return fabsl(fabsl(i) - fabsl(truth)) / std::max(area, fabsl(truth));
    }
    std::string str() const { return sfmt("%s method %d power %g [%.17g,%.17g]", f.name.c_str(), method, pw, a, b); }
};
static LD area(const Fn& f, LD a, LD b)
{
    if (f.pos) return fabsl(f.F(b) - f.F(a));
    LD s = 0;
    int n = 400;
    for (int i = 0; i < n; ++i) s += fabsl(f.f(a + (b - a) * (i + 0.5L) / n));
    return s * fabsl(b - a) / n;
}
static Task rtask(Rng& r, bool positive, bool randomratio)
{
    for (int tries = 0; tries < 200; ++tries) {
        Task t;
        t.f = rfn(r, positive);
        if (positive && !t.f.pos) continue;
        t.method = randomratio ? r.i(3, 4) : r.i(1, 5);
        t.pw = 0;
        if ((t.method == 3 || t.method == 5) && r.p(0.6)) t.pw = r.p(0.5) ? r.i(1, 3) : r.range(0.4, 3);
        double s = t.f.scale;
        bool log = t.method >= 4, posonly = t.f.lo >= 0 || log;
        // interval: a few scales long, so that the function is smooth on it
        double a = s * r.range(-3, 3), b = r.p(0.15) ? a + s * r.logr(1e-6, 1e-1) : a + s * r.range(0.1, 4);
        if (posonly) {
            double x0 = s * r.logr(1e-2, 5);
            a = x0; b = r.p(0.15) ? x0 * (1 + r.logr(1e-6, 1e-2)) : x0 * r.range(1.05, r.p(0.3) ? 30 : 5);
            if (t.f.name.find("ln x") != std::string::npos) { a = r.logr(0.05, 20); b = a * r.range(1.05, 20); }
            if (log && t.f.name.find("exp(1") != std::string::npos) { b = std::min(b, s * 20); if (b <= a) continue; }
        }
        if (t.method == 3 && t.pw != 0) {
            // sign of the power must match the sign of the limits
            if (r.p(0.5) && !posonly) { a = -s * r.logr(0.05, 5); b = a / r.range(1.05, 8); t.pw = -t.pw; }
            else { a = s * r.logr(0.05, 5); b = a * r.range(1.05, 8); }
        }
        if (t.method == 5 && t.pw != 0) {
            if (r.p(0.5)) { b = std::exp(-r.logr(0.05, 3)); a = std::exp(std::log(b) * r.range(1.05, 8)); t.pw = -t.pw; if (a < s * 1e-4) continue; }
            else { a = std::exp(r.logr(0.05, 3)); b = std::exp(std::log(a) * r.range(1.05, 4)); }
            if (t.f.name.find("ln x") == std::string::npos && (b > s * 30 || a < s / 30)) continue;
        }
        t.a = a; t.b = b;
        LD A = a, B = b;
        t.truth = t.f.F(B) - t.f.F(A);
        t.area = area(t.f, A, B);
        // infinite ranges: the limit of the wrong sign stands for infinity
        if ((t.method == 3 || t.method == 5) && t.pw != 0 && r.p(0.5)) {
            bool ln = t.f.name.find("ln x") != std::string::npos;
            bool lorentz = t.f.name.find("/(1+((x") != std::string::npos, q = t.f.name.find("(1+|x|") != std::string::npos;
            bool ex = t.f.name.find("exp(-1") != std::string::npos;
            if (t.method == 3) {
                if (t.pw > 0 && !std::isnan((double)t.f.inf) && (lorentz || q || ex)) {
                    t.pw = r.p(0.7) ? 1 : 2; // smooth at infinity
                    if (ex) { t.a = s * r.range(0.5, 2); t.pw = 1; }
                    t.b = r.p(0.5) ? 0 : -r.logr(1e-3, 1e3);
                    t.truth = t.f.inf - t.f.F(t.a);
                    t.infinite = true;
                } else if (t.pw < 0 && lorentz) {
                    t.pw = r.p(0.7) ? -1 : -2;
                    t.a = r.p(0.5) ? 0 : r.logr(1e-3, 1e3);
                    t.truth = t.f.F(t.b) - t.f.minf;
                    t.infinite = true;
                }
            } else if (ln && t.f.name.find("exp") != std::string::npos) {
                if (t.pw > 0) { t.pw = 1; t.b = r.p(0.5) ? 1 : r.range(0.01, 0.99); t.truth = t.f.inf - t.f.F(t.a); t.infinite = true; }
                else { t.pw = -1; t.a = r.p(0.5) ? 1 : r.range(1.01, 100); t.truth = t.f.F(t.b) - t.f.minf; t.infinite = true; }
            }
            if (t.infinite) {
                t.area = fabsl(t.truth);
                if (r.p(0.5)) { std::swap(t.a, t.b); t.truth = -t.truth; }
                return t;
            }
        }
        // both limits on the wrong side: nothing to integrate
        if (randomratio ? (t.method == 3 && t.pw != 0 && r.p(0.03)) : ((t.method == 3 || t.method == 5) && t.pw != 0 && r.p(0.05))) {
            t.pw = -t.pw;
            t.empty = true;
            t.truth = t.area = 0;
        }
        if (r.p(0.5)) { std::swap(t.a, t.b); t.truth = -t.truth; }
        return t;
    }
    throw mon::Skip();
}
struct Counted {
    std::shared_ptr<uint64_t> n = std::make_shared<uint64_t>(0);
    std::function<LD(LD)> f;
    double operator()(double x) const { ++*n; return (double)f(x); }
};

PROP(I01)
{
    m.cases("value", 12000, 400000, [&](Rng& r) {
        Task t = rtask(r, false, false);
        double prec = rprec(r);
        Integral I(r.p(0.7) ? 5 : r.i(5, 7), r.p(0.6) ? 20 : r.i(1, 40), prec);
        Counted f; f.f = t.f.f;
        m.describe(t.str() + sfmt(" prec %g romberg %d", prec, I.GetRomberg()));
        double got = I.Integrate(t.a, t.b, f, t.method, t.pw);
        m.note(sfmt("method %d%s%s%s", t.method, t.pw > 0 ? " power+" : t.pw < 0 ? " power-" : "", t.infinite ? " infinite" : "", t.empty ? " empty" : ""));
        m.sample(t.str() + sfmt(" -> %.15g expected %.15g after %lu evaluations", got, (double)t.truth, (unsigned long)*f.n));
        if (t.empty) { m.check(got == 0, "both limits infinite", sfmt("got %g", got)); return; }
        bool fallback = *f.n > (t.method == 1 ? 2049u : 177147u);
        if (fallback) m.note("fallback to the adaptive method");
        double p = fallback ? std::max(prec, 1e-6) : prec;
        m.nontrivial();
        double scale = (double)std::max(t.area, fabsl(t.truth));
        // rounding of the limits in the transformed variable
        LD unres = t.unresolved();
        if (!(unres < 1e-7L)) { // not resolved by a few points: the extrapolation may stop too early, only the order of magnitude is judged
            m.note("not smooth enough for the promised precision");
            if (unres < 1e-3L) m.close(got, (double)t.truth, 0, 0.05 * scale + 1e-15 * (double)(fabsl(t.f.F(std::max(t.a, 1e-300))) + fabsl(t.f.F(std::max(t.b, 1e-300)))), "value, rough");
            return;
        }
        m.note("smooth");
        double trounding = t.infinite ? 0 : 1e-15 * (double)(fabsl(t.f.F(t.a)) + fabsl(t.f.F(t.b)));
        if (trounding > 1e-9 * scale) { m.note("reference too inexact"); return; }
        double base = 2e-11 + (t.a != t.b ? 1e-14 * std::max(std::fabs(t.a), std::fabs(t.b)) / std::fabs(t.b - t.a) : 0);
        m.close(got, (double)t.truth, 0, scale * (30 * p + base), t.infinite ? "value to infinity" : "value");
        // exact antisymmetry
        Counted g; g.f = t.f.f;
        double rev = I.Integrate(t.b, t.a, g, t.method, t.pw);
        m.check(rev == -got, "sign when limits are swapped", sfmt("%.17g and %.17g", got, rev));
        // equal limits
        double z = I.Integrate(t.a, t.a, g, t.method, 0);
        m.check(z == 0, "equal limits", sfmt("got %g", z));
        // additive
        if (!t.infinite) {
            double c = t.a + (t.b - t.a) * r.u();
            double i1 = I.Integrate(t.a, c, g, t.method, t.pw), i2 = I.Integrate(c, t.b, g, t.method, t.pw);
            double pp = std::max(p, 1e-6);
            m.close(i1 + i2, got, 0, scale * (60 * pp + base), "additive");
        }
    });
    m.cases("hard", 600, 20000, [&](Rng& r) {
        // integrands on which the extrapolation gives up: end point singularities, kinks, steps; the adaptive fallback has to answer
        int k = r.i(0, 4);
        double a = r.range(-2, 2), w = r.logr(1e-2, 1e2), b = a + w, c = a + w * r.range(0.05, 0.95), e = r.range(0.1, 0.6);
        std::function<LD(LD)> f;
        LD tr;
        if (k == 0) { f = [=](LD x) { return powl((x - a) / w, -(LD)e); }; tr = w / (1 - (LD)e); }
        else if (k == 1) { f = [=](LD x) { return x < c ? 1.L : 3.L; }; tr = (c - (LD)a) + 3 * (b - (LD)c); }
        else if (k == 2) { f = [=](LD x) { return fabsl(x - c) / w; }; tr = ((c - (LD)a) * (c - (LD)a) + (b - (LD)c) * (b - (LD)c)) / 2 / w; }
        else if (k == 3) { f = [=](LD x) { return sqrtl(fabsl(x - c) / w); }; tr = (powl(c - (LD)a, 1.5L) + powl(b - (LD)c, 1.5L)) / 1.5L / sqrtl(w); }
        else { double q = w * r.logr(1e-4, 1e-2); f = [=](LD x) { LD u = (x - c) / q; return 1 + 1 / (1 + u * u); }; tr = w + q * (atanl((b - c) / (LD)q) - atanl((a - c) / (LD)q)); }
        Counted g; g.f = f;
        int meth = r.i(k == 0 ? 2 : 1, 3);
        double prec = r.logr(1e-7, 1e-4);
        Integral I(5, 20, prec);
        m.describe(sfmt("hard kind %d [%.17g,%.17g] c %.17g e %g method %d prec %g", k, a, b, c, e, meth, prec));
        double got = I.Integrate(a, b, g, meth, 0);
        m.note(sfmt("hard kind %d", k));
        if (*g.n > (meth == 1 ? 2049u : 177147u)) m.note("hard: fallback used"); else m.note("hard: converged");
        m.nontrivial();
        // not smooth: no promise of the requested precision, but the answer has to be sensible
        m.close(got, (double)tr, 0.2, 0, "value of a non-smooth integrand");
        if (*g.n > (meth == 1 ? 2049u : 177147u)) m.close(got, (double)tr, 1e-3, 0, "value from the adaptive fallback");
    });
    m.cases("invalid", 300, 3000, [&](Rng& r) {
        Integral I;
        Fn f = rfn(r, false);
        std::function<double(double)> g = [&](double x) { return (double)f.f(x); };
        double a = r.range(-3, 0), b = r.p(0.5) ? r.range(0, 3) : r.range(-3, 0);
        if (r.p(0.3)) a = 0;
        m.describe(sfmt("%s [%g,%g]", f.name.c_str(), a, b));
        for (int meth : { 4, 5 }) {
            m.check(I.Integrate(a, b, g, meth, r.range(-2, 2)) == 0 && I.Integrate(b, a, g, meth, 0) == 0, "logarithmic limits", "non-zero result for limits that are not positive");
        }
        bool thrown = false;
        try { I.IntegrateWithRandomRatio(a, b, g, 4, 0.5); } catch (const std::invalid_argument&) { thrown = true; }
        if (!(a == 0 && b == 0)) m.check(thrown, "logarithmic limits with share", "accepted");
        m.check(I.Integrate(0, 0, g, r.i(1, 5), 0) == 0, "zero to zero", "non-zero");
        m.nontrivial();
    });
}

PROP(I02)
{
    m.cases("share", 8000, 300000, [&](Rng& r) {
        Task t = rtask(r, true, true);
        double prec = r.p(0.6) ? 1e-6 : r.logr(1e-8, 1e-4);
        Integral I(5, r.p(0.6) ? 20 : r.i(20, 60), prec);
        int kind = r.i(0, 9);
        double q = kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? r.logr(1e-6, 1e-1) : kind == 3 ? 1 - r.logr(1e-6, 1e-1) : kind == 4 ? 1 + r.u() : r.u();
        double ratio = q;
        bool absolute = q > 0 && r.p(0.4);
        if (absolute) ratio = -q * (double)t.area;
        Counted f; f.f = t.f.f;
        m.describe(t.str() + sfmt(" prec %g share %.17g%s", prec, q, absolute ? " absolute" : ""));
        double got = I.IntegrateWithRandomRatio(t.a, t.b, f, t.method, ratio, t.pw);
        if (t.empty) { m.check(got == 0, "both limits infinite", sfmt("got %g", got)); return; }
        m.note(sfmt("method %d%s%s%s%s", t.method, t.pw > 0 ? " power+" : t.pw < 0 ? " power-" : "", t.infinite ? " infinite" : "", t.truth < 0 ? " reversed" : "", absolute ? " absolute" : ""));
        bool fallback = *f.n > 177147u;
        double p = fallback ? std::max(prec, 1e-6) : prec;
        double scale = (double)t.area;
        double base = 2e-11 + 1e-14 * std::max(std::fabs(t.a), std::fabs(t.b)) / std::fabs(t.b - t.a);
        LD unres = t.unresolved();
        if (!(unres < 1e-7L)) { m.note("not smooth enough for the promised precision"); return; }
        m.close(got, (double)t.truth, 0, scale * (30 * p + base), "value");
        double x = I.GetUpperLimit();
        m.sample(t.str() + sfmt(" share %.6g -> limit %.12g", ratio, x));
        m.nontrivial();
        // ends of the documented interval (infinite ones replaced)
        bool fromInf = false, toInf = false;
        if (t.infinite) {
            LD w = t.method == 3 ? (t.pw > 0 ? 1 : -1) : 0;
            fromInf = t.a * w <= 0; toInf = t.b * w <= 0;
        }
        double lo = std::min(t.a, t.b), hi = std::max(t.a, t.b);
        if (t.infinite) { if (t.pw > 0) { lo = hi; hi = INFINITY; } else { hi = lo; lo = -INFINITY; } }
        double slack = 1e-12 * (std::fabs(x) + std::min(std::fabs(lo), std::fabs(hi)));
        // exact one-sided share 1 at infinity comes out as a very large number or infinity
        if (!m.check(x >= lo - slack && x <= hi + slack, "limit outside the interval", sfmt("limit %.17g", x))) return;
        double qc = std::min(q, 1.);
        // integral from a to x
        LD Fa = fromInf ? (t.pw > 0 ? t.f.inf : t.f.minf) : t.f.F(t.a);
        auto part = [&](LD u) -> LD { // share up to transformed coordinate u
            LD ul = t.u(t.infinite ? (t.pw > 0 ? lo : hi) : lo), uh = t.u(t.infinite ? (t.pw > 0 ? lo : hi) : hi);
            if (t.infinite) { if (t.pw > 0) { ul = 0; } else { uh = 0; } }
            if (ul > uh) std::swap(ul, uh);
            u = std::min(std::max(u, ul), uh);
            LD Fx;
            if (t.infinite && u == 0) Fx = t.pw > 0 ? t.f.inf : t.f.minf;
            else Fx = t.f.F(t.x(u));
            return fabsl(Fx - Fa) / t.area;
        };
        if (q == 0 || (q == 1 && !absolute)) {
            double want = q == 0 ? t.a : t.b;
            bool inf = q == 0 ? fromInf : toInf;
            if (!inf) m.close(x, want, 1e-9, absolute ? std::fabs(t.b - t.a) * 1e-3 : std::fabs(t.b - t.a) * 1e-9, q == 0 ? "share zero" : "share one");
        }
        LD u = t.infinite && std::isinf(x) ? 0 : t.u(x);
        // the refinement stops when its step in the transformed variable is below the precision, or after its maximal number of steps
        LD ulo = t.infinite ? 0 : t.u(lo), uhi = t.infinite ? t.u(t.pw > 0 ? lo : hi) : t.u(hi);
        LD du = 2.5L * prec + fabsl(uhi - ulo) * powl(2, -I.GetMaxStepsUpperLimit() + 1) + 1e-14L * fabsl(u);
        LD p1 = part(u - du), p2 = part(u + du);
        LD tol = 30 * p + 2 * base;
        m.worst("share deviation", (double)fabsl(part(u) - qc));
        m.check(qc >= std::min(p1, p2) - tol && qc <= std::max(p1, p2) + tol, absolute ? "absolute share" : "share", sfmt("limit %.17g carries %.12Lg of the integral, asked for %.12g", x, part(u), qc));
        // asking again gives the same answer
        double x2 = I.GetUpperLimit();
        LD u2 = t.infinite && std::isinf(x2) ? 0 : t.u(x2);
        m.check(fabsl(u2 - u) <= 2 * du || fabsl(part(u2) - part(u)) <= 2 * tol, "asked twice", sfmt("%.17g then %.17g", x, x2));
        // monotone in the share
        double q2 = qc * r.u();
        Integral J(5, 20, prec);
        J.IntegrateWithRandomRatio(t.a, t.b, f, t.method, q2, t.pw);
        double y = J.GetUpperLimit();
        LD uy = t.infinite && std::isinf(y) ? 0 : t.u(y);
        m.check(part(uy - du) <= p2 + tol || part(uy + du) <= p2 + tol || part(uy) <= std::max(p1, p2) + tol, "monotone", sfmt("share %.12g gives %.17g, share %.12g gives %.17g", q2, y, qc, x));
    });
    m.cases("negative integrand", 800, 30000, [&](Rng& r) {
        // the sign of an absolute share is that of the whole integral
        Task t = rtask(r, true, true);
        if (t.infinite || t.empty || !(t.unresolved() < 1e-7L)) throw mon::Skip();
        Counted f; auto g = t.f.f; f.f = [=](LD x) { return -g(x); };
        double q = r.range(0.05, 0.95);
        Integral I(5, 30, 1e-6);
        bool absolute = r.p(0.5);
        m.describe(t.str() + sfmt(" negated, share %.17g absolute %d", q, absolute));
        double got = I.IntegrateWithRandomRatio(t.a, t.b, f, t.method, absolute ? -q * (double)t.area : q, t.pw);
        m.close(got, -(double)t.truth, 3e-5, 0, "value");
        double x = I.GetUpperLimit();
        m.nontrivial();
        LD u = t.u(x), du = 2.5e-6L + fabsl(t.u(t.b) - t.u(t.a)) * 1e-8L;
        LD ua = std::min(t.u(t.a), t.u(t.b)), ub = std::max(t.u(t.a), t.u(t.b));
        auto part = [&](LD v) { return fabsl(t.f.F(t.x(std::min(std::max(v, ua), ub))) - t.f.F(t.a)) / t.area; };
        LD p1 = part(u - du), p2 = part(u + du);
        m.check(q >= std::min(p1, p2) - 3e-5 && q <= std::max(p1, p2) + 3e-5, absolute ? "absolute share" : "share", sfmt("limit %.17g carries %.12Lg", x, part(u)));
    });
    m.cases("equal limits", 400, 4000, [&](Rng& r) {
        double a = r.p(0.2) ? 0 : r.logr(1e-6, 1e6);
        int meth = a > 0 ? r.i(3, 4) : 3;
        Integral I;
        std::function<double(double)> one = [](double) { return 1.; };
        if (r.p(0.5)) { I.IntegrateWithRandomRatio(1, 2, one, meth, 0.5); I.GetUpperLimit(); }
        m.describe(sfmt("[%.17g,%.17g] method %d", a, a, meth));
        m.check(I.IntegrateWithRandomRatio(a, a, one, meth, r.u(), r.p(0.5) ? 1 : 0) == 0, "value", "non-zero");
        m.check(I.GetUpperLimit() == a, "limit", "differs from the only point");
        m.nontrivial();
    });
}

namespace {
struct Settings { int romberg, steps, refine, mr, mu; double prec; };
struct Call { bool valid = false; int method; double a, b, pw, ratio; int fn; };
struct Spec { Settings s; Call last; int asked = 0; bool odd = false; };
}
PROP(I03)
{
    m.cases("history", 2500, 100000, [&](Rng& r) {
        // integrands live on the heap and are never freed early: a stale reference to a closure is seen by the sanitizer,
        // a stale closure by its results
        std::vector<std::function<double(double)>> fns;
        int nf = r.i(1, 4);
        std::string names;
        std::vector<bool> notfinite;
        for (int i = 0; i < nf; ++i) {
            int k = r.i(0, 11);
            notfinite.push_back(k == 6 || k == 10 || k == 4 || k == 8);
            auto data = std::make_shared<std::vector<double>>(3);
            for (auto& v : *data) v = r.range(0.2, 3);
            names += sfmt("f%d=%d(%g,%g,%g) ", i, k, (*data)[0], (*data)[1], (*data)[2]);
            fns.push_back([data, k](double x) -> double {
                auto& d = *data;
                switch (k) {
                case 0: return d[0] * std::exp(-d[1] * x);
                case 1: return d[0] / (1 + d[1] * x * x);
                case 2: return std::fabs(x - d[0]);
                case 3: return x > d[0] ? d[1] : -d[2];
                case 4: return 1 / std::sqrt(std::fabs(x - d[0]));
                case 5: return std::sin(40 * x * d[0]) ;
                case 6: return x > d[0] ? NAN : 1.;
                case 7: return 0.;
                case 8: return 1 / (x - d[0]);
                case 9: return (x * 1e6 - std::floor(x * 1e6)) - 0.5;
                case 10: return INFINITY * d[0];
                default: return d[0] + d[1] * x;
                }
            });
        }
        auto mk = [&] { Settings s; s.romberg = r.p(0.5) ? 5 : r.i(1, 14); s.steps = r.p(0.4) ? 20 : r.i(1, 30); s.prec = r.logr(1e-12, 1e-2); s.refine = 2; s.mr = 12; s.mu = s.steps; return s; };
        auto build = [](const Settings& s) {
            auto I = std::make_unique<Integral>(s.romberg, s.steps, s.prec);
            if (s.refine != 2) I->SetRomberg4refine(s.refine);
            if (s.mr != 12) I->SetMaxStepsRomberg(s.mr);
            if (s.mu != s.steps) I->SetMaxStepsUpperLimit(s.mu);
            return I;
        };
        std::vector<std::unique_ptr<Integral>> obj;
        std::vector<Spec> spec;
        auto add = [&] { Spec s; s.s = mk(); spec.push_back(s); obj.push_back(std::make_unique<Integral>(s.s.romberg, s.s.steps, s.s.prec)); };
        add(); if (r.p(0.5)) add();
        std::string log = names;
        auto same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
        int ops = r.i(3, 14);
        for (int o = 0; o < ops; ++o) {
            size_t i = r.i(0, obj.size() - 1), j = r.i(0, obj.size() - 1);
            int what = r.i(0, 11);
            if (what <= 5) {
                Call c; c.valid = true;
                c.fn = r.i(0, nf - 1);
                bool ratio = r.p(0.5);
                c.method = ratio ? r.i(3, 4) : r.i(1, 5);
                c.a = r.p(0.1) ? 0 : r.range(c.method >= 4 ? 0.05 : -3, 4);
                c.b = r.p(0.1) ? c.a : r.p(0.05) ? 0 : r.range(c.method >= 4 ? 0.05 : -3, 4);
                c.pw = (c.method == 3 || c.method == 5) && r.p(0.5) ? r.range(-2, 2) : 0;
                c.ratio = ratio ? (r.p(0.2) ? r.i(0, 1) : r.p(0.3) ? -r.range(0, 3) : r.range(0, 1.1)) : -99;
                log += sfmt("| %zu: %s f%d method %d [%.17g,%.17g] pw %.17g ratio %.17g ", i, ratio ? "ratio" : "integrate", c.fn, c.method, c.a, c.b, c.pw, c.ratio);
                m.describe(log);
                if (notfinite[c.fn] || c.pw != 0) spec[i].odd = true; // tables may hold NaN, which never compares equal
                auto fresh = build(spec[i].s);
                auto go = [&](Integral& I) -> double {
                    try { return ratio ? I.IntegrateWithRandomRatio(c.a, c.b, fns[c.fn], c.method, c.ratio, c.pw) : I.Integrate(c.a, c.b, fns[c.fn], c.method, c.pw); }
                    catch (const std::invalid_argument&) { return -12345; }
                };
                double x = go(*obj[i]), y = go(*fresh);
                m.note(ratio ? "integrals with share compared" : "integrals compared");
                m.check(same(x, y), "used and fresh integrator differ", sfmt("used %.17g fresh %.17g", x, y));
                m.nontrivial();
                if (x == -12345) spec[i].last.valid = false; // rejected
                else { spec[i].last = c; spec[i].last.valid = ratio; }
                spec[i].asked = 0;
                if (!ratio && c.a == 0 && c.b == 0) spec[i].last.valid = false;
            } else if (what == 6 || what == 7) {
                Spec& s = spec[i];
                if (!s.last.valid) continue;
                log += sfmt("| %zu: upper limit ", i);
                m.describe(log);
                auto fresh = build(s.s);
                fresh->IntegrateWithRandomRatio(s.last.a, s.last.b, fns[s.last.fn], s.last.method, s.last.ratio, s.last.pw);
                for (int k = 0; k < s.asked; ++k) fresh->GetUpperLimit();
                double y = fresh->GetUpperLimit(), x = obj[i]->GetUpperLimit();
                ++s.asked;
                m.note("upper limits compared");
                m.check(same(x, y), "upper limit of used and fresh integrator differ", sfmt("used %.17g fresh %.17g", x, y));
            } else if (what == 8) {
                log += sfmt("| copy %zu ", i); m.describe(log);
                obj.push_back(std::make_unique<Integral>(*obj[i])); spec.push_back(spec[i]);
                m.check(spec[i].odd || (*obj.back() == *obj[i] && !(*obj.back() != *obj[i])), "copy compares different", "");
                m.note("copies");
            } else if (what == 9) {
                log += sfmt("| %zu = %zu ", i, j); m.describe(log);
                *obj[i] = *obj[j]; spec[i] = spec[j];
                m.note("assignments");
            } else if (what == 10) {
                if (r.p(0.5)) {
                    log += sfmt("| swap %zu %zu ", i, j); m.describe(log);
                    obj[i]->swap(*obj[j]); std::swap(spec[i], spec[j]);
                    m.note("swaps");
                } else if (obj.size() > 1) {
                    log += sfmt("| destroy %zu ", i); m.describe(log);
                    obj.erase(obj.begin() + i); spec.erase(spec.begin() + i);
                    m.note("destroyed");
                }
            } else {
                Settings& s = spec[i].s;
                int w = r.i(0, 4);
                if (spec[i].last.valid) spec[i].last.valid = false; // a changed setting changes the pending answer
                if (w == 0) { s.romberg = r.i(1, 14); obj[i]->SetRomberg(s.romberg); }
                if (w == 1) { s.refine = r.i(2, 8); obj[i]->SetRomberg4refine(s.refine); }
                if (w == 2) { s.mr = r.i(1, 13); obj[i]->SetMaxStepsRomberg(s.mr); }
                if (w == 3) { s.mu = r.i(1, 30); obj[i]->SetMaxStepsUpperLimit(s.mu); }
                if (w == 4) { s.prec = r.logr(1e-10, 1e-2); obj[i]->SetPrecision(s.prec); }
                log += sfmt("| %zu: set%d ", i, w); m.describe(log);
                m.note("settings changed");
            }
        }
        m.sample(log.substr(0, 600));
    });
    m.cases("throwing integrand", 500, 20000, [&](Rng& r) {
        // an exception out of the integrand leaves a usable integrator
        Integral I(5, 20, 1e-6), J(5, 20, 1e-6);
        int n = 0, at = r.i(1, 300);
        std::function<double(double)> bad = [&](double x) -> double { if (++n >= at) throw std::runtime_error("x"); return std::exp(-x); };
        std::function<double(double)> good = [](double x) { return 1 / (1 + x); };
        int meth = r.i(1, 5);
        m.describe(sfmt("method %d throws at call %d", meth, at));
        try { if (meth >= 3 && meth <= 4 && r.p(0.5)) I.IntegrateWithRandomRatio(1, 9, bad, meth, r.u()); else I.Integrate(1, 9, bad, meth, 0); }
        catch (const std::runtime_error&) { m.note("integrand threw"); m.nontrivial(); }
        double a = r.range(0.1, 3), b = r.range(0.1, 3), q = r.u();
        int me = r.i(1, 5);
        m.check(I.Integrate(a, b, good, me, 0) == J.Integrate(a, b, good, me, 0), "used and fresh integrator differ", "after an exception");
        m.check(I.IntegrateWithRandomRatio(a, b, good, 4, q) == J.IntegrateWithRandomRatio(a, b, good, 4, q) && I.GetUpperLimit() == J.GetUpperLimit(), "used and fresh integrator differ", "after an exception, share");
    });
}
int main(int c, char** v) { return mon::run(c, v); }
