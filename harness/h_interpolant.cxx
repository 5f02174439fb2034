// T01, T02: interpolation tables.
#include "num.h"
#include <csignal>
#include <climits>
#include <cstring>
#include <fstream>
#include <sys/resource.h>
#include <unistd.h>
#include "PROPOSAL/math/Interpolant.h"
using namespace PROPOSAL;
using mon::Rng;
using mon::sfmt;
typedef long double LD;
typedef std::vector<double> V;

static int sg(double x) { return (x > 0) - (x < 0); }
// Lebesgue function of the window [s, s+n) at x
static LD lebesgue(const V& X, int s, int n, LD x)
{
    LD sum = 0;
    for (int i = s; i < s + n; ++i) {
        LD l = 1;
        for (int j = s; j < s + n; ++j) if (j != i) l *= (x - X[j]) / ((LD)X[i] - X[j]);
        sum += fabsl(l);
    }
    return sum;
}
// A window that a sensible order-n interpolation may use at x: contiguous, holding one of the two nodes next to x
// in its middle part (within one of the centred position), shifted inwards at the ends.
static std::vector<int> windows(const V& X, int n, LD x)
{
    int m = X.size(), k = 0;
    bool up = X.back() > X.front();
    while (k < m && (up ? X[k] < x : X[k] > x)) ++k; // nodes k-1 and k enclose x
    std::vector<int> w;
    for (int s = k - n / 2 - 1; s <= k - n / 2 + 1; ++s) w.push_back(std::max(0, std::min(s, m - n)));
    return w;
}
struct Bound { LD leb = 0, prod = 0; };
static Bound bound(const V& X, int n, LD x)
{
    Bound b;
    for (int s : windows(X, n, x)) {
        b.leb = std::max(b.leb, lebesgue(X, s, n, x));
        LD p = 1;
        for (int i = s; i < s + n; ++i) p *= fabsl(x - X[i]) / (i - s + 1);
        b.prod = std::max(b.prod, p);
    }
    return b;
}

struct Axis1 {
    int max; double lo, hi; bool log;
    LD c, w; // t = (axis coordinate - c) / w lies in [-1, 1]
    LD coord(LD x) const { return log ? logl(x) : x; }
    LD t(LD x) const { return (coord(x) - c) / w; }
    double step() const { return ((log ? std::log(hi) - std::log(lo) : hi - lo)) / max; }
    V nodes() const { V v; double a = log ? std::log(lo) : lo; for (int i = 0; i < max; ++i) v.push_back(a + step() * (i + 0.5)); return v; }
    double node(int i) const { double a = (log ? std::log(lo) : lo) + step() * (i + 0.5); return log ? std::exp(a) : a; }
    double at(double k) const { double a = (log ? std::log(lo) : lo) + step() * k; return log ? std::exp(a) : a; }
    std::string str() const { return sfmt("%d %s nodes [%.17g,%.17g]", max, log ? "log" : "lin", lo, hi); }
};
static Axis1 raxis(Rng& r, int minnodes = 1)
{
    Axis1 a;
    a.log = r.p(0.5);
    a.max = std::max(minnodes, r.p(0.3) ? (int)r.i(1, 8) : r.p(0.7) ? (int)r.i(5, 40) : (int)r.i(40, 200));
    if (a.log) { a.lo = r.logr(1e-3, 1e6); a.hi = a.lo * r.logr(1.5, 1e12); if (r.p(0.1)) a.lo = 1, a.hi = 1e9; }
    else { a.lo = r.p(0.3) ? 0 : r.sgn() * r.logr(1e-3, 1e3); a.hi = a.lo + r.logr(1e-1, 1e4); if (r.p(0.05)) a.hi = a.lo < 0 ? -a.lo : a.hi; }
    LD x = a.coord(a.lo), y = a.coord(a.hi);
    a.c = (x + y) / 2; a.w = (y - x) / 2;
    return a;
}
// a query inside the table, near and at the ends, or up to a step outside
static double rquery(Rng& r, const Axis1& a, bool& node)
{
    node = false;
    double k = r.p(0.15) ? 0 : r.p(0.15) ? a.max : r.range(0, a.max);
    if (r.p(0.15)) { int i = r.p(0.3) ? (r.p(0.5) ? 0 : a.max - 1) : (int)r.i(0, a.max - 1); node = true; return a.node(i); }
    if (r.p(0.05)) k = r.range(-1, 0); else if (r.p(0.05)) k = a.max + r.u();
    return a.at(k);
}
struct Poly { V c; LD operator()(LD t) const { LD s = 0; for (size_t i = c.size(); i-- > 0;) s = s * t + c[i]; return s; } };
static Poly rpoly(Rng& r, int n, double scale) { Poly p; for (int i = 0; i < n; ++i) p.c.push_back(scale * r.range(-1, 1) * (r.p(0.1) ? 0 : 1)); return p; }

PROP(T01)
{
    m.cases("polynomial", 20000, 1000000, [&](Rng& r) {
        Axis1 a = raxis(r);
        int n = std::min(a.max, (int)r.i(1, 7)), ny = (int)r.i(1, 5);
        bool ls = r.p(0.4);
        Poly P = rpoly(r, n, ls ? r.logr(0.1, 20) : r.logr(1e-3, 1e6));
        auto f = [&](double x) -> double { LD v = P(a.t(x)); return ls ? (double)expl(v) : (double)v; };
        Interpolant I(a.max, a.lo, a.hi, f, n, false, r.p(0.5), a.log, ny, r.p(0.5), r.p(0.5), ls);
        m.describe(sfmt("%s order %d degree<%d%s", a.str().c_str(), n, n, ls ? " log values" : ""));
        V X = a.nodes();
        LD big = 0;
        for (double x : X) big = std::max(big, fabsl(P((x - a.c) / a.w)));
        for (int q = 0; q < 8; ++q) {
            bool node; double x = rquery(r, a, node);
            double got = I.Interpolate(x);
            LD want = P(a.t(x));
            Bound b = bound(X, n, a.coord(x));
            // rounding of values, of the axis coordinate (in units of the table) and of the recursion
            LD ex = (4e-16L + 2.3e-16L * a.max) * (fabsl(a.coord(x)) + fabsl(a.c) + a.w) / a.w;
            LD tol = b.leb * big * n * (3e-15L + 2 * n * n * ex) + 1e-300L;
            m.nontrivial(r.next());
            if (ls) {
                if (want < -290 || want > 700) continue;
                LD e = fabsl(logl((LD)got) - want);
                m.check(got > 0 && e <= tol + 1e-15L, node ? "node" : "value", sfmt("at %.17g: got %.17g expected %.17Lg", x, got, expl(want)));
            } else {
                m.worst("polynomial error / tolerance", (double)(fabsl(got - want) / tol));
                m.check(fabsl(got - want) <= tol, node ? "node" : "value", sfmt("at %.17g: got %.17g expected %.17Lg tol %Lg", x, got, want, tol));
            }
            if (node) m.note("queries at a node");
        }
        m.sample(m.desc);
        m.note(sfmt("1d order %d %s %s", n, a.log ? "log axis" : "linear axis", ls ? "log values" : "plain"));
    });
    m.cases("smooth", 20000, 1000000, [&](Rng& r) {
        Axis1 a = raxis(r, 4);
        int n = std::min(a.max, (int)r.i(1, 7));
        bool rat = r.p(0.3);
        // f = off + sin(k t + p) (in units of the axis) or exp(k t): all derivatives are bounded by k^n
        double kh = r.logr(1e-3, 1.5), k = kh * a.max / 2, ph = r.range(0, 6), off = r.p(0.5) ? 0 : 3;
        bool ls = off > 0 && r.p(0.4);
        auto F = [&](LD t) { return off + sinl(k * t + ph); };
        if (rat) { n = std::max(3, std::min(n, 5)); n = std::min(n, a.max); kh = std::min(kh, 0.2); k = kh * a.max / 2; off = 0; ls = false; }
        auto G = [&](LD t) { return rat ? expl(k * (t - 1)) : F(t); };
        Interpolant I(a.max, a.lo, a.hi, [&](double x) { LD v = G(a.t(x)); return (double)(ls ? expl(v) : v); }, n, rat, r.p(0.5), a.log, 2, false, false, ls);
        m.describe(sfmt("%s order %d %s k=%.17g per step %.3g offset %g%s", a.str().c_str(), n, rat ? "rational exp" : "sine", k, kh, off, ls ? " log values" : ""));
        V X = a.nodes(), T;
        for (double x : X) T.push_back((x - a.c) / a.w);
        for (int q = 0; q < 8; ++q) {
            bool node; double x = rquery(r, a, node);
            LD t = a.t(x);
            double got = I.Interpolate(x);
            LD want = G(t);
            LD ex = (4e-16L + 2.3e-16L * a.max) * (fabsl(a.coord(x)) + fabsl(a.c) + a.w) / a.w;
            m.nontrivial(r.next());
            if (rat) {
                // no rigorous bound: within a thousand times the polynomial's error term
                Bound b = bound(T, n, t);
                LD tol = want * (1e3L * b.prod * powl(k, n) + 1e-11L + 10 * k * ex);
                m.worst("rational error / tolerance", (double)(fabsl(got - want) / tol));
                if (t < -1 || t > 1) continue;
                m.check(fabsl(got - want) <= tol, "rational", sfmt("at %.17g: got %.17g expected %.17Lg tol %Lg", x, got, want, tol));
                continue;
            }
            Bound b = bound(T, n, t);
            LD tol = b.prod * powl(k, n) * 1.0001L + b.leb * (off + 1) * n * (3e-15L + (k + n * n) * ex);
            LD g = ls ? logl((LD)got) : (LD)got;
            m.worst("sine error / rigorous bound", (double)(fabsl(g - want) / tol));
            m.check(fabsl(g - want) <= tol, node ? "node" : "value", sfmt("at %.17g: got %.17Lg expected %.17Lg bound %Lg", x, g, want, tol));
        }
        if (rat) m.note("rational tables");
    });
    m.cases("fraction", 8000, 400000, [&](Rng& r) {
        // (a + b t) / (1 + c t) is reproduced by rational interpolation of order 3
        Axis1 a = raxis(r, 3);
        double A = r.range(-5, 5), B = r.range(-5, 5), C = r.range(-0.8, 0.8);
        auto G = [&](LD t) { return (A + B * t) / (1 + C * t); };
        Interpolant I(a.max, a.lo, a.hi, [&](double x) { return (double)G(a.t(x)); }, 3, true, r.p(0.5), a.log, 2, false, false, false);
        m.describe(sfmt("%s (%.17g+%.17g t)/(1+%.17g t)", a.str().c_str(), A, B, C));
        if (fabsl(B - A * C) < 0.1) throw mon::Skip();
        for (int q = 0; q < 6; ++q) {
            bool node; double x = rquery(r, a, node);
            LD t = a.t(x);
            if (t < -1 || t > 1) continue;
            double got = I.Interpolate(x);
            LD h = 2.0L / a.max, ex = 1e-15L * (fabsl(a.coord(x)) + fabsl(a.c) + a.w) / a.w;
            LD tol = 40 * (1 + 5) * (1e-15L + ex) / h * 40;
            m.nontrivial(r.next());
            m.check(fabsl(got - G(t)) <= tol, "value", sfmt("at %.17g: got %.17g expected %.17Lg tol %Lg", x, got, G(t), tol));
        }
    });
    m.cases("two dimensions", 6000, 300000, [&](Rng& r) {
        Axis1 a = raxis(r), b = raxis(r);
        a.max = std::min(a.max, 40); b.max = std::min(b.max, 60);
        int n1 = std::min(a.max, (int)r.i(1, 5)), n2 = std::min(b.max, (int)r.i(1, 5));
        bool ls = r.p(0.4);
        std::vector<Poly> P, Q;
        for (int i = 0; i < 3; ++i) P.push_back(rpoly(r, n1, 2)), Q.push_back(rpoly(r, n2, 2));
        auto G = [&](LD s, LD t) { LD v = 0; for (int i = 0; i < 3; ++i) v += P[i](s) * Q[i](t); return v; };
        Interpolant I(a.max, a.lo, a.hi, b.max, b.lo, b.hi, [&](double x, double y) { LD v = G(a.t(x), b.t(y)); return (double)(ls ? expl(v) : v); },
            n1, false, r.p(0.5), a.log, n2, false, r.p(0.5), b.log, (int)r.i(1, 4), false, false, ls);
        m.describe(sfmt("%s x %s orders %d %d%s", a.str().c_str(), b.str().c_str(), n1, n2, ls ? " log values" : ""));
        V X = a.nodes(), Y = b.nodes();
        for (int q = 0; q < 6; ++q) {
            bool na, nb; double x = rquery(r, a, na), y = rquery(r, b, nb);
            double got = I.Interpolate(x, y);
            LD want = G(a.t(x), b.t(y));
            LD e1 = (4e-16L + 2.3e-16L * a.max) * (fabsl(a.coord(x)) + fabsl(a.c) + a.w) / a.w, e2 = (4e-16L + 2.3e-16L * b.max) * (fabsl(b.coord(y)) + fabsl(b.c) + b.w) / b.w;
            LD tol = bound(X, n1, a.coord(x)).leb * bound(Y, n2, b.coord(y)).leb * 3 * 4 * n1 * n2 * (1e-14L + 50 * (e1 + e2));
            m.nontrivial(r.next());
            if (ls && (want < -290 || want > 600)) continue;
            LD g = ls ? logl((LD)got) : (LD)got;
            m.worst("2d error / tolerance", (double)(fabsl(g - want) / tol));
            m.check(fabsl(g - want) <= tol, "value", sfmt("at %.17g %.17g: got %.17Lg expected %.17Lg tol %Lg", x, y, g, want, tol));
        }
        m.note(sfmt("2d %s %s axes%s", a.log ? "log" : "lin", b.log ? "log" : "lin", ls ? " log values" : ""));
    });
    auto rnodes = [](Rng& r, int k) {
        V x { r.range(-5, 5) };
        while ((int)x.size() < k) x.push_back(x.back() + r.logr(0.3, 3));
        if (r.p(0.5)) std::reverse(x.begin(), x.end());
        return x;
    };
    m.cases("given nodes", 20000, 1000000, [&](Rng& r) {
        V x = rnodes(r, (int)r.i(1, 25)), y;
        int n = std::min((int)x.size(), (int)r.i(1, 6));
        double c = (x.front() + x.back()) / 2, w = std::max(0.1, std::fabs(x.back() - x.front()) / 2);
        Poly P = rpoly(r, n, r.logr(1e-3, 1e3));
        for (double v : x) y.push_back((double)P((v - (LD)c) / w));
        Interpolant I(x, y, n, false, r.p(0.5));
        m.describe(sfmt("%zu nodes from %.17g to %.17g order %d", x.size(), x.front(), x.back(), n));
        LD big = 1e-300L;
        for (double v : y) big = std::max(big, fabsl((LD)v));
        for (int q = 0; q < 8; ++q) {
            double v; bool node = false; int k = 0;
            if (r.p(0.3)) { k = (int)r.i(0, x.size() - 1); v = x[k]; node = true; }
            else v = r.range(std::min(x.front(), x.back()), std::max(x.front(), x.back())) + (r.p(0.1) ? r.range(-0.3, 0.3) : 0);
            if (r.p(0.1) && x.size() > 1) { int j = (int)r.i(0, x.size() - 2); v = (x[j] + x[j + 1]) / 2; node = false; }
            double got = I.InterpolateArray(v);
            m.nontrivial(r.next());
            if (node) { m.check(got == y[k], "node", sfmt("at node %d: got %.17g expected %.17g", k, got, y[k])); continue; }
            if (n == 1) { // the value of one of the nodes next to the point
                bool ok = false;
                for (size_t j = 0; j < x.size(); ++j) if (std::fabs(x[j] - v) <= 3.01) ok |= got == y[j];
                m.check(ok, "nearest", sfmt("at %.17g: got %.17g", v, got));
                continue;
            }
            LD want = P((v - (LD)c) / w);
            LD tol = bound(x, n, v).leb * big * n * 2e-14L;
            m.worst("array error / tolerance", (double)(fabsl(got - want) / tol));
            m.check(fabsl(got - want) <= tol, "value", sfmt("at %.17g: got %.17g expected %.17Lg tol %Lg", v, got, want, tol));
        }
        m.note(x.back() > x.front() ? "increasing nodes" : "decreasing nodes");
    });
    m.cases("given nodes 2d", 6000, 300000, [&](Rng& r) {
        V x = rnodes(r, (int)r.i(1, 12));
        bool asym = r.p(0.5);
        std::vector<V> ys, zs;
        V y0 = rnodes(r, (int)r.i(1, 12));
        int nn = 99;
        double lo = -1e9, hi = 1e9;
        for (size_t i = 0; i < x.size(); ++i) {
            ys.push_back(asym ? rnodes(r, (int)r.i(2, 12)) : y0);
            nn = std::min<int>(nn, ys.back().size());
            lo = std::max(lo, std::min(ys.back().front(), ys.back().back()) - 0.5); hi = std::min(hi, std::max(ys.back().front(), ys.back().back()) + 0.5);
        }
        if (lo > hi) { lo = -1; hi = 1; }
        int n1 = std::min((int)x.size(), (int)r.i(1, 4)), n2 = std::min(nn, (int)r.i(1, 4));
        Poly P = rpoly(r, n1, 2), Q = rpoly(r, n2, 2), R = rpoly(r, n1, 1), S = rpoly(r, n2, 1);
        auto G = [&](LD a, LD b) { return P(a / 10) * Q(b / 10) + R(a / 10) * S(b / 10); };
        LD big = 1e-10L;
        for (size_t i = 0; i < x.size(); ++i) { V z; for (double b : ys[i]) { z.push_back((double)G(x[i], b)); big = std::max(big, fabsl((LD)z.back())); } zs.push_back(z); }
        std::unique_ptr<Interpolant> I;
        if (asym) I = std::make_unique<Interpolant>(x, ys, zs, n1, false, true, n2, false, true); else I = std::make_unique<Interpolant>(x, y0, zs, n1, false, true, n2, false, true);
        m.describe(sfmt("%zu x %d%s nodes orders %d %d", x.size(), nn, asym ? "+" : "", n1, n2));
        for (int q = 0; q < 6; ++q) {
            if (n1 == 1 || n2 == 1 || r.p(0.2)) {
                int i = (int)r.i(0, x.size() - 1), j = (int)r.i(0, ys[i].size() - 1);
                double got = I->InterpolateArray(x[i], ys[i][j]);
                m.nontrivial(r.next());
                m.check(got == zs[i][j], "node", sfmt("at node %d %d: got %.17g expected %.17g", i, j, got, zs[i][j]));
                continue;
            }
            double a = r.range(std::min(x.front(), x.back()), std::max(x.front(), x.back())), b = r.range(lo, hi);
            double got = I->InterpolateArray(a, b);
            LD l2 = 1;
            for (auto& y : ys) l2 = std::max(l2, bound(y, n2, b).leb);
            LD want = G(a, b), tol = bound(x, n1, a).leb * l2 * big * n1 * n2 * 3e-14L;
            if (l2 > 1e8) continue;
            m.nontrivial(r.next());
            m.check(fabsl(got - want) <= tol, "value", sfmt("at %.17g %.17g: got %.17g expected %.17Lg tol %Lg", a, b, got, want, tol));
        }
        m.note(asym ? "2d asymmetric" : "2d symmetric");
    });
    m.cases("inverse", 20000, 1000000, [&](Rng& r) {
        Axis1 a = raxis(r, 2);
        int n = std::min(a.max, (int)r.i(1, 6)), ny = std::min(a.max, (int)r.i(2, 6));
        bool ls = r.p(0.4), expo = !ls && r.p(0.5);
        // linear in the axis coordinate, or exponential with a step that the order resolves
        double A = r.range(-20, 20), B = r.sgn() * r.logr(0.5, 50), kh = r.logr(1e-3, 0.5), k = r.sgn() * kh * a.max / 2;
        auto F = [&](LD t) { return expo ? expl(k * t) : A + B * t; };
        Interpolant I(a.max, a.lo, a.hi, [&](double x) { LD v = F(a.t(x)); return (double)(ls ? expl(v) : v); }, n, false, r.p(0.5), a.log, ny, r.p(0.5), r.p(0.5), ls);
        m.describe(sfmt("%s inverse order %d %s%s %.17g %.17g", a.str().c_str(), ny, expo ? "exponential" : "linear", ls ? " log values" : "", expo ? k : A, B));
        V X = a.nodes(), Y;
        for (double x : X) Y.push_back((double)F((x - a.c) / a.w));
        for (int q = 0; q < 6; ++q) {
            double t = r.range(-1, 1);
            if (r.p(0.2)) t = (double)((X[(int)r.i(0, a.max - 1)] - a.c) / a.w);
            if (r.p(0.1)) t = r.sgn() * r.range(1, 3);
            double y = (double)F(t), yy = ls ? std::exp(y) : y;
            double x = I.FindLimit(yy);
            double eps = 1e-12 * (std::fabs(a.lo) + std::fabs(a.hi));
            m.check(x >= a.lo - (a.log ? 1e-13 * a.lo * (1 + std::fabs((double)a.c)) : eps) && x <= a.hi * (1 + sg(a.hi) * 1e-12) + eps, "range", sfmt("%.17g outside the table", x));
            LD want = std::max(-1., std::min(1., t)), got = a.t(x);
            LD ex = (1e-15L + 2.3e-16L * a.max) * (fabsl(a.c) + a.w) / a.w;
            LD tol;
            if (expo) {
                // the inverse is log(y)/k with n-th derivative (n-1)!/(|k| y^n)
                LD ym = 1e300L, b = 0, leb = 0;
                for (int s : windows(Y, ny, y)) {
                    LD lo = (LD)y, p = 1;
                    for (int i = s; i < s + ny; ++i) { lo = std::min<LD>(lo, (LD)Y[i]); p *= fabsl(y - (LD)Y[i]); }
                    b = std::max(b, p / powl(lo, ny) / ny / fabsl(k));
                    leb = std::max(leb, lebesgue(Y, s, ny, y));
                }
                tol = b + leb * (1e-13L + ex * 10) + 1e-13L * a.max / fabsl(k);
                if (b > 0.1 * fabsl(2.0L / a.max) * 3) continue; // not resolved outside of the table
            } else {
                LD leb = 0;
                for (int s : windows(Y, ny, y)) leb = std::max(leb, lebesgue(Y, s, ny, y));
                tol = leb * (ny * 1e-14L * (1 + fabsl(A / B)) + 10 * ex) * a.max;
            }
            m.nontrivial(r.next());
            m.worst(expo ? "inverse exponential error / tolerance" : "inverse linear error / tolerance", (double)(fabsl(got - want) / tol));
            m.check(fabsl(got - want) <= tol, "argument", sfmt("value %.17g: found %.17g (t=%.17Lg) expected t=%.17Lg tol %Lg", yy, x, got, want, tol));
            m.note(expo ? "inverse exponential" : ls ? "inverse of log values" : "inverse linear");
        }
    });
    m.cases("inverse 2d", 6000, 300000, [&](Rng& r) {
        Axis1 a = raxis(r), b = raxis(r, 2);
        a.max = std::min(a.max, 30);
        int n1 = std::min(a.max, (int)r.i(1, 4)), n2 = std::min(b.max, (int)r.i(1, 4)), ny = std::min(b.max, (int)r.i(2, 5));
        bool ls = r.p(0.4);
        Poly A = rpoly(r, n1, 3), B = rpoly(r, n1, 1);
        double B0 = r.sgn() * r.range(n1 + 0.5, 20);
        auto slope = [&](LD s) { return B0 + B(s); };
        Interpolant I(a.max, a.lo, a.hi, b.max, b.lo, b.hi, [&](double x, double y) { LD v = A(a.t(x)) + slope(a.t(x)) * b.t(y); return (double)(ls ? expl(v) : v); },
            n1, false, r.p(0.5), a.log, n2, false, r.p(0.5), b.log, ny, r.p(0.5), r.p(0.5), ls);
        m.describe(sfmt("%s x %s orders %d %d inverse %d%s", a.str().c_str(), b.str().c_str(), n1, n2, ny, ls ? " log values" : ""));
        V X = a.nodes();
        m.note(I.GetFlag() ? "inverse 2d: rows on demand" : "inverse 2d: all rows");
        for (int q = 0; q < 6; ++q) {
            bool node; double x = rquery(r, a, node);
            double t = r.range(-1, 1);
            LD s = a.t(x);
            if (fabsl(s) > 1) continue;
            LD v = A(s) + slope(s) * t;
            double y = I.FindLimit(x, (double)(ls ? expl(v) : v));
            LD ex = (1e-15L + 2.3e-16L * a.max) * (fabsl(a.c) + a.w) / a.w + (1e-15L + 2.3e-16L * b.max) * (fabsl(b.c) + b.w) / b.w;
            LD tol = std::max<LD>(1, bound(X, n1, a.coord(x)).leb) * (1e-14L + 10 * ex) * 40 * n1 * (b.max + 10) * ny;
            m.nontrivial(r.next());
            m.worst("inverse 2d error / tolerance", (double)(fabsl(b.t(y) - t) / tol));
            m.check(fabsl(b.t(y) - t) <= tol, "argument", sfmt("x=%.17g value %.17Lg: found t=%.17Lg expected %.17g tol %Lg", x, v, b.t(y), t, tol));
        }
    });
    m.cases("zeros", 8000, 400000, [&](Rng& r) {
        // vanishing values in a table of logarithms
        Axis1 a = raxis(r, 2);
        int n = std::min(a.max, (int)r.i(1, 6));
        double cut = r.range(-1, 1); bool below = r.p(0.5);
        auto f = [&](double x) -> double { double t = (double)a.t(x); return (below ? t < cut : t > cut) ? 0. : 1 + t * t; };
        Interpolant I(a.max, a.lo, a.hi, f, n, false, true, a.log, 2, false, false, true);
        m.describe(sfmt("%s order %d zero %s t=%g", a.str().c_str(), n, below ? "below" : "above", cut));
        for (int q = 0; q < 8; ++q) {
            if (r.p(0.5)) {
                int i = (int)r.i(0, a.max - 1);
                double x = a.node(i);
                double got = I.Interpolate(x), want = f(x);
                m.nontrivial(r.next());
                if (std::fabs(a.t(x) - cut) > 1e-9) m.check(std::fabs(got - want) <= 1e-9 * (1 + 100 * (a.max / 2.)), "node", sfmt("node %d: got %.17g expected %.17g", i, got, want));
                continue;
            }
            double x = a.at(r.range(-3, a.max + 3)), got = I.Interpolate(x);
            m.nontrivial(r.next());
            m.check(got >= 0 && std::isfinite(got), "positive", sfmt("at %.17g: %.17g", x, got));
            double t = (double)a.t(x), h = 2. / a.max * (n + 1);
            if (std::fabs(t) <= 1 && (below ? t < cut - h : t > cut + h)) { m.check(got == 0, "zero", sfmt("at %.17g: %.17g instead of zero", x, got)); m.note("zero regions"); }
            if (std::fabs(t) <= 1 && n >= 3 && (below ? t > cut + h : t < cut - h)) m.check(std::fabs(got - 1 - t * t) <= 0.5 * h * h, "value", sfmt("at %.17g: got %.17g expected %.17g", x, got, 1 + t * t));
        }
    });
    m.cases("history", 8000, 400000, [&](Rng& r) {
        // answers do not depend on the queries before
        Axis1 a = raxis(r), b = raxis(r, 2);
        bool two = r.p(0.4), rat = r.p(0.3), ls = r.p(0.4), arr = !two && r.p(0.3);
        double k = r.logr(0.1, 30), p = r.range(0, 6);
        int n1 = (int)r.i(1, 6), n2 = (int)r.i(1, 6), ny = (int)r.i(1, 6);
        a.max = std::min(a.max, 30); b.max = std::min(b.max, 30);
        auto make = [&]() {
            if (arr) { V x = a.nodes(), y; for (size_t i = 0; i < x.size(); ++i) y.push_back(std::sin(k * i + p) + i); return std::make_unique<Interpolant>(x, y, n1, rat, true); }
            if (two) return std::make_unique<Interpolant>(a.max, a.lo, a.hi, b.max, b.lo, b.hi, [&](double x, double y) { return std::exp(std::sin(k * (double)a.t(x) + p) + 2 * (double)b.t(y)); }, n1, rat, true, a.log, n2, rat, true, b.log, ny, false, true, ls);
            return std::make_unique<Interpolant>(a.max, a.lo, a.hi, [&](double x) { return std::exp(0.3 * std::sin(k * (double)a.t(x) + p) + 2 * (double)a.t(x)); }, n1, rat, true, a.log, ny, false, true, ls);
        };
        auto I = make();
        auto same = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); };
        m.describe(sfmt("%s%s%s orders %d %d %d%s%s", a.str().c_str(), two ? " x " : "", two ? b.str().c_str() : "", n1, n2, ny, rat ? " rational" : "", ls ? " log values" : ""));
        for (int q = 0; q < 10; ++q) {
            auto J = make();
            bool nd; double x = rquery(r, a, nd), y = rquery(r, b, nd), v = r.logr(0.05, 20);
            if (r.p(0.1) && !arr) x = (a.log ? 1 : -1) * r.logr(1, 1e15); // far outside
            if (r.p(0.1)) x = 1;
            double g, w;
            if (arr) { x = a.log ? std::log(x) : x; g = I->InterpolateArray(x), w = J->InterpolateArray(x); }
            else if (r.p(0.3)) { g = two ? I->FindLimit(x, v) : I->FindLimit(v); w = two ? J->FindLimit(x, v) : J->FindLimit(v); }
            else { g = two ? I->Interpolate(x, y) : I->Interpolate(x); w = two ? J->Interpolate(x, y) : J->Interpolate(x); }
            m.nontrivial(r.next());
            m.check(same(g, w), "history", sfmt("query %d: used table %.17g fresh table %.17g", q, g, w));
        }
        m.note("histories");
    });
    m.cases("degenerate", 2000, 50000, [&](Rng& r) {
        // one node, equal limits, exchanged limits, orders beyond the table
        double lo = r.range(-5, 5), hi = r.p(0.3) ? lo : r.range(-5, 5), c = r.range(-5, 5);
        bool lg = r.p(0.3);
        if (lg) { lo = std::fabs(lo) + 0.1; hi = std::fabs(hi) + 0.1; }
        int max = (int)r.i(-1, 3), n = (int)r.i(-1, 6), ny = (int)r.i(-1, 6);
        Interpolant I(max, lo, hi, [&](double) { return c; }, n, r.p(0.3), true, lg, ny, false, false, false);
        m.describe(sfmt("constant %g: %d nodes [%g,%g] order %d", c, max, lo, hi, n));
        m.nontrivial();
        double x = r.range(0.01, 6);
        double got = I.Interpolate(x);
        m.check(std::fabs(got - c) <= 1e-12 * std::fabs(c), "constant", sfmt("at %g: %.17g", x, got));
        I.FindLimit(r.range(-5, 5));
    });
}

// ---------------------------------------------------------------------------
// A random table together with queries that stay away from the places where the window changes.
struct Table {
    std::unique_ptr<Interpolant> I;
    int kind; // 0: 1d function, 1: 2d function, 2: 1d nodes, 3: 2d nodes, 4: 2d asymmetric nodes
    struct Q { int what; double x, y; };
    std::vector<Q> q;
    V ans;
    double scale = 0;
    std::string desc;
    static double ask(Interpolant& I, const Q& q)
    {
        switch (q.what) {
        case 0: return I.Interpolate(q.x);
        case 1: return I.Interpolate(q.x, q.y);
        case 2: return I.InterpolateArray(q.x);
        case 3: return I.InterpolateArray(q.x, q.y);
        case 4: return I.FindLimit(q.x);
        default: return I.FindLimit(q.x, q.y);
        }
    }
};
static V wild(Rng& r, int n, double lo, double hi) { V v; for (int i = 0; i < n; ++i) v.push_back(r.range(lo, hi)); return v; }
static Table rtable(Rng& r)
{
    Table T;
    T.kind = (int)r.i(0, 4);
    Axis1 a = raxis(r, 2), b = raxis(r, 2);
    a.max = std::min(a.max, 20); b.max = std::min(b.max, 15);
    int n1 = (int)r.i(1, 5), n2 = (int)r.i(1, 5), ny = (int)r.i(1, 5);
    bool rat = r.p(0.2), ls = r.p(0.4), rel = r.p(0.5), raty = r.p(0.5), rely = r.p(0.5), rel2 = r.p(0.5);
    auto safe = [&](const Axis1& x) { return x.at((int)r.i(0, x.max - 1) + 0.5 + r.sgn() * r.range(0.05, 0.45)); };
    auto between = [&](const V& x) { int i = (int)r.i(0, x.size() - 2); double f = r.p(0.5) ? r.range(0.1, 0.4) : r.range(0.6, 0.9); return x[i] + f * (x[i + 1] - x[i]); };
    T.desc = sfmt("kind %d orders %d %d %d%s%s %s", T.kind, n1, n2, ny, rat ? " rational" : "", ls ? " log values" : "", a.str().c_str());
    if (T.kind == 0) {
        // monotone in the index with wild steps, so that the search is defined
        V v { 1 }; for (int i = 1; i < a.max; ++i) v.push_back(v.back() + r.range(0.2, 2));
        V X = a.nodes();
        auto f = [=](double x) { double k = ((a.log ? std::log(x) : x) - X[0]) / a.step(); int i = std::max(0, std::min(a.max - 1, (int)std::lround(k))); return v[i]; };
        T.I = std::make_unique<Interpolant>(a.max, a.lo, a.hi, f, n1, rat, rel, a.log, ny, raty, rely, ls);
        for (int i = 0; i < 5; ++i) T.q.push_back({ 0, safe(a), 0 });
        V lv = v;
        for (int i = 0; i < 3; ++i) { double y; if (ls) { for (size_t j = 0; j < v.size(); ++j) lv[j] = std::log(v[j]); y = std::exp(between(lv)); } else y = between(v); T.q.push_back({ 4, y, 0 }); }
    } else if (T.kind == 1) {
        std::vector<V> v; for (int i = 0; i < b.max; ++i) v.push_back(wild(r, a.max, 1, 3));
        V X = a.nodes(), Y = b.nodes();
        auto f = [=](double x, double y) {
            int i = std::max(0, std::min(a.max - 1, (int)std::lround(((a.log ? std::log(x) : x) - X[0]) / a.step())));
            int j = std::max(0, std::min(b.max - 1, (int)std::lround(((b.log ? std::log(y) : y) - Y[0]) / b.step())));
            return v[j][i] * (j + 1.);
        };
        T.I = std::make_unique<Interpolant>(a.max, a.lo, a.hi, b.max, b.lo, b.hi, f, n1, rat, rel, a.log, n2, rat, rel2, b.log, ny, raty, rely, ls);
        for (int i = 0; i < 6; ++i) T.q.push_back({ 1, safe(a), safe(b) });
    } else if (T.kind == 2) {
        V x { 0 }; while ((int)x.size() < a.max) x.push_back(x.back() + r.range(0.5, 2));
        if (r.p(0.4)) std::reverse(x.begin(), x.end());
        V y = wild(r, a.max, -3, 3);
        T.I = std::make_unique<Interpolant>(x, y, n1, rat, rel);
        for (int i = 0; i < 6; ++i) T.q.push_back({ 2, between(x), 0 });
    } else {
        V x { 0 }; while ((int)x.size() < a.max) x.push_back(x.back() + r.range(0.5, 2));
        if (r.p(0.4)) std::reverse(x.begin(), x.end());
        std::vector<V> y, z;
        V y0 { 0 }; for (int i = 1; i < b.max; ++i) y0.push_back(y0.back() + 1);
        for (int i = 0; i < a.max; ++i) { V w = y0; if (T.kind == 4 && w.size() > 3) w.resize((int)r.i(3, w.size())); y.push_back(w); z.push_back(wild(r, w.size(), -3, 3)); }
        if (T.kind == 3) T.I = std::make_unique<Interpolant>(x, y0, z, n1, rat, rel, std::min(n2, 3), rat, rel2); else T.I = std::make_unique<Interpolant>(x, y, z, n1, rat, rel, std::min(n2, 3), rat, rel2);
        V yy = y0; if (T.kind == 4) yy.resize(std::min<size_t>(yy.size(), 3));
        for (int i = 0; i < 6; ++i) T.q.push_back({ 3, between(x), between(yy) });
    }
    for (auto& q : T.q) { T.ans.push_back(Table::ask(*T.I, q)); if (std::isfinite(T.ans.back())) T.scale = std::max(T.scale, std::fabs(T.ans.back())); }
    return T;
}
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), {}); }
static void spill(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; }

PROP(T02)
{
    signal(SIGXFSZ, SIG_IGN);
    auto ulp = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); };
    auto compare = [&](const Table& T, Interpolant& J, bool exact, const std::string& rule, const std::string& how) {
        for (size_t i = 0; i < T.q.size(); ++i) {
            double g = Table::ask(J, T.q[i]), w = T.ans[i];
            bool rat = T.I ? T.I->GetRational() : true;
            // rational windows may amplify rounding; everything else is well conditioned
            double tol = exact ? 0 : (rat ? 1e-5 : 1e-9) * (std::fabs(w) + std::min(T.scale, 1e3 * std::fabs(w) + 100));
            m.check(ulp(g, w) || std::fabs(g - w) <= tol, rule, sfmt("%s: query %zu (kind %d at %.17g %.17g) got %.17g expected %.17g", how.c_str(), i, T.q[i].what, T.q[i].x, T.q[i].y, g, w));
        }
    };
    auto path = [&]() { return m.scratch + "/table"; };
    auto file = [&](bool bin) { return bin ? path() : path() + ".txt"; };
    m.cases("copies and files", 6000, 300000, [&](Rng& r) {
        Table T = rtable(r);
        std::unique_ptr<Interpolant> J = std::make_unique<Interpolant>(*T.I);
        m.check(*J == *T.I, "equal", "copy differs from the original");
        bool exact = true;
        std::string how = "copy";
        m.nontrivial();
        std::vector<std::string> ops;
        int nops = (int)r.i(1, 6);
        for (int k = 0; k < nops; ++k) {
            int op = (int)r.i(0, 6);
            if (op == 0) { auto K = std::make_unique<Interpolant>(*J); J.reset(); J = std::move(K); how += ",copy"; }
            else if (op == 1) { Table U = rtable(r); auto K = std::move(U.I); *K = *J; J = std::move(K); how += ",assigned"; }
            else if (op == 2) { Table U = rtable(r); U.I->swap(*J); compare(U, *J, true, "swap", how + ",swap back"); J = std::move(U.I); how += ",swap"; }
            else if (op == 3) { Interpolant& self = *J; *J = self; how += ",self"; }
            else {
                bool bin = r.p(0.5);
                bool over = r.p(0.4);
                if (!m.check(J->Save(path(), bin), "save", how + ": could not be saved")) return;
                std::unique_ptr<Interpolant> K = over ? std::move(rtable(r).I) : std::make_unique<Interpolant>();
                if (r.p(0.5)) J.reset();
                if (!m.check(K->Load(path(), bin), "load", how + (bin ? ",binary" : ",text") + ": could not be loaded")) return;
                J = std::move(K);
                exact = false;
                how += bin ? ",binary" : ",text"; if (over) how += " over another";
                m.note(bin ? "saved binary" : "saved text");
            }
            m.describe(T.desc + " " + how);
            compare(T, *J, exact, exact ? "copied" : "stored", how);
            m.check(J->GetRomberg() == T.I->GetRomberg() && J->GetRombergY() == T.I->GetRombergY() && J->GetMax() == T.I->GetMax() && J->GetRational() == T.I->GetRational()
                    && J->GetRelative() == T.I->GetRelative() && J->GetRationalY() == T.I->GetRationalY() && J->GetRelativeY() == T.I->GetRelativeY() && J->GetIsLog() == T.I->GetIsLog()
                    && J->GetLogSubst() == T.I->GetLogSubst() && J->GetFlag() == T.I->GetFlag() && J->GetInterpolant().size() == T.I->GetInterpolant().size(), "options", how + ": options differ");
            m.close(J->GetXmin(), T.I->GetXmin(), 1e-13, 1e-13, "xmin"); m.close(J->GetXmax(), T.I->GetXmax(), 1e-13, 1e-13, "xmax");
        }
        // the original is still what it was, and the copy outlives it
        compare(T, *T.I, true, "original", "original after all that");
        bool rat = T.I->GetRational();
        if (!rat) { T.I.reset(new Interpolant()); compare(T, *J, exact, "survivor", how + " after the original is gone"); }
        m.note(sfmt("kind %d", T.kind));
        m.sample(m.desc);
    });
    m.cases("different", 3000, 100000, [&](Rng& r) {
        Table T = rtable(r), U = rtable(r);
        m.describe(T.desc + " and " + U.desc);
        m.nontrivial();
        m.check(*T.I != *U.I, "different", "unrelated tables compare equal");
    });
    m.cases("damaged files", 6000, 300000, [&](Rng& r) {
        Table T = rtable(r);
        bool bin = r.p(0.5);
        if (!m.check(T.I->Save(path(), bin), "save", "could not be saved")) return;
        std::string s = slurp(file(bin)), d = s;
        std::string what;
        switch ((int)r.i(0, 7)) {
        case 0: d = s.substr(0, (size_t)(r.u() * s.size())); what = "truncated"; break;
        case 1: d = s.substr(0, s.size() - 1 - (int)r.i(0, 3)); what = "last bytes missing"; break;
        case 2: d = ""; what = "empty"; break;
        case 3: d = "?"; unlink(file(bin).c_str()); what = "missing"; break;
        case 4: case 5: case 6: { // header
            if (bin) {
                int f = (int)r.i(0, 6);
                auto put = [&](size_t o, auto v) { memcpy(&d[o], &v, sizeof v); };
                if (f == 0) { d[0] = (char)(int)r.i(2, 255); what = "dimension flag"; }
                else if (f == 1) { int v[] = { 0, -1, INT_MIN, INT_MAX, 1000000, T.I->GetMax() + 1 + (int)r.i(0, 3) }; put(1, v[(int)r.i(0, 5)]); what = "number of nodes"; if (d == s) throw mon::Skip(); }
                else if (f == 2) { double v[] = { NAN, INFINITY, -INFINITY }; put(5 + 8 * (int)r.i(0, 1), v[(int)r.i(0, 2)]); what = "limit"; }
                else if (f == 3) { int v[] = { 0, -5, INT_MIN, INT_MAX, T.I->GetMax() + 1 }; put(21, v[(int)r.i(0, 4)]); what = "order"; }
                else if (f == 4) { d[25 + (int)r.i(0, 2)] = (char)(int)r.i(2, 255); what = "flag"; }
                else if (f == 5) { int v[] = { 0, -5, INT_MAX, T.I->GetMax() + 1 }; put(28, v[(int)r.i(0, 3)]); what = "inverse order"; }
                else { d[32 + (int)r.i(0, 2)] = (char)(int)r.i(2, 255); what = "second flag"; }
            } else {
                // replace the k-th word
                std::vector<std::pair<size_t, size_t>> w;
                for (size_t i = 0; i < s.size() && w.size() < 12;) { while (i < s.size() && isspace(s[i])) ++i; size_t j = i; while (j < s.size() && !isspace(s[j])) ++j; if (j > i) w.push_back({ i, j }); i = j; }
                int k = (int)r.i(0, 11);
                std::string bad = "junk";
                if (k == 1) { std::string v[] = { "0", "-3", "99999999999", "2147483647", std::to_string(T.I->GetMax() + 1), "x" }; bad = v[(int)r.i(0, 5)]; }
                else if (k == 4 || k == 8) { std::string v[] = { "0", "-3", "99999999999", std::to_string(T.I->GetMax() + 1), "x" }; bad = v[(int)r.i(0, 4)]; }
                else if (k == 2 || k == 3) { std::string v[] = { "nan", "inf", "x" }; bad = v[(int)r.i(0, 2)]; }
                else { std::string v[] = { "2", "-1", "x" }; bad = v[(int)r.i(0, 2)]; }
                d = s.substr(0, w[k].first) + bad + s.substr(w[k].second);
                what = sfmt("word %d is %s", k, bad.c_str());
            }
            break;
        }
        default: { // a table inside of the rows of a table, or noise
            if (r.p(0.5)) { d.clear(); int n = (int)r.i(1, 400); for (int i = 0; i < n; ++i) d += (char)(int)r.i(0, 255); d[0] = (char)(int)r.i(2, 255); what = "noise"; }
            else {
                // rows that contain rows again
                std::string head, node = bin ? std::string(8, '\1') : "1 ";
                if (bin) { int one = 1; double x0 = 0, x1 = 1; head += '\1'; head.append((char*)&one, 4); head.append((char*)&x0, 8); head.append((char*)&x1, 8); head.append((char*)&one, 4); head += std::string(3, '\0'); head.append((char*)&one, 4); head += std::string(3, '\0'); }
                else head = "1 1 0 1 1 0 0 0 1 0 0 0 ";
                d.clear();
                int depth = m.thorough() ? 100000 : 3000;
                for (int i = 0; i < depth; ++i) d += head + node;
                what = "nested rows";
            }
        }
        }
        m.describe(T.desc + (bin ? " binary " : " text ") + what);
        if (what != "missing") spill(file(bin), d);
        Table U = rtable(r);
        m.nontrivial();
        m.check(!U.I->Load(path(), bin), "accepted", "damaged file was loaded");
        compare(U, *U.I, true, "untouched", "table that failed to load a file");
        unlink(file(bin).c_str());
        m.note((bin ? "binary " : "text ") + (what.substr(0, 4) == "word" ? "header" : what));
    });
    m.cases("failing writes", 1500, 20000, [&](Rng& r) {
        Table T = rtable(r);
        bool bin = r.p(0.5);
        bool ok = T.I->Save(path(), bin);
        size_t n = slurp(file(bin)).size();
        m.describe(sfmt("%s %s %zu bytes", T.desc.c_str(), bin ? "binary" : "text", n));
        m.check(ok, "save", "could not be saved");
        m.nontrivial();
        if (r.p(0.3)) { m.check(!T.I->Save(m.scratch + "/no/such/folder/table", bin), "no folder", "saving into a missing folder reported success"); m.note("missing folders"); }
        unlink(file(bin).c_str());
        struct rlimit old, lim;
        getrlimit(RLIMIT_FSIZE, &old);
        lim = old; lim.rlim_cur = (rlim_t)(r.u() * n);
        setrlimit(RLIMIT_FSIZE, &lim);
        ok = T.I->Save(path(), bin);
        setrlimit(RLIMIT_FSIZE, &old);
        m.check(!ok, "short write", sfmt("only %zu of %zu bytes could be written but saving reported success", slurp(file(bin)).size(), n));
        compare(T, *T.I, true, "untouched", "table that failed to be saved");
        Interpolant J;
        m.check(!J.Load(path(), bin), "short file", "the part that was written was loaded as a table");
        unlink(file(bin).c_str());
        m.note("short writes");
    });
}
int main(int argc, char** argv) { return mon::run(argc, argv); }
