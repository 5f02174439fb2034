// Independent numerical helpers in long double (quadrature, cubic splines).
#pragma once
#include "mon.h"
namespace num {
typedef long double LD;
// Gauss-Legendre nodes computed once
template <int N> struct GL {
    LD x[N], w[N];
    GL()
    {
        for (int i = 0; i < N; ++i) {
            LD z = cosl(M_PIl * (i + 0.75L) / (N + 0.5L)), pp = 1;
            for (int it = 0; it < 100; ++it) {
                LD p1 = 1, p2 = 0;
                for (int j = 1; j <= N; ++j) { LD p3 = p2; p2 = p1; p1 = ((2 * j - 1) * z * p2 - (j - 1) * p3) / j; }
                pp = N * (z * p1 - p2) / (z * z - 1);
                LD dz = p1 / pp;
                z -= dz;
                if (fabsl(dz) < 1e-19L) break;
            }
            x[i] = z;
            w[i] = 2 / ((1 - z * z) * pp * pp);
        }
    }
};
template <int N, class F> LD gl(F f, LD a, LD b)
{
    static const GL<N> g;
    LD s = 0, c = (a + b) / 2, h = (b - a) / 2;
    for (int i = 0; i < N; ++i) s += g.w[i] * f(c + h * g.x[i]);
    return s * h;
}
// composite with breakpoints
template <int N, class F> LD glb(F f, std::vector<LD> pts, int panels = 1)
{
    LD s = 0;
    for (size_t i = 0; i + 1 < pts.size(); ++i)
        for (int k = 0; k < panels; ++k) {
            LD a = pts[i] + (pts[i + 1] - pts[i]) * k / panels, b = pts[i] + (pts[i + 1] - pts[i]) * (k + 1) / panels;
            s += gl<N>(f, a, b);
        }
    return s;
}
// adaptive: splits until 15 and 31 points agree
template <class F> LD adapt(F f, LD a, LD b, LD rel, LD abst, int depth = 40)
{
    LD i1 = gl<15>(f, a, b);
    LD m = (a + b) / 2;
    LD i2 = gl<15>(f, a, m) + gl<15>(f, m, b);
    if (depth <= 0 || fabsl(i1 - i2) <= rel * fabsl(i2) + abst) return i2;
    return adapt(f, a, m, rel, abst / 2, depth - 1) + adapt(f, m, b, rel, abst / 2, depth - 1);
}
// piecewise polynomial in local coordinates (t = x - x_i)
struct PP {
    std::vector<LD> x;
    std::vector<std::array<LD, 4>> c;
    size_t seg(LD v) const
    {
        size_t n = c.size();
        for (size_t i = 0; i < n; ++i) if (x[i] <= v && v <= x[i + 1]) return i;
        return v > x.back() ? n - 1 : 0;
    }
    LD at(size_t i, LD v) const { LD t = v - x[i]; return c[i][0] + t * (c[i][1] + t * (c[i][2] + t * c[i][3])); }
    LD operator()(LD v) const { return at(seg(v), v); }
    LD d1(LD v) const { size_t i = seg(v); LD t = v - x[i]; return c[i][1] + t * (2 * c[i][2] + t * 3 * c[i][3]); }
    // magnitude of the power-basis terms (around 0): rounding scale of an implementation that expands around zero
    LD mag(LD v) const
    {
        size_t i = seg(v);
        LD a = fabsl(x[i]) + fabsl(v);
        return fabsl(c[i][0]) + a * (fabsl(c[i][1]) + a * (fabsl(c[i][2]) + a * fabsl(c[i][3])));
    }
};
inline PP linear(const std::vector<double>& x, const std::vector<double>& y)
{
    PP p;
    p.x.assign(x.begin(), x.end());
    for (size_t i = 0; i + 1 < x.size(); ++i) p.c.push_back({ y[i], ((LD)y[i + 1] - y[i]) / ((LD)x[i + 1] - x[i]), 0, 0 });
    return p;
}
// natural cubic spline from the second-derivative formulation (independent of the textbook algorithm in the code)
inline PP natural(const std::vector<double>& x, const std::vector<double>& y)
{
    size_t n = x.size();
    std::vector<LD> M(n, 0), a(n), b(n, 1), c(n), r(n, 0);
    for (size_t i = 1; i + 1 < n; ++i) {
        LD h0 = (LD)x[i] - x[i - 1], h1 = (LD)x[i + 1] - x[i];
        a[i] = h0 / 6; b[i] = (h0 + h1) / 3; c[i] = h1 / 6;
        r[i] = ((LD)y[i + 1] - y[i]) / h1 - ((LD)y[i] - y[i - 1]) / h0;
    }
    for (size_t i = 1; i < n; ++i) { LD f = a[i] / b[i - 1]; b[i] -= f * c[i - 1]; r[i] -= f * r[i - 1]; }
    for (size_t i = n; i-- > 0;) M[i] = (r[i] - (i + 1 < n ? c[i] * M[i + 1] : 0)) / b[i];
    PP p;
    p.x.assign(x.begin(), x.end());
    for (size_t i = 0; i + 1 < n; ++i) {
        LD h = (LD)x[i + 1] - x[i];
        p.c.push_back({ y[i], ((LD)y[i + 1] - y[i]) / h - h * (2 * M[i] + M[i + 1]) / 6, M[i] / 2, (M[i + 1] - M[i]) / (6 * h) });
    }
    return p;
}
} // namespace num
