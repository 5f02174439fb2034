#pragma once
#include "CubicInterpolation/Axis.h"
#include <cmath>
#include <functional>
#include <memory>
#include <stdexcept>
#include <vector>
namespace cubic_splines {
// position within n nodes: interval and share; outside of the table there is no answer
template <typename T> inline size_t locate(T t, size_t n, T& u)
{
    if (!(t > -1e-6 && t < n - 1 + 1e-6)) throw std::domain_error("asked outside of the table");
    if (t < 0) t = 0;
    if (t > n - 1) t = n - 1;
    size_t i = size_t(t);
    if (i > n - 2) i = n - 2;
    u = t - i;
    return i;
}
template <typename T> inline T hermite(T a, T b, T da, T db, T u)
{
    T u2 = u * u, u3 = u2 * u;
    return a * (2 * u3 - 3 * u2 + 1) + da * (u3 - 2 * u2 + u) + b * (3 * u2 - 2 * u3) + db * (u3 - u2);
}
template <typename T> inline T dhermite(T a, T b, T da, T db, T u)
{
    T u2 = u * u;
    return (a - b) * (6 * u2 - 6 * u) + da * (3 * u2 - 4 * u + 1) + db * (3 * u2 - 2 * u);
}
// slopes of the cubic spline through y on equidistant nodes, end slopes from four points
template <typename T> inline std::vector<T> slopes(std::vector<T> const& y)
{
    size_t n = y.size();
    std::vector<T> d(n), c(n), r(n);
    if (n < 5) {
        for (size_t i = 0; i < n; i++) {
            size_t a = i ? i - 1 : 0, b = i + 1 < n ? i + 1 : n - 1;
            d[i] = (y[b] - y[a]) / T(b - a);
        }
        return d;
    }
    auto end = [](T a, T b, T c, T e) { return (-11 * a + 18 * b - 9 * c + 2 * e) / 6; };
    d[0] = end(y[0], y[1], y[2], y[3]);
    d[n - 1] = -end(y[n - 1], y[n - 2], y[n - 3], y[n - 4]);
    for (size_t i = 1; i + 1 < n; i++) r[i] = 3 * (y[i + 1] - y[i - 1]);
    r[1] -= d[0];
    r[n - 2] -= d[n - 1];
    c[1] = T(1) / 4;
    r[1] /= 4;
    for (size_t i = 2; i + 1 < n; i++) {
        T m = 1 / (4 - c[i - 1]);
        c[i] = m;
        r[i] = (r[i] - r[i - 1]) * m;
    }
    for (size_t i = n - 2; i >= 1; i--) d[i] = r[i] - (i + 2 < n ? c[i] * d[i + 1] : T(0));
    // between two nodes a table of monotone values stays monotone
    for (size_t i = 0; i < n; i++) {
        T a = i ? y[i] - y[i - 1] : y[1] - y[0], b = i + 1 < n ? y[i + 1] - y[i] : a;
        if (a * b <= 0) { if (a == 0 || b == 0) d[i] = 0; continue; }
        T lim = 3 * (std::fabs(a) < std::fabs(b) ? a : b);
        if (d[i] * lim < 0) d[i] = 0;
        else if (std::fabs(d[i]) > std::fabs(lim)) d[i] = lim;
    }
    return d;
}
template <typename T> class CubicSplines {
public:
    using type = T;
    struct Definition {
        std::function<T(T)> f;
        std::unique_ptr<Axis<T>> f_trafo = nullptr;
        std::unique_ptr<Axis<T>> axis;
        Axis<T> const& GetAxis() const { return *axis; }
    };
    struct Data { std::vector<T> y, d; };
    static Data build(Definition const& def)
    {
        Data r;
        size_t n = def.axis->nodes();
        for (size_t i = 0; i < n; i++) {
            T v = def.f(def.axis->back_transform(i));
            r.y.push_back(def.f_trafo ? def.f_trafo->transform(v) : v);
        }
        r.d = slopes(r.y);
        return r;
    }
    static T eval(Definition const& def, Data const& d, T x)
    {
        T u;
        size_t i = locate(def.axis->transform(x), d.y.size(), u);
        T v = hermite(d.y[i], d.y[i + 1], d.d[i], d.d[i + 1], u);
        return def.f_trafo ? def.f_trafo->back_transform(v) : v;
    }
};
} // namespace cubic_splines
