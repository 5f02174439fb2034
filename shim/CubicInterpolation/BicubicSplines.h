#pragma once
#include "CubicInterpolation/CubicSplines.h"
#include <array>
namespace cubic_splines {
template <typename T> class BicubicSplines {
public:
    using type = T;
    struct Definition {
        std::function<T(T, T)> f;
        std::unique_ptr<Axis<T>> f_trafo = nullptr;
        std::array<std::unique_ptr<Axis<T>>, 2> axis;
        bool approx_derivates = false;
        std::array<std::unique_ptr<Axis<T>>, 2> const& GetAxis() const { return axis; }
    };
    struct Data { std::vector<std::vector<T>> y, dv, de, dev; };
    static Data build(Definition const& def)
    {
        Data r;
        size_t n = def.axis[0]->nodes(), k = def.axis[1]->nodes();
        r.y.assign(n, std::vector<T>(k));
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < k; j++) {
                T v = def.f(def.axis[0]->back_transform(i), def.axis[1]->back_transform(j));
                r.y[i][j] = def.f_trafo ? def.f_trafo->transform(v) : v;
            }
        r.dv = r.de = r.dev = r.y;
        for (size_t i = 0; i < n; i++) r.dv[i] = slopes(r.y[i]);
        std::vector<T> c(n), e;
        for (size_t j = 0; j < k; j++) {
            for (size_t i = 0; i < n; i++) c[i] = r.y[i][j];
            e = slopes(c);
            for (size_t i = 0; i < n; i++) r.de[i][j] = e[i];
            for (size_t i = 0; i < n; i++) c[i] = r.dv[i][j];
            e = slopes(c);
            for (size_t i = 0; i < n; i++) r.dev[i][j] = e[i];
        }
        return r;
    }
    static T eval(Definition const& def, Data const& d, std::array<T, 2> const& x)
    {
        T u, w;
        size_t i = locate(def.axis[0]->transform(x[0]), d.y.size(), u), j = locate(def.axis[1]->transform(x[1]), d.y[0].size(), w);
        auto along = [&](std::vector<std::vector<T>> const& y, std::vector<std::vector<T>> const& s, size_t jj) {
            return hermite(y[i][jj], y[i + 1][jj], s[i][jj], s[i + 1][jj], u);
        };
        T v = hermite(along(d.y, d.de, j), along(d.y, d.de, j + 1), along(d.dv, d.dev, j), along(d.dv, d.dev, j + 1), w);
        return def.f_trafo ? def.f_trafo->back_transform(v) : v;
    }
};
} // namespace cubic_splines
