// Density profiles of the workload
#pragma once
#include "geo.h"
#include "num.h"
#include "PROPOSAL/density_distr/density_distr.h"
#include "PROPOSAL/density_distr/density_exponential.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/density_distr/density_polynomial.h"
#include "PROPOSAL/density_distr/density_splines.h"
#include "PROPOSAL/math/Spline.h"
namespace dens {
using namespace geo;
using mon::Mon; using mon::Rng; using mon::sfmt;
using json = nlohmann::json;

enum DK { D_HOM, D_EXP, D_POLY, D_LIN, D_CUB };
static const char* dn[] = { "homogeneous", "exponential", "polynomial", "linear-spline", "cubic-spline" };

struct Prof {
    DK k = D_HOM;
    bool radial = false;
    V ax { 1, 0, 0 }, p0 { 0, 0, 0 };
    double m = 1, sigma = 1, d0 = 0;
    std::vector<double> c, x, y;
    num::PP pp;
    LD depth(V p) const { return radial ? norm(p - p0) : dot(ax, p - p0); }
    LD shape(LD d) const // density over mass density at a depth
    {
        switch (k) {
        case D_HOM: return 1;
        case D_EXP: return expl((d - d0) / sigma);
        case D_POLY: { LD s = 0; for (size_t i = c.size(); i-- > 0;) s = s * d + c[i]; return s; }
        default: return pp(d);
        }
    }
    LD cond(LD d) const // magnitude of the summands of the antiderivative
    {
        LD s = 0, a = fabsl(d);
        if (k == D_POLY) { for (size_t i = c.size(); i-- > 0;) s = s * a + fabsl((LD)c[i]); return s * a; }
        if (k == D_LIN || k == D_CUB) return pp.mag(d) * (a + fabsl(pp.x[0]) + fabsl(pp.x.back())) * 3;
        return 0;
    }
    LD slope(LD d) const { LD h = 1e-4L * scale(); return fabsl(shape(d + h) - shape(d - h)) / (2 * h); }
    LD scale() const { return k == D_EXP ? fabs(sigma) : k == D_LIN || k == D_CUB ? (LD)(x.back() - x[0]) : 1; }
    LD rho(V p) const { return m * shape(depth(p)); }
    std::unique_ptr<Axis> axis() const
    {
        if (radial) return std::make_unique<RadialAxis>(c3(p0));
        return std::make_unique<CartesianAxis>(c3(ax), c3(p0));
    }
    std::unique_ptr<Spline> spline() const
    {
        if (k == D_LIN) return std::make_unique<Linear_Spline>(x, y);
        return std::make_unique<Cubic_Spline>(x, y);
    }
    std::unique_ptr<Density_distr> make() const
    {
        auto a = axis();
        switch (k) {
        case D_HOM: return std::make_unique<Density_homogeneous>(m);
        case D_EXP: return std::make_unique<Density_exponential>(*a, sigma, d0, m);
        case D_POLY: return std::make_unique<Density_polynomial>(*a, Polynom(c), m);
        default: return std::make_unique<Density_splines>(*a, *spline(), m);
        }
    }
    json conf() const
    {
        json j;
        j["type"] = k == D_HOM ? "homogeneous" : k == D_EXP ? "exponential" : k == D_POLY ? "polynomial" : "spline";
        j["mass_density"] = m;
        if (k != D_HOM) {
            j["axis_type"] = radial ? "radial" : "cartesian";
            j["fp0"] = { (double)p0.x, (double)p0.y, (double)p0.z };
            if (!radial) j["fAxis"] = { (double)ax.x, (double)ax.y, (double)ax.z };
        }
        if (k == D_EXP) { j["sigma"] = sigma; j["d0"] = d0; }
        if (k == D_POLY) j["coefficients"] = c;
        if (k == D_LIN || k == D_CUB) { j["spline_type"] = k == D_LIN ? "linear" : "cubic"; j["x"] = x; j["y"] = y; }
        return j;
    }
    std::string str() const { return std::string(dn[k]) + (radial ? " radial " : " cartesian ") + conf().dump(); }
};

static V unit(Rng& r)
{
    LD z = r.range(-1, 1), f = r.range(0, 2 * M_PI), s = sqrtl(1 - z * z);
    Cartesian3D c((double)(s * cosl(f)), (double)(s * sinl(f)), (double)z);
    c.normalize();
    return lv(c);
}
static V dbl(V v) { return { (double)v.x, (double)v.y, (double)v.z }; }

// profile whose structure lives on depths of the order of S
static Prof rprof(Rng& r, double S, bool allow_radial = true)
{
    Prof q;
    q.k = (DK)r.i(0, 4);
    q.radial = allow_radial && r.p(0.35) && q.k != D_HOM;
    q.m = r.logr(1e-4, 30);
    if (r.p(0.7)) q.p0 = dbl(unit(r) * (S * r.range(0, 2)));
    if (r.p(0.25)) { q.ax = { 0, 0, 0 }; (&q.ax.x)[r.i(0, 2)] = r.sgn(); }
    else q.ax = unit(r);
    if (r.p(0.1)) q.ax = dbl(q.ax * r.logr(0.1, 10));
    if (q.k == D_EXP) { q.sigma = r.sgn() * S * r.logr(0.3, 300); q.d0 = r.p(0.3) ? 0 : S * r.range(-3, 3); }
    if (q.k == D_POLY) {
        int n = r.i(1, 6);
        for (int i = 0; i < n; ++i) q.c.push_back((i ? r.range(-0.3, 0.3) / i : r.range(0.7, 2)) * std::pow(S, -i));
        if (r.p(0.2)) q.c.back() = 0;
    }
    if (q.k == D_LIN || q.k == D_CUB) {
        int n = r.i(2, 9);
        double x = q.radial ? (r.p(0.5) ? 0 : S * r.range(0, 1)) : S * r.range(-4, 1);
        for (int i = 0; i < n; ++i) {
            q.x.push_back(x);
            q.y.push_back(r.range(0.7, 1.4));
            x += S * r.range(0.4, 2.);
        }
        q.pp = q.k == D_LIN ? num::linear(q.x, q.y) : num::natural(q.x, q.y);
    }
    return q;
}
} // namespace dens
