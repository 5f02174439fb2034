// Independent model of the bodies: intervals of material along a ray.
#pragma once
#include "mon.h"
#include "PROPOSAL/geometry/GeometryFactory.h"
#include "PROPOSAL/math/Spherical3D.h"
namespace geo {
using namespace PROPOSAL;
typedef long double LD;
struct V { LD x, y, z; };
inline V operator+(V a, V b) { return { a.x + b.x, a.y + b.y, a.z + b.z }; }
inline V operator-(V a, V b) { return { a.x - b.x, a.y - b.y, a.z - b.z }; }
inline V operator*(V a, LD s) { return { a.x * s, a.y * s, a.z * s }; }
inline LD dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline LD norm(V a) { return sqrtl(dot(a, a)); }
inline Cartesian3D c3(V v) { return Cartesian3D((double)v.x, (double)v.y, (double)v.z); }
inline V lv(const Cartesian3D& c) { return { c.GetX(), c.GetY(), c.GetZ() }; }

enum Kind { K_SPH, K_CYL, K_BOX };
struct Body {
    Kind k;
    V c;
    LD a, b, h; // K_SPH: a radius, b inner. K_CYL: a radius, b inner, h height. K_BOX: a,b,h full lengths
    LD size() const { return k == K_SPH ? a : k == K_CYL ? std::max(a, h) : std::max(a, std::max(b, h)); }
    LD mind() const
    {
        if (k == K_SPH) return b > 0 ? std::min(a - b, b) : a;
        if (k == K_CYL) return std::min(h, b > 0 ? std::min(a - b, b) : a);
        return std::min(a, std::min(b, h));
    }
    Body grown(LD e) const // grow the material by e everywhere
    {
        Body q = *this;
        if (k == K_BOX) { q.a += 2 * e; q.b += 2 * e; q.h += 2 * e; }
        else { q.a += e; if (b > 0) q.b = std::max((LD)0, b - e); if (k == K_CYL) q.h += 2 * e; }
        return q;
    }
    std::string str() const
    {
        return mon::sfmt("%s c=(%.17g,%.17g,%.17g) a=%.17g b=%.17g h=%.17g", k == K_SPH ? "sphere" : k == K_CYL ? "cylinder" : "box",
            (double)c.x, (double)c.y, (double)c.z, (double)a, (double)b, (double)h);
    }
    std::shared_ptr<Geometry> make() const
    {
        if (k == K_SPH) return std::make_shared<Sphere>(c3(c), (double)a, (double)b);
        if (k == K_CYL) return std::make_shared<Cylinder>(c3(c), (double)h, (double)a, (double)b);
        return std::make_shared<Box>(c3(c), (double)a, (double)b, (double)h);
    }
    // signed distance to the nearest surface is bounded by this residual: 0 on the surface
    LD surf(V p) const
    {
        V q = p - c;
        auto f = [](LD v) { return fabsl(v); };
        if (k == K_SPH) { LD r = norm(q); LD s = f(r - a); if (b > 0) s = std::min(s, f(r - b)); return s; }
        if (k == K_CYL) {
            LD r = sqrtl(q.x * q.x + q.y * q.y), zz = f(q.z) - h / 2;
            LD over = std::max((LD)0, zz);
            LD s = std::max(f(r - a), over);
            if (b > 0) s = std::min(s, std::max(f(r - b), over));
            LD rad = std::max((LD)0, r - a);
            if (b > 0) rad = std::max(rad, b - r);
            s = std::min(s, std::max(f(zz), rad));
            return s;
        }
        LD dx = f(q.x) - a / 2, dy = f(q.y) - b / 2, dz = f(q.z) - h / 2;
        LD m = std::max(dx, std::max(dy, dz));
        return f(m);
    }
    bool contains(V p) const
    {
        V q = p - c;
        if (k == K_SPH) { LD r = norm(q); return r <= a && r >= b; }
        if (k == K_CYL) { LD r = sqrtl(q.x * q.x + q.y * q.y); return r <= a && r >= b && fabsl(q.z) <= h / 2; }
        return fabsl(q.x) <= a / 2 && fabsl(q.y) <= b / 2 && fabsl(q.z) <= h / 2;
    }
};
struct Iv { LD lo, hi; bool ok() const { return lo < hi; } };
inline Iv cap(Iv a, Iv b) { return { std::max(a.lo, b.lo), std::min(a.hi, b.hi) }; }
const LD INF = 1e300L;
inline Iv slab(LD p, LD d, LD half)
{
    if (d == 0) return (fabsl(p) <= half) ? Iv { -INF, INF } : Iv { 1, 0 };
    LD t1 = (-half - p) / d, t2 = (half - p) / d;
    return { std::min(t1, t2), std::max(t1, t2) };
}
inline Iv quad(LD C, LD B, LD A) // C t^2 + 2 B t + A <= 0
{
    if (C == 0) return A <= 0 ? Iv { -INF, INF } : Iv { 1, 0 };
    LD det = B * B - A * C;
    if (det <= 0) return { 1, 0 };
    LD s = sqrtl(det);
    LD q = -(B + (B >= 0 ? s : -s));
    LD t1 = q / C, t2 = q != 0 ? A / q : (LD)0;
    return { std::min(t1, t2), std::max(t1, t2) };
}
inline std::vector<Iv> material(const Body& g, V p, V d)
{
    V q = p - g.c;
    Iv o, in { 1, 0 };
    if (g.k == K_SPH) {
        o = quad(dot(d, d), dot(q, d), dot(q, q) - g.a * g.a);
        if (g.b > 0) in = quad(dot(d, d), dot(q, d), dot(q, q) - g.b * g.b);
    } else if (g.k == K_CYL) {
        LD C = d.x * d.x + d.y * d.y, B = q.x * d.x + q.y * d.y, A = q.x * q.x + q.y * q.y;
        o = cap(quad(C, B, A - g.a * g.a), slab(q.z, d.z, g.h / 2));
        if (g.b > 0) in = cap(quad(C, B, A - g.b * g.b), slab(q.z, d.z, g.h / 2));
    } else
        o = cap(cap(slab(q.x, d.x, g.a / 2), slab(q.y, d.y, g.b / 2)), slab(q.z, d.z, g.h / 2));
    std::vector<Iv> r;
    if (!o.ok()) return r;
    if (!in.ok()) { r.push_back(o); return r; }
    Iv l { o.lo, std::min(o.hi, in.lo) }, h { std::max(o.lo, in.hi), o.hi };
    if (l.ok()) r.push_back(l);
    if (h.ok()) r.push_back(h);
    return r;
}
// expected pair; t0: crossings at t <= t0 count as behind / at the border
struct Exp { LD first = -1, second = -1; int state = 0; /*0 nothing ahead 1 inside 2 ahead*/ };
inline Exp expected(const Body& g, V p, V d, LD t0 = 0)
{
    Exp e;
    for (auto iv : material(g, p, d)) {
        if (iv.hi <= t0) continue;
        if (iv.lo <= t0) { e.first = iv.hi; e.second = -1; e.state = 1; }
        else { e.first = iv.lo; e.second = iv.hi; e.state = 2; }
        return e;
    }
    return e;
}
inline V rdir(mon::Rng& r)
{
    for (;;) {
        V v { r.gauss(), r.gauss(), r.gauss() };
        LD n = norm(v);
        if (n > 1e-3) return v * (1 / n);
    }
}
// the direction the library really sees: doubles
inline V asdouble(V v) { return { (double)v.x, (double)v.y, (double)v.z }; }
inline Body rbody(mon::Rng& r, LD smin, LD smax, LD place)
{
    Body g;
    g.k = (Kind)r.i(0, 2);
    LD s = r.logr(smin, smax);
    g.c = asdouble(V { r.range(-1, 1), r.range(-1, 1), r.range(-1, 1) } * (place * s * (r.p(0.3) ? 0 : 1)));
    auto pos = [&](double lo, double hi) { return (LD)(double)(s * r.logr(lo, hi)); };
    if (g.k == K_BOX) { g.a = pos(0.05, 1); g.b = pos(0.05, 1); g.h = pos(0.05, 1); }
    else {
        g.a = pos(0.3, 1);
        g.b = r.p(0.4) ? 0 : (LD)(double)(g.a * (r.p(0.2) ? r.range(0.95, 0.999) : r.range(0.02, 0.95)));
        g.h = pos(0.05, 3);
    }
    return g;
}
inline V rpoint(mon::Rng& r, const Body& g)
{
    LD s = g.size();
    int how = r.i(0, 5);
    V o = rdir(r);
    if (how == 0) return asdouble(g.c + o * (s * r.logr(1.0, 300)));
    if (how == 1 && g.k != K_BOX && g.b > 0) return asdouble(g.c + o * (g.b * r.u()));
    if (how == 2 && g.k != K_BOX && g.b > 0) {
        LD rad = r.range(g.b, g.a), ph = r.range(0, 6.283185307);
        if (g.k == K_SPH) return asdouble(g.c + o * rad);
        return asdouble(g.c + V { rad * cosl(ph), rad * sinl(ph), g.h * (r.u() - 0.5) });
    }
    if (how == 3 && g.k == K_CYL) { // above or below the caps, over the hole or the wall
        LD rad = r.range(0, 1.2) * g.a, ph = r.range(0, 6.283185307);
        return asdouble(g.c + V { rad * cosl(ph), rad * sinl(ph), r.sgn() * g.h * r.range(0.5, 3) });
    }
    V q { r.range(-1, 1), r.range(-1, 1), r.range(-1, 1) };
    static const double fs[3] = { 0.4, 0.7, 1.5 }; LD f = fs[r.i(0, 2)];
    return asdouble(g.c + q * (s * f));
}
inline std::string rs(V p, V d)
{
    return mon::sfmt(" p=(%.17g,%.17g,%.17g) d=(%.17g,%.17g,%.17g)", (double)p.x, (double)p.y, (double)p.z, (double)d.x, (double)d.y, (double)d.z);
}
// Robust expectation: the answer must not depend on growing or shrinking the
// material a little; otherwise the ray is degenerate (grazing, on the border).
struct Robust { bool ok; Exp e; LD slack1, slack2; };
inline Robust robust(const Body& g, V p, V d, LD releps = 1e-7L)
{
    LD eps = std::min(g.size() * releps, g.mind() * 1e-3L);
    Exp e = expected(g, p, d), a = expected(g.grown(eps), p, d), b = expected(g.grown(-eps), p, d);
    Robust r { true, e, 0, 0 };
    if (a.state != e.state || b.state != e.state) r.ok = false;
    r.slack1 = std::max(fabsl(a.first - e.first), fabsl(b.first - e.first));
    r.slack2 = std::max(fabsl(a.second - e.second), fabsl(b.second - e.second));
    LD lim = g.size() * 1e-3L;
    if (r.slack1 > lim || r.slack2 > lim) r.ok = false;
    return r;
}
}
