// L01 multiple scattering, L02 stochastic deflections
#include "xs.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/math/Spherical3D.h"
#include "PROPOSAL/scattering/multiple_scattering/Highland.h"
#include "PROPOSAL/scattering/stochastic_deflection/ScatteringFactory.h"
#include <tuple>
namespace ms = PROPOSAL::multiple_scattering;
namespace sd = PROPOSAL::stochastic_deflection;

// standard normal quantile by bisection and Newton steps on erfc
static LD quantile(LD p)
{
    if (p > .5L) { LD c = 1 - p; return -quantile(c); }
    LD lo = -40, hi = 0.1L;
    for (int i = 0; i < 200 && hi - lo > 1e-18L * fabsl(lo); ++i) {
        LD c = (lo + hi) / 2;
        (erfcl(-c / sqrtl(2.L)) / 2 < p ? lo : hi) = c;
    }
    return (lo + hi) / 2;
}
// what double arithmetic can resolve of a quantile: one rounding of the probability
static double qtol(LD q) { return (double)(1e-9L * fabsl(q) + 1e-15L + 4e-16L * (q > 0 ? sqrtl(2 * M_PIl) * expl(q * q / 2) : 0)); }
static LD reftheta0(LD mass, LD charge, LD X0, LD X, LD E)
{
    if (X == 0 || charge == 0) return 0;
    LD bp = (E - mass) * (E + mass) / E, y = X / X0;
    LD l = 1 + 0.088L * logl(y) / logl(10.L);
    return l > 0 ? 13.6L * fabsl(charge) / bp * sqrtl(y) * l : 0;
}
static ParticleDef someone(mon::Rng& r) { return r.p(.6) ? r.pick(charged()) : madeup(r); }
static double prob(mon::Rng& r)
{
    switch (r.i(0, 5)) {
    case 0: return r.logr(1e-15, .5);
    case 1: return 1 - r.logr(1e-15, .5);
    case 2: return .5 + r.sgn() * r.logr(1e-9, .4);
    default: return r.u();
    }
}
struct Step {
    ParticleDef p;
    shared_ptr<Medium> med;
    double X, ei, ef;
};
static Step step(mon::Rng& r)
{
    auto p = someone(r);
    auto& M = media()[r.i(0, media().size() - 1)];
    double ei = r.p(.25) ? p.mass * (1 + r.logr(1e-6, 1)) : p.mass * 1.0001 + r.logr(1e-3 * p.mass, 1e14);
    double X = r.logr(1e-10, 1e8);
    return { p, M, X, ei, r.range(p.mass, ei) };
}
static string sdesc(const Step& s) { return sfmt("%s in %s grammage=%.17g ei=%.17g ef=%.17g", pd(s.p).c_str(), s.med->GetName().c_str(), s.X, s.ei, s.ef); }

PROP(L01)
{
    m.cases("width", 4000, 200000, [&](mon::Rng& r) {
        auto s = step(r);
        m.describe(sdesc(s));
        ms::Highland h(s.p, *s.med);
        // an independent radiation length: 1/X0 = sum of mass fractions over those of the components is tested with the media
        LD X0 = s.med->GetRadiationLength();
        LD t = reftheta0(s.p.mass, s.p.charge, X0, s.X, s.ei);
        double got = h.CalculateTheta0(s.X, s.ei, s.ef);
        m.check(std::isfinite(got) && got >= 0, "width", sfmt("theta0=%.17g", got));
        // close to the cut of the logarithm the width is a difference
        LD y = s.X / X0, l = 1 + .088L * log10l(y);
        LD bp = (s.ei - s.p.mass) / s.ei;
        m.close(got, (double)t, 1e-12 + 1e-15 / (double)std::max(bp, 1e-12L) * 0 + (l > 0 ? 1e-15 * std::max(1., 30. / (double)l) : 0), 1e-300, "width:formula", sdesc(s));
        if (t > 0) m.nontrivial();
        // single angles are quantiles of the width
        double u1 = prob(r), u2 = prob(r), u3 = prob(r), u4 = prob(r);
        LD q1 = quantile(u1), q2 = quantile(u2), q3 = quantile(u3), q4 = quantile(u4);
        double a1 = h.CalculateScatteringAngle(s.X, s.ei, s.ef, u1);
        m.close(a1, (double)(t * q1), 1e-12, (double)t * qtol(q1), "angle", sfmt("u=%.17g", u1));
        double a2 = h.CalculateScatteringAngle2D(s.X, s.ei, s.ef, u1, u2);
        m.close(a2, (double)(t * sqrtl(q1 * q1 + q2 * q2)), 1e-12, (double)t * (qtol(q1) + qtol(q2)), "angle2D", sfmt("u=%.17g %.17g", u1, u2));
        auto o = h.CalculateRandomAngle(s.X, s.ei, s.ef, { { u1, u2, u3, u4 } });
        double A1 = (double)t * (qtol(q1) + qtol(q2)), A2 = (double)t * (qtol(q3) + qtol(q4));
        m.close(o.tx, (double)(t * q2), 1e-12, A1, "offsets:tx", "second number");
        m.close(o.ty, (double)(t * q4), 1e-12, A2, "offsets:ty", "fourth number");
        m.close(o.sx, (double)(t * (q1 / sqrtl(3.L) + q2) / 2), 1e-12, A1, "offsets:sx", "first and second number");
        m.close(o.sy, (double)(t * (q3 / sqrtl(3.L) + q4) / 2), 1e-12, A2, "offsets:sy", "third and fourth number");
        // the single angle and the offsets belong to the same width
        if (t > 0 && fabsl(q2) > 1e-3L) m.close(o.tx / (double)q2, got, 1e-12, got * qtol(q2) / (double)fabsl(q2), "offsets:width", "tx over its quantile");
    });
    m.cases("scaling", 1500, 60000, [&](mon::Rng& r) {
        auto s = step(r);
        m.describe(sdesc(s));
        ms::Highland h(s.p, *s.med);
        double t = h.CalculateTheta0(s.X, s.ei, s.ef);
        // more material, more scattering; more momentum, less
        double f = 1 + r.logr(1e-3, 10);
        m.check(h.CalculateTheta0(s.X * f, s.ei, s.ef) >= t, "grammage", sfmt("factor %.9g", f));
        m.check(h.CalculateTheta0(s.X, s.ei * f, s.ef) <= t, "energy", sfmt("factor %.9g", f));
        // proportional to the charge, independent of its sign
        static int n = 0;
        ++n;
        double z = r.range(.1, 5);
        auto make = [&](double q) {
            return ParticleDef::Builder().SetName(sfmt("Q%d", n)).SetMass(s.p.mass).SetLow(1).SetLifetime(-1).SetCharge(q).SetParticleType(8000000 + 4 * n + (q < 0) + 2 * (q == 0)).build();
        };
        auto plus = make(z * std::abs(s.p.charge)), minus = make(-z * std::abs(s.p.charge)), none = make(0);
        double tp = ms::Highland(plus, *s.med).CalculateTheta0(s.X, s.ei, s.ef), tm = ms::Highland(minus, *s.med).CalculateTheta0(s.X, s.ei, s.ef);
        m.check(tp == tm, "charge:sign", sfmt("%.17g %.17g", tp, tm));
        m.close(tp, z * t, 1e-12, 1e-300, "charge:linear", sfmt("z=%.9g", z));
        double t0 = ms::Highland(none, *s.med).CalculateTheta0(s.X, s.ei, s.ef);
        m.check(t0 == 0, "neutral", sfmt("%.17g", t0));
        // no step, no deflection
        auto o = h.CalculateRandomAngle(0., s.ei, s.ei, { { prob(r), prob(r), prob(r), prob(r) } });
        m.check(o.sx == 0 && o.sy == 0 && o.tx == 0 && o.ty == 0, "nostep", sfmt("%.17g %.17g %.17g %.17g", o.sx, o.sy, o.tx, o.ty));
        m.check(h.CalculateScatteringAngle(0., s.ei, s.ei, prob(r)) == 0 && h.CalculateScatteringAngle2D(0., s.ei, s.ei, prob(r), prob(r)) == 0, "nostep:angle", "an angle without a step");
        // opposite random numbers give opposite angles
        double u = prob(r);
        if (u > 1e-6 && u < 1 - 1e-6) m.close(h.CalculateScatteringAngle(s.X, s.ei, s.ef, u), -h.CalculateScatteringAngle(s.X, s.ei, s.ef, 1 - u), 1e-7, t * 1e-9, "symmetric", sfmt("u=%.17g", u));
        // clones and equality
        std::unique_ptr<ms::Parametrization> c = h.clone();
        m.check(*c == h, "clone:equal", "the clone differs");
        m.check(c->CalculateScatteringAngle(s.X, s.ei, s.ef, u) == h.CalculateScatteringAngle(s.X, s.ei, s.ef, u), "clone:angle", "the clone gives another angle");
        std::array<double, 4> w { { prob(r), prob(r), prob(r), prob(r) } };
        auto oa = h.CalculateRandomAngle(s.X, s.ei, s.ef, w), ob = c->CalculateRandomAngle(s.X, s.ei, s.ef, w);
        m.check(oa.sx == ob.sx && oa.sy == ob.sy && oa.tx == ob.tx && oa.ty == ob.ty, "clone:offsets", "the clone gives other offsets");
        if (tp != t) m.check(!(ms::Highland(plus, *s.med) == h) || z == 1 || plus.charge == s.p.charge, "equal:charge", "different charges compare equal");
        auto& M2 = media()[r.i(0, media().size() - 1)];
        if (M2->GetRadiationLength() != s.med->GetRadiationLength()) m.check(!(ms::Highland(s.p, *M2) == h), "equal:medium", "different radiation lengths compare equal");
        m.check(ms::Highland(s.p, *s.med) == h, "equal:same", "two equal objects differ");
        if (t > 0) m.nontrivial();
    });
    // another model with the same mass is never equal and comparing with it is allowed
    m.cases("foreign", 50, 500, [&](mon::Rng& r) {
        struct Other : ms::Parametrization {
            Other(double q) : ms::Parametrization(q) {}
            std::unique_ptr<ms::Parametrization> clone() const override { return std::unique_ptr<ms::Parametrization>(new Other(*this)); }
            bool compare(const ms::Parametrization& o) const override { return dynamic_cast<const Other*>(&o) != nullptr; }
            void print(std::ostream&) const override {}
            ms::ScatteringOffset CalculateRandomAngle(double, double, double, const std::array<double, 4>&) override { return {}; }
            double CalculateScatteringAngle(double, double, double, double) override { return 0; }
            double CalculateScatteringAngle2D(double, double, double, double, double) override { return 0; }
        };
        auto s = step(r);
        m.describe(sdesc(s));
        ms::Highland h(s.p, *s.med);
        Other o(s.p.mass);
        m.check(!(h == o), "equal", "another model compares equal");
        m.check(!(o == h), "equal:reversed", "another model compares equal");
        m.nontrivial();
    });
    m.cases("rotation", 12000, 600000, [&](mon::Rng& r) {
        // a direction anywhere, close to a pole or an axis
        double th, ph = r.range(-M_PI, M_PI);
        switch (r.i(0, 4)) {
        case 0: th = r.p(.5) ? 0 : M_PI; break;
        case 1: th = r.logr(1e-12, 1e-2); break;
        case 2: th = M_PI - r.logr(1e-12, 1e-2); break;
        case 3: th = M_PI / 2; ph = M_PI / 2 * r.i(-2, 2); break;
        default: th = std::acos(r.range(-1, 1));
        }
        double w = r.p(.2) ? r.range(.2, 3) : r.logr(1e-12, .6);
        if (r.p(.05)) w = 0;
        ms::ScatteringOffset o;
        o.tx = w * r.gauss(), o.ty = w * r.gauss(), o.sx = .5 * (w * r.gauss() / std::sqrt(3.) + o.tx), o.sy = .5 * (w * r.gauss() / std::sqrt(3.) + o.ty);
        if (r.p(.1)) o.tx = o.sx = 0;
        if (r.p(.1)) o.ty = o.sy = 0;
        bool spherical = r.p(.4);
        Spherical3D sph(1, ph, th);
        Cartesian3D car(std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th));
        m.describe(sfmt("%s direction azimuth=%.17g zenith=%.17g s=(%.17g,%.17g) t=(%.17g,%.17g)", spherical ? "spherical" : "cartesian", ph, th, o.sx, o.sy, o.tx, o.ty));
        auto res = spherical ? ms::ScatterInitialDirection(sph, o) : ms::ScatterInitialDirection(car, o);
        LD d[3] = { (LD)car.GetX(), (LD)car.GetY(), (LD)car.GetZ() };
        auto dot = [](const LD* a, const LD* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; };
        // the polar angle of a cartesian vector close to a pole is resolved to 1e-16/angle
        double pole = std::min(th, M_PI - th), da = 1e-15 + (spherical ? 0 : 4e-16 / std::max(pole, 1e-8)) ;
        LD v[2][3];
        for (int k = 0; k < 2; ++k) {
            auto& c = k ? res.second : res.first;
            v[k][0] = c.GetX(), v[k][1] = c.GetY(), v[k][2] = c.GetZ();
            LD n = sqrtl(dot(v[k], v[k]));
            const char* name = k ? "final" : "mean";
            m.check(std::abs((double)n - 1) < 1e-13 + 2 * da * std::min(1., w * 6), string("unit:") + name, sfmt("norm %.17g", (double)n));
            LD x = k ? o.tx : o.sx, y = k ? o.ty : o.sy, q = x * x + y * y;
            if (q < 1) {
                m.close((double)dot(v[k], d), (double)sqrtl(1 - q), 1e-13, 4e-15 / std::max(1e-3, (double)sqrtl(1 - q)) + 2 * da * std::min(1., (double)sqrtl(q)), string("angle:") + name, "cosine to the initial direction");
                // transverse part has the size of the offsets
                LD perp[3];
                LD c0 = dot(v[k], d) / dot(d, d);
                for (int i = 0; i < 3; ++i) perp[i] = v[k][i] - c0 * d[i];
                m.close((double)sqrtl(dot(perp, perp)), (double)sqrtl(q), 1e-12 + 2 * da, 1e-15, string("offset:") + name, "transverse part");
            } else {
                m.note("offsets beyond a right angle");
                m.check(std::abs((double)dot(v[k], d)) < 1e-13 + 2 * da, string("large:") + name, sfmt("cosine %.17g", (double)dot(v[k], d)));
            }
        }
        LD qs = (LD)o.sx * o.sx + (LD)o.sy * o.sy, qt = (LD)o.tx * o.tx + (LD)o.ty * o.ty;
        if (qs < 1 && qt < 1) {
            // a rotation keeps the angle between mean and final direction and their orientation
            LD sz = sqrtl(1 - qs), tz = sqrtl(1 - qt);
            m.close((double)dot(v[0], v[1]), (double)((LD)o.sx * o.tx + (LD)o.sy * o.ty + sz * tz), 1e-12, 1e-14 + 8 * da * std::min(1., w * 6), "relative", "cosine between mean and final direction");
            LD cr[3] = { v[0][1] * v[1][2] - v[0][2] * v[1][1], v[0][2] * v[1][0] - v[0][0] * v[1][2], v[0][0] * v[1][1] - v[0][1] * v[1][0] };
            m.close((double)dot(d, cr), (double)((LD)o.sx * o.ty - (LD)o.sy * o.tx), 1e-11, 1e-14 + 8 * da * std::min(1., w * 6), "orientation", "triple product of initial, mean and final direction");
        }
        // away from the poles: first offset along increasing zenith, second along increasing azimuth
        if (th > 1e-3 && th < M_PI - 1e-3 && qt < 1) {
            LD ez[3] = { cosl(th) * cosl(ph), cosl(th) * sinl(ph), -sinl(th) }, ea[3] = { -sinl(ph), cosl(ph), 0 };
            m.close((double)dot(v[1], ez), o.tx, 1e-11, 1e-13, "frame:zenith", "final direction along increasing zenith");
            m.close((double)dot(v[1], ea), o.ty, 1e-11, 1e-13, "frame:azimuth", "final direction along increasing azimuth");
        }
        if (w > 0) m.nontrivial();
    });
    // whole steps: the direction after a step is physical whatever the particle does
    m.cases("steps", 3000, 150000, [&](mon::Rng& r) {
        auto s = step(r);
        m.describe(sdesc(s));
        ms::Highland h(s.p, *s.med);
        auto d = Cartesian3D(0, 0, 1);
        double ph = r.range(0, 2 * M_PI), c = r.range(-1, 1), q = std::sqrt(1 - c * c);
        d.SetCoordinates({ { q * std::cos(ph), q * std::sin(ph), c } });
        for (int k = 0; k < 8; ++k) {
            auto o = h.CalculateRandomAngle(s.X, s.ei, s.ef, { { prob(r), prob(r), prob(r), prob(r) } });
            auto res = ms::ScatterInitialDirection(d, o);
            m.check(std::abs(res.first.magnitude() - 1) < 1e-7 && std::abs(res.second.magnitude() - 1) < 1e-7, "unit", sfmt("norms %.17g %.17g after offsets %.9g %.9g %.9g %.9g", res.first.magnitude(), res.second.magnitude(), o.sx, o.sy, o.tx, o.ty));
            d = res.second;
        }
        m.nontrivial();
    });
}

// ---------------------------------------------------------------------- L02
struct Defl {
    const char* name;
    InteractionType type;
    size_t nrnd;
    bool isdefault;
};
static const Defl DEFL[] = {
    { "BremsTsaiApproximation", InteractionType::Brems, 2, true },
    { "BremsGinneken", InteractionType::Brems, 2, false },
    { "EpairGinneken", InteractionType::Epair, 2, true },
    { "IonizNaive", InteractionType::Ioniz, 1, true },
    { "PhotoBorogPetrukhin", InteractionType::Photonuclear, 2, true },
    { "PhotoGinneken", InteractionType::Photonuclear, 2, false },
};
static LD bremsginneken(LD E, LD Ef, LD mass, LD Z, bool& undefined, bool& edge)
{
    LD nu = (E - Ef) / (E - mass);
    undefined = edge = false;
    if (nu <= .5L) {
        LD k1 = .092L * powl(E, -1.L / 3), k2 = .052L / E * powl(Z, -.25L), k3 = .22L * powl(E, -.92L);
        return std::max(std::min(k1 * sqrtl(nu), k2), k3 * nu);
    }
    LD k4 = .26L * powl(E, -.91L), n = .81L * sqrtl(E) / (sqrtl(E) + 1.8L);
    LD t = k4 * powl(nu, 1 + n) * powl(1 - nu, -n);
    edge = fabsl(t - .2L) < 1e-6L;
    if (t < .2L) return t;
    auto g = [&](LD x) { return k4 * powl(x, 1 + n) * powl(1 - x, -n) - .2L; }; // the width reaches 0.2 at nu_g
    LD ng = .5L;
    if (g(.5L) < 0) {
        LD a = .5L, b = 1;
        for (int i = 0; i < 90; ++i) {
            LD c = (a + b) / 2;
            (g(c) < 0 ? a : b) = c;
        }
        ng = (a + b) / 2;
    }
    LD k5 = k4 * powl(ng, 1 + n) * powl(1 - ng, .5L - n);
    t = k5 / sqrtl(1 - nu);
    if (t < .2L - 1e-9L) undefined = true;
    return t;
}
PROP(L02)
{
    m.cases("angles", 12000, 600000, [&](mon::Rng& r) {
        auto& D = DEFL[r.i(0, 5)];
        auto p = r.p(.5) ? (r.p(.5) ? ParticleDef(MuMinusDef()) : ParticleDef(MuPlusDef())) : r.pick(charged());
        bool muon = std::abs(p.mass - MMU) < 1;
        auto& M = *media()[r.i(0, media().size() - 1)];
        auto comps = M.GetComponents();
        auto& c = comps[r.i(0, comps.size() - 1)];
        double E = anyenergy(r, p.mass);
        auto L = limits(D.type, p, c, M, E);
        if (!(L.v_max > L.v_min) || !(L.v_max > 0)) throw mon::Skip();
        double lo = L.v_min, v;
        switch (r.i(0, 5)) {
        case 0: v = L.v_max; break;
        case 1: v = L.v_min; break;
        default: v = between(r, std::max(lo, L.v_max * 1e-13), L.v_max);
        }
        double Ef = E * (1 - v);
        if (v == L.v_min && lo == 0) Ef = E;
        // a particle left at rest has no direction
        if (Ef < p.mass * (1 + 1e-9)) throw mon::Skip();
        if (D.type == InteractionType::Photonuclear) {
            // no momentum transfer possible: such a loss has no cross section
            LD y = ((LD)E - Ef) / E;
            if ((LD)p.mass * p.mass * y * y / (1 - y) >= 2 * (LD)MP * (E - Ef) * (1 - 1e-12L)) throw mon::Skip();
        }
        auto model = make_stochastic_deflection(D.name, p, M);
        size_t n = model->RequiredRandomNumbers();
        m.describe(sfmt("%s %s on %s (Z=%g) in %s E=%.17g Ef=%.17g v=%.17g in [%.9g, %.9g]", D.name, p.name.c_str(), c.GetName().c_str(), c.GetNucCharge(), M.GetName().c_str(), E, Ef, v, L.v_min, L.v_max));
        m.check(n == D.nrnd, string("count:") + D.name, sfmt("asks for %zu random numbers", n));
        m.check(model->GetInteractionType() == D.type, string("type:") + D.name, "belongs to another interaction");
        // exactly n numbers on the heap: a read beyond them is seen by the sanitizer
        vector<double> rnd(n);
        for (auto& x : rnd) x = prob(r);
        rnd.shrink_to_fit();
        UnitSphericalVector a(0, 0);
        try {
            a = model->CalculateStochasticDeflection(E, Ef, rnd, c.GetHash());
        } catch (const std::exception& e) {
            m.check(!muon, string("throws:") + D.name, e.what());
            m.note("undefined away from muons");
            return;
        }
        double th = a.zenith, ph = a.azimuth;
        m.note(string("evaluated ") + D.name);
        bool zeroloss = Ef == E;
        string k = string(D.name);
        bool ok = m.check(std::isfinite(th) && th >= 0, "finite:" + k, sfmt("theta=%.17g rnd=%.17g", th, rnd[0]));
        m.check(std::isfinite(ph) && ph >= 0 && ph <= 2 * M_PI * (1 + 1e-12), "azimuth:" + k, sfmt("phi=%.17g", ph));
        m.close(ph, 2 * M_PI * rnd.back(), 1e-12, 0, "azimuth:uniform:" + k, "azimuth for its random number");
        // the same arguments give the same angle, from a copy as well
        auto b = make_stochastic_deflection(string(D.name), p, M)->CalculateStochasticDeflection(E, Ef, rnd, c.GetHash());
        m.check((b.zenith == th || !ok) && b.azimuth == ph, "repeat:" + k, "another angle for the same numbers");
        // the azimuth does not influence the angle
        if (n == 2) {
            auto rn = rnd;
            rn[1] = prob(r);
            auto e = model->CalculateStochasticDeflection(E, Ef, rn, c.GetHash());
            m.check(e.zenith == th || !ok, "independent:" + k, "the azimuth changes the angle");
        }
        if (D.isdefault) {
            auto def = make_default_stochastic_deflection(D.type, p, M);
            auto e = def->CalculateStochasticDeflection(E, Ef, rnd, c.GetHash());
            m.check((e.zenith == th || !ok) && e.azimuth == ph, "default:" + k, "the default model gives another angle");
        }
        if (!ok) return;
        m.nontrivial();
        m.worst("angle " + k, th);
        LD mu = p.mass;
        if (k == "IonizNaive") {
            m.check(th <= M_PI, "bound:" + k, sfmt("theta=%.17g", th));
            // scattering off an electron at rest: momentum balance
            LD e = E, f = Ef, pi = sqrtl((e - mu) * (e + mu)), pf = sqrtl((f - mu) * (f + mu)), T = e - f;
            // 1-cos from the transverse balance, without cancellation
            LD df = mu * mu * (2 + 2 * (e * e + f * f - mu * mu) / (e * f + pi * pf)); // (e+f)^2-(pi+pf)^2
            LD omc = std::max(0.L, (2 * (LD)ME * T - T * T * df / ((pi + pf) * (pi + pf))) / (2 * pi * pf));
            LD got = 2 * sinl(th / 2) * sinl(th / 2);
            LD tol = 1e-15L * (e + ME) * f / (pi * pf) * 8 + 1e-11L * fabsl(omc);
            m.check(fabsl(got - omc) <= tol, "kinematics:" + k, sfmt("1-cos(theta)=%.17g expected %.17g", (double)got, (double)omc));
            if (omc > 1e3L * tol) m.note("ionisation angles resolved");
            if (zeroloss) m.check(th < 1e-6, "noloss:" + k, sfmt("theta=%.17g", th));
        } else if (k == "BremsTsaiApproximation") {
            LD eps = (LD)E - Ef, bound = eps > 0 ? std::min(1.L, (LD)eps / Ef) : 0;
            m.check(th <= bound * (1 + 1e-12L), "bound:" + k, sfmt("theta=%.17g beyond %.17g", th, (double)bound));
            LD rm = std::min(1.L, eps > 0 ? (LD)Ef / eps : 1.L) * E / mu, s = rnd[0] * rm * rm / (1 + rm * rm);
            // the photon angle: cumulative distribution of 2r/(1+r^2)^2
            LD thg = eps > 0 ? th * Ef / eps : 0, rr = thg * E / mu;
            if (eps > 0) m.close((double)(rr * rr / (1 + rr * rr)), (double)s, 1e-9, 1e-14 + 4e-16 * E / (double)eps, "distribution:" + k, "cumulative distribution of the photon angle");
            if (zeroloss) m.check(th == 0, "noloss:" + k, sfmt("theta=%.17g", th));
        } else if (k == "PhotoBorogPetrukhin") {
            m.check(th <= M_PI, "bound:" + k, sfmt("theta=%.17g", th));
            LD eps = (LD)E - Ef, y = eps / E, tmax = 2 * (LD)MP * eps, tmin = mu * mu * y * y / (1 - y), t1 = std::min(eps * eps, .4e6L);
            LD s2 = sinl(th / 2) * sinl(th / 2), t = tmin + s2 * (4 * ((LD)E * Ef - mu * mu) - 2 * tmin);
            if (tmax > tmin) {
                LD lx = 1e-16L * 4 * ((LD)E * Ef) / tmin + 1e-15L * E / Ef; // what is left of the angle's precision
                m.check(t >= tmin * (1 - 1e-9L - lx) && t <= tmax * (1 + 1e-9L + lx * tmin / tmax), "transfer:" + k, sfmt("momentum transfer %.17g outside [%.17g, %.17g]", (double)t, (double)tmin, (double)tmax));
                LD den = logl(tmax / tmin * (tmin + t1) / (tmax + t1)), num_ = logl(tmax / t * (t + t1) / (tmax + t1));
                LD tol = 1e-10L + 20 * 2.3e-16L * (1 + tmax / t1) / den + lx;
                if (tol < 1e-2L && den > 0 && th < M_PI - 1e-4) {
                    m.note("photonuclear transfers compared");
                    m.check(fabsl(num_ / den - rnd[0]) < tol, "distribution:" + k, sfmt("random number %.17g gives the quantile %.17g", rnd[0], (double)(num_ / den)));
                }
            }
        } else {
            LD e = E / 1e3L, f = Ef / 1e3L, mm = mu / 1e3L, nu = (e - f) / (e - mm), w = 0;
            bool und = false, edge = false;
            if (k == "BremsGinneken") w = bremsginneken(e, f, mm, c.GetNucCharge(), und, edge);
            else if (k == "EpairGinneken") {
                LD x = std::min(8.9e-4L * powl(nu, .25L) * (1 + 1.5e-5L * e) + .032L * nu / (nu + 1), .1L);
                LD q = 1 - 2 * (LD)ME / 1e3L / (e * nu);
                w = (2.3L + logl(e)) / (1 - nu) / e * q * q * x;
            } else w = .39L / (e * (1 - nu)) * powl(sqrtl(e) * nu * (1 - nu), .17L) * (1 - .135L / (e * nu));
            LD ref_ = fabsl(w) * sqrtl(-log1pl(-(LD)rnd[0]));
            // close to the end 1-nu carries the rounding of the energies
            LD tol = 1e-9L + 1e-15L * e / std::max(f - mm, 1e-30L) + 1e-15L * e / std::max(e - f, 1e-30L) * 4;
            if (k == "BremsGinneken" && nu > .5L) tol += 1e-8L + 1e-20L / powl(std::max(1 - nu, 1e-20L), 1);
            if (fabsl(nu - .5L) < 1e-12L || edge || und) tol = 1e9;
            if (tol < 1e-2L) {
                m.note("widths compared " + k);
                m.check(fabsl(th - ref_) <= tol * ref_ + 1e-300L, "width:" + k, sfmt("theta=%.17g expected %.17g", th, (double)ref_));
            }
            if (k == "BremsGinneken" && zeroloss) m.check(th == 0, "noloss:" + k, sfmt("theta=%.17g", th));
        }
        // larger quantiles give larger angles
        if (n == 2) {
            auto rn = rnd;
            rn[0] = prob(r);
            auto e = model->CalculateStochasticDeflection(E, Ef, rn, c.GetHash());
            bool up = k != "PhotoBorogPetrukhin";
            if (rn[0] > rnd[0]) m.check(up ? e.zenith >= th * (1 - 1e-12) : e.zenith <= th * (1 + 1e-12) + 1e-9, "monotone:" + k, sfmt("%.17g at %.17g, %.17g at %.17g", th, rnd[0], e.zenith, rn[0]));
        }
    });
    m.cases("names", 60, 300, [&](mon::Rng& r) {
        auto p = r.pick(charged());
        auto& M = *media()[r.i(0, media().size() - 1)];
        auto& D = DEFL[r.i(0, 5)];
        string n = D.name;
        for (auto& ch : n) if (r.p(.5)) ch = r.p(.5) ? (char)toupper(ch) : (char)tolower(ch);
        m.describe(n);
        auto a = make_stochastic_deflection(n, p, M);
        m.check(a && a->GetInteractionType() == D.type && a->RequiredRandomNumbers() == D.nrnd, "lookup", "another model");
        bool thrown = false;
        n[r.i(0, n.size() - 1)] = '_';
        try { make_stochastic_deflection(n, p, M); } catch (const std::out_of_range&) { thrown = true; }
        m.check(thrown, "unknown", "an unknown name is accepted");
        m.nontrivial();
    });
    m.once("defaults", [&](mon::Rng&) {
        auto p = MuMinusDef();
        auto& M = *media()[0];
        auto v = make_default_stochastic_deflection(vector<InteractionType> { InteractionType::Epair, InteractionType::Brems, InteractionType::Photonuclear, InteractionType::Ioniz }, ParticleDef(p), Medium(M));
        m.check(v.size() == 4 && v[0]->GetInteractionType() == InteractionType::Epair && v[1]->GetInteractionType() == InteractionType::Brems && v[2]->GetInteractionType() == InteractionType::Photonuclear && v[3]->GetInteractionType() == InteractionType::Ioniz, "order", "other models than asked for");
        for (auto t : { InteractionType::Compton, InteractionType::Photopair, InteractionType::WeakInt }) {
            bool thrown = false;
            try { make_default_stochastic_deflection(t, ParticleDef(p), Medium(M)); } catch (const std::logic_error&) { thrown = true; }
            m.check(thrown, "none", "a deflection for an interaction without model");
        }
        m.nontrivial();
    });
}

int main(int c, char** v) { return mon::run(c, v); }
