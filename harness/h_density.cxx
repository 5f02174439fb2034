// Density profiles: column depth, its inverse, copies and configurations.
#include "dens.h"
#include "PROPOSAL/medium/MediumFactory.h"
using namespace dens;
using namespace geo;
using mon::Mon; using mon::Rng; using mon::sfmt;
using json = nlohmann::json;

// depth along the step is affine: depth0 + rate*l
struct Way { LD depth, rate; };
static LD column(const Prof& q, Way w, LD l)
{
    if (l == 0) return 0;
    std::vector<LD> pts { 0 };
    if (q.k == D_LIN || q.k == D_CUB) {
        std::vector<LD> k;
        if (w.rate != 0) for (LD x : q.pp.x) { LD t = (x - w.depth) / w.rate; if (t > 0 && t < l) k.push_back(t); }
        std::sort(k.begin(), k.end());
        pts.insert(pts.end(), k.begin(), k.end());
    }
    if (q.k == D_EXP) {
        int n = 1 + (int)std::min((LD)3000, fabsl(w.rate * l / q.sigma) / 2);
        for (int i = 1; i < n; ++i) pts.push_back(l * i / n);
    }
    pts.push_back(l);
    return q.m * num::glb<16>([&](LD t) { return q.shape(w.depth + w.rate * t); }, pts);
}
static bool positive(const Prof& q, Way w, LD l)
{
    if (q.k == D_HOM || q.k == D_EXP) return true;
    LD lo = 1e300L, hi = 0;
    for (int i = 0; i <= 200; ++i) { LD v = q.shape(w.depth + w.rate * l * i / 200); lo = std::min(lo, v); hi = std::max(hi, v); }
    return lo > 0.02L * hi;
}

// tolerance of a column: relative, plus rounding of the antiderivative and of the depth itself
static LD coltol(const Prof& q, V p, Way w, LD l, LD ref)
{
    LD t = 1e-10L * fabsl(ref);
    LD a = q.cond(w.depth), b = q.cond(w.depth + w.rate * l);
    LD rate = std::max(fabsl(w.rate), (LD)1e-9);
    t += q.m * 3e-15L * (a + b) / rate;
    LD dd = 4e-16L * (norm(p) + norm(q.p0) + l) * std::max((LD)1, norm(q.ax)); // rounding of a depth
    LD s0 = q.slope(w.depth), s1 = q.slope(w.depth + w.rate * l);
    t += q.m * 4 * dd * std::max(s0, s1) * l; // wrong density along the whole way
    // rounding of the rate moves the far end of the way
    t += q.m * 4e-16L * std::max((LD)1, norm(q.ax)) * l * l * std::max(s0, s1);
    if (q.k != D_HOM && q.k != D_EXP) t += q.m * 4e-16L * norm(q.ax) / rate * l * std::max(fabsl(q.shape(w.depth)), fabsl(q.shape(w.depth + w.rate * l)));
    // near-constant short cut of the code below rate 1e-9: midpoint rule
    if (fabsl(w.rate) < 2e-9L && q.k >= D_POLY) t += q.m * powl(fabsl(w.rate) * l, 2) * l * (q.slope(w.depth) / q.scale() + (q.k == D_LIN ? q.slope(w.depth) / (fabsl(w.rate) * l + 1e-300L) : 0));
    return t;
}

static void judge(Mon& m, Rng& r, const Prof& q, const Density_distr& D, V p, V d, Way w, LD L)
{
    auto P = c3(p), U = c3(d);
    m.describe(q.str() + sfmt(" p=(%.17g,%.17g,%.17g) d=(%.17g,%.17g,%.17g) rate=%.4Lg L=%.17g", (double)p.x, (double)p.y, (double)p.z, (double)d.x, (double)d.y, (double)d.z, w.rate, (double)L));
    std::string kind = std::string(dn[q.k]) + (q.radial ? "-radial" : "");
    double ev = D.Evaluate(P);
    LD rho = q.rho(p);
    LD dd = 4e-16L * (norm(p) + norm(q.p0)) * std::max((LD)1, norm(q.ax));
    m.check(fabsl(ev - rho) <= 1e-11L * fabsl(rho) + q.m * (4 * dd * q.slope(q.depth(p)) + 1e-14L * (q.k >= D_LIN ? q.pp.mag(q.depth(p)) : q.k == D_POLY ? q.cond(q.depth(p)) / std::max(fabsl(q.depth(p)), (LD)1e-300L) : 0)),
        "density-" + kind, sfmt("Evaluate %.17g expected %.17Lg", ev, rho));
    double zero = D.Calculate(P, U, 0);
    m.check(zero == 0, "zero-step", sfmt("column of a zero step %g", zero));
    double l = (double)(L * r.range(0.05, 1));
    LD ref = column(q, w, l), tol = coltol(q, p, w, l, ref);
    double c = D.Calculate(P, U, l);
    if (!(tol < 1e-3L * fabsl(ref) + 1e-30L) || !std::isfinite((double)ref)) { m.note("ill-conditioned columns (not judged)"); return; }
    m.nontrivial();
    m.note("column judged " + kind + (fabsl(w.rate) < 1e-9L ? " perpendicular" : w.rate < 0 ? " down" : " up"));
    m.worst("column dev/tol", (double)(fabsl(c - ref) / tol));
    if (!m.check(fabsl(c - ref) <= tol, "column", kind + sfmt(" step %.17g: Calculate %.17g, line integral of the density %.17Lg (tol %.3Lg)", l, c, ref, tol))) return;
    m.sample(m.desc);
    double I = D.Integrate(P, U, l) - D.Integrate(P, U, 0);
    LD tI = tol + 1e-14L * fabsl((LD)D.Integrate(P, U, 0));
    m.check(fabsl(I - ref) <= tI, "integrate", kind + sfmt(" Integrate difference %.17g expected %.17Lg", I, ref));
    // additive over consecutive steps
    double l1 = l * r.u(), l2 = l - l1;
    V pm = dbl(p + d * (LD)l1);
    double c1 = D.Calculate(P, U, l1), c2 = D.Calculate(c3(pm), U, l2);
    bool rough = q.radial; // the middle of a radial step is off the ray by rounding
    Way wm { q.depth(pm), w.rate };
    m.check(fabsl(c1 + c2 - ref) <= 2 * tol + 2 * coltol(q, pm, wm, l2, ref) + (rough ? 1e-7L * fabsl(ref) : 0), "additive", kind + sfmt(" %.17g + %.17g != %.17g", c1, c2, c));
    if (!positive(q, w, L)) { m.note("profiles with non-positive density (inverse not judged)"); return; }
    double cs = D.Calculate(P, U, l * 0.5);
    m.check(cs > 0 && cs < c, "growing", kind + sfmt(" column %.17g at half the step, %.17g at the step", cs, c));
    // the inverse
    LD full = column(q, w, L), tolf = coltol(q, p, w, L, full);
    double want = (double)(full * r.u());
    if (r.p(0.1)) want = (double)(full * r.logr(1e-9, 1));
    double got;
    try { got = D.Correct(P, U, want, (double)L); }
    catch (const DensityException&) {
        m.check(want > full - tolf, "refused", kind + sfmt(" column %.17g exists (up to %.17Lg) but was refused", want, full));
        return;
    }
    if (!m.check(std::isfinite(got) && got >= 0 && got <= L * (1 + 1e-9L), "inverse-range", kind + sfmt(" step %.17g outside 0..%.17Lg", got, L))) return;
    LD back = column(q, w, got);
    LD local = std::max(fabsl(q.shape(w.depth + w.rate * got)), std::max(fabsl(q.shape(w.depth)), fabsl(q.shape(w.depth + w.rate * L)))) * q.m;
    bool newton = q.k >= D_POLY;
    m.note("inverse judged " + kind);
    m.check(fabsl(back - want) <= 2 * tolf + 1e-10L * want + (newton ? 3e-6L * local : 0), "inverse", kind + sfmt(" wanted %.17g, step %.17g crosses %.17Lg", want, got, back));
    double none = D.Correct(P, U, 0, (double)L);
    m.check(std::fabs(none) <= (newton ? 2e-6 : 0), "inverse-zero", kind + sfmt(" zero column gives step %.17g", none));
    // columns which do not exist
    double big = (double)(full * r.range(1.01, 3) + local * 1e-5L);
    try {
        double g = D.Correct(P, U, big, (double)L);
        LD b = column(q, w, g);
        m.check(g >= 0 && std::isfinite(g) && fabsl(b - big) <= 1e-6L * big + 2 * coltol(q, p, w, g, b), "wrong-length", kind + sfmt(" column %.17g does not exist before %.17Lg; step %.17g crosses %.17Lg", big, L, g, b));
        m.note("longer than allowed but exact " + kind);
    } catch (const DensityException&) { m.note("refused beyond the border " + kind); }
    if (q.k == D_EXP && w.rate / q.sigma < 0 && fabsl(w.rate) > 1e-9L) { // finite total column
        LD tot = q.m * expl((w.depth - q.d0) / q.sigma) * fabsl(q.sigma / w.rate);
        double over = (double)(tot * r.range(1.001, 5));
        if (r.p(0.1)) over = (double)tot * 1e6;
        bool thrown = false; double g = 0;
        try { g = D.Correct(P, U, over, (double)L); } catch (const DensityException&) { thrown = true; }
        m.note("infinite distances asked for");
        m.check(thrown, "infinite-refused", sfmt("column %.17g exceeds the total %.17Lg but step %.17g returned", over, tot, g));
    }
}

PROP(D01)
{
    m.cases("cartesian", 30000, 3000000, [&](Rng& r) {
        double S = r.logr(1, 1e8);
        Prof q = rprof(r, S, false);
        auto D = q.make();
        V p = dbl(q.p0 + unit(r) * (S * r.range(0, 3)));
        V d = unit(r);
        int t = r.i(0, 9);
        if (t < 2 && norm(q.ax) > 0) { d = q.ax * (1 / norm(q.ax)); if (t) d = d * -1; d = dbl(d); }
        else if (t < 4) { // perpendicular, exactly or nearly
            Cartesian3D x = vector_product(c3(q.ax), c3(unit(r)));
            x.normalize();
            d = lv(x);
            if (t == 3) { V e = d + q.ax * (LD)(r.sgn() * r.logr(1e-14, 1e-3)); d = dbl(e * (1 / norm(e))); }
        } else if (t == 4) { d = { 0, 0, 0 }; (&d.x)[r.i(0, 2)] = r.sgn(); }
        LD L = S * r.logr(1e-3, 3);
        judge(m, r, q, *D, p, d, { q.depth(p), dot(q.ax, d) }, L);
    });
    m.cases("radial-exact", 20000, 2000000, [&](Rng& r) {
        double S = r.logr(1, 1e8);
        Prof q = rprof(r, S, true);
        if (q.k == D_HOM) throw mon::Skip();
        q.radial = true;
        auto D = q.make();
        if (r.p(0.2)) { // from the centre
            V d = unit(r);
            judge(m, r, q, *D, q.p0, d, { 0, 1 }, S * r.logr(1e-2, 3));
            return;
        }
        int sg = r.sgn();
        V d, p;
        if (r.p(0.5)) { // exactly radial
            q.p0 = { 0, 0, 0 }; D = q.make();
            int ax = r.i(0, 2); double s = r.sgn();
            p = d = { 0, 0, 0 };
            (&p.x)[ax] = s * S * r.range(0.1, 3); (&d.x)[ax] = s * sg;
        } else {
            V u = unit(r);
            p = dbl(q.p0 + u * (S * r.range(0.3, 3)));
            V e = p - q.p0;
            d = dbl(e * ((LD)sg / norm(e)));
            if (norm(p) > 30 * norm(e)) throw mon::Skip();
        }
        LD dep = q.depth(p);
        LD L = sg > 0 ? S * r.logr(1e-2, 3) : dep * r.range(0.05, 0.98);
        judge(m, r, q, *D, p, d, { dep, (LD)sg }, L);
    });
    // oblique steps around a radial profile: exact to first order in the step
    m.cases("radial-small-step", 8000, 400000, [&](Rng& r) {
        double S = r.logr(10, 1e8);
        Prof q = rprof(r, S, true);
        if (q.k == D_HOM) throw mon::Skip();
        q.radial = true;
        q.p0 = { 0, 0, 0 };
        auto D = q.make();
        V p = dbl(unit(r) * (S * r.range(0.5, 3)));
        V d = unit(r);
        double e = r.logr(1e-3, 1e-2), l = (double)(norm(p) * e);
        double c = D->Calculate(c3(p), c3(d), l);
        auto f = [&](LD t) { return q.rho(p + d * t); };
        LD ref = num::glb<16>(f, { 0, l }, 16);
        m.describe(q.str() + sfmt(" |p|=%g l=%g", (double)norm(p), l));
        // second order of the radius: (1-mu^2) l^2 / 2r
        LD curv = 3 * q.m * std::max(q.slope(q.depth(p)), q.slope(q.depth(p + d * (LD)l))) * l * l * l / norm(p);
        if (q.k == D_LIN) curv += 1e-4L * ref * e;
        m.nontrivial();
        m.check(fabsl(c - ref) <= curv + 1e-7L * fabsl(ref) + coltol(q, p, { q.depth(p), dot(p, d) / norm(p) }, l, ref), "first-order", std::string(dn[q.k]) + sfmt(" Calculate %.17g line integral %.17Lg allowed %.3Lg", c, ref, curv));
        // the slope of the column is the density: a wrong direction of change shows here
        LD grad = (dot(p, d) / norm(p)) * (q.shape(q.depth(p) * 1.0001L) - q.shape(q.depth(p))) / (q.depth(p) * 0.0001L);
        double c1 = D->Calculate(c3(p), c3(d), l / 2), curvature = (c - 2 * c1) / (l * l / 4);
        if (q.k == D_EXP || q.k == D_POLY) if (fabsl(grad) * l > 1e-6L * q.shape(q.depth(p)) && coltol(q, p, { q.depth(p), 1 }, l, ref) < 1e-9L * ref)
            { m.note("direction of change judged"); m.check(curvature * grad > 0 || fabsl(q.m * grad) * l * l < 1e-6L * ref, "direction-of-change", sfmt("density change %.4Lg along the step, column curvature %.4g", grad, curvature)); }
    });
    // oblique steps of arbitrary length
    m.cases("radial-oblique", 600, 3000, [&](Rng& r) {
        double S = r.logr(10, 1e6);
        Prof q = rprof(r, S, true);
        if (q.k != D_EXP) throw mon::Skip();
        q.radial = true; q.p0 = { 0, 0, 0 };
        auto D = q.make();
        V p = dbl(unit(r) * (S * r.range(0.5, 3))), d = unit(r);
        double l = S * r.range(0.5, 3), c = D->Calculate(c3(p), c3(d), l);
        m.describe(q.str() + sfmt(" p=(%.17g,%.17g,%.17g) d=(%.17g,%.17g,%.17g)", (double)p.x, (double)p.y, (double)p.z, (double)d.x, (double)d.y, (double)d.z));
        LD ref = num::glb<16>([&](LD t) { return q.rho(p + d * t); }, { 0, l }, 64);
        LD lin = column(q, { q.depth(p), dot(p, d) / norm(p) }, l);
        bool exact = fabsl(c - ref) <= 1e-6L * ref;
        if (!exact) m.check(fabsl(c - lin) <= 1e-9L * lin, "neither", sfmt("Calculate %.17g line integral %.17Lg, linearised in the radius %.17Lg", c, ref, lin));
        m.check(exact || fabsl(c - lin) > 1e-9L * lin, "linearised", sfmt("Calculate %.17g line integral %.17Lg", c, ref));
    });
    m.cases("through-medium", 300, 20000, [&](Rng& r) {
        static const char* names[] = { "water", "ice", "air", "standardrock", "uranium", "hydrogen" };
        auto med = CreateMedium(names[r.i(0, 5)]);
        double corr = r.range(0.3, 1.5), rho = med->GetMassDensity();
        V p = unit(r), d = unit(r);
        m.nontrivial();
        m.close(Density_homogeneous(*med, corr).Evaluate(c3(p)), rho * corr, 1e-14, 0, "homogeneous-medium");
        m.close(Density_homogeneous(*med).Calculate(c3(p), c3(d), 12.5), rho * 12.5, 1e-14, 0, "homogeneous-medium");
        Prof q = rprof(r, 100, true);
        q.m = rho;
        auto a = q.axis();
        std::unique_ptr<Density_distr> D;
        if (q.k == D_EXP) D = std::make_unique<Density_exponential>(*a, q.sigma, q.d0, *med);
        else if (q.k == D_POLY) D = std::make_unique<Density_polynomial>(*a, Polynom(q.c), *med);
        else if (q.k != D_HOM) D = std::make_unique<Density_splines>(*a, *q.spline(), *med);
        else D = std::make_unique<Density_homogeneous>(*med);
        auto E = q.make();
        m.check(D->Evaluate(c3(p)) == E->Evaluate(c3(p)) && D->Calculate(c3(p), c3(d), 3.) == E->Calculate(c3(p), c3(d), 3.) && *D == *E, "medium-density", std::string(dn[q.k]) + ": built from a medium differs from built from its mass density");
    });
}

static std::vector<double> answers(const Density_distr& D, uint64_t seed, double S)
{
    Rng r(seed);
    std::vector<double> v;
    for (int i = 0; i < 3; ++i) {
        auto p = c3(unit(r) * (S * r.range(0, 2))), d = c3(unit(r));
        double l = S * r.range(0.01, 1);
        v.push_back(D.Evaluate(p));
        double c = D.Calculate(p, d, l);
        v.push_back(c);
        v.push_back(D.Integrate(p, d, l));
        try { v.push_back(D.Correct(p, d, c * 0.5, l)); } catch (const DensityException&) { v.push_back(-7); }
    }
    return v;
}
static bool same(const std::vector<double>& a, const std::vector<double>& b)
{
    for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
    return a.size() == b.size();
}
static std::vector<double> axisv(const Axis& a, uint64_t seed)
{
    Rng r(seed);
    auto p = c3(unit(r) * 3.), d = c3(unit(r));
    auto f = a.GetFp0();
    return { a.GetDepth(p), a.GetEffectiveDistance(p, d), f.GetX(), f.GetY(), f.GetZ() };
}

PROP(D02)
{
    m.cases("copies", 6000, 400000, [&](Rng& r) {
        double S = r.logr(1, 1e5);
        uint64_t s = r.next();
        Prof q = rprof(r, S), q2 = rprof(r, S);
        m.describe(q.str());
        m.nontrivial();
        auto A = q.make();
        auto ref = answers(*A, s, S);
        auto ra = axisv(A->GetAxis(), s);
        std::unique_ptr<Density_distr> B(A->clone());
        m.check(*A == *B && *B == *A && !(*A != *B), "clone-equal", "a clone compares unequal");
        m.check(same(ref, answers(*B, s, S)), "clone-behaviour", "a clone answers differently");
        // equal parameters built twice
        auto T = q.make();
        m.check(*A == *T, "equal-parameters", "two profiles with the same parameters compare unequal");
        // copy construction and assignment of the concrete types
        std::unique_ptr<Density_distr> C, E;
        auto X = q2.make();
        auto cp = [&](auto* t) {
            typedef std::remove_pointer_t<decltype(t)> Ty;
            C = std::make_unique<Ty>(*t);
            Prof z = q2; z.k = q.k;
            if (z.k == D_POLY && z.c.empty()) z.c = { 1, 2 };
            if ((z.k == D_LIN || z.k == D_CUB) && z.x.empty()) { z.x = { 0, 1 }; z.y = { 1, 2 }; }
            auto o = z.make();
            auto* to = static_cast<Ty*>(o.get());
            *to = *t;
            if (r.p(0.2)) *to = *static_cast<Ty*>(o.get()); // self assignment
            E = std::move(o);
        };
        if (q.k == D_HOM) cp(static_cast<Density_homogeneous*>(A.get()));
        else if (q.k == D_EXP) cp(static_cast<Density_exponential*>(A.get()));
        else if (q.k == D_POLY) cp(static_cast<Density_polynomial*>(A.get()));
        else cp(static_cast<Density_splines*>(A.get()));
        m.check(*A == *C, "copy-equal", "a copy compares unequal");
        m.check(*A == *E, "assigned-equal", "an assigned profile compares unequal");
        A.reset(); // the copies live on
        if (r.p(0.5)) { T.reset(); X.reset(); }
        std::vector<std::unique_ptr<Prof>> junk;
        for (int i = 0; i < 4; ++i) q2.make();
        m.check(same(ref, answers(*B, s, S)), "clone-survives", "clone changed after the original died");
        m.check(same(ref, answers(*C, s, S)), "copy-survives", "copy changed after the original died");
        m.check(same(ref, answers(*E, s, S)), "assigned-survives", "assigned profile changed after the original died");
        m.check(same(ra, axisv(C->GetAxis(), s)) && same(ra, axisv(E->GetAxis(), s)), "axis-copied", "the axis of a copy answers differently");
    });
    m.cases("config", 6000, 400000, [&](Rng& r) {
        double S = r.logr(1, 1e5);
        Prof q = rprof(r, S);
        json j = q.conf();
        if (q.k == D_EXP && r.p(0.3)) { j.erase("d0"); q.d0 = 0; }
        if (q.k == D_EXP && r.p(0.1)) { j.erase("sigma"); q.sigma = 1; }
        m.describe(j.dump());
        m.nontrivial();
        auto A = q.make();
        auto B = CreateDensityDistribution(j);
        uint64_t s = r.next();
        m.note("configured " + std::string(dn[q.k]));
        m.check(*A == *B, "config-equal", "configured profile differs from the constructed one");
        m.check(same(answers(*A, s, S), answers(*B, s, S)), "config-behaviour", "configured profile answers differently");
        V p = unit(r) * S;
        if (std::isfinite((double)q.rho(p))) m.check(fabsl(B->Evaluate(c3(p)) - q.rho(p)) <= 1e-8L * fabsl(q.rho(p)) + 1e-10L * q.m * (q.k >= D_LIN ? q.pp.mag(q.depth(p)) : 1), "config-density", sfmt("density %.17g expected %.17Lg", B->Evaluate(c3(p)), q.rho(p)));
    });
    m.cases("bad-config", 4000, 100000, [&](Rng& r) {
        Prof q = rprof(r, r.logr(1, 1e3));
        json j = q.conf();
        std::string what;
        switch (r.i(0, 3)) {
        case 0: { // a required key missing
            std::vector<std::string> req { "type", "mass_density" };
            if (q.k != D_HOM) { req.push_back("axis_type"); req.push_back("fp0"); if (!q.radial) req.push_back("fAxis"); }
            if (q.k == D_POLY) req.push_back("coefficients");
            if (q.k >= D_LIN) { req.push_back("spline_type"); req.push_back("x"); req.push_back("y"); }
            what = r.pick(req); j.erase(what); break; }
        case 1: { // wrong type of a value
            std::vector<std::string> keys;
            for (auto& e : j.items()) keys.push_back(e.key());
            what = r.pick(keys);
            int t = r.i(0, 2);
            if (t == 0) j[what] = json::object();
            else if (t == 1) j[what] = nullptr;
            else j[what] = j[what].is_string() ? json(3.5) : json("seven");
            what += " mistyped"; break; }
        case 2: what = "unknown type";
            j["type"] = "nothing"; if (r.p(0.5) && q.k != D_HOM) { j["type"] = q.conf()["type"]; j["axis_type"] = "diagonal"; } break;
        default:
            if (q.k >= D_LIN) { j["x"].push_back(1e9); what = "x longer than y"; }
            else if (q.k == D_POLY) { j["coefficients"] = "1,2"; what = "text coefficients"; }
            else if (q.k == D_EXP) { j["fp0"] = { 1, 2 }; what = "two component point"; }
            else { j["mass_density"] = { 1 }; what = "array density"; }
        }
        m.describe(what + " " + j.dump());
        m.nontrivial();
        bool thrown = false;
        try { auto D = CreateDensityDistribution(j); } catch (const std::exception&) { thrown = true; }
        m.check(thrown, "accepted", "wrong configuration accepted: " + what);
    });
    m.cases("different", 6000, 200000, [&](Rng& r) {
        double S = r.logr(1, 1e3);
        Prof q = rprof(r, S), z = q;
        std::string what;
        int t = r.i(0, 5);
        if (t == 0) { z.m *= 1 + r.logr(1e-10, 1); what = "mass density"; }
        else if (q.k == D_HOM) { auto o = rprof(r, S); if (o.k == D_HOM) throw mon::Skip(); z = o; what = "type"; }
        else if (t == 1) { (&z.p0.x)[r.i(0, 2)] += S * 0.5; z.p0 = dbl(z.p0); what = "reference point"; }
        else if (t == 2) { z.radial = !z.radial; what = "kind of axis"; }
        else if (t == 3 && !q.radial) { z.ax = unit(r); what = "axis"; }
        else if (q.k == D_EXP) { if (r.p(0.5)) z.sigma *= 1.25; else z.d0 += 0.5; what = "exponential parameter"; }
        else if (q.k == D_POLY) {
            if (r.p(0.3)) z.c.push_back(0.25); else z.c[r.i(0, z.c.size() - 1)] += 0.125;
            what = "coefficient"; }
        else { if (r.p(0.5)) z.y[r.i(0, z.y.size() - 1)] += 0.125; else z.x.back() += S; z.pp = q.k == D_LIN ? num::linear(z.x, z.y) : num::natural(z.x, z.y); what = "spline node"; }
        m.describe(q.str() + " changed: " + what);
        m.nontrivial();
        m.note("changed " + what);
        auto A = q.make(), B = z.make();
        m.check(*A != *B && *B != *A && !(*A == *B), "compares-equal", "profiles with different " + what + " compare equal");
        auto a = q.axis(), b = z.axis();
        bool axd = what == "reference point" || what == "kind of axis" || what == "axis";
        if (q.k != D_HOM && z.k != D_HOM) m.check((*a == *b) == !axd && (*a != *b) == axd, "axis-compare", "axis comparison wrong for changed " + what);
    });
}
int main(int c, char** v) { return mon::run(c, v); }
