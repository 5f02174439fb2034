// Cross sections: X03 (published formulas and kinematic limits)
#include "xs.h"

// ------------------------------------------------------------------ X03
// got against F(E, v, r); F is generic over the floating type
template <class F> static bool judge(mon::Mon& m, mon::Rng& r, double got, F f, double E, double v, double q, const string& rule, double rel = 1e-9, double floor = 0)
{
    LD want = f((LD)E, (LD)v, (LD)q);
    // two diagrams that are cut off at zero one by one: whether rounding leaves a rest is not decided
    if (want == 0 && rule.find("Soeding") != string::npos) { m.note("no rest of the diagrams " + rule); return true; }
    if (!std::isfinite((double)want)) { m.note("no finite reference " + rule); return true; }
    LD noise = fabsl((LD)f((double)E, (double)v, (double)q) - want);
    for (int k = 0; k < 6; ++k) {
        double e2 = E * (1 + r.range(-1e-13, 1e-13)), v2 = v * (1 + r.range(-1e-13, 1e-13)), q2 = q * (1 + r.range(-1e-13, 1e-13));
        LD a = f((LD)e2, (LD)v2, (LD)q2);
        LD d = fabsl((LD)f(e2, v2, q2) - a);
        if (std::isfinite((double)d)) noise = std::max(noise, d);
        if (std::isfinite((double)a)) noise = std::max(noise, fabsl(a - want));
    }
    // the branches of a piecewise formula: not judged right at the seam
    LD up = f((LD)E * (1 + 1e-10L), (LD)v * (1 + 1e-10L), (LD)q), dn = f((LD)E * (1 - 1e-10L), (LD)v * (1 - 1e-10L), (LD)q);
    if (fabsl(up - dn) > 1e-5L * fabsl(want) + 100 * noise) { m.note("at a seam " + rule); return true; }
    if (!(noise <= 1e-4L * fabsl(want)) && want != 0) { m.note("too noisy to judge " + rule); return true; }
    LD tol = rel * fabsl(want) + 100 * noise + floor;
    bool ok = fabsl((LD)got - want) <= tol;
    if (want != 0) m.worst("rel dev " + rule, (double)(fabsl((LD)got - want) / fabsl(want)));
    m.note("judged " + rule + (want == 0 ? " zero" : ""));
    return m.checkf(ok, rule, [&] { return sfmt("E=%.17g v=%.17g r=%.17g got %.12g, formula %.12Lg (noise %.2Lg)", E, v, q, got, want, noise); });
}
static bool judgei(mon::Mon& m, double got, LD want, LD tol, const string& rule, const string& what)
{
    if (want != 0) m.worst("rel dev " + rule, (double)(fabsl(got - want) / fabsl(want)));
    m.note("judged " + rule);
    return m.checkf(fabsl(got - want) <= tol, rule, [&] { return what + sfmt(" got %.12g, integral of the formula %.12Lg (tolerance %.2Lg)", got, want, tol); });
}
// integrals whose precision in the code varies from point to point and gets lost at a few of them:
// the share of those off by more than a percent is judged over the whole run
static void judget(mon::Mon& m, double got, LD want, LD scale, const string& rule)
{
    if (!(fabsl(got - want) <= .01L * scale)) m.note("off by a percent: " + rule);
    m.note("judged " + rule);
}
// integral over x in [a,b], 0 < a, in ln x
template <class F> static LD logint(F f, LD a, LD b, LD rel)
{
    LD s = 0, la = logl(a), lb = logl(b);
    int n = std::max(1, (int)ceill((lb - la) / 3));
    for (int i = 0; i < n; ++i) {
        LD p = la + (lb - la) * i / n, q = la + (lb - la) * (i + 1) / n;
        s += num::adapt([&](LD t) { LD x = expl(t); return x * f(x); }, p, q, rel, 0.L, 14);
    }
    return s;
}
struct BremsRef {
    const char* name;
    std::function<shared_ptr<cs::Bremsstrahlung>(bool, const ParticleDef&, const Medium&, double)> lpm;
    shared_ptr<cs::Bremsstrahlung> plain;
    int kind;
};
template <class P> static BremsRef br(const char* n, int kind)
{
    return { n, [](bool l, const ParticleDef& p, const Medium& M, double d) { return make_shared<P>(l, p, M, d); }, make_shared<P>(false), kind };
}
static vector<BremsRef>& bremses()
{
    static vector<BremsRef> v { br<cs::BremsPetrukhinShestakov>("PetrukhinShestakov", 0), br<cs::BremsKelnerKokoulinPetrukhin>("KelnerKokoulinPetrukhin", 1),
        br<cs::BremsCompleteScreening>("CompleteScreening", 2), br<cs::BremsAndreevBezrukovBugaev>("AndreevBezrukovBugaev", 3),
        br<cs::BremsSandrockSoedingreksoRhode>("SandrockSoedingreksoRhode", 4), br<cs::BremsElectronScreening>("ElectronScreening", 5) };
    return v;
}
static Interpolant& escorr()
{
    static Interpolant i(A_logZ, A_energies, A_correction, 2, false, false, 2, false, false);
    return i;
}
static double es_A(const ref::Proj& P, const ref::Tgt& t, double E) { return E < 50 ? escorr().InterpolateArray(std::log(t.Z), E - P.m) : 1; }
template <class T> static T brems_param(int kind, const ref::Proj& P, const ref::Tgt& t, T E, T v, double A)
{
    switch (kind) {
    case 0: return ref::brems_ps<T>(P, t, E, v);
    case 1: return ref::brems_kkp<T>(P, t, E, v);
    case 2: return ref::brems_cs<T>(P, t, E, v);
    case 3: return ref::brems_abb<T>(P, t, E, v);
    case 4: return ref::brems_ssr<T>(P, t, E, v);
    default: return ref::brems_es<T>(P, t, E, v, A);
    }
}
template <class T> static T brems_diff(int kind, const ref::Proj& P, const ref::Tgt& t, T E, T v, double A)
{
    T f = brems_param<T>(kind, P, t, E, v, A) * ref::brems_pref<T>(P, t, v);
    if (f < 0) return 0; // the logarithms turn negative just below the limit
    return kind == 5 ? f / (4 * T(t.Z) * T(t.Z)) : f;
}
static double brems_vmax(int kind, const ref::Proj& P, const ref::Tgt& t, double E)
{
    return kind == 5 ? 1 - P.m / E : std::max(0., 1 - .75 * std::sqrt(M_E) * P.m / E * std::cbrt(t.Z));
}
static ref::LpmMed lpmmed(const Medium& M) { return { M.GetSumCharge(), M.GetMolDensity(), M.GetMassDensity(), 0 }; }
// Landau-Pomeranchuk-Migdal energy scale: alpha^2 m^2 / (pi m_e r_e / (2 X0)) with X0 from the mean radiative loss at 1e14 MeV
template <class F> static LD elpm(const Medium& M, LD m, F loss)
{
    LD s = 0, n = 0;
    for (auto& c : M.GetComponents()) n += (LD)c.GetAtomInMolecule() * c.GetAtomicNum();
    for (auto& c : M.GetComponents()) s += (LD)c.GetAtomInMolecule() * c.GetAtomicNum() / n * loss(ref::tgt(c));
    s *= M.GetMassDensity();
    return 2 * powl(ref::ALPHA * m, 2) / (ref::PI * ref::ME * ref::RE * s);
}
static LD brems_elpm(int kind, const ref::Proj& P, const Medium& M)
{
    return elpm(M, P.m, [&](const ref::Tgt& t) {
        LD vm = brems_vmax(kind, P, t, 1e14);
        auto f = [&](LD v) { return v * brems_diff<LD>(kind, P, t, 1e14L, v, 1); };
        return num::adapt(f, 1e-15L, 1e-4L, 1e-9L, 0.L, 12) + num::glb<31>(f, { 1e-4L, 2e-2L, 1e-1L, .5L, .9L }, 4) + logint([&](LD u) { return f(1 - u); }, 1 - vm, .1L, 1e-7L);
    });
}

PROP(X03)
{
    m.cases("brems", 12000, 400000, [&](mon::Rng& r) {
        auto& B = bremses()[r.i(0, 5)];
        ParticleDef p = r.p(.6) ? charged()[r.i(0, charged().size() - 1)] : madeup(r);
        Component c = anycomp(r);
        auto P = ref::proj(p);
        auto t = ref::tgt(c);
        double E = anyenergy(r, p.mass);
        double vm = brems_vmax(B.kind, P, t, E);
        if (vm < 1e-3) throw mon::Skip();
        double v = between(r, 0, vm);
        if (v < 1e-12) v = vm / 2;
        m.describe(sfmt("%s %s %s E=%.17g v=%.17g", B.name, pd(p).c_str(), cd(c).c_str(), E, v));
        m.nontrivial();
        double A = B.kind == 5 ? es_A(P, t, E) : 1;
        if (B.kind == 5 && std::fabs(E - 50) < 1e-6) throw mon::Skip();
        judge(m, r, B.plain->CalculateParametrization(p, c, E, v), [&](auto E, auto v, auto) { return brems_param<decltype(E)>(B.kind, P, t, E, v, A); }, E, v, 0, string("parametrisation ") + B.name);
        judge(m, r, B.plain->DifferentialCrossSection(p, c, E, v), [&](auto E, auto v, auto) { return brems_diff<decltype(E)>(B.kind, P, t, E, v, A); }, E, v, 0, string("cross section ") + B.name);
        if (r.p(.1)) m.sample(m.desc);
    });
    m.cases("brems-lpm", 300, 6000, [&](mon::Rng& r) {
        auto& B = bremses()[r.i(0, 5)];
        ParticleDef p = r.p(.8) ? charged()[r.i(0, 5)] : madeup(r, .3, 3e3);
        auto& M = *media()[r.i(0, media().size() - 1)];
        double dc = r.p(.3) ? 1. : r.logr(1e-3, 1e2);
        auto P = ref::proj(p);
        auto L = B.lpm(true, p, M, dc);
        auto med = lpmmed(M);
        med.elpm = brems_elpm(B.kind, P, M);
        auto comps = M.GetComponents();
        m.nontrivial();
        for (int k = 0; k < 12; ++k) {
            Component c = comps[r.i(0, comps.size() - 1)];
            auto t = ref::tgt(c);
            double E = r.logr(std::max(60., p.mass * 10), 1e14), vm = brems_vmax(B.kind, P, t, E);
            if (vm < .01) continue;
            double v = between(r, 0, vm);
            if (v < 1e-9) v = vm * 1e-3;
            m.describe(sfmt("LPM %s %s %s in %s density x %g E=%.17g v=%.17g", B.name, pd(p).c_str(), cd(c).c_str(), M.GetName().c_str(), dc, E, v));
            judge(m, r, L->DifferentialCrossSection(p, c, E, v), [&](auto E, auto v, auto) {
                using T = decltype(E);
                return brems_diff<T>(B.kind, P, t, E, v, 1) * ref::brems_lpm<T>(P, t, med, E, v, T(dc));
            }, E, v, 0, string("suppressed ") + B.name, 2e-5);
            LD S = ref::brems_lpm<LD>(P, t, med, E, v, dc);
            m.note(S < .1 ? "suppression strong" : S < .9 ? "suppression medium" : "suppression weak");
            if (r.p(.2)) // without the effect
                judge(m, r, B.lpm(false, p, M, dc)->DifferentialCrossSection(p, c, E, v), [&](auto E, auto v, auto) { return brems_diff<decltype(E)>(B.kind, P, t, E, v, 1); }, E, v, 0, string("unsuppressed ") + B.name);
        }
    });
    // ---- pairs
    struct PairK { const char* name; int kind; shared_ptr<cs::EpairProductionRhoIntegral> plain; std::function<shared_ptr<cs::EpairProductionRhoIntegral>(const ParticleDef&, const Medium&, double)> lpm; };
    vector<PairK> pk {
        { "KelnerKokoulinPetrukhin", 0, make_shared<cs::EpairKelnerKokoulinPetrukhin>(false), [](const ParticleDef& p, const Medium& M, double d) { return make_shared<cs::EpairKelnerKokoulinPetrukhin>(true, p, M, d); } },
        { "SandrockSoedingreksoRhode", 1, make_shared<cs::EpairSandrockSoedingreksoRhode>(false), [](const ParticleDef& p, const Medium& M, double d) { return make_shared<cs::EpairSandrockSoedingreksoRhode>(true, p, M, d); } },
        { "ForElectronPositron", 2, make_shared<cs::EpairForElectronPositron>(false), [](const ParticleDef& p, const Medium& M, double d) { return make_shared<cs::EpairForElectronPositron>(true, p, M, d); } },
    };
    auto epf = [](int kind, const ref::Proj& P, const ref::Tgt& t, auto E, auto v, auto q) {
        using T = decltype(E);
        return kind == 0 ? ref::epair_kkp<T>(P, t, E, v, q) : kind == 1 ? ref::epair_ssr<T>(P, t, E, v, q) : ref::epair_elpos<T>(P, t, E, v, T(1 - q));
    };
    auto eplimits = [](const ref::Proj& P, const ref::Tgt& t, double E, double& a, double& b) {
        a = 4 * (double)ref::ME / E;
        b = std::min(1 - .75 * std::sqrt(M_E) * P.m / E * std::cbrt(t.Z), 1 - 6 * (P.m / E) * (P.m / E));
        return b > a * 1.0001;
    };
    auto eprmax = [](const ref::Proj& P, LD E, LD v) {
        LD a = 1 - 4 * ref::ME / (E * v), b = 1 - 6 * (LD)P.m * P.m / (E * E * (1 - v));
        return a > 0 && b > 0 ? sqrtl(a) * b : 0.L;
    };
    m.cases("epair", 12000, 400000, [&](mon::Rng& r) {
        auto& K = pk[r.i(0, 2)];
        ParticleDef p = K.kind == 2 ? (r.p(.5) ? (ParticleDef)EMinusDef() : (ParticleDef)EPlusDef()) : r.p(.6) ? charged()[r.i(0, charged().size() - 1)] : madeup(r);
        Component c = anycomp(r);
        auto P = ref::proj(p);
        auto t = ref::tgt(c);
        double E = anyenergy(r, p.mass * 3 + 2), a, b;
        if (!eplimits(P, t, E, a, b)) throw mon::Skip();
        double v = between(r, a, b);
        LD rm = eprmax(P, E, v);
        if (!(rm > 1e-9L)) throw mon::Skip();
        double q = r.p(.5) ? r.range(1 - (double)rm, 1) : std::min(1., (1 - (double)rm) * r.logr(1, 1 / (1 - (double)rm)));
        if (q < 1e-14) throw mon::Skip();
        m.describe(sfmt("%s %s %s E=%.17g v=%.17g 1-rho=%.17g", K.name, pd(p).c_str(), cd(c).c_str(), E, v, q));
        m.nontrivial();
        judge(m, r, K.plain->FunctionToIntegral(p, c, E, v, q), [&](auto E, auto v, auto q) { return epf(K.kind, P, t, E, v, q); }, E, v, q, string("in asymmetry ") + K.name);
        if (r.p(.02)) m.sample(m.desc);
    });
    m.cases("epair-total", 500, 12000, [&](mon::Rng& r) {
        auto& K = pk[r.i(0, 2)];
        ParticleDef p = K.kind == 2 ? (r.p(.5) ? (ParticleDef)EMinusDef() : (ParticleDef)EPlusDef()) : r.p(.6) ? charged()[r.i(0, charged().size() - 1)] : madeup(r, .3, 1e4);
        Component c = anycomp(r);
        auto P = ref::proj(p);
        auto t = ref::tgt(c);
        double E = anyenergy(r, p.mass * 3 + 2), a, b;
        if (!eplimits(P, t, E, a, b)) throw mon::Skip();
        double v = between(r, a, b);
        LD rm = eprmax(P, E, v);
        if (!(rm > 1e-6L) || 1 - rm < 1e-13L) throw mon::Skip();
        m.describe(sfmt("%s %s %s E=%.17g v=%.17g", K.name, pd(p).c_str(), cd(c).c_str(), E, v));
        m.nontrivial();
        if (K.kind == 1 && powl(P.m * v / (2 * ref::ME), 2) / (1 - v) > 1e5) throw mon::Skip(); // rounding noise of the published expression
        double got = K.plain->DifferentialCrossSection(p, c, E, v);
        LD n = ref::NA / t.A;
        string what = sfmt("%s", K.name);
        if (K.kind < 2) {
            LD want = n * logint([&](LD q) { return epf(K.kind, P, t, (LD)E, (LD)v, q); }, 1 - rm, 1, 1e-8L);
            if (!(want > 0)) throw mon::Skip();
            judget(m, got, want, fabsl(want), string("over asymmetry ") + K.name);
        } else {
            // singular towards rho = 1
            LD want = n * logint([&](LD u) { return epf(2, P, t, (LD)E, (LD)v, u); }, 1 - rm, 1, 1e-8L);
            if (!(want > 0)) throw mon::Skip();
            judget(m, got, want, fabsl(want), string("over asymmetry ") + K.name);
        }
    });
    m.cases("epair-lpm", 1500, 50000, [&](mon::Rng& r) {
        auto& K = pk[r.i(0, 2)];
        ParticleDef p = K.kind == 2 ? (r.p(.5) ? (ParticleDef)EMinusDef() : (ParticleDef)EPlusDef()) : charged()[r.i(0, 8)];
        auto& M = *media()[r.i(0, media().size() - 1)];
        double dc = r.p(.3) ? 1. : r.logr(1e-3, 1e2);
        auto P = ref::proj(p);
        auto L = K.lpm(p, M, dc);
        LD s = 0;
        for (auto& c : M.GetComponents()) s += powl(c.GetNucCharge(), 2) * logl(3.25L * c.GetLogConstant() / cbrtl(c.GetNucCharge()));
        LD el = powl(P.m / (ref::ME * ref::RE), 3) * ref::ALPHA * P.m / (2 * ref::PI * (LD)M.GetMolDensity() * P.q * P.q * s);
        auto comps = M.GetComponents();
        for (int k = 0; k < 6; ++k) {
            Component c = comps[r.i(0, comps.size() - 1)];
            auto t = ref::tgt(c);
            double E = r.logr(std::max(100., p.mass * 10), r.p(.5) ? 1e14 : 1e21), a, b;
            if (!eplimits(P, t, E, a, b)) continue;
            double v = between(r, a, b);
            LD rm = eprmax(P, E, v);
            if (!(rm > 1e-9L)) continue;
            double q = r.range(1 - (double)rm, 1);
            if (q < 1e-13) continue;
            m.describe(sfmt("LPM %s %s %s in %s density x %g E=%.17g v=%.17g r=%.17g", K.name, pd(p).c_str(), cd(c).c_str(), M.GetName().c_str(), dc, E, v, q));
            m.nontrivial(mon::mix(r.next()));
            auto sup = [&](auto E, auto v, auto q) {
                using T = decltype(E);
                T rho = 1 - q, r2 = rho * rho, b = v * v / (2 * (1 - v));
                T x = (K.kind == 2 ? ref::sqr(v / 2) : ref::sqr(T(P.m) * v / (2 * T(ref::ME)))) * (1 - r2) / (1 - v);
                return ref::epair_lpm<T>((T)el, E, v, r2, b, x, T(dc));
            };
            judge(m, r, L->FunctionToIntegral(p, c, E, v, q), [&](auto E, auto v, auto q) {
                using T = decltype(E);
                return std::max(epf(K.kind, P, t, E, v, q) * sup(E, v, q), T(0));
            }, E, v, q, string("suppressed ") + K.name, 1e-8);
            LD S = sup((LD)E, (LD)v, (LD)q);
            m.note(S < .5 ? "pair suppression strong" : S < .95 ? "pair suppression medium" : "pair suppression weak");
        }
    });
    auto mup = make_shared<cs::MupairKelnerKokoulinPetrukhin>();
    auto muin = [&](mon::Rng& r, const ParticleDef& p, Component& c, double& E, double& v) {
        c = anycomp(r);
        E = anyenergy(r, p.mass + 2 * 105.6583745);
        double a = 2 * 105.6583745 / E, b = 1 - p.mass / E;
        if (b < a * 1.0001) throw mon::Skip();
        v = between(r, a, b);
    };
    m.cases("mupair", 6000, 200000, [&](mon::Rng& r) {
        ParticleDef p = r.p(.6) ? charged()[r.i(0, charged().size() - 1)] : madeup(r, 1., 1e5);
        Component c;
        double E, v;
        muin(r, p, c, E, v);
        auto P = ref::proj(p);
        auto t = ref::tgt(c);
        double rm = 1 - 2 * 105.6583745 / (v * E);
        if (rm < 1e-9) throw mon::Skip();
        double q = r.range(0, rm);
        m.describe(sfmt("%s %s E=%.17g v=%.17g rho=%.17g", pd(p).c_str(), cd(c).c_str(), E, v, q));
        m.nontrivial();
        double got = mup->FunctionToIntegral(p, c, E, v, q);
        judge(m, r, got, [&](auto E, auto v, auto q) { using T = decltype(E); return ref::mupair_kkp<T>(P, t, E, v, q, T(t.A)); }, E, v, q, "in asymmetry muon pairs");
    });
    m.cases("mupair-total", 400, 10000, [&](mon::Rng& r) {
        ParticleDef p = r.p(.6) ? charged()[r.i(0, charged().size() - 1)] : madeup(r, 1., 1e5);
        Component c;
        double E, v;
        muin(r, p, c, E, v);
        auto P = ref::proj(p);
        auto t = ref::tgt(c);
        LD rm = 1 - 2 * ref::MMU / ((LD)v * E);
        if (rm < 1e-6L || rm > 1 - 1e-13L) throw mon::Skip();
        m.describe(sfmt("%s %s E=%.17g v=%.17g", pd(p).c_str(), cd(c).c_str(), E, v));
        m.nontrivial();
        double got = mup->DifferentialCrossSection(p, c, E, v);
        auto tot = [&](LD nn) { return ref::NA / t.A * logint([&](LD u) { return ref::mupair_kkp<LD>(P, t, E, v, 1 - u, nn); }, 1 - rm, 1, 1e-8L); };
        LD w = tot(t.A);
        judget(m, got, w, w, "over asymmetry muon pairs");
    });
    // ---- ionisation
    m.cases("ionisation", 8000, 250000, [&](mon::Rng& r) {
        auto& M = *media()[r.i(0, media().size() - 1)];
        auto I = ref::med(M);
        int kind = (int)r.i(0, 2);
        ParticleDef p = kind == 1 ? (ParticleDef)EPlusDef() : kind == 2 ? (ParticleDef)EMinusDef() : r.p(.6) ? charged()[r.i(0, charged().size() - 1)] : madeup(r);
        auto P = ref::proj(p);
        double ecut = r.p(.2) ? INFINITY : r.logr(1e-2, 1e5), vcut = r.p(.3) ? 1. : r.logr(1e-5, 1);
        EnergyCutSettings cut(ecut, vcut, r.p(.5));
        double E = p.mass * (1 + r.logr(1e-4, 1e9));
        m.describe(sfmt("kind %d %s in %s ecut=%.9g vcut=%.9g E=%.17g", kind, pd(p).c_str(), M.GetName().c_str(), ecut, vcut, E));
        m.nontrivial();
        LD x = log10l(sqrtl((E - (LD)P.m) * (E + (LD)P.m)) / P.m);
        m.note(x < I.X0 ? "density effect below X0" : x < I.X1 ? "density effect between" : "density effect above X1");
        if (kind == 0) {
            double lo = 1e-6 * I.I / E, hi = (double)ref::ion_vmax<LD>(p.mass, E);
            if (hi < lo * 1.001) throw mon::Skip();
            double v = between(r, lo, hi);
            if (v >= hi) v = hi * .999;
            cs::IonizBetheBlochRossi B(cut);
            judge(m, r, B.DifferentialCrossSection(p, M, E, v), [&](auto E, auto v, auto) { return ref::ion_rossi<decltype(E)>(P, I, E, v); }, E, v, 0, "Rossi", 1e-9);
            judge(m, r, B.FunctionToDEdxIntegral(p, M, E, v), [&](auto E, auto v, auto) { using T = decltype(E); return v * ref::ion_rossi0<T>(P, I, E, v) * ref::ion_inel<T>(P, E, v); }, E, v, 0, "Rossi radiative part", 1e-9);
            double cutv = std::min({ ecut / E, vcut, hi });
            if (cutv > lo * 1.001)
                judge(m, r, B.IonizationLoss(p, M, E), [&](auto E, auto, auto) { using T = decltype(E); return ref::ion_rossi_loss<T>(P, I, E, std::min({ T(ecut) / E, T(vcut), ref::ion_vmax<T>(p.mass, E) })); }, E, 1, 0, "Bethe Bloch loss", 1e-9);
        } else if (kind == 1) {
            double hi = 1 - p.mass / E, v = between(r, 0, hi);
            if (v < 1e-12 || hi < 1e-6) throw mon::Skip();
            cs::IonizBergerSeltzerBhabha B(cut);
            judge(m, r, B.DifferentialCrossSection(p, M, E, v), [&](auto E, auto v, auto) { return ref::ion_bhabha<decltype(E)>(P, I, E, v); }, E, v, 0, "Bhabha");
            judge(m, r, B.FunctionToDEdxIntegral(p, M, E, v), [&](auto E, auto, auto) { using T = decltype(E); return ref::ion_bs<T>(I, E, std::min(T(ecut) / E, T(vcut)), 1 - T(P.m) / E, true); }, E, 1, 0, "Berger Seltzer positron");
        } else {
            double hi = .5 * (1 - p.mass / E), v = between(r, 0, hi);
            if (v < 1e-12 || hi < 1e-6) throw mon::Skip();
            cs::IonizBergerSeltzerMoller B(cut);
            judge(m, r, B.DifferentialCrossSection(p, M, E, v), [&](auto E, auto v, auto) { return ref::ion_moller<decltype(E)>(P, I, E, v); }, E, v, 0, "Moller");
            judge(m, r, B.FunctionToDEdxIntegral(p, M, E, v), [&](auto E, auto, auto) { using T = decltype(E); return ref::ion_bs<T>(I, E, std::min(T(ecut) / E, T(vcut)), (1 - T(P.m) / E) / 2, false); }, E, 1, 0, "Berger Seltzer electron");
        }
    });
    // ---- photons
    ParticleDef gamma = GammaDef();
    m.cases("photons", 12000, 400000, [&](mon::Rng& r) {
        Component c = anycomp(r);
        auto t = ref::tgt(c);
        m.nontrivial();
        int kind = (int)r.i(0, 3);
        if (kind == 0) {
            static const cs::ComptonKleinNishina K;
            double E = r.logr(1e-3, 1e14), hi = 1 - 1 / (1 + 2 * E / (double)ref::ME), v = between(r, 0, hi);
            m.describe(sfmt("Compton %s E=%.17g v=%.17g", cd(c).c_str(), E, v));
            judge(m, r, K.DifferentialCrossSection(gamma, c, E, v), [&](auto E, auto v, auto) { return ref::compton_kn<decltype(E)>(t, E, v); }, E, v, 0, "Klein Nishina", 1e-9, 1e-10 * (double)ref::compton_kn<LD>(t, E, hi) / std::min(1., E * E));
        } else if (kind == 1) {
            static const cs::PhotoPairTsai K(false);
            double E = anyenergy(r, 2 * (double)ref::ME), lo = (double)ref::ME / E, x = between(r, lo, 1 - lo);
            m.describe(sfmt("Tsai pair %s E=%.17g x=%.17g", cd(c).c_str(), E, x));
            m.note(t.Z <= 1.5 ? "Tsai H" : t.Z <= 2.5 ? "Tsai He" : t.Z <= 3.5 ? "Tsai Li" : t.Z <= 4.5 ? "Tsai Be" : "Tsai heavy");
            judge(m, r, K.DifferentialCrossSection(gamma, c, E, x), [&](auto E, auto v, auto) { using T = decltype(E); return std::max(ref::photopair_tsai_raw<T>(t, E, v), T(0)); }, E, x, 0, "Tsai pair");
        } else if (kind == 2) {
            static const cs::PhotoPairKochMotz K(false);
            double E = r.p(.9) ? anyenergy(r, 50.0001) : r.range(1.1, 49.9), lo = (double)ref::ME / E, x = between(r, lo, 1 - lo);
            m.describe(sfmt("Koch Motz pair %s E=%.17g x=%.17g", cd(c).c_str(), E, x));
            if (E > 50) judge(m, r, K.DifferentialCrossSection(gamma, c, E, x), [&](auto E, auto v, auto) { return ref::photopair_km<decltype(E)>(t, E, v); }, E, x, 0, "Koch Motz pair");
            else {
                static Interpolant T(photopair_KM_Z, photopair_KM_energies, photopair_KM_cross, 2, false, false, 2, false, false);
                auto f = [&](LD x) { return ref::photopair_km<LD>(t, E, x); };
                LD tot = num::adapt(f, (LD)lo, .5L, 1e-10L, 0.L) + num::adapt(f, .5L, 1 - (LD)lo, 1e-10L, 0.L);
                LD bare = f(x);
                if (tot <= 0 || fabsl(bare) < 1e-6 * tot) throw mon::Skip();
                LD want = bare / tot * T.InterpolateArray(t.Z, E) * 1e-24L * ref::NA / t.A;
                judgei(m, K.DifferentialCrossSection(gamma, c, E, x), want, 2e-3L * fabsl(want), "Koch Motz pair at low energy", "");
            }
        } else {
            static const cs::PhotoMuPairBurkhardtKelnerKokoulin K;
            double Et = 2 * 105.6583745 * std::sqrt(M_E), E = anyenergy(r, Et), w = std::sqrt(1 - Et / E) / 2, x = between(r, .5 - w, .5 + w);
            m.describe(sfmt("muon pair of a photon %s E=%.17g x=%.17g", cd(c).c_str(), E, x));
            judge(m, r, K.DifferentialCrossSection(gamma, c, E, x), [&](auto E, auto v, auto) { return ref::photomu<decltype(E)>(t, E, v); }, E, x, 0, "Burkhardt Kelner Kokoulin");
        }
    });
    m.cases("photopair-lpm", 200, 5000, [&](mon::Rng& r) {
        auto& M = *media()[r.i(0, media().size() - 1)];
        bool ts = r.p(.5);
        double dc = r.p(.3) ? 1. : r.logr(1e-3, 1e2);
        shared_ptr<cs::PhotoPairProduction> L;
        if (ts) L = make_shared<cs::PhotoPairTsai>(true, gamma, M, dc);
        else L = make_shared<cs::PhotoPairKochMotz>(true, gamma, M, dc);
        auto med = lpmmed(M);
        auto bare = [&](const ref::Tgt& t, auto E, auto x) { using T = decltype(E); return ts ? std::max(ref::photopair_tsai_raw<T>(t, E, x), T(0)) : ref::photopair_km<T>(t, E, x); };
        med.elpm = elpm(M, ref::ME, [&](const ref::Tgt& t) {
            LD lo = ref::ME / 1e14L;
            auto f = [&](LD x) { return bare(t, 1e14L, x); };
            // integrable square root singularity of the electron momentum at the lower edge
            return 9.L / 7 * (num::adapt([&](LD u) { LD x = sqrtl(lo * lo + u * u); return f(x) * u / x; }, 1e-17L, 1e-3L, 1e-8L, 0.L, 20) + num::glb<31>(f, { 1e-3L, .5L, 1 - 1e-3L }, 8) + num::adapt(f, 1 - 1e-3L, 1 - lo, 1e-8L, 0.L, 20));
        });
        auto comps = M.GetComponents();
        m.nontrivial();
        for (int k = 0; k < 12; ++k) {
            Component c = comps[r.i(0, comps.size() - 1)];
            auto t = ref::tgt(c);
            double E = r.logr(1e3, r.p(.5) ? 1e14 : 1e18), lo = (double)ref::ME / E, x = between(r, lo, 1 - lo);
            m.describe(sfmt("LPM pair %s %s in %s density x %g E=%.17g x=%.17g", ts ? "Tsai" : "Koch Motz", cd(c).c_str(), M.GetName().c_str(), dc, E, x));
            judge(m, r, L->DifferentialCrossSection(gamma, c, E, x), [&](auto E, auto v, auto) { using T = decltype(E); return std::max(bare(t, E, v), T(0)) * ref::photopair_lpm<T>(t, med, E, v, T(dc)); }, E, x, 0, ts ? "suppressed Tsai pair" : "suppressed Koch Motz pair", 1e-4);
            LD S = ref::photopair_lpm<LD>(t, med, E, x, dc);
            m.note(S < .1 ? "photon suppression strong" : S < .9 ? "photon suppression medium" : "photon suppression weak");
        }
    });
    // ---- photonuclear
    struct Q2K { const char* name; int kind; std::function<shared_ptr<cs::PhotoQ2Integral>(shared_ptr<cs::ShadowEffect>)> mk; };
    vector<Q2K> q2 {
        { "ALLM91", 0, [](auto s) { return make_shared<cs::PhotoAbramowiczLevinLevyMaor91>(s); } }, { "ALLM97", 1, [](auto s) { return make_shared<cs::PhotoAbramowiczLevinLevyMaor97>(s); } },
        { "ButkevichMikheyev", 2, [](auto s) { return make_shared<cs::PhotoButkevichMikheyev>(s); } }, { "RenoSarcevicSu", 3, [](auto s) { return make_shared<cs::PhotoRenoSarcevicSu>(s); } },
        { "AbtFT", 4, [](auto s) { return make_shared<cs::PhotoAbtFT>(s); } }, { "BlockDurandHa", 5, [](auto s) { return make_shared<cs::PhotoBlockDurandHa>(s); } } };
    auto q2ref = [](int kind, bool bm, const ref::Proj& P, const ref::Tgt& t, auto E, auto v, auto Q) {
        using T = decltype(E);
        T x = Q / (2 * T(t.M) * v * E), S = bm ? ref::shadow_bm<T>(t, x, v * E) : ref::shadow_drss<T>(t, x);
        T F = kind == 0 ? ref::f2_allm<T>(ref::allm91(), t, E, v, Q) : kind == 1 || kind == 3 ? ref::f2_allm<T>(ref::allm97(), t, E, v, Q) : kind == 2 ? ref::f2_bm<T>(t, E, v, Q) : kind == 4 ? ref::f2_allm<T>(ref::allmFT(), t, E, v, Q) : ref::f2_bdh<T>(t, E, v, Q);
        return ref::q2_kernel<T>(P, t, E, v, Q, F * S, kind == 2 ? T(0.25) : T(0), kind == 3);
    };
    auto q2lim = [](const ref::Proj& P, const ref::Tgt& t, LD E, LD v, LD& a, LD& b) {
        a = (LD)P.m * P.m * v * v / (1 - v);
        if (P.m < ref::MPI) a -= powl((LD)P.m * P.m / E, 2) / (2 * (1 - v));
        b = 2 * t.M * E * (v - (ref::MPI + ref::MPI * ref::MPI / (2 * (LD)t.M)) / E);
    };
    auto q2case = [&](mon::Rng& r, const ParticleDef& p, Component& c, double& E, double& v) {
        c = anycomp(r);
        E = r.logr(std::max(200., p.mass * 1.5), 1e14);
        LD M = c.GetAverageNucleonWeight();
        double lo = (double)((ref::MPI + ref::MPI * ref::MPI / (2 * M)) / E), hi = p.mass < (double)ref::MPI ? 1 - (double)(M * (1 + powl(p.mass / M, 2)) / (2 * E)) : 1;
        if (hi < lo * 1.001) throw mon::Skip();
        v = between(r, lo, hi);
        if (!(v < 1 - 1e-12) || v <= lo * (1 + 1e-9)) throw mon::Skip();
    };
    m.cases("photonuclear", 12000, 400000, [&](mon::Rng& r) {
        auto& K = q2[r.i(0, 5)];
        bool bm = r.p(.5);
        ParticleDef p = r.p(.7) ? charged()[r.i(0, charged().size() - 1)] : madeup(r);
        Component c;
        double E, v;
        q2case(r, p, c, E, v);
        shared_ptr<cs::ShadowEffect> sh;
        if (bm) sh = make_shared<cs::ShadowButkevichMikheyev>();
        else sh = make_shared<cs::ShadowDuttaRenoSarcevicSeckel>();
        auto k = K.mk(sh);
        auto P = ref::proj(p);
        auto t = ref::tgt(c);
        LD a, b;
        q2lim(P, t, E, v, a, b);
        if (!(b > a * 1.0001L) || a <= 0) throw mon::Skip();
        double Q = (double)expl(r.range(logl(a), logl(b)));
        m.describe(sfmt("%s %s %s %s E=%.17g v=%.17g Q2=%.17g", K.name, bm ? "BM" : "DRSS", pd(p).c_str(), cd(c).c_str(), E, v, Q));
        m.nontrivial();
        double x = Q / (2 * t.M * v * E), nu = v * E;
        m.note(x < .0014 ? "x small" : x < .04 ? "x medium" : x < .3 ? "x large" : "x very large");
        judge(m, r, sh->CalculateShadowEffect(c, x, nu), [&](auto x, auto nu, auto) { using T = decltype(x); return bm ? ref::shadow_bm<T>(t, x, nu) : ref::shadow_drss<T>(t, x); }, x, nu, 0, bm ? "shadow ButkevichMikheyev" : "shadow DuttaRenoSarcevicSeckel");
        judge(m, r, k->FunctionToQ2Integral(p, c, E, v, Q), [&](auto E, auto v, auto Q) { return q2ref(K.kind, bm, P, t, E, v, Q); }, E, v, Q, string("in Q2 ") + K.name);
    });
    m.cases("photonuclear-total", 300, 8000, [&](mon::Rng& r) {
        auto& K = q2[r.i(0, 5)];
        bool bm = r.p(.5);
        ParticleDef p = r.p(.7) ? charged()[r.i(0, charged().size() - 1)] : madeup(r);
        Component c;
        double E, v;
        q2case(r, p, c, E, v);
        shared_ptr<cs::ShadowEffect> sh;
        if (bm) sh = make_shared<cs::ShadowButkevichMikheyev>();
        else sh = make_shared<cs::ShadowDuttaRenoSarcevicSeckel>();
        auto k = K.mk(sh);
        auto P = ref::proj(p);
        auto t = ref::tgt(c);
        LD a, b;
        q2lim(P, t, E, v, a, b);
        m.describe(sfmt("%s %s %s %s E=%.17g v=%.17g", K.name, bm ? "BM" : "DRSS", pd(p).c_str(), cd(c).c_str(), E, v));
        double got = k->DifferentialCrossSection(p, c, E, v);
        m.nontrivial();
        if (b <= a * 1.0001L || a <= 0) {
            if (b < a * .9999L) m.check(got == 0, "no momentum transfer possible", sfmt("got %.9g", got));
            return;
        }
        LD abs = logint([&](LD Q) { return fabsl(q2ref(K.kind, bm, P, t, (LD)E, (LD)v, Q)); }, a, b, 1e-7L);
        LD want = logint([&](LD Q) { return q2ref(K.kind, bm, P, t, (LD)E, (LD)v, Q); }, a, b, 1e-7L);
        LD n = ref::NA / t.A * P.q * P.q;
        judget(m, got, std::max(want * n, 0.L), n * abs, string("over Q2 ") + K.name);
    });
    // ---- weak interaction
    static shared_ptr<cs::WeakCooperSarkarMertsch> W;
    m.cases("weak", 60, 2000, [&](mon::Rng& r) {
        if (!W) W = make_shared<cs::WeakCooperSarkarMertsch>();
        static vector<shared_ptr<Interpolant>> I;
        if (I.empty()) {
            auto mk = [&](auto& y, auto& s) { I.push_back(make_shared<Interpolant>(energies, y, s, 5, false, false, 5, false, false)); };
            mk(y_nu_p, sigma_nu_p); mk(y_nu_n, sigma_nu_n); mk(y_nubar_p, sigma_nubar_p); mk(y_nubar_n, sigma_nubar_n);
        }
        for (int k = 0; k < 50; ++k) {
            ParticleDef p = charged()[r.i(0, 7)];
            Component c = anycomp(r);
            auto t = ref::tgt(c);
            double E = r.logr(1e4, 1e14), v = r.logr(1e-6, 1);
            m.describe(sfmt("weak %s %s E=%.17g v=%.17g", pd(p).c_str(), cd(c).c_str(), E, v));
            m.nontrivial(r.next());
            // the charge that is exchanged decides: negative leptons scatter like antineutrinos
            int o = p.charge < 0 ? 2 : 0;
            LD s = (t.Z * (LD)I[o]->InterpolateArray(std::log10(E), v) + (t.A - t.Z) * (LD)I[o + 1]->InterpolateArray(std::log10(E), v)) / t.A;
            LD want = std::max(ref::NA / t.A * 1e-36L * s, 0.L);
            judgei(m, W->DifferentialCrossSection(p, c, E, v), want, 1e-10L * fabsl(want) + 1e-30L, "Cooper-Sarkar Mertsch", "");
        }
    });
    m.cases("limits", 20000, 400000, [&](mon::Rng& r) {
        // kinematic limits and thresholds as published
        typedef cs::Parametrization<Component> PC;
        struct L { const char* n; shared_ptr<PC> q; int kind; };
        auto dr = make_shared<cs::ShadowDuttaRenoSarcevicSeckel>();
        static vector<L> all;
        if (all.empty()) {
            all = { { "PetrukhinShestakov", make_shared<cs::BremsPetrukhinShestakov>(false), 0 }, { "KelnerKokoulinPetrukhin", make_shared<cs::BremsKelnerKokoulinPetrukhin>(false), 0 },
                { "CompleteScreening", make_shared<cs::BremsCompleteScreening>(false), 0 }, { "AndreevBezrukovBugaev", make_shared<cs::BremsAndreevBezrukovBugaev>(false), 0 },
                { "SandrockSoedingreksoRhode", make_shared<cs::BremsSandrockSoedingreksoRhode>(false), 0 }, { "ElectronScreening", make_shared<cs::BremsElectronScreening>(false), 1 },
                { "EpairKelner", make_shared<cs::EpairKelnerKokoulinPetrukhin>(false), 2 }, { "EpairSandrock", make_shared<cs::EpairSandrockSoedingreksoRhode>(false), 2 }, { "EpairForElectronPositron", make_shared<cs::EpairForElectronPositron>(false), 2 },
                { "Mupair", make_shared<cs::MupairKelnerKokoulinPetrukhin>(), 3 }, { "Compton", make_shared<cs::ComptonKleinNishina>(), 4 }, { "Tsai", make_shared<cs::PhotoPairTsai>(false), 5 }, { "KochMotz", make_shared<cs::PhotoPairKochMotz>(false), 5 },
                { "PhotoMu", make_shared<cs::PhotoMuPairBurkhardtKelnerKokoulin>(), 6 }, { "ALLM91", make_shared<cs::PhotoAbramowiczLevinLevyMaor91>(dr), 7 }, { "ALLM97", make_shared<cs::PhotoAbramowiczLevinLevyMaor97>(dr), 7 },
                { "ButkevichMikheyev", make_shared<cs::PhotoButkevichMikheyev>(dr), 7 }, { "RenoSarcevicSu", make_shared<cs::PhotoRenoSarcevicSu>(dr), 7 }, { "AbtFT", make_shared<cs::PhotoAbtFT>(dr), 7 }, { "BlockDurandHa", make_shared<cs::PhotoBlockDurandHa>(dr), 7 },
                { "Weak", make_shared<cs::WeakCooperSarkarMertsch>(), 8 } };
        }
        static const EnergyCutSettings cut(500, .05, false);
        static const cs::IonizBetheBlochRossi bbr(cut);
        static const cs::IonizBergerSeltzerBhabha bha(cut);
        static const cs::IonizBergerSeltzerMoller mol(cut);
        int i = (int)r.i(0, all.size() + 2);
        Component c = anycomp(r);
        auto& med = *media()[r.i(0, media().size() - 1)];
        bool photon = i < (int)all.size() && all[i].kind >= 4 && all[i].kind <= 6;
        ParticleDef p = photon ? (ParticleDef)GammaDef() : i == (int)all.size() + 1 ? (ParticleDef)EPlusDef() : i == (int)all.size() + 2 ? (ParticleDef)EMinusDef() : r.p(.6) ? charged()[r.i(0, charged().size() - 1)] : madeup(r);
        LD M = p.mass, me = ref::ME, mmu = 105.6583745L, Z = c.GetNucCharge(), lo, hi, th, sq = sqrtl(expl(1));
        double E;
        cs::KinematicLimits l;
        double low;
        const char* nm;
        // energies from the threshold up
        auto en = [&](double t) { return r.p(.3) ? t * (1 + r.logr(1e-6, 1)) : anyenergy(r, t); };
        if (i < (int)all.size()) {
            auto& A = all[i];
            nm = A.n;
            low = A.q->GetLowerEnergyLim(p);
            E = en(low);
            l = A.q->GetKinematicLimits(p, c, E);
            LD e = E, N = c.GetAverageNucleonWeight();
            switch (A.kind) {
            case 0: th = M; lo = 0; hi = std::max(0.L, 1 - .75L * sq * M / e * cbrtl(Z)); break;
            case 1: th = M; lo = 0; hi = 1 - M / e; break;
            case 2: th = M + 2 * me; lo = 4 * me / e; hi = std::max(lo, std::min(1 - .75L * sq * M / e * cbrtl(Z), 1 - 6 * (M / e) * (M / e))); break;
            case 3: th = M + 2 * mmu; lo = 2 * mmu / e; hi = std::max(lo, 1 - M / e); break;
            case 4: th = ref::ALPHA * ref::ALPHA * me / 2; lo = 0; hi = 2 * e / (me + 2 * e); break;
            case 5: th = 2 * me; lo = me / e; hi = 1 - me / e; break;
            case 6: th = 2 * mmu * sq; lo = std::max(.5L - .5L * sqrtl(1 - 2 * sq * mmu / e), mmu / e); hi = 1 - lo; break; // the screened formula alone would allow muons lighter than at rest
            case 7: { LD mpi = 139.57018L; th = M; lo = (mpi + mpi * mpi / (2 * N)) / e; hi = std::min(1 - M / e, M < mpi ? 1 - N * (1 + (M / N) * (M / N)) / (2 * e) : 1); hi = std::max(lo, hi); break; }
            default: { LD n = (938.272046L + 939.565379L) / 2; th = M; lo = 1e6L / (2 * n * e + n * n); hi = 1; }
            }
        } else {
            int k = i - (int)all.size();
            nm = k == 0 ? "BetheBlochRossi" : k == 1 ? "Bhabha" : "Moller";
            low = k == 0 ? bbr.GetLowerEnergyLim(p) : k == 1 ? bha.GetLowerEnergyLim(p) : mol.GetLowerEnergyLim(p);
            E = en(low);
            l = k == 0 ? bbr.GetKinematicLimits(p, med, E) : k == 1 ? bha.GetKinematicLimits(p, med, E) : mol.GetKinematicLimits(p, med, E);
            LD e = E, g = e / M, q = me / M;
            th = M;
            lo = k == 0 ? 1e-6L * med.GetI() / e : 0;
            hi = k == 0 ? std::max(lo, std::min(2 * me * (g * g - 1) / ((1 + 2 * g * q + q * q) * e), 1 - M / e)) : (1 - M / e) * (k == 1 ? 1.L : .5L);
        }
        m.describe(sfmt("%s %s %s %s E=%.17g", nm, pd(p).c_str(), cd(c).c_str(), med.GetName().c_str(), E));
        m.note(string("limits ") + nm);
        m.nontrivial();
        m.checkf(fabsl(low - th) <= 1e-5L * th, "published threshold", [&] { return sfmt("%.17g instead of %.17Lg", low, th); });
        // constants are given with seven digits and more; a limit one minus something keeps that something
        auto same = [&](double a, LD b) { return fabsl(a - b) <= 1e-5L * std::min(fabsl(b), fabsl(1 - b) + 1e-9L) + 1e-15L || fabsl(a - b) <= 1e-5L * fabsl(1 - b) + 1e-15L; };
        if (E > th * (1 + 1e-4)) {
            m.checkf(fabsl(l.v_min - lo) <= 1e-5L * fabsl(lo) + 1e-15L, "published lower limit", [&] { return sfmt("%.17g instead of %.17Lg", l.v_min, lo); });
            if (!(i < (int)all.size() && all[i].kind == 7 && fabsl(M / 139.57018L - 1) < 1e-3L)) m.checkf(same(l.v_max, hi) || (hi == lo && l.v_max == l.v_min), "published upper limit", [&] { return sfmt("%.17g instead of %.17Lg", l.v_max, hi); });
        }
    });
    m.once("tables", [&](mon::Rng&) {
        // the published tables, as fingerprints: entries weighted with fixed pseudo-random numbers
        auto fp1 = [](const vector<double>& v, uint64_t& k, LD& s, LD& a) { for (double x : v) { LD w = mon::mix(++k) / 18446744073709551616.0L; s += w * x; a += fabsl(x); } };
        auto fp = [&](const char* n, const vector<vector<double>>& t, LD want) {
            uint64_t k = 0; LD s = 0, a = 0;
            for (auto& v : t) fp1(v, k, s, a);
            m.note("table entries", k);
            if (getenv("MON_TABLES")) fprintf(stderr, "    fp(\"%s\", cs::%s, %.18LgL);\n", n, n, s / a);
            m.checkf(fabsl(s / a - want) < 1e-13L, "table entries", [&] { return sfmt("%s: fingerprint %.18Lg instead of %.18Lg", n, s / a, want); });
        };
        auto fpv = [&](const char* n, const vector<double>& t, LD want) { fp(n, { t }, want); };
#include "tables.inc"
        auto fpn = [&](const char* n, const vector<vector<double>>& t, LD want) {
            uint64_t k = 0; LD s = 0, a = 0;
            for (auto& v : t) fp1(v, k, s, a);
            if (getenv("MON_TABLES")) fprintf(stderr, "    fpn(\"%s\", %.18LgL)\n", n, s / a);
            m.checkf(fabsl(s / a - want) < 1e-13L, "table entries", [&] { return sfmt("hard component %s: fingerprint %.18Lg instead of %.18Lg", n, s / a, want); });
        };
        fpn("MuonTable", HardComponentTables::MuonTable, -0.433033381051362715L);
        fpn("TauTable", HardComponentTables::TauTable, 0.346980663070373408L);
        m.nontrivial();
    });
}
int main(int c, char** v) { return mon::run(c, v); }
