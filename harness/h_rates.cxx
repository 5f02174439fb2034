// Cross sections as a user sees them: X01 (valid on their kinematic ranges), X02 (exact symmetries),
// X04/X05 (losses, rates and sampled losses are those of the differential cross section), X06 (fingerprints)
#include "models.h"

PROP(X01)
{
    m.cases("plain", 16000, 600000, [&](mon::Rng& r) {
        Cut k = anycut(r);
        static vector<Model> all;
        if (all.empty() || r.p(.002)) all = models(k);
        auto& M = all[r.i(0, all.size() - 1)];
        ParticleDef p = beam(r, M.beam);
        Component c = anycomp(r);
        auto& med = *media()[r.i(0, media().size() - 1)];
        double low = M.low(p);
        double E = r.p(.15) ? low * (1 + r.logr(1e-9, 1e-2)) : anyenergy(r, low);
        if (r.p(.1)) E = low * r.logr(1e-3, 1);
        if (E >= low && E < p.mass) E = p.mass;
        auto lim = M.lim(p, c, med, E);
        m.describe(sfmt("%s %s %s in %s E=%.17g (threshold %.9g) limits %.17g .. %.17g", M.name.c_str(), pd(p).c_str(), cd(c).c_str(), med.GetName().c_str(), E, low, lim.v_min, lim.v_max));
        m.check(std::isfinite(low) && low >= 0 && low >= (M.beam == PHOTON ? 0 : p.mass * (1 - 1e-12)), "threshold", "not at least the rest mass");
        m.check(std::isfinite(lim.v_min) && std::isfinite(lim.v_max), "limits finite", "not a number");
        if (E < low) {
            m.note("below threshold " + M.name);
            return;
        }
        // a range that starts at or beyond everything the particle has is empty
        bool none = lim.v_min >= 1;
        m.check(lim.v_min >= 0, "lower limit", "negative");
        m.check(none || lim.v_max <= 1, "upper limit", "above one");
        m.check(none || lim.v_min <= lim.v_max, "limits ordered", "upper limit below the lower one");
        double w = lim.v_max - lim.v_min;
        if (!(w > 1e-10)) { m.note("empty range " + M.name); return; }
        // a projectile that survives keeps its rest mass
        if (p.mass > 0 && M.name.find("Weak") == string::npos && M.name.find("Cooper") == string::npos) m.check(lim.v_max <= 1 - p.mass / E + 1e-14, "rest mass", sfmt("a loss of %.17g of at most %.17g", lim.v_max, 1 - p.mass / E));
        m.note("judged " + M.name);
        m.nontrivial();
        for (int i = 0; i < (M.slow > 1 ? 2 : 6); ++i) {
            double v = between(r, lim.v_min, lim.v_max);
            double q = w * (M.name == "IonizBetheBlochRossi" ? 1e-5 : 1e-8) + 4e-16; // the radiative correction of ionisation has a logarithmic singularity at the limit
            v = std::min(std::max(v, lim.v_min + q), lim.v_max - q);
            double s = M.dsdv(p, c, med, E, v);
            if (!m.checkf(std::isfinite(s), "finite cross section", [&] { return sfmt("v=%.17g: %g", v, s); })) break;
            if (!m.checkf(s >= 0, "non-negative cross section", [&] { return sfmt("v=%.17g: %g", v, s); })) break;
            m.note(s > 0 ? "positive" : "zero");
            double a = M.fdedx(p, c, med, E, v), b = M.fde2dx(p, c, med, E, v);
            m.checkf(std::isfinite(a) && std::isfinite(b), "finite loss", [&] { return sfmt("v=%.17g: %g %g", v, a, b); });
            if (M.name.substr(0, 5) != "Ioniz") {
                m.close(a, v * s, 1e-14, 0, "loss is v times the cross section", "");
            }
            m.close(b, v * v * s, 1e-14, 0, "second moment is v^2 times the cross section", "");
        }
        if (r.p(.03)) m.sample(m.desc);
    });
    m.cases("suppressed", 300, 8000, [&](mon::Rng& r) {
        auto& med = *media()[r.i(0, media().size() - 1)];
        ParticleDef p = r.p(.25) ? (ParticleDef)GammaDef() : r.p(.5) ? beam(r, EITHER) : charged()[r.i(0, 8)];
        double dc = r.p(.3) ? 1 : r.logr(1e-4, 1e4);
        auto all = models(nullptr, &p, &med, dc);
        for (auto& M : all) {
            if (M.beam == EITHER && std::fabs(p.mass - .51) > .1) continue;
            auto comps = med.GetComponents();
            Component c = comps[r.i(0, comps.size() - 1)];
            double E = r.p(.6) ? r.logr(1e5, 1e16) : anyenergy(r, M.low(p));
            auto lim = M.lim(p, c, med, E);
            m.describe(sfmt("%s with LPM %s %s in %s density x %g E=%.17g limits %.17g .. %.17g", M.name.c_str(), pd(p).c_str(), cd(c).c_str(), med.GetName().c_str(), dc, E, lim.v_min, lim.v_max));
            double w = lim.v_max - lim.v_min;
            if (!(w > 1e-10)) continue;
            m.nontrivial(r.next());
            for (int i = 0; i < 3; ++i) {
                double v = between(r, lim.v_min, lim.v_max), q = w * 1e-8 + 4e-16;
                v = std::min(std::max(v, lim.v_min + q), lim.v_max - q);
                double s = M.dsdv(p, c, med, E, v);
                if (!m.checkf(std::isfinite(s), "finite suppressed cross section", [&] { return sfmt("v=%.17g: %g", v, s); })) break;
                if (!m.checkf(s >= 0, "non-negative suppressed cross section", [&] { return sfmt("v=%.17g: %g", v, s); })) break;
                m.note("suppressed " + M.name);
            }
        }
    });
}

PROP(X02)
{
    m.cases("mirror", 16000, 500000, [&](mon::Rng& r) {
        static vector<Model> all = models(anycut(r));
        auto& M = all[r.i(0, all.size() - 1)];
        if (M.beam == PHOTON || M.beam == LEPTON || M.beam == ELECTRON || M.beam == POSITRON) throw mon::Skip();
        static const vector<std::pair<ParticleDef, ParticleDef>> pairs { { MuMinusDef(), MuPlusDef() }, { EMinusDef(), EPlusDef() }, { TauMinusDef(), TauPlusDef() }, { StauMinusDef(), StauPlusDef() }, { PiMinusDef(), PiPlusDef() }, { KMinusDef(), KPlusDef() }, { SMPMinusDef(), SMPPlusDef() } };
        auto& pr = M.beam == EITHER ? pairs[1] : pairs[r.i(0, 6)];
        Component c = anycomp(r);
        auto& med = *media()[r.i(0, media().size() - 1)];
        double E = anyenergy(r, M.low(pr.first) * 1.01);
        auto l1 = M.lim(pr.first, c, med, E), l2 = M.lim(pr.second, c, med, E);
        m.describe(sfmt("%s %s/%s %s in %s E=%.17g", M.name.c_str(), pr.first.name.c_str(), pr.second.name.c_str(), cd(c).c_str(), med.GetName().c_str(), E));
        m.check(l1.v_min == l2.v_min && l1.v_max == l2.v_max && M.low(pr.first) == M.low(pr.second), "limits of particle and antiparticle", "differ");
        if (!(l1.v_max > l1.v_min * (1 + 1e-9) + 1e-10)) throw mon::Skip();
        double v = between(r, l1.v_min, l1.v_max);
        if (v <= l1.v_min || v >= l1.v_max) v = (l1.v_min + l1.v_max) / 2;
        double a = M.dsdv(pr.first, c, med, E, v), b = M.dsdv(pr.second, c, med, E, v);
        m.note("mirrored " + M.name);
        m.nontrivial();
        m.close(a, b, 1e-12, 0, "particle and antiparticle", sfmt("v=%.17g", v));
    });
    m.cases("projectile", 12000, 400000, [&](mon::Rng& r) {
        static vector<Model> all = models(anycut(r));
        auto& M = all[r.i(0, all.size() - 1)];
        if (M.beam != CHARGED) throw mon::Skip();
        // only mass and charge enter: another name, life time, spin partner and threshold do not
        ParticleDef p = beam(r, CHARGED, 1e4);
        static int n = 0;
        ++n;
        auto mk = [&](double q, int k) { return ParticleDef::Builder().SetName(sfmt("Twin%d_%d", n, k)).SetMass(p.mass).SetLow(p.mass).SetLifetime(r.p(.5) ? -1 : 1e-6).SetCharge(q).SetParticleType(8000000 + 3 * n + k).build(); };
        ParticleDef twin = mk(p.charge, 0);
        double f = r.range(.3, 4);
        ParticleDef other = mk(p.charge * f, 1);
        Component c = anycomp(r);
        auto& med = *media()[r.i(0, media().size() - 1)];
        double E = anyenergy(r, M.low(p) * 1.01);
        auto l1 = M.lim(p, c, med, E), l2 = M.lim(other, c, med, E);
        m.describe(sfmt("%s %s charge x %.9g %s in %s E=%.17g", M.name.c_str(), pd(p).c_str(), f, cd(c).c_str(), med.GetName().c_str(), E));
        m.check(l1.v_min == l2.v_min && l1.v_max == l2.v_max, "limits independent of the charge", "differ");
        if (!(l1.v_max > l1.v_min * (1 + 1e-9) + 1e-10)) throw mon::Skip();
        double v = between(r, l1.v_min, l1.v_max);
        if (v <= l1.v_min || v >= l1.v_max) v = (l1.v_min + l1.v_max) / 2;
        double a = M.dsdv(p, c, med, E, v), b = M.dsdv(twin, c, med, E, v), d = M.dsdv(other, c, med, E, v);
        m.nontrivial();
        m.close(a, b, 1e-13, 0, "depends on mass and charge only", sfmt("v=%.17g", v));
        m.note("charges " + M.name);
        int pw = M.name.find("Shestakov") != string::npos || M.name == "KelnerKokoulinPetrukhin" || M.name == "CompleteScreening" || M.name == "AndreevBezrukovBugaev" || M.name == "SandrockSoedingreksoRhode" ? 4 : 2;
        if (M.name == "EpairSandrockSoedingreksoRhode" || M.name == "EpairKelnerKokoulinPetrukhin") { // the two diagrams scale with the second and the fourth power
            double f2 = f * f, lo = std::min(f2, f2 * f2) * a, hi = std::max(f2, f2 * f2) * a;
            m.checkf(d >= lo - .05 * (hi - lo) && d <= hi + .05 * (hi - lo), "charge dependence", [&] { return sfmt("v=%.17g: %.12g outside %.12g .. %.12g", v, d, lo, hi); });
        } else if (M.name == "IonizBetheBlochRossi") m.close(d, a * f * f, 1e-9, 0, "charge dependence", sfmt("v=%.17g", v));
        else m.close(d, a * std::pow(f, pw), 1e-9, 0, "charge dependence", sfmt("v=%.17g", v));
    });
    m.cases("target", 12000, 400000, [&](mon::Rng& r) {
        static vector<Model> all = models(anycut(r));
        auto& M = all[r.i(0, all.size() - 1)];
        if (!M.pc) throw mon::Skip();
        ParticleDef p = beam(r, M.beam, 1e4);
        double Z = r.p(.5) ? (double)r.i(1, 92) : r.range(1, 92), A = Z * r.range(1.5, 2.6), f = r.range(1.01, 2);
        static int n = 0;
        ++n;
        Component c(sfmt("T%d", n), Z, A, 1), more(sfmt("T%dm", n), Z, A, r.range(.2, 5)), heavy(sfmt("T%dh", n), Z, A * f, 1);
        auto& med = *media()[0];
        double E = anyenergy(r, M.low(p) * 1.01);
        auto l1 = M.lim(p, c, med, E), l2 = M.lim(p, more, med, E), l3 = M.lim(p, heavy, med, E);
        m.describe(sfmt("%s %s Z=%.9g A=%.9g (x %.9g) atoms %.9g E=%.17g", M.name.c_str(), pd(p).c_str(), Z, A, f, more.GetAtomInMolecule(), E));
        m.check(l1.v_min == l2.v_min && l1.v_max == l2.v_max, "limits independent of the number of atoms", "differ");
        if (!(l1.v_max > l1.v_min * (1 + 1e-9) + 1e-10)) throw mon::Skip();
        double v = between(r, l1.v_min, l1.v_max);
        if (v <= l1.v_min || v >= l1.v_max) v = (l1.v_min + l1.v_max) / 2;
        double a = M.dsdv(p, c, med, E, v), b = M.dsdv(p, more, med, E, v), d = M.dsdv(p, heavy, med, E, v);
        m.nontrivial();
        m.note("targets " + M.name);
        m.close(b, a, 1e-13, 0, "per atom: independent of the number of atoms in the molecule", sfmt("v=%.17g", v));
        // processes on a point-like target know the nucleon number only through the number of atoms per mass
        static const std::set<string> point { "PetrukhinShestakov", "CompleteScreening", "ElectronScreening", "ComptonKleinNishina", "PhotoPairTsai", "PhotoPairKochMotz", "EpairForElectronPositron", "EpairKelnerKokoulinPetrukhin" };
        if (point.count(M.name) && M.name != "PetrukhinShestakov") {
            m.close(d * f, a, 1e-12, 0, "atoms per mass", sfmt("v=%.17g", v));
            m.note("isotopes " + M.name);
        }
        if (M.name == "ComptonKleinNishina") {
            Component h(sfmt("T%dz", n), Z * f, A, 1);
            m.close(M.dsdv(p, h, med, E, v), a * f, 1e-12, 0, "electrons per atom", sfmt("v=%.17g", v));
        }
    });
    m.cases("photon pair", 8000, 200000, [&](mon::Rng& r) {
        // both products of a pair are equivalent
        static const cs::PhotoPairKochMotz K(false);
        static const cs::PhotoMuPairBurkhardtKelnerKokoulin B;
        static const ParticleDef g = GammaDef();
        bool mu = r.p(.5);
        Component c = anycomp(r);
        double E = mu ? anyenergy(r, B.GetLowerEnergyLim(g) * 1.01) : r.logr(51, 1e14);
        auto l = mu ? B.GetKinematicLimits(g, c, E) : K.GetKinematicLimits(g, c, E);
        double x = r.range(l.v_min, .5);
        if (r.p(.5)) x = std::max(x, 1e-4);
        x = 1 - (1 - x); // so that the mirrored share is exact
        m.describe(sfmt("%s %s E=%.17g x=%.17g", mu ? "mu" : "e", cd(c).c_str(), E, x));
        if (x <= l.v_min || x * E < 1 || x > .5) throw mon::Skip();
        double a = mu ? B.DifferentialCrossSection(g, c, E, x) : K.DifferentialCrossSection(g, c, E, x), b = mu ? B.DifferentialCrossSection(g, c, E, 1 - x) : K.DifferentialCrossSection(g, c, E, 1 - x);
        m.nontrivial();
        m.close(a, b, 1e-10, 1e-14, "share of the products exchanged", "");
    });
    m.cases("shadowing", 8000, 300000, [&](mon::Rng& r) {
        // the shadowing only multiplies the structure function
        auto s1 = make_shared<cs::ShadowButkevichMikheyev>();
        auto s2 = make_shared<cs::ShadowDuttaRenoSarcevicSeckel>();
        ParticleDef p = beam(r, CHARGED, 1e4);
        Component c = anycomp(r);
        double E = r.logr(std::max(300., p.mass * 2), 1e14), v = r.logr(300 / E, .9999), Q = r.logr(1e-2, std::max(2e-2, 1800 * v * E));
        double x = Q / (2 * c.GetAverageNucleonWeight() * E * v);
        int k = (int)r.i(0, 5);
        auto mk = [&](shared_ptr<cs::ShadowEffect> s) -> shared_ptr<cs::PhotoQ2Integral> {
            switch (k) {
            case 0: return make_shared<cs::PhotoAbramowiczLevinLevyMaor91>(s);
            case 1: return make_shared<cs::PhotoAbramowiczLevinLevyMaor97>(s);
            case 2: return make_shared<cs::PhotoButkevichMikheyev>(s);
            case 3: return make_shared<cs::PhotoRenoSarcevicSu>(s);
            case 4: return make_shared<cs::PhotoAbtFT>(s);
            default: return make_shared<cs::PhotoBlockDurandHa>(s);
            }
        };
        double a = mk(s1)->FunctionToQ2Integral(p, c, E, v, Q), b = mk(s2)->FunctionToQ2Integral(p, c, E, v, Q);
        double f1 = s1->CalculateShadowEffect(c, x, v * E), f2 = s2->CalculateShadowEffect(c, x, v * E);
        m.describe(sfmt("kind %d %s %s E=%.17g v=%.17g Q2=%.17g", k, pd(p).c_str(), cd(c).c_str(), E, v, Q));
        if (!(f2 > 0) || !std::isfinite(f1) || x >= 1) throw mon::Skip();
        m.nontrivial();
        m.close(a * f2, b * f1, 1e-11, 0, "shadowing is a factor", "");
        if (c.GetNucCharge() == 1) m.check(f1 == 1 && f2 == 1, "no shadowing on a single nucleon", sfmt("%g %g", f1, f2));
    });
    m.cases("suppression", 400, 8000, [&](mon::Rng& r) {
        auto& med = *media()[r.i(0, media().size() - 1)];
        ParticleDef p = r.p(.25) ? (ParticleDef)GammaDef() : r.p(.5) ? beam(r, EITHER) : charged()[r.i(0, 8)];
        static vector<Model> all0 = models(anycut(r));
        auto thin = models(nullptr, &p, &med, 1e-20), norm = models(nullptr, &p, &med, 1), dense = models(nullptr, &p, &med, 10);
        auto comps = med.GetComponents();
        for (size_t i = 0; i < thin.size(); ++i) {
            if (thin[i].beam == EITHER && std::fabs(p.mass - .51) > .1) continue;
            if (thin[i].slow > 1 && r.p(.6)) continue;
            Component c = comps[r.i(0, comps.size() - 1)];
            double E = r.logr(std::max(100., p.mass * 10), 1e14);
            auto l = thin[i].lim(p, c, med, E);
            if (!(l.v_max > l.v_min * 1.01 + 1e-6)) continue;
            double v = r.p(.5) ? r.range(l.v_min, l.v_max) : r.logr(std::max(l.v_min, 1e-4 * l.v_max), l.v_max);
            if (v <= l.v_min || v >= l.v_max) continue;
            double plain = 0;
            for (auto& q : all0) if (q.name == thin[i].name) plain = q.dsdv(p, c, med, E, v);
            if (!(plain > 0)) continue;
            double a = thin[i].dsdv(p, c, med, E, v), b = norm[i].dsdv(p, c, med, E, v), d = dense[i].dsdv(p, c, med, E, v);
            m.describe(sfmt("%s %s %s in %s E=%.17g v=%.17g", thin[i].name.c_str(), pd(p).c_str(), cd(c).c_str(), med.GetName().c_str(), E, v));
            m.nontrivial(r.next());
            m.note("suppression of " + thin[i].name + (b < .5 * plain ? " strong" : b < .95 * plain ? " medium" : " weak"));
            m.close(a, plain, .03, 0, "no suppression in a thin medium", sfmt("ratio %.9g", a / plain));
            m.checkf(b <= plain * 1.06, "suppression never enhances", [&] { return sfmt("ratio %.9g", b / plain); });
            m.checkf(d <= b * 1.06 + 1e-6 * plain, "a denser medium suppresses more", [&] { return sfmt("ratios %.9g, at ten times the density %.9g", b / plain, d / plain); });
        }
    });
}

// ------------------------------------------------------------------ X04, X05
typedef long double LD;
// integral of v^n times the cross section from a to b
static LD moment(const std::function<double(double)>& f, double a, double b, double rel, bool slow = false)
{
    if (!(b > a)) return 0;
    LD s = 0;
    double mid = .5;
    auto up = [&](double a, double b) { // in ln(1-v)
        LD la = logl(1 - (LD)b), lb = logl(1 - (LD)a);
        if (slow) { int k = std::max(1, (int)ceill((lb - la) / 3)); for (int i = 0; i < k; ++i) s += num::gl<16>([&](LD t) { LD u = expl(t); return u * (LD)f((double)(1 - u)); }, la + (lb - la) * i / k, la + (lb - la) * (i + 1) / k); return; }
        int n = std::max(1, (int)ceill((lb - la) / 4));
        for (int i = 0; i < n; ++i) s += num::adapt([&](LD t) { LD u = expl(t); return u * (LD)f((double)(1 - u)); }, la + (lb - la) * i / n, la + (lb - la) * (i + 1) / n, rel, 1e-9L * fabsl(s), 7);
    };
    auto dn = [&](double a, double b) {
        LD la = logl(a), lb = logl(b);
        if (slow) { int k = std::max(1, (int)ceill((lb - la) / 3)); for (int i = k; i-- > 0;) s += num::gl<16>([&](LD t) { LD v = expl(t); return v * (LD)f((double)v); }, la + (lb - la) * i / k, la + (lb - la) * (i + 1) / k); return; }
        int n = std::max(1, (int)ceill((lb - la) / 4));
        for (int i = n; i-- > 0;) s += num::adapt([&](LD t) { LD v = expl(t); return v * (LD)f((double)v); }, la + (lb - la) * i / n, la + (lb - la) * (i + 1) / n, rel, 1e-9L * fabsl(s), 7);
    };
    if (b > mid) {
        double lo = std::max(a, mid);
        if (b >= 1) b = 1 - 1e-15;
        up(lo, b);
    }
    if (a < mid) dn(std::max(a, b * 1e-14), std::min(b, mid));
    return s;
}
static ParticleDef fast(mon::Rng& r, const Model& M) { return beam(r, M.beam, 1e4); }
struct Setup {
    Model M;
    ParticleDef p;
    Component c;
    shared_ptr<Medium> med;
    Cut k;
    double E, low;
    cs::KinematicLimits lim;
    double vcut;
    string name;
};
// one model with its cut, particle, target and energy above the threshold
static Setup setup(mon::Mon& m, mon::Rng& r, double slowshare, bool stoch)
{
    Cut k = anycut(r, stoch);
    auto all = models(k);
    vector<size_t> s, f;
    for (size_t i = 0; i < all.size(); ++i) (all[i].slow > 1 ? s : f).push_back(i);
    auto M = all[r.p(slowshare) ? s[r.i(0, s.size() - 1)] : f[r.i(0, f.size() - 1)]];
    ParticleDef p = beam(r, M.beam, 1e4);
    if (M.slow > 1 && p.mass > 2e4) throw mon::Skip(); // the integrals of pairs from very heavy particles take minutes
    Component c = anycomp(r);
    auto med = media()[r.i(0, media().size() - 1)];
    double low = M.low(p), E = r.p(.7) ? r.logr(std::max(low * 1.001, 10.), 1e12) : anyenergy(r, low);
    if (E <= low) E = low * 1.001;
    auto lim = M.lim(p, c, *med, E);
    double vc = std::min(std::max(lim.v_min, std::min(k->GetEcut() / E, k->GetVcut())), lim.v_max);
    string n = sfmt("%s %s %s in %s E=%.17g %s: %.9g .. %.9g .. %.9g", M.name.c_str(), pd(p).c_str(), M.pc ? cd(c).c_str() : "", med->GetName().c_str(), E, cutd(*k).c_str(), lim.v_min, vc, lim.v_max);
    m.describe(n);
    if (lim.v_min >= 1 || !(lim.v_max > lim.v_min)) { m.note("empty range " + M.name); throw mon::Skip(); }
    return { M, p, c, med, k, E, low, lim, vc, n };
}
// families whose integrals are judged together
static string family(const string& n)
{
    if (n.find("Photo") == 0 && n.find("PhotoBut") != 0) return n;
    return n;
}

// where the numbers of points the code integrates with cannot resolve the shape only the share of poor integrals counts
static bool easy(const Setup& s, bool rate)
{
        if (s.E < 10 * s.low || s.p.mass > 2000) return false;
        if (rate && s.vcut < 1e-10 * s.lim.v_max) return false;
        if (s.M.name == "ComptonKleinNishina" && s.E > 1e9) return false;
        if (s.M.name.find("Ioniz") != 0 && s.M.beam != PHOTON && s.lim.v_max < .9) return false;
        return true;
}

PROP(X04)
{
    auto off = [&](double got, LD want, const string& what, bool hard) {
        m.note("judged over " + what);
        double d = want != 0 ? std::fabs(got / (double)want - 1) : (got == 0 ? 0. : 1.);
        if (!(d < 1e-2)) m.note("off by a percent: " + what);
        if (!(d < 1e-3)) m.note("off by a permille: " + what);
        if (std::isfinite(d) && hard) m.worst(what, d);
        m.checkf(std::isfinite(got) && d <= (hard ? .05 : 1e300), "integral " + what, [&] { return sfmt("%.12g instead of %.12g, off by %.3g", got, (double)want, d); });
        m.checkf(got >= 0, "non-negative " + what, [&] { return sfmt("%.12g", got); });
    };
    m.cases("integrals", 2500, 60000, [&](mon::Rng& r) {
        auto s = setup(m, r, .15, false);
        auto f = [&](int n) { return [&s, n](double v) { return s.M.dsdv(s.p, s.c, *s.med, s.E, v) * (n == 0 ? 1 : n == 1 ? v : v * v); }; };
        double rel = s.M.slow > 1 ? 1e-5 : 1e-6;
        bool ion = s.M.name.find("Ioniz") == 0;
        double top = s.M.name == "IonizBetheBlochRossi" ? s.lim.v_max * (1 - 1e-9) : s.lim.v_max; // logarithmic singularity of the radiative correction
        int which = s.M.slow > 1 ? (int)r.i(0, 2) : 3;
        m.nontrivial();
        if (which == 0 || which == 3) {
            double got = s.M.dndx(s.p, s.c, *s.med, s.k)->Calculate(s.E);
            off(got, moment(f(0), s.vcut, top, rel, s.M.slow > 1), s.M.name + " rate", easy(s, true));
            if (r.p(.3)) {
                double u = between(r, s.vcut, top), g2 = s.M.dndx(s.p, s.c, *s.med, s.k)->Calculate(s.E, u);
                off(g2, moment(f(0), s.vcut, u, rel, s.M.slow > 1), s.M.name + " accumulated rate", easy(s, true));
                m.checkf(g2 <= got * (1 + 1e-2), "accumulated rate exceeds the rate", [&] { return sfmt("up to %.17g: %.12g > %.12g", u, g2, got); });
            }
        }
        if (which == 1 || which == 3) {
            double got = s.M.dedx(s.p, s.c, *s.med, s.k)->Calculate(s.E);
            if (!ion) off(got, s.E * moment(f(1), s.lim.v_min, std::min(s.vcut, top), rel, s.M.slow > 1), s.M.name + " loss", easy(s, false));
            else m.checkf(got >= 0, "non-negative loss", [&] { return sfmt("%.12g", got); });
        }
        if (which == 2 || which == 3) {
            double got = s.M.de2dx(s.p, s.c, *s.med, s.k)->Calculate(s.E);
            off(got, (LD)s.E * s.E * moment(f(2), s.lim.v_min, std::min(s.vcut, top), rel, s.M.slow > 1), s.M.name + " second moment", easy(s, false));
        }
        if (r.p(.02)) m.sample(m.desc);
    });
    // between two cuts lies exactly what happens between them
    m.cases("cuts", 2500, 60000, [&](mon::Rng& r) {
        auto s = setup(m, r, .1, true);
        Cut k2 = anycut(r, true);
        Model M2 = s.M;
        for (auto& q : models(k2)) if (q.name == s.M.name) M2 = q;
        double c2 = std::min(std::max(s.lim.v_min, std::min(k2->GetEcut() / s.E, k2->GetVcut())), s.lim.v_max);
        m.describe(s.name + " and " + cutd(*k2) + sfmt(": %.9g", c2));
        if (c2 == s.vcut) throw mon::Skip();
        if (s.M.name == "IonizBetheBlochRossi" && (s.lim.v_max < 1e4 * s.lim.v_min || std::min(c2, s.vcut) <= s.lim.v_min)) throw mon::Skip();
        double a = std::min(c2, s.vcut), b = std::max(c2, s.vcut), sg = c2 > s.vcut ? 1 : -1;
        auto f = [&](int n) { return [&s, n](double v) { return s.M.dsdv(s.p, s.c, *s.med, s.E, v) * (n == 0 ? 1 : n == 1 ? v : v * v); }; };
        double rel = s.M.slow > 1 ? 1e-5 : 1e-6;
        m.nontrivial();
        double l1 = s.M.dedx(s.p, s.c, *s.med, s.k)->Calculate(s.E), l2 = M2.dedx(s.p, s.c, *s.med, k2)->Calculate(s.E);
        if (s.M.name == "IonizBetheBlochRossi") b = std::min(b, s.lim.v_max * (1 - 1e-9));
        LD dl = s.E * moment(f(1), a, b, rel, s.M.slow > 1);
        m.note("judged over loss between cuts " + s.M.name);
        double big = std::max(l1, l2);
        m.worst(s.M.name + " loss between cuts", (double)(fabsl((l2 - l1) * sg - dl) / std::max((LD)big, dl)));
        if (easy(s, false) && a > 1e-10) m.checkf(fabsl((l2 - l1) * sg - dl) <= 1e-2 * (big + dl), "loss between cuts", [&] { return sfmt("%.12g - %.12g = %.12g instead of %.12g", l2, l1, l2 - l1, sg * (double)dl); });
        double n1 = s.M.dndx(s.p, s.c, *s.med, s.k)->Calculate(s.E), n2 = M2.dndx(s.p, s.c, *s.med, k2)->Calculate(s.E);
        LD dn = moment(f(0), a, b, rel, s.M.slow > 1);
        m.worst(s.M.name + " rate between cuts", (double)(fabsl((n1 - n2) * sg - dn) / std::max((LD)std::max(n1, n2), dn)));
        if (easy(s, true) && a > 1e-10) m.checkf(fabsl((n1 - n2) * sg - dn) <= 1e-2 * (std::max(n1, n2) + dn), "rate between cuts", [&] { return sfmt("%.12g - %.12g = %.12g instead of %.12g", n1, n2, n1 - n2, sg * (double)dn); });
    });
}

PROP(X05)
{
    m.cases("sampled", 2500, 60000, [&](mon::Rng& r) {
        auto s = setup(m, r, .1, true);
        if (!(s.lim.v_max > s.vcut)) throw mon::Skip();
        auto d = s.M.dndx(s.p, s.c, *s.med, s.k);
        double N = d->Calculate(s.E);
        auto il = d->GetIntegrationLimits(s.E);
        m.check(il.min == s.vcut && il.max == s.lim.v_max, "integration limits", sfmt("%.17g .. %.17g instead of %.17g .. %.17g", il.min, il.max, s.vcut, s.lim.v_max));
        if (!(N > 0)) throw mon::Skip();
        m.nontrivial();
        vector<double> q { 0, r.u(), r.u(), r.logr(1e-6, 1), 1 - r.logr(1e-6, 1) };
        if (s.M.slow > 1) q.resize(3);
        std::sort(q.begin(), q.end());
        double last = 0;
        for (double x : q) {
            double v = d->GetUpperLimit(s.E, x * N);
            m.note("sampled " + s.M.name);
            m.checkf(v >= s.vcut * (1 - 1e-9) - 4e-15 && v <= s.lim.v_max * (1 + 1e-9) + 4e-15, "loss between the cut and the maximum", [&] { return sfmt("share %.17g: %.17g", x, v); });
            if (easy(s, true) && x < .999) m.checkf(v >= last * (1 - 1e-3), "loss grows with the share", [&] { return sfmt("share %.17g: %.17g < %.17g", x, v, last); });
            last = v;
            double g = d->Calculate(s.E, v);
            if (easy(s, true)) m.worst("share " + s.M.name, std::fabs(g / N - x));
            if (std::fabs(g / N - x) > 1e-2) m.note("off by a percent: " + s.M.name);
            m.note("judged over " + s.M.name);
            if (easy(s, true)) m.checkf(std::fabs(g / N - x) < (x > .999 || x < .001 ? .1 : .03), "share", [&] { return sfmt("share %.17g sampled as %.17g (v=%.17g)", x, g / N, v); });
        }
        // beyond the total: the largest loss or an error
        double x = 1 + r.logr(1e-2, 10), v = s.lim.v_max;
        try { v = d->GetUpperLimit(s.E, x * N); m.note("beyond the total: largest loss"); } catch (const std::exception&) { m.note("beyond the total: refused"); }
        if (easy(s, true)) m.checkf(std::fabs(v - s.lim.v_max) <= 1e-2 * (s.lim.v_max - s.vcut), "rate beyond the total", [&] { return sfmt("%.9g times the total rate gave %.17g", x, v); });
        if (r.p(.03)) m.sample(m.desc);
    });
}


// ------------------------------------------------------------------ X06
// what a table of a cross section is stored under: parametrisation, particle, medium and cut
static size_t key(const Model& M, const ParticleDef& p, const Medium& med, Cut k)
{
    size_t h = 0;
    hash_combine(h, M.pname, M.pid, M.hash(), p.GetHash(), med.GetHash());
    if (k) hash_combine(h, k->GetHash());
    return h;
}
static vector<std::pair<string, size_t>> fingerprints()
{
    vector<std::pair<string, size_t>> v;
    auto k1 = make_shared<const EnergyCutSettings>(500, .05, false), k2 = make_shared<const EnergyCutSettings>(500, .5, false), k3 = make_shared<const EnergyCutSettings>(499, .05, false);
    for (auto& k : { k1, k2, k3 })
        for (auto& M : models(k)) v.push_back({ sfmt("%s cut %s", M.name.c_str(), cutd(*k).c_str()), key(M, MuMinusDef(), *media()[0], k) });
    for (auto& M : models(k1)) if (M.pc) v.push_back({ M.name + " without cut", key(M, MuMinusDef(), *media()[0], nullptr) });
    for (auto& p : charged()) {
        if (p.name == "MuMinus" || p.name.find("SMP") == 0) continue; // the latter have the constants of the staus
        for (auto& M : models(k1)) v.push_back({ sfmt("%s of %s", M.name.c_str(), p.name.c_str()), key(M, p, *media()[0], k1) });
    }
    for (size_t i = 1; i < media().size(); ++i) for (auto& M : models(k1)) v.push_back({ sfmt("%s in %s", M.name.c_str(), media()[i]->GetName().c_str()), key(M, MuMinusDef(), *media()[i], k1) });
    for (int i = 0; i < 4; ++i)
        for (double dc : { 1., .5 })
            for (auto& p : { (ParticleDef)EMinusDef(), (ParticleDef)GammaDef() })
                for (auto& M : models(nullptr, &p, media()[i].get(), dc)) v.push_back({ sfmt("%s with LPM of %s in %s density %g", M.name.c_str(), p.name.c_str(), media()[i]->GetName().c_str(), dc), key(M, p, *media()[i], k1) });
    for (auto& p : charged()) if (p.name.find("SMP") != 0) v.push_back({ "particle " + p.name, p.GetHash() });
    for (auto& M : media()) {
        v.push_back({ "medium " + M->GetName(), M->GetHash() });
        for (auto& c : M->GetComponents()) v.push_back({ "component " + c.GetName() + " of " + M->GetName(), c.GetHash() });
    }
    return v;
}
PROP(X06)
{
    m.once("pairs", [&](mon::Rng& r) {
        auto v = fingerprints(), w = fingerprints();
        std::map<size_t, string> seen;
        for (size_t i = 0; i < v.size(); ++i) {
            m.describe(v[i].first);
            m.checkf(v[i].second == w[i].second, "recomputed", [&] { return sfmt("%zx then %zx", v[i].second, w[i].second); });
            m.note("configurations");
            m.nontrivial(v[i].second);
            auto it = seen.find(v[i].second);
            if (v[i].first.find("component ") == 0) { // the same component may appear in several media
                if (it == seen.end()) seen[v[i].second] = "component";
                else m.check(it->second == "component", "collision", it->second);
                continue;
            }
            m.checkf(it == seen.end(), "collision", [&] { return it->second; });
            seen[v[i].second] = v[i].first;
        }
    });
    m.once("process", [&](mon::Rng& r) {
        // another process with other memory layout computes the same fingerprints
        auto v = fingerprints();
        FILE* f = popen(sfmt("ASAN_OPTIONS=detect_leaks=0 /proc/%d/exe --fingerprints 2>/dev/null", (int)getpid()).c_str(), "r");
        size_t n = 0;
        char b[64];
        while (f && fgets(b, sizeof b, f)) {
            size_t h = strtoull(b, nullptr, 16);
            m.describe(n < v.size() ? v[n].first : "beyond the list");
            m.checkf(n < v.size() && v[n].second == h, "another process", [&] { return sfmt("%zx there, %zx here", h, n < v.size() ? v[n].second : 0); });
            m.note("compared with another process");
            m.nontrivial(h);
            ++n;
        }
        if (f) pclose(f);
        m.check(n == v.size(), "all fingerprints of the other process", sfmt("%zu of %zu", n, v.size()));
    });
    m.cases("options", 3000, 60000, [&](mon::Rng& r) {
        Cut k = anycut(r), k2 = r.p(.5) ? anycut(r) : make_shared<const EnergyCutSettings>(std::isinf(k->GetEcut()) ? 500. : k->GetEcut() * 1.0000001, k->GetVcut(), false);
        auto a = models(k), b = models(k), c = models(k2);
        size_t i = r.i(0, a.size() - 1);
        auto& med = *media()[r.i(0, media().size() - 1)];
        ParticleDef p = beam(r, a[i].beam);
        m.describe(sfmt("%s %s %s %s and %s", a[i].name.c_str(), pd(p).c_str(), med.GetName().c_str(), cutd(*k).c_str(), cutd(*k2).c_str()));
        m.nontrivial();
        m.check(key(a[i], p, med, k) == key(b[i], p, med, k), "equal configurations", "");
        auto cl = a[i];
        if (cl.pc) cl.pc = shared_ptr<cs::Parametrization<Component>>(cl.pc->clone());
        else cl.pm = shared_ptr<cs::Parametrization<Medium>>(cl.pm->clone());
        m.check(cl.hash() == a[i].hash(), "clone", "");
        bool same = k->GetEcut() == k2->GetEcut() && k->GetVcut() == k2->GetVcut();
        if (!same) {
            m.check(key(a[i], p, med, k) != key(c[i], p, med, k2), "another cut", "");
            m.check(k->GetHash() != k2->GetHash(), "hash of another cut", "");
            if (a[i].name.find("Ioniz") == 0) m.check(a[i].hash() != c[i].hash(), "ionisation with another cut", "");
        }
        size_t j = r.i(0, a.size() - 1);
        if (j != i) m.check(key(a[i], p, med, k) != key(a[j], p, med, k), "another parametrisation", a[j].name);
        // particle with one changed constant
        static int n = 0;
        ++n;
        double q[4] = { p.mass, p.low, p.lifetime, p.charge };
        int f = (int)r.i(0, 3);
        q[f] = r.p(.5) ? std::nextafter(q[f], INFINITY) : std::fabs(q[f]) > 1 ? q[f] * r.range(1.1, 2) : q[f] + r.range(.1, 2);
        if (f == 2 && (q[2] < 0 || std::isinf(q[2]))) q[2] = 1.5; // negative: stable
        auto mk = [&](double* q, int t) { return ParticleDef::Builder().SetName(sfmt("F%d", t)).SetMass(q[0]).SetLow(q[1]).SetLifetime(q[2]).SetCharge(q[3]).SetParticleType(7500000 + t).SetWeakPartner(static_cast<ParticleType>(p.weak_partner)).build(); };
        ParticleDef o = mk(q, 2 * n);
        double q0[4] = { p.mass, p.low, p.lifetime, p.charge };
        ParticleDef same_p = mk(q0, 2 * n + 1);
        m.note(sfmt("changed particle field %d", f));
        m.checkf(o.GetHash() != p.GetHash() && key(a[i], o, med, k) != key(a[i], p, med, k), "changed particle", [&] { return sfmt("field %d", f); });
        m.check(same_p.GetHash() == p.GetHash(), "same particle", "");
        // suppression: switched on, other medium, other density, other particle
        auto& med2 = *media()[(r.i(0, media().size() - 2) + 1) % media().size()];
        double dc = r.logr(.1, 10), dc2 = r.p(.5) ? dc * 1.0000001 : r.logr(.1, 10);
        ParticleDef e = r.p(.3) ? (ParticleDef)GammaDef() : r.p(.5) ? (ParticleDef)EMinusDef() : (ParticleDef)MuMinusDef();
        auto la = models(nullptr, &e, &med, dc), lb = models(nullptr, &e, &med, dc), lc = models(nullptr, &e, &med, dc2), ld = models(nullptr, &e, &med2, dc);
        size_t l = r.i(0, la.size() - 1);
        m.describe(sfmt("%s %s LPM in %s (density x %.9g) and in %s or x %.9g", la[l].name.c_str(), pd(e).c_str(), med.GetName().c_str(), dc, med2.GetName().c_str(), dc2));
        m.check(la[l].hash() == lb[l].hash(), "equal suppression", "");
        m.check(la[l].hash() != lc[l].hash(), "suppression at another density", "");
        if (med2.GetHash() != med.GetHash()) m.check(la[l].hash() != ld[l].hash(), "suppression in another medium", "");
        for (auto& x : a) if (x.name == la[l].name) { m.check(x.hash() != la[l].hash(), "suppression switched on", ""); m.note("suppression of " + x.name); }
        if (e.charge != 0) {
            ParticleDef e2 = e.name == "EMinus" ? (ParticleDef)MuMinusDef() : (ParticleDef)EMinusDef();
            auto le = models(nullptr, &e2, &med, dc);
            m.check(le[l].hash() != la[l].hash(), "suppression for another particle", "");
        }
    });
    m.cases("tables", 400, 8000, [&](mon::Rng& r) {
        // the parts of a cross section are distinguished by their component
        Cut k = anycut(r);
        auto a = models(k);
        auto& M = a[r.i(0, a.size() - 1)];
        if (!M.pc) throw mon::Skip();
        ParticleDef p = beam(r, M.beam);
        Component c = anycomp(r), d = anycomp(r);
        auto& med = *media()[0];
        m.describe(sfmt("%s %s %s and %s", M.name.c_str(), pd(p).c_str(), cd(c).c_str(), cd(d).c_str()));
        if (c.GetHash() == d.GetHash()) throw mon::Skip();
        m.nontrivial();
        m.check(M.dndx(p, c, med, k)->GetHash() != M.dndx(p, d, med, k)->GetHash(), "rate on another component", "");
        m.check(M.dedx(p, c, med, k)->GetHash() != M.dedx(p, d, med, k)->GetHash(), "loss on another component", "");
        m.check(M.de2dx(p, c, med, k)->GetHash() != M.de2dx(p, d, med, k)->GetHash(), "second moment on another component", "");
        m.check(M.dndx(p, c, med, k)->GetHash() == M.dndx(p, c, med, k)->GetHash() && M.dedx(p, c, med, k)->GetHash() == M.dedx(p, c, med, k)->GetHash() && M.de2dx(p, c, med, k)->GetHash() == M.de2dx(p, c, med, k)->GetHash(), "same component", "");
    });
}
int main(int c, char** v)
{
    if (c > 1 && string(v[1]) == "--fingerprints") {
        for (auto& f : fingerprints()) printf("%zx\n", f.second);
        return 0;
    }
    return mon::run(c, v);
}
