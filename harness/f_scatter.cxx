// L03 multiple scattering that integrates over the step (Highland) or follows Moliere's distribution, and the containers of scattering models.
#include "xs.h"
#include "num.h"
#include "PROPOSAL/PROPOSAL.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/scattering/ScatteringFactory.h"
#include "PROPOSAL/scattering/ScatteringMultiplier.h"
#include "PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h"
#include "PROPOSAL/scattering/multiple_scattering/Moliere.h"
#include "PROPOSAL/scattering/stochastic_deflection/ScatteringFactory.h"
namespace ms = PROPOSAL::multiple_scattering;
namespace sd = PROPOSAL::stochastic_deflection;
typedef std::unique_ptr<ms::Parametrization> Model;

static void settings()
{
    static bool done = false;
    if (done) return;
    done = true;
    Logging::SetGlobalLoglevel(spdlog::level::off);
    InterpolationSettings::TABLES_PATH = "";
    InterpolationSettings::UPPER_ENERGY_LIM = 1e9;
}
static double prob(mon::Rng& r)
{
    switch (r.i(0, 5)) {
    case 0: return r.logr(1e-7, .5);
    case 1: return 1 - r.logr(1e-7, .5);
    case 2: return .5 + r.sgn() * r.logr(1e-9, .4);
    default: return r.u();
    }
}
// Moliere's projected distribution from its definition: the cumulative functions of order n,
//   F_n(x) = 1/(n! pi) int_0^inf sin(x u)/u exp(-u^2/4) (u^2/4 ln u^2/4)^n du
static LD moliereF(int n, LD x)
{
    struct Node { LD u, w; };
    static vector<Node> nodes[3];
    auto& v = nodes[n];
    if (v.empty()) {
        static const num::GL<8> g;
        vector<LD> pts;
        // fine around zero, where the logarithm has its branch point
        for (LD a = 1e-9L; a < .02L; a *= 1.7L) pts.push_back(a);
        for (LD a = .02L; a < 15; a += .02L) pts.push_back(a);
        pts.insert(pts.begin(), 0);
        for (size_t i = 0; i + 1 < pts.size(); ++i)
            for (int k = 0; k < 8; ++k) {
                LD h = (pts[i + 1] - pts[i]) / 2, u = pts[i] + h + h * g.x[k], y = u * u / 4, f = expl(-y) * h * g.w[k] / (u * M_PIl);
                if (n) f *= n == 1 ? y * logl(y) : y * logl(y) * y * logl(y) / 2;
                v.push_back({ u, f });
            }
    }
    LD s = 0;
    for (auto& q : v) s += q.w * sinl(x * q.u);
    return s;
}
struct Ref { // the distribution of a step
    vector<LD> Z, w, B;
    LD chiC2 = 0;
    bool none = false, close = false; // no deflection; close to that decision
    int big = 0;
    Ref(const ParticleDef& p, const Medium& M, LD X, LD E)
    {
        LD me = 0.5109989461L, al = 0.0072973525664L, eg = 0.577215664901532861L;
        LD sum = 0, A = 0, ZZ = 0;
        for (auto& c : M.GetComponents()) sum += (LD)c.GetAtomInMolecule() * c.GetAtomicNum();
        for (auto& c : M.GetComponents()) {
            LD f = (LD)c.GetAtomInMolecule() * c.GetAtomicNum() / sum, z = c.GetNucCharge();
            Z.push_back(z);
            w.push_back(f * z * z);
            A += f * c.GetAtomicNum();
            ZZ += p.mass == ME ? f * z * (z + 1) : f * z * z; // electrons scatter on the electrons of the atom as well
        }
        LD q2 = (LD)p.charge * p.charge, p2 = ((LD)E - p.mass) * ((LD)E + p.mass), b2 = p2 / ((LD)E * E), pb = p2 / E;
        if (q2 == 0 || X == 0) { none = true; return; }
        LD hc = 197.3269788e-13L; // MeV cm
        chiC2 = 4 * M_PIl * 6.022140857e23L * al * al * hc * hc * q2 * X / (pb * pb) * ZZ / A;
        for (size_t i = 0; i < Z.size(); ++i) {
            LD chi0 = me * al * powl(Z[i] * 128 / (9 * M_PIl * M_PIl), 1.L / 3), chiA2 = chi0 * chi0 / p2 * (1.13L + 3.76L * al * al * q2 * Z[i] * Z[i] / b2);
            LD b = logl(chiC2 / chiA2) + 1 - 2 * eg; // B - ln B = b
            LD x = 4.5L, need = x - logl(x);
            if (fabsl(b - need) < 1e-4L) close = true;
            if (b < need) { none = true; continue; }
            LD lo = 1, hi = 2 * b + 10;
            for (int k = 0; k < 200; ++k) { LD c = (lo + hi) / 2; (c - logl(c) < b ? lo : hi) = c; }
            B.push_back((lo + hi) / 2);
        }
    }
    LD F(LD t, LD* scale = nullptr) const
    {
        LD s = 0, n = 0, big = 0;
        for (size_t i = 0; i < B.size(); ++i) {
            LD x = t / sqrtl(chiC2 * B[i]);
            s += w[i] * (erfl(x) / 2 + (moliereF(1, x) / B[i] + moliereF(2, x) / (B[i] * B[i])));
            n += w[i];
            big = std::max(big, fabsl(x));
        }
        if (scale) *scale = big;
        return s / n;
    }
};
static vector<shared_ptr<Medium>>& mats()
{
    static vector<shared_ptr<Medium>> v;
    if (v.empty()) for (auto n : { "water", "standardrock", "iron", "hydrogen", "lead", "air", "salt" }) v.push_back(CreateMedium(n));
    return v;
}
static ParticleDef heavyweights(mon::Rng& r)
{
    static const vector<ParticleDef> v { MuMinusDef(), EMinusDef(), EPlusDef(), TauPlusDef(), PiPlusDef(), StauMinusDef(), KMinusDef() };
    static int n = 0;
    if (r.p(.75)) return v[r.i(0, v.size() - 1)];
    ++n;
    return ParticleDef::Builder().SetName(sfmt("Moved%d", n)).SetMass(r.logr(.3, 3e5)).SetLow(1.).SetLifetime(-1).SetCharge(r.p(.2) ? 0 : r.sgn() * r.range(.3, 3)).SetParticleType(9000000 + n).build();
}
// calculators of the integrated model: cross sections without tables
struct Disp { ParticleDef p; shared_ptr<Medium> M; shared_ptr<Displacement> d; Model table; };
static Disp& disp(int k)
{
    static std::map<int, Disp*> all;
    settings();
    auto& e = all[k];
    if (e) return *e;
    static const vector<ParticleDef> ps { MuMinusDef(), EPlusDef(), TauMinusDef() };
    auto p = ps[k % 3];
    auto M = mats()[k / 3 % 3];
    auto cut = make_shared<EnergyCutSettings>(500, .05, false);
    InterpolationSettings::NODES_DEDX = 60;
    vector<shared_ptr<CrossSectionBase>> l;
    l.push_back(make_crosssection(cs::BremsKelnerKokoulinPetrukhin(false), p, *M, cut, true));
    l.push_back(make_crosssection(cs::IonizBetheBlochRossi(EnergyCutSettings(*cut)), p, *M, cut, true));
    e = new Disp { p, M, shared_ptr<Displacement>(make_displacement(l, false)), nullptr };
    e->table = make_highland_integral(p, *M, e->d, true);
    return *e;
}

PROP(L03)
{
    m.cases("moliere", 2400, 60000, [&](mon::Rng& r) {
        settings();
        auto p = heavyweights(r);
        auto M = r.pick(mats());
        if (r.p(.3)) {
            static int n = 0;
            vector<Component> c;
            for (int i = r.i(1, 4); i-- > 0;) { double Z = r.i(1, 92); c.emplace_back(sfmt("Q%d", ++n), Z, Z * r.range(1, 2.6), r.range(.2, 5)); }
            M = make_shared<Medium>(sfmt("mix%d", ++n), 75., -3.5, .1, 3., .2, 3., 0., r.range(.1, 10), c);
        }
        double E = r.p(.25) ? p.mass * (1 + r.logr(1e-4, 1)) : p.mass + r.logr(1e-2 * p.mass, 1e12), X = r.logr(1e-6, 1e6), ef = r.range(p.mass, E);
        m.describe(sfmt("%s in %s (%zu components) grammage=%.17g E=%.17g", pd(p).c_str(), M->GetName().c_str(), M->GetComponents().size(), X, E));
        Ref ref(p, *M, X, E);
        ms::Moliere mol(p, *M);
        if (r.p(.2)) { // nothing may be left from the last step
            mol.CalculateScatteringAngle(r.logr(1e-6, 1e6), p.mass + r.logr(1e-3, 1e8), p.mass, r.u());
            m.note("used before");
        }
        double u = prob(r), a = mol.CalculateScatteringAngle(X, E, ef, u);
        if (ref.close) throw mon::Skip();
        m.check(std::isfinite(a), "moliere:finite", sfmt("angle %.17g for %.17g", a, u));
        if (ref.none) {
            m.note("no deflection");
            m.check(a == 0, p.charge == 0 ? "moliere:neutral" : "moliere:few scatterings", sfmt("angle %.17g", a));
            auto o = mol.CalculateRandomAngle(X, E, ef, { { prob(r), prob(r), prob(r), prob(r) } });
            m.check(o.tx == 0 && o.ty == 0 && o.sx == 0 && o.sy == 0, "moliere:offsets without deflection", sfmt("%.17g", o.tx));
            return;
        }
        m.nontrivial();
        if (!std::isfinite(a)) return;
        LD x, q = ref.F(a, &x);
        if (x < 400) {
            m.note(x < 2 ? "core" : x < 6.5L ? "shoulder" : "tail");
            LD d = fabsl(q - ((LD)u - .5L)), tail = std::min((LD)u, 1 - (LD)u);
            m.worst("quantile difference", (double)d);
            m.worst("quantile difference, relative in the tail", (double)(d / tail));
            m.check(d < 2e-4L + 5e-3L * tail, "moliere:quantile", sfmt("angle %.9g (%.4g widths) is the quantile %.12g, asked for %.12g", a, (double)x, (double)(q + .5L), u));
        } else m.note("far tail");
        // odd around one half
        double b = mol.CalculateScatteringAngle(X, E, ef, 1 - u);
        if (u > 1e-5 && u < 1 - 1e-5) m.close(a, -b, 1e-3, 1e-9 * std::sqrt((double)(ref.chiC2 * ref.B[0])), "moliere:symmetric", sfmt("u=%.17g", u));
        // compositions of single angles
        double v = prob(r), s = prob(r), t = prob(r), av = mol.CalculateScatteringAngle(X, E, ef, v), as = mol.CalculateScatteringAngle(X, E, ef, s), at = mol.CalculateScatteringAngle(X, E, ef, t);
        m.close(mol.CalculateScatteringAngle2D(X, E, ef, u, v), std::sqrt(a * a + av * av), 1e-12, 1e-300, "moliere:2D", "two angles");
        auto o = mol.CalculateRandomAngle(X, E, ef, { { u, v, s, t } });
        m.close(o.tx, av, 1e-12, 1e-300, "moliere:tx", "second number");
        m.close(o.ty, at, 1e-12, 1e-300, "moliere:ty", "fourth number");
        m.close(o.sx, (a / std::sqrt(3.) + av) / 2, 1e-12, 1e-12 * (std::abs(a) + std::abs(av)), "moliere:sx", "first and second number");
        m.close(o.sy, (as / std::sqrt(3.) + at) / 2, 1e-12, 1e-12 * (std::abs(as) + std::abs(at)), "moliere:sy", "third and fourth number");
        // copies and comparisons: what was calculated before is no part of the model
        ms::Moliere fresh(p, *M);
        m.check(mol == fresh && fresh == mol, "moliere:equal", "the same model compares unequal after use");
        Model c = mol.clone();
        m.check(*c == mol, "moliere:clone", "the clone compares unequal");
        m.check(c->CalculateScatteringAngle(X, E, ef, u) == a && fresh.CalculateScatteringAngle(X, E, ef, u) == a, "moliere:history", "another angle from a clone or a fresh model");
        auto M2 = r.pick(mats());
        if (M2->GetHash() != M->GetHash()) m.check(!(ms::Moliere(p, *M2) == mol), "moliere:equal media", "compares equal to the one of " + M2->GetName());
        ms::Highland h(p, *M);
        m.check(!(mol == h) && !(h == mol), "moliere:foreign", "compares equal to Highland");
    });
    m.cases("tables", 600, 15000, [&](mon::Rng& r) {
        // the tabulated version gives the same angles
        settings();
        int k = m.index % 7, l = m.index / 7 % 2;
        static std::map<int, std::pair<Model, Model>> all;
        auto p = l ? ParticleDef(EMinusDef()) : ParticleDef(MuMinusDef());
        auto& q = all[k + 10 * l];
        if (!q.first) q = { Model(new ms::Moliere(p, *mats()[k])), Model(new ms::MoliereInterpol(p, *mats()[k])) };
        Model copy;
        auto* t = q.second.get();
        if (r.p(.3)) {
            Model temp(new ms::MoliereInterpol(p, *mats()[k]));
            copy = temp->clone();
            temp.reset();
            t = copy.get();
            m.note("clones of dead tables");
        }
        double E = p.mass + r.logr(1e-2 * p.mass, 1e12), X = r.logr(1e-3, 1e6), u = prob(r);
        m.describe(sfmt("%s in %s grammage=%.17g E=%.17g u=%.17g", pd(p).c_str(), mats()[k]->GetName().c_str(), X, E, u));
        double a = q.first->CalculateScatteringAngle(X, E, E, u), b = t->CalculateScatteringAngle(X, E, E, u);
        if (a == 0 || b == 0) { m.check((a == 0) == (b == 0), "none", sfmt("%.17g and %.17g", a, b)); return; }
        Ref ref(p, *mats()[k], X, E);
        if (ref.none || ref.close) throw mon::Skip();
        m.nontrivial();
        LD x, y = ref.F(b, &x);
        if (x > 400) throw mon::Skip();
        LD d = fabsl(y - ((LD)u - .5L)), tail = std::min((LD)u, 1 - (LD)u);
        m.worst("tables: quantile difference", (double)d);
        m.check(std::isfinite(b) && d < 5e-3L + 2e-2L * tail, "quantile", sfmt("angle %.9g (%.4g widths) is the quantile %.9g; %.9g without tables", b, (double)x, (double)(y + .5L), a));
    });
    m.cases("integral", 1200, 30000, [&](mon::Rng& r) {
        int k = m.index % (m.thorough() ? 9 : 6);
        auto& e = disp(k);
        double mass = e.p.mass, lim = std::max(e.d->GetLowerLim(), mass * 1.001), ei = r.p(.2) ? lim * (1 + r.logr(1e-2, 1)) : r.logr(lim * 1.01, 9e8), ef = r.p(.3) ? ei * (1 - r.logr(1e-6, 1e-1)) : r.range(lim, ei);
        if (!(ef < ei && ef >= lim)) throw mon::Skip();
        LD X = 0, I = 0, I2 = 0;
        for (int n : { 60, 240 }) { // in the kinetic energy; twice, as the tables of losses have kinks
            I2 = I, X = I = 0;
            for (int i = 0; i < n; ++i) {
                LD la = logl(ef - mass), lb = logl(ei - mass), a = la + (lb - la) * i / n, b = la + (lb - la) * (i + 1) / n;
                X += num::gl<8>([&](LD l) { LD E = mass + expl(l); return (E - mass) * e.d->FunctionToIntegral((double)E); }, a, b);
                I += num::gl<8>([&](LD l) { LD T = expl(l), E = mass + T, p2 = T * (E + mass); return T * e.d->FunctionToIntegral((double)E) * (E / p2) * (E / p2); }, a, b);
            }
        }
        double own = I != 0 ? 3 * (double)fabsl(I2 / I - 1) : 0;
        if (own > .02) throw mon::Skip();
        X = fabsl(X), I = fabsl(I);
        double grammage = (double)X;
        LD X0 = e.M->GetRadiationLength(), l = 1 + .038L * logl(X / X0), want = l > 0 ? std::min(1.L, 13.6L * sqrtl(I / X0) * std::abs(e.p.charge) * l) : 0;
        m.describe(sfmt("%s in %s ei=%.17g ef=%.17g grammage=%.9g", pd(e.p).c_str(), e.M->GetName().c_str(), ei, ef, grammage));
        bool table = r.p(.5) && ef > 1.3 * mass; // nodes do not resolve the last steps before rest
        Model fresh = table ? nullptr : make_highland_integral(e.p, *e.M, e.d, false), clone;
        ms::Parametrization* h = table ? e.table.get() : fresh.get();
        if (r.p(.5)) { // the copy has to live without its original
            clone = h->clone();
            if (!table) { fresh.reset(); m.note("originals died"); }
            m.check(!table || *clone == *h, "clone", "the clone compares unequal");
            h = clone.get();
        }
        double t = dynamic_cast<ms::Highland&>(*h).CalculateTheta0(grammage, ei, ef);
        double near = 1 / (1 + (double)l * 0), tol = (table ? (ef > 3 * mass ? 1.5e-2 : 4e-2) : ef > 1.3 * mass ? 1e-3 : 3e-2) * near + own;
        // table: differences of an integral from the largest energy on
        if (table) { LD J = 0; for (int i = 0; i < 48; ++i) { LD a = logl(ef) + (logl(1e9L) - logl(ef)) * i / 48, b = logl(ef) + (logl(1e9L) - logl(ef)) * (i + 1) / 48; J += num::gl<8>([&](LD q) { LD E = expl(q), p2 = (E - mass) * (E + mass); return E * e.d->FunctionToIntegral((double)E) * (E / p2) * (E / p2); }, a, b); } if (I < 1e-2L * fabsl(J)) { m.note("table not resolved"); if (!(I > 0)) return; tol = .5 * (double)std::min(2.L, 1e-3L * fabsl(J) / I) + 4e-2 + own; } }
        m.note(table ? "tables" : "integrals");
        m.nontrivial();
        m.worst(table ? "tables: relative difference" : "integrals: relative difference", want > 0 ? std::abs(t / (double)want - 1) : 0);
        m.close(t, (double)want, tol, l > 0 && l < .2L ? 1e-3 * (double)want : 1e-14, "width", "theta0");
        double u = prob(r), a = h->CalculateScatteringAngle(grammage, ei, ef, u);
        m.close(a, t * normalppf(u), 1e-12, 1e-300, "angle", sfmt("u=%.17g", u));
    });
    m.cases("containers", 600, 10000, [&](mon::Rng& r) {
        // names, deflections and factors of the objects that the propagation asks
        settings();
        auto& e = disp(r.i(0, 2));
        string base = (const char*[]) { "Highland", "Moliere", "HighlandIntegral", "NoScattering", "MoliereInterpol" }[m.index % 5], name;
        for (char c : base) name += r.p(.5) ? toupper(c) : tolower(c);
        bool known = !r.p(.15);
        if (!known) name = r.p(.5) ? name + "x" : name.substr(1);
        m.describe(name + " for " + pd(e.p));
        m.nontrivial();
        Model s;
        try {
            s = base == "HighlandIntegral" || !known ? make_multiple_scattering(name, e.p, *e.M, e.d, false) : make_multiple_scattering(name, e.p, *e.M);
            if (!known) { m.check(false, "names:unknown", "accepted"); return; }
        } catch (const std::out_of_range& x) {
            m.check(!known, "names:known", x.what());
            if (!known) m.note("unknown names");
            return;
        }
        bool right = base == "NoScattering" ? !s : base == "Highland" ? dynamic_cast<ms::Highland*>(s.get()) && !dynamic_cast<ms::HighlandIntegral*>(s.get()) : base == "HighlandIntegral" ? dynamic_cast<ms::HighlandIntegral*>(s.get()) != nullptr : base == "Moliere" ? dynamic_cast<ms::Moliere*>(s.get()) && !dynamic_cast<ms::MoliereInterpol*>(s.get()) : dynamic_cast<ms::MoliereInterpol*>(s.get()) != nullptr;
        if (!m.check(right, "names:model", "another model than asked for")) return;
        // deflections for some interactions, factors for some of those and for others
        vector<std::unique_ptr<sd::Parametrization>> ds;
        std::map<InteractionType, std::unique_ptr<sd::Parametrization>> mine;
        for (auto t : { InteractionType::Brems, InteractionType::Epair, InteractionType::Ioniz, InteractionType::Photonuclear })
            if (r.p(.5)) {
                ds.push_back(make_default_stochastic_deflection(t, e.p, *e.M));
                mine[t] = make_default_stochastic_deflection(t, e.p, *e.M);
            }
        vector<std::pair<InteractionType, double>> f;
        std::map<InteractionType, double> fac;
        for (auto t : { InteractionType::Brems, InteractionType::Epair, InteractionType::Ioniz, InteractionType::Photonuclear })
            if (r.p(.5)) f.emplace_back(t, fac[t] = r.p(.2) ? 0 : r.range(0, 1));
        double mm = r.p(.2) ? 0 : r.range(0, 3);
        bool scaled = r.p(.6);
        Model ref = s ? s->clone() : nullptr;
        std::unique_ptr<Scattering> c;
        if (s) c.reset(scaled ? new ScatteringMultiplier(std::move(s), std::move(ds), mm, f) : new Scattering(std::move(s), std::move(ds)));
        else c.reset(scaled ? new ScatteringMultiplier(nullptr, std::move(ds), mm, f) : new Scattering(nullptr, std::move(ds)));
        m.check(c->MultipleScatteringRandomNumbers() == (ref ? 4u : 0u), "numbers:scattering", sfmt("%zu", c->MultipleScatteringRandomNumbers()));
        double ei = r.logr(e.p.mass * 3, 1e8), ef = ei * r.range(.3, .9);
        std::array<double, 4> w { { prob(r), prob(r), prob(r), prob(r) } };
        if (ei >= e.d->GetLowerLim() && ef >= e.d->GetLowerLim()) {
            double X = std::abs(e.d->SolveTrackIntegral(ei, ef));
            auto o = c->CalculateMultipleScattering(X, ei, ef, w);
            ms::ScatteringOffset q;
            if (ref) q = ref->CalculateRandomAngle(X, ei, ef, w);
            double k = scaled ? mm : 1;
            m.check(o.sx == q.sx * k && o.sy == q.sy * k && o.tx == q.tx * k && o.ty == q.ty * k, "offsets", sfmt("(%.9g %.9g %.9g %.9g) instead of %.9g times (%.9g %.9g %.9g %.9g)", o.sx, o.sy, o.tx, o.ty, k, q.sx, q.sy, q.tx, q.ty));
            m.note("offsets compared");
        }
        for (auto t : { InteractionType::Brems, InteractionType::Epair, InteractionType::Ioniz, InteractionType::Photonuclear, InteractionType::WeakInt, InteractionType::Decay }) {
            auto it = mine.find(t);
            size_t n = c->StochasticDeflectionRandomNumbers(t);
            m.check(n == (it == mine.end() ? 0 : it->second->RequiredRandomNumbers()), "numbers:deflection", sfmt("%zu", n));
            vector<double> rnd;
            for (size_t i = 0; i < n; ++i) rnd.push_back(prob(r));
            auto comp = e.M->GetComponents()[0];
            auto d = c->CalculateStochasticDeflection(t, ei, ef, rnd, comp.GetHash());
            UnitSphericalVector q(0, 0);
            if (it != mine.end()) { q = it->second->CalculateStochasticDeflection(ei, ef, rnd, comp.GetHash()); m.note("deflections compared"); }
            double k = scaled && it != mine.end() && fac.count(t) ? fac[t] : 1;
            m.check(d.azimuth == q.azimuth && d.zenith == q.zenith * k, "deflection", sfmt("(%.9g, %.9g) instead of (%.9g, %.9g * %.9g)", d.azimuth, d.zenith, q.azimuth, q.zenith, k));
        }
    });
}
int main(int c, char** v) { return mon::run(c, v); }
