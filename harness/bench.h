// Worlds for the propagation monitors: particles, media, cuts, calculators and random sectors.
#pragma once
#include "dens.h"
#include "PROPOSAL/PROPOSAL.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/scattering/ScatteringFactory.h"
#include "PROPOSAL/propagation_utility/ContRandBuilder.h"
#include "PROPOSAL/propagation_utility/DecayBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
namespace bench {
using namespace PROPOSAL;
using namespace geo;
using mon::Mon; using mon::Rng; using mon::sfmt; using mon::cur;
using std::shared_ptr; using std::vector; using std::string;
using List = vector<shared_ptr<CrossSectionBase>>;
using Coll = PropagationUtility::Collection;

inline void settings()
{
    static bool done = false;
    if (done) return;
    done = true;
    Logging::SetGlobalLoglevel(spdlog::level::off);
    InterpolationSettings::TABLES_PATH = "";
    InterpolationSettings::UPPER_ENERGY_LIM = 1e9;
    InterpolationSettings::NODES_DEDX = InterpolationSettings::NODES_DE2DX = 60;
    InterpolationSettings::NODES_DNDX_E = 25;
    InterpolationSettings::NODES_DNDX_V = 25;
    InterpolationSettings::NODES_UTILITY = 300;
    InterpolationSettings::NODES_RATE_INTERPOLANT = 400;
}

struct Matter { // one particle in one medium
    shared_ptr<Medium> med;
    shared_ptr<EnergyCutSettings> cut;
    List cross;
    shared_ptr<Displacement> disp;
    shared_ptr<Interaction> inter;
    shared_ptr<Time> exact, approx;
    shared_ptr<::PROPOSAL::Decay> decay;
    shared_ptr<ContRand> rand;
    vector<shared_ptr<Scattering>> scat; // none, Highland, HighlandIntegral, Moliere, with and without deflections
    vector<string> sname;
};
inline const char* pnames[] = { "mu-", "mu+", "tau-", "e-", "e+", "gamma", "tau+", "mu-made-up" };
struct Bench {
    int kind;
    shared_ptr<const ParticleDef> p;
    vector<Matter> m;
    string str;
};
inline List crosses(int kind, const ParticleDef& p, const Medium& med, shared_ptr<const EnergyCutSettings> cut, bool interpol, bool std_set = false)
{
    namespace cs = crosssection;
    List l;
    if (kind == 5 || std_set) return GetStdCrossSections(p, med, cut, interpol);
    auto add = [&](auto q) { l.push_back(make_crosssection(q, p, med, cut, interpol)); };
    // the photonuclear tables of the standard set take most of the time: models of the real photon instead
    switch (kind) {
    case 0: case 1: case 2: case 6:
        add(cs::BremsKelnerKokoulinPetrukhin { false });
        add(cs::EpairKelnerKokoulinPetrukhin { false });
        add(cs::IonizBetheBlochRossi { EnergyCutSettings(*cut) });
        add(cs::PhotoZeus { false });
        break;
    case 3: case 4:
        add(cs::BremsElectronScreening { false });
        add(cs::EpairForElectronPositron { false });
        if (kind == 3) add(cs::IonizBergerSeltzerMoller { EnergyCutSettings(*cut) });
        else {
            add(cs::IonizBergerSeltzerBhabha { EnergyCutSettings(*cut) });
            l.push_back(make_crosssection(cs::AnnihilationHeitler {}, p, med, nullptr, interpol));
        }
        break;
    default: // a light set of processes for a particle of the user's own
        add(cs::IonizBetheBlochRossi { EnergyCutSettings(*cut) });
        add(cs::BremsAndreevBezrukovBugaev { false });
    }
    return l;
}
inline shared_ptr<const ParticleDef> particle(int kind)
{
    switch (kind) {
    case 0: return std::make_shared<MuMinusDef>();
    case 1: return std::make_shared<MuPlusDef>();
    case 2: return std::make_shared<TauMinusDef>();
    case 3: return std::make_shared<EMinusDef>();
    case 4: return std::make_shared<EPlusDef>();
    case 5: return std::make_shared<GammaDef>();
    case 6: return std::make_shared<TauPlusDef>();
    default:
        DecayTable t;
        t.addChannel(.7, TwoBodyPhaseSpace(EMinusDef(), GammaDef()));
        t.addChannel(.3, TwoBodyPhaseSpace(EMinusDef(), Pi0Def()));
        static shared_ptr<const ParticleDef> q = std::make_shared<const ParticleDef>(
            ParticleDef::Builder().SetDecayTable(t).SetName("heavy").SetMass(420).SetLow(420).SetLifetime(3e-9).SetCharge(-1).SetParticleType(777001).build());
        return q;
    }
}
inline shared_ptr<Medium> medium(Rng& r)
{
    static const char* n[] = { "ice", "standardrock", "water", "air", "iron", "uranium", "lead", "hydrogen", "salt", "copper" };
    return CreateMedium(n[r.i(0, 9)]);
}
inline Matter matter(int kind, const ParticleDef& p, shared_ptr<Medium> med, shared_ptr<EnergyCutSettings> cut, bool interpol, bool scatter = true)
{
    Matter a;
    a.med = med;
    a.cut = cut;
    a.cross = crosses(kind, p, *med, cut, interpol);
    a.disp = make_displacement(a.cross, interpol);
    a.inter = make_interaction(a.disp, a.cross, interpol, false);
    a.exact = make_time(a.disp, p, interpol);
    a.approx = std::make_shared<ApproximateTimeBuilder>();
    if (std::isfinite(p.lifetime) && p.lifetime > 0) a.decay = make_decay(a.disp, p, interpol);
    if (cut->GetContRand()) a.rand = make_contrand(a.disp, a.cross, interpol);
    a.scat.push_back(nullptr);
    a.sname.push_back("none");
    if (!scatter || kind == 5) return a;
    auto add = [&](const char* n, nlohmann::json j) {
        a.scat.push_back(make_scattering(j, p, *med, a.cross, interpol));
        a.sname.push_back(n);
    };
    add("Highland", { { "multiple_scattering", "highland" } });
    add("HighlandIntegral+deflection", { { "multiple_scattering", "highlandintegral" }, { "stochastic_deflection", { "bremstsaiapproximation", "ioniznaive" } } });
    add("Moliere", { { "multiple_scattering", "moliere" } });
    add("Highland x20+deflection", { { "multiple_scattering", "highland" }, { "multiple_scattering_multiplier", 20. }, { "stochastic_deflection", { "bremstsaiapproximation" } }, { "stochastic_deflection_multiplier", { { "brems", 3. } } } });
    return a;
}
inline shared_ptr<EnergyCutSettings> cuts(Rng& r, int kind)
{
    double e = r.p(.3) ? std::numeric_limits<double>::infinity() : r.p(.5) ? 500 : r.logr(kind >= 3 && kind <= 5 ? 5 : 100, 5000);
    double v = std::isinf(e) ? r.logr(.01, .3) : r.p(.3) ? 1 : r.logr(.01, .5);
    return std::make_shared<EnergyCutSettings>(e, v, kind != 5);
}
// depends on the seed and the number only
inline Bench fresh(uint64_t seed, int k)
{
    settings();
    Rng r(mon::mix(mon::mix(seed * 77003ull) ^ mon::mix(k + 5)));
    Bench b;
    b.kind = k % 8;
    b.p = particle(b.kind);
    b.str = pnames[b.kind];
    for (int i = 0; i < 2; ++i) {
        auto med = medium(r);
        auto cut = cuts(r, b.kind);
        b.m.push_back(matter(b.kind, *b.p, med, cut, true));
        b.str += sfmt(" %s(%g,%g)", med->GetName().c_str(), cut->GetEcut(), cut->GetVcut());
        if (cur()) cur()->note(string("worlds of ") + pnames[b.kind]);
    }
    return b;
}
// built on first use
inline Bench& get(int k)
{
    static std::map<int, Bench> all;
    auto it = all.find(k);
    if (it == all.end()) it = all.emplace(k, fresh(cur()->seed, k)).first;
    return it->second;
}
typedef long double LD;
inline LD loss(Matter& a, double E)
{
    LD s = 0;
    for (auto& c : a.cross) s += c->CalculatedEdx(E);
    return s;
}
inline LD rate(Matter& a, double E)
{
    LD s = 0;
    for (auto& c : a.cross) s += c->CalculatedNdx(E);
    return s;
}
// integral over the energies of a continuous step of f(E)/(dE/dx)
template <class F> LD along(Matter& a, double Ei, double Ef, F f)
{
    if (!(Ei > Ef)) return 0;
    LD l0 = logl((LD)Ef), l1 = logl((LD)Ei);
    int n = 1 + int((l1 - l0) / .1L);
    LD s = 0;
    for (int i = 0; i < n; ++i)
        s += num::gl<7>([&](LD l) -> LD {
            double E = expl(l);
            LD d = loss(a, E);
            return d > 0 ? E * f(E) / d : 0;
        }, l0 + (l1 - l0) * i / n, l0 + (l1 - l0) * (i + 1) / n);
    return s;
}
struct Place {
    shared_ptr<Geometry> g;
    Body body;
    int m;          // matter
    bool homog;
    double rho;     // mass density (homogeneous)
    shared_ptr<Density_distr> d;
    Coll c;
};
struct World {
    vector<Place> s;
    vector<Sector> sectors;
    bool rand, approx, homog;
    int scat;
    double size;
    string str;
    // the sector in force at a point
    int at(const Cartesian3D& p, const Cartesian3D& dir) const
    {
        int k = -1;
        for (size_t i = 0; i < s.size(); ++i)
            if (s[i].g->IsInside(p, dir) && (k < 0 || s[k].g->GetHierarchy() < s[i].g->GetHierarchy())) k = i;
        return k;
    }
};
inline World world(Rng& r, Bench& b, bool plain = false)
{
    World w;
    w.size = r.logr(1e3, 1e8);
    w.rand = !plain && b.m[0].rand && b.m[1].rand && r.p(.3);
    w.approx = r.p(.3);
    w.scat = plain ? 0 : r.i(0, (int)b.m[0].scat.size() - 1);
    w.homog = true;
    w.str = sfmt("%s size %g rand %d approx %d scat %s", b.str.c_str(), w.size, w.rand, w.approx, b.m[0].sname[w.scat].c_str());
    auto add = [&](Body body, int m, unsigned h, double rho, shared_ptr<Density_distr> d, bool hom) {
        auto g = body.make();
        g->SetHierarchy(h);
        Place q;
        q.body = body;
        q.g = g; q.m = m; q.rho = rho; q.homog = hom;
        q.d = d ? d : std::make_shared<Density_homogeneous>(rho);
        if (!hom) w.homog = false;
        auto& a = b.m[m];
        q.c.displacement_calc = a.disp;
        q.c.interaction_calc = a.inter;
        q.c.time_calc = w.approx ? a.approx : a.exact;
        q.c.decay_calc = a.decay;
        q.c.scattering = a.scat[w.scat];
        if (w.rand) q.c.cont_rand = a.rand;
        w.s.push_back(q);
    };
    double rho0 = b.m[0].med->GetMassDensity() * (r.p(.5) ? 1 : r.range(.3, 2));
    if (r.p(.25)) { // density varies within the outermost sector
        double sig = w.size * r.logr(.5, 20) * r.sgn();
        Cartesian3D ax(r.gauss(), r.gauss(), r.gauss());
        ax.normalize();
        add(Body { K_SPH, { 0, 0, 0 }, 1e15L, 0, 0 }, 0, 0, rho0, nullptr, true);
        add(Body { K_SPH, { 0, 0, 0 }, (LD)(w.size * 2), 0, 0 }, 0, 1, rho0, std::make_shared<Density_exponential>(CartesianAxis(ax, Cartesian3D(0, 0, 0)), sig, 0, rho0), false);
    } else
        add(Body { K_SPH, { 0, 0, 0 }, 1e15L, 0, 0 }, 0, 0, rho0, nullptr, true);
    int n = r.i(0, 3);
    for (int i = 0; i < n; ++i) {
        Cartesian3D c(r.gauss() * w.size / 2, r.gauss() * w.size / 2, r.gauss() * w.size / 2);
        double s = w.size * r.logr(.02, 1);
        Body g { (Kind)r.i(0, 2), lv(c), s, 0, 0 };
        if (g.k == K_BOX) { g.b = (double)(s * r.range(.3, 3)); g.h = (double)(s * r.range(.3, 3)); }
        else {
            if (g.k == K_CYL) g.h = (double)(s * r.range(.3, 3));
            g.b = r.p(.3) ? (double)(s * r.range(.1, .9)) : 0.;
        }
        int m = r.i(0, 1);
        add(g, m, 2 + i, b.m[m].med->GetMassDensity() * (r.p(.5) ? 1 : r.range(.3, 2)), nullptr, true);
    }
    // order of the sectors in the list is arbitrary
    for (size_t i = w.s.size(); i > 1; --i) std::swap(w.s[i - 1], w.s[r.i(0, (int)i - 1)]);
    for (auto& q : w.s) w.sectors.push_back(std::make_tuple(q.g, PropagationUtility(q.c), q.d));
    w.str += sfmt(" sectors %d%s", (int)w.s.size(), w.homog ? "" : " exponential");
    return w;
}
inline ParticleState start(Rng& r, Bench& b, World& w)
{
    ParticleState s;
    s.type = b.p->particle_type;
    double low = std::max(b.m[0].disp->GetLowerLim(), b.m[1].disp->GetLowerLim());
    s.energy = r.p(.1) ? low * (1 + r.logr(1e-6, 1)) : r.logr(low * 1.001, 5e8);
    s.position = Cartesian3D(r.gauss() * w.size / 2, r.gauss() * w.size / 2, r.gauss() * w.size / 2);
    Cartesian3D d(r.gauss(), r.gauss(), r.gauss());
    if (r.p(.5)) d = s.position * -1. + Cartesian3D(r.gauss(), r.gauss(), r.gauss()) * (w.size / 10);
    if (r.p(.1)) d = Cartesian3D(0, 0, r.sgn());
    d.normalize();
    s.direction = d;
    if (r.p(.15)) { // right before or right behind a border ahead
        auto& q = w.s[r.i(0, (int)w.s.size() - 1)];
        if (q.g->GetHierarchy() > 0)
            for (auto& iv : material(q.body, lv(s.position), lv(d))) {
                double x = r.p(.7) ? iv.lo : iv.hi, e = r.logr(1e-8, 1e-1) * (r.p(.7) ? -1 : 1);
                if (x <= 0) continue;
                s.position = s.position + d * (x + e);
                break;
            }
    }
    s.time = r.p(.5) ? 0 : r.logr(1e-9, 1e3);
    s.propagated_distance = r.p(.5) ? 0 : r.logr(1e-3, 1e6);
    return s;
}
// seconds-free fingerprint of a track
inline uint64_t digest(Secondaries const& t)
{
    uint64_t h = 7;
    auto f = [&](double x) { uint64_t u; memcpy(&u, &x, 8); h = mon::mix(h ^ u); };
    auto tr = t.GetTrack();
    auto ty = t.GetTrackTypes();
    auto ha = t.GetTargetHashes();
    for (size_t i = 0; i < tr.size(); ++i) {
        f(tr[i].energy); f(tr[i].time); f(tr[i].propagated_distance);
        f(tr[i].position.GetX()); f(tr[i].position.GetY()); f(tr[i].position.GetZ());
        f(tr[i].direction.GetX()); f(tr[i].direction.GetY()); f(tr[i].direction.GetZ());
        h = mon::mix(h ^ (uint64_t)ty[i] ^ (ha[i] << 1));
    }
    return h;
}
} // namespace bench
