// R01 random streams, S01 particles, E01 media, C01 cuts
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/crosssection/parametrization/Parametrization.h"
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/medium/MediumFactory.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "mon.h"
using namespace PROPOSAL;
using mon::sfmt;
using std::vector;

// ---------------------------------------------------------------- R01
static int anyseed(mon::Rng& r)
{
    switch (r.i(0, 6)) {
    case 0: return (int)r.i(0, 20);
    case 1: return -(int)r.i(0, 20);
    case 2: return INT32_MAX - (int)r.i(0, 3);
    case 3: return INT32_MIN + (int)r.i(0, 3);
    case 4: return (int)(1u << r.i(0, 30));
    default: return (int)(uint32_t)r.next();
    }
}
static vector<double> draw(int n)
{
    vector<double> v(n);
    for (auto& x : v) x = RandomGenerator::Get().RandomDouble();
    return v;
}

PROP(R01)
{
    auto& G = RandomGenerator::Get();
    m.cases("reseed", 3000, 60000, [&](mon::Rng& r) {
        int s = anyseed(r), t = anyseed(r), n = (int)r.i(1, 1500);
        G.SetDefaultRandomNumberGenerator();
        m.describe(sfmt("seed %d, other %d, %d numbers", s, t, n));
        draw((int)r.i(0, 700));
        G.SetSeed(s);
        auto a = draw(n);
        bool same_all = true;
        for (double x : a) {
            m.checkf(x >= 0 && x < 1, "in [0,1)", [&] { return sfmt("%.17g", x); });
            same_all = same_all && x == a[0];
        }
        if (n > 3) m.check(!same_all, "varies", "constant stream");
        // any history in between
        G.SetSeed(t);
        auto b = draw((int)r.i(1, 700));
        if (r.p(0.3)) {
            std::function<double()> f = [] { return 0.5; };
            G.SetRandomNumberGenerator(f);
            draw((int)r.i(0, 5));
            if (r.p(0.5)) { G.SetSeed(s); draw((int)r.i(0, 3)); }
            G.SetDefaultRandomNumberGenerator();
        }
        G.SetSeed(s);
        auto c = draw(n);
        m.check(a == c, "same seed same stream", "streams differ");
        if (s != t) {
            m.nontrivial();
            m.note("pairs of different seeds");
            G.SetSeed(t);
            auto d = draw(n);
            bool eq = a[0] == d[0];
            if (n >= 4) {
                eq = true;
                for (int i = 0; i < 4; ++i) eq = eq && a[i] == d[i];
            }
            m.check(!eq, "different seeds differ", "streams agree");
            // one stream is not a shifted copy of the other
            if (n > 20) {
                std::set<double> S(a.begin(), a.end());
                int common = 0;
                for (double x : d) common += S.count(x);
                m.check(common < 3 + n / 50, "different seeds do not overlap", sfmt("%d common numbers", common));
            }
        }
    });
    m.cases("neighbouring", 400, 4000, [&](mon::Rng& r) {
        // a whole block of neighbouring seeds gives pairwise different streams
        G.SetDefaultRandomNumberGenerator();
        int s0 = anyseed(r);
        if (s0 > INT32_MAX - 300) s0 -= 300;
        m.describe(sfmt("seeds from %d", s0));
        std::map<double, int> seen;
        double mean = 0;
        vector<double> firsts;
        for (int k = 0; k < 256; ++k) {
            G.SetSeed(s0 + k);
            double x = G.RandomDouble();
            m.check(seen.emplace(x, k).second, "different seeds differ", sfmt("seeds %d and %d", s0 + seen[x], s0 + k));
            mean += x;
        }
        m.check(std::fabs(mean / 256 - 0.5) < 6 * 0.2887 / 16, "mean over seeds", sfmt("%g", mean / 256));
        m.nontrivial();
    });
    m.cases("uniform", 16, 64, [&](mon::Rng& r) {
        G.SetDefaultRandomNumberGenerator();
        int s = anyseed(r);
        G.SetSeed(s);
        m.describe(sfmt("seed %d", s));
        const int N = 200000;
        vector<double> v = draw(N);
        double m1 = 0, m2 = 0, lag = 0;
        for (int i = 0; i < N; ++i) {
            m1 += v[i]; m2 += v[i] * v[i];
            if (i) lag += (v[i] - 0.5) * (v[i - 1] - 0.5);
        }
        std::sort(v.begin(), v.end());
        double D = 0;
        for (int i = 0; i < N; ++i) D = std::max({ D, std::fabs(v[i] - (double)i / N), std::fabs(v[i] - (i + 1.) / N) });
        m.check(D < 3.5 / std::sqrt(N), "uniform", sfmt("Kolmogorov distance %g", D));
        m.check(std::fabs(lag / N * 12) < 6 / std::sqrt(N), "uncorrelated", sfmt("%g", lag / N * 12));
        m.check(std::unique(v.begin(), v.end()) == v.end(), "resolution", "repeated numbers");
        m.nontrivial();
    });
    m.cases("restore", 2000, 40000, [&](mon::Rng& r) {
        G.SetDefaultRandomNumberGenerator();
        int s = anyseed(r), k = (int)r.i(0, 1300), n = (int)r.i(1, 900);
        m.describe(sfmt("seed %d, saved after %d, %d compared", s, k, n));
        G.SetSeed(s);
        draw(k);
        std::stringstream ss;
        if (r.p(0.2)) ss << std::setprecision(3) << std::hex << std::showbase;
        if (r.p(0.5)) {
            // saving does not disturb the stream
            G.Serialize(ss);
            auto a = draw(n);
            G.SetSeed(s);
            draw(k);
            auto b = draw(n);
            m.check(a == b, "saving does not disturb", "stream changed by saving");
        } else G.Serialize(ss);
        G.SetSeed(s);
        draw(k);
        auto want = draw(n);
        if (r.p(0.5)) G.SetSeed(anyseed(r));
        draw((int)r.i(0, 700));
        G.Deserialize(ss);
        auto got = draw(n);
        m.check(got == want, "restored", "restored stream differs");
        // twice from the same text
        std::stringstream s2(ss.str());
        draw((int)r.i(0, 30));
        G.Deserialize(s2);
        m.check(draw(n) == want, "restored again", "restored stream differs");
        // the restored generator can be saved again
        std::stringstream s3, s4(ss.str());
        G.Deserialize(s4);
        draw(n / 2);
        G.Serialize(s3);
        draw((int)r.i(1, 30));
        G.Deserialize(s3);
        auto rest = draw(n - n / 2);
        m.check(std::equal(rest.begin(), rest.end(), want.begin() + n / 2), "saved again", "restored stream differs");
        m.nontrivial();
    });
    m.cases("custom", 2000, 40000, [&](mon::Rng& r) {
        G.SetDefaultRandomNumberGenerator();
        int s = anyseed(r), before = (int)r.i(0, 20);
        G.SetSeed(s);
        auto all = draw(before + 50);
        G.SetSeed(s);
        draw(before);
        vector<double> seq;
        int n = (int)r.i(1, 40);
        for (int i = 0; i < n; ++i)
            seq.push_back(r.p(0.2) ? r.range(-10, 10) : r.p(0.1) ? 1.0 : r.p(0.1) ? 0.0 : r.p(0.1) ? 5e-324 : r.u());
        m.describe(sfmt("seed %d, custom source of %d numbers", s, n));
        auto pos = std::make_shared<size_t>(0);
        {
            auto f = std::make_unique<std::function<double()>>([pos, seq] { return seq[(*pos)++ % seq.size()]; });
            G.SetRandomNumberGenerator(*f);
            *f = [] { return 42.; }; // the source is taken over, not referred to
        }
        int k = (int)r.i(1, 80);
        bool reseeded = r.p(0.3);
        for (int i = 0; i < k; ++i) {
            if (reseeded && i == k / 2) G.SetSeed(s);
            double x = G.RandomDouble();
            m.check(x == seq[i % n], "verbatim", sfmt("number %d: %.17g instead of %.17g", i, x, seq[i % n]));
        }
        m.check(*pos == (size_t)k, "one call per number", sfmt("%zu calls for %d numbers", *pos, k));
        if (r.p(0.3)) { // replaced by another source
            std::function<double()> g = [] { return 0.25; };
            G.SetRandomNumberGenerator(g);
            m.check(G.RandomDouble() == 0.25, "replaced", "");
            m.check(*pos == (size_t)k, "old source not asked", "");
        }
        G.SetDefaultRandomNumberGenerator();
        auto rest = draw(50);
        int off = reseeded ? 0 : before;
        m.check(std::equal(rest.begin(), rest.begin() + 40, all.begin() + off), "default stream continues", "the own stream was disturbed by the custom source");
        m.check(*pos == (size_t)k, "old source not asked", "");
        m.nontrivial();
    });
    G.SetDefaultRandomNumberGenerator();
}

// ---------------------------------------------------------------- S01
struct Known { const char* name; int type; double mass, low, lifetime, charge; int weak; int table; };
// published properties (particle data group values used by the project)
static const Known KNOWN[] = {
    { "EMinus", 11, 0.5109989461, 0.5109989461, -1, -1, 12, 0 },
    { "EPlus", -11, 0.5109989461, 0.5109989461, -1, 1, -12, 0 },
    { "MuMinus", 13, 105.6583745, 105.6583745, 2.1969811e-6, -1, 14, 1 },
    { "MuPlus", -13, 105.6583745, 105.6583745, 2.1969811e-6, 1, -14, 1 },
    { "TauMinus", 15, 1776.86, 1776.86, 290.3e-15, -1, 16, 2 },
    { "TauPlus", -15, 1776.86, 1776.86, 290.3e-15, 1, -16, 2 },
    { "NuE", 12, 0, 0, -1, 0, 11, 0 }, { "NuEBar", -12, 0, 0, -1, 0, -11, 0 },
    { "NuMu", 14, 0, 0, -1, 0, 13, 0 }, { "NuMuBar", -14, 0, 0, -1, 0, -13, 0 },
    { "NuTau", 16, 0, 0, -1, 0, 15, 0 }, { "NuTauBar", -16, 0, 0, -1, 0, -15, 0 },
    { "Gamma", 22, 0, 2 * 0.5109989461, -1, 0, 0, 0 },
    { "Pi0", 111, 134.9766, 134.9766, 8.52e-17, 0, 0, 0 },
    { "PiPlus", 211, 139.57018, 139.57018, 2.6033e-8, 1, 0, 0 },
    { "PiMinus", -211, 139.57018, 139.57018, 2.6033e-8, -1, 0, 0 },
    { "K0", 311, 497.614, 497.614, -1, 0, 0, 0 },
    { "KPlus", 321, 493.677, 493.677, 1.238e-8, 1, 0, 0 },
    { "KMinus", -321, 493.677, 493.677, 1.238e-8, -1, 0, 0 },
    { "StauMinus", 1000015, 1e5, 1e5, -1, -1, 0, 0 },
    { "StauPlus", -1000015, 1e5, 1e5, -1, 1, 0, 0 },
    { "Monopole", 41, 1e5, 1e5, -1, 68.51799988, 0, 0 },
    { "SMPPlus", 9500, 1e5, 1e5, -1, 1, 0, 0 },
    { "SMPMinus", -9500, 1e5, 1e5, -1, -1, 0, 0 },
};
static ParticleDef make(int type)
{
    switch (type) {
    case 11: return EMinusDef(); case -11: return EPlusDef();
    case 13: return MuMinusDef(); case -13: return MuPlusDef();
    case 15: return TauMinusDef(); case -15: return TauPlusDef();
    case 12: return NuEDef(); case -12: return NuEBarDef();
    case 14: return NuMuDef(); case -14: return NuMuBarDef();
    case 16: return NuTauDef(); case -16: return NuTauBarDef();
    case 22: return GammaDef(); case 111: return Pi0Def();
    case 211: return PiPlusDef(); case -211: return PiMinusDef();
    case 311: return K0Def(); case 321: return KPlusDef(); case -321: return KMinusDef();
    case 1000015: return StauMinusDef(); case -1000015: return StauPlusDef();
    case 41: return MonopoleDef(); case 9500: return SMPPlusDef(); case -9500: return SMPMinusDef();
    }
    throw std::runtime_error("harness: unknown type");
}
static const HardComponentTables::VecType& table(int k)
{
    return k == 1 ? HardComponentTables::MuonTable : k == 2 ? HardComponentTables::TauTable : HardComponentTables::EmptyTable;
}

PROP(S01)
{
    // must come first: looking up without having constructed anything
    m.once("lookup-first", [&](mon::Rng&) {
        for (auto& k : KNOWN) {
            m.describe(k.name);
            try {
                auto d = ParticleDef::GetParticleDefForType(k.type);
                m.check(d.particle_type == k.type && d.name == k.name, "found by type", sfmt("%s for %d", d.name.c_str(), k.type));
                m.note("found by type");
            } catch (const std::exception& e) {
                m.check(false, "found by type", e.what());
            }
        }
    });
    m.cases("built-in", 24 * 8, 24 * 40, [&](mon::Rng& r) {
        const Known& k = KNOWN[m.index % 24];
        m.describe(k.name);
        auto d = make(k.type);
        m.check(d.name == k.name, "name", d.name);
        m.check(d.particle_type == k.type, "type", sfmt("%d", d.particle_type));
        m.close(d.mass, k.mass, 1e-9, 0, "mass", k.name);
        m.close(d.low, k.low, 1e-9, 0, "low", k.name);
        m.close(d.lifetime, k.lifetime, 1e-9, 0, "lifetime", k.name);
        m.close(d.charge, k.charge, 1e-9, 0, "charge", k.name);
        m.check(d.weak_partner == k.weak, "weak partner", sfmt("%d instead of %d", d.weak_partner, k.weak));
        m.check(d.hard_component_table == table(k.table), "hard component table", k.name);
        m.check((d.lifetime < 0) || !d.decay_table.operator==(DecayTable()), "decay table", "unstable particle without decay table");
        auto e = ParticleDef::GetParticleDefForType(k.type);
        m.check(d == e && e == d && !(d != e), "lookup equals definition", k.name);
        m.check(d.GetHash() == e.GetHash(), "hash", k.name);
        ParticleDef c(d);
        m.check(c == d && c.name == d.name && c.mass == d.mass, "copy", k.name);
        // mirror
        if (k.type != 22 && k.type != 111 && k.type != 311 && k.type != 41) {
            auto a = make(-k.type);
            m.check(a.mass == d.mass && a.low == d.low && a.lifetime == d.lifetime, "mirror mass and lifetime", k.name);
            m.check(a.charge == -d.charge || (d.charge == 0 && a.charge == 0), "mirror charge", k.name);
            m.check(a.weak_partner == -d.weak_partner, "mirror weak partner", k.name);
            m.check(a.hard_component_table == d.hard_component_table, "mirror table", k.name);
            m.check(a != d, "mirror differs", k.name);
            m.note("mirrored");
        }
        if (k.weak) {
            auto w = ParticleDef::GetParticleDefForType(d.weak_partner);
            m.check(w.weak_partner == d.particle_type, "weak partner mutual", k.name);
            m.close(std::fabs(w.charge - d.charge), 1, 1e-12, 0, "weak partner charge", k.name);
        }
        for (auto& o : KNOWN)
            if (o.type != k.type) {
                auto od = make(o.type);
                m.check(od != d && !(od == d), "different particles compare unequal", o.name);
            }
        m.nontrivial();
    });
    m.cases("momentum", 20000, 600000, [&](mon::Rng& r) {
        const Known& k = KNOWN[r.i(0, 23)];
        make(k.type);
        ParticleState s;
        s.type = k.type;
        double scale = k.mass > 0 ? k.mass : 1;
        double p = r.p(0.05) ? 0 : r.logr(1e-8 * scale, 1e12 * scale);
        m.describe(sfmt("%s p %.17g", k.name, p));
        s.SetMomentum(p);
        long double E = hypotl((long double)p, (long double)k.mass);
        m.close(s.energy, (double)E, 1e-12, 0, "energy of momentum");
        m.check(s.energy >= k.mass * (1 - 1e-12) && s.energy >= p * (1 - 1e-12), "energy bounds", sfmt("%.17g", s.energy));
        double tolp = E > 0 && p > 0 ? (double)(4e-16L * E * E / p) : 1e-7 * scale;
        m.close(s.GetMomentum(), p, 1e-13, std::min(tolp, 1e-6 * scale), "momentum returned");
        // energy set directly
        double e = r.p(0.1) ? k.mass : k.mass + r.logr(1e-10 * scale, 1e12 * scale);
        s.energy = e;
        long double d = (long double)e - (long double)make(k.type).mass;
        long double q = sqrtl(d * ((long double)e + (long double)make(k.type).mass));
        m.close(s.GetMomentum(), (double)q, 1e-12, 0, "momentum of energy", sfmt("E %.17g", e));
        s.SetMomentum(s.GetMomentum());
        m.close(s.energy, e, 1e-12, 0, "energy returned");
        m.nontrivial();
    });
    m.cases("user-defined", 3000, 60000, [&](mon::Rng& r) {
        // definitions with a type of their own
        static int next = 2000000;
        int type = next++ * 8 + m.shard;
        double mass = r.p(0.1) ? 0 : r.logr(1e-3, 1e6), low = r.p(0.5) ? mass : mass * r.range(0, 3), life = r.p(0.3) ? -1 : r.logr(1e-20, 1e3),
               ch = r.p(0.5) ? r.sgn() : r.range(-3, 3);
        std::string name = sfmt("P%d", type);
        m.describe(sfmt("type %d mass %.17g low %.17g", type, mass, low));
        DecayTable dt;
        dt.addChannel(1.1, StableChannel());
        ParticleDef::Builder b;
        b.SetName(name).SetMass(mass).SetLow(low).SetLifetime(life).SetCharge(ch).SetParticleType(type).SetDecayTable(dt);
        int ti = (int)r.i(0, 2);
        if (ti) b.SetHardComponentTable(table(ti));
        int weak = KNOWN[r.i(0, 11)].type;
        if (r.p(0.5)) b.SetWeakPartner((ParticleType)weak); else weak = 0;
        ParticleDef d = b.build();
        m.check(d.name == name && d.mass == mass && d.lifetime == life && d.charge == ch && d.particle_type == type && d.weak_partner == weak, "built as described", d.name);
        m.check(d.hard_component_table == table(ti), "built table", "");
        m.check(d.decay_table == dt, "built decay table", "");
        m.check(d.low == std::max(low, mass), "lowest energy is at least the mass", sfmt("%.17g", d.low));
        auto e = ParticleDef::GetParticleDefForType(type);
        m.check(e == d, "registered", e.name);
        ParticleState s;
        s.type = type;
        m.check(s.GetParticleDef() == d, "definition of a state", "");
        double p = r.logr(1e-3, 1e9);
        s.SetMomentum(p);
        m.close(s.energy, (double)hypotl(p, mass), 1e-12, 0, "energy of momentum");
        m.nontrivial();
        // same description again is the same particle, another one under the same number is refused
        ParticleDef again = b.build();
        m.check(again == d, "same description", "");
        for (int f = 0; f < 8; ++f) {
            ParticleDef::Builder c;
            c.SetParticleDef(d);
            bool changed = true;
            int t2 = type;
            // a free number first: the copy differs in the changed fields only
            for (int pass = 0; pass < 2; ++pass) {
                if (pass == 0) c.SetParticleType(t2 = next++ * 8 + m.shard);
                else { c = ParticleDef::Builder(); c.SetParticleDef(d); t2 = type; }
                switch (f) {
                case 0: c.SetName(name + "x"); break;
                case 1: c.SetMass(mass / 2 + 1e-4); break;
                case 2: c.SetLow(d.low * 1.5 + 1); break;
                case 3: c.SetLifetime(life * 0.5); break;
                case 4: c.SetCharge(ch + 1); break;
                case 5: c.SetHardComponentTable(table((ti + 1) % 3)); break;
                case 6: { DecayTable o; o.addChannel(0.5, TwoBodyPhaseSpace(NuEDef(), NuMuDef())); c.SetDecayTable(o); break; }
                case 7: c.SetWeakPartner((ParticleType)(weak == 13 ? 15 : 13)); break;
                }
                if (pass == 0) {
                    ParticleDef n = c.build();
                    double wantmass = f == 1 ? mass / 2 + 1e-4 : mass;
                    m.check(n.name == (f == 0 ? name + "x" : name), "copied name", n.name);
                    m.check(n.mass == wantmass, "copied mass", "");
                    m.check(n.low == std::max(f == 2 ? d.low * 1.5 + 1 : d.low, wantmass), "copied low", sfmt("%.17g", n.low));
                    m.check(n.lifetime == (f == 3 ? life * 0.5 : life), "copied lifetime", "");
                    m.check(n.charge == (f == 4 ? ch + 1 : ch), "copied charge", "");
                    m.check(n.hard_component_table == table(f == 5 ? (ti + 1) % 3 : ti), "copied table", "");
                    m.check((n.decay_table == dt) == (f != 6), "copied decay table", "");
                    m.check(n.weak_partner == (f == 7 ? (weak == 13 ? 15 : 13) : weak), "copied weak partner", "");
                    m.check(n.particle_type == t2, "copied type", "");
                    m.check(ParticleDef::GetParticleDefForType(type) == d, "original untouched", "");
                } else {
                    bool threw = false;
                    try { c.build(); } catch (const std::invalid_argument&) { threw = true; }
                    m.check(threw, "conflicting definition refused", sfmt("field %d", f));
                    m.check(ParticleDef::GetParticleDefForType(type) == d, "registered definition kept", sfmt("field %d", f));
                    m.note("conflicts refused");
                }
            }
            (void)changed;
        }
    });
    m.cases("own-table", 50, 200, [&](mon::Rng& r) {
        int type = 900000000 + (int)m.index * 8 + m.shard;
        HardComponentTables::VecType t { { 1, 2 }, { 3, 4 } };
        auto d = ParticleDef::Builder().SetName("T").SetMass(10).SetParticleType(type).SetHardComponentTable(t).build();
        m.describe("definition with a table supplied by the user");
        m.check(d.hard_component_table == t, "table", "");
        m.check(&d.hard_component_table != &t, "owns-its-table", "the definition (and the registered copy) refer to the caller's table");
    });
    m.cases("unknown-type", 500, 5000, [&](mon::Rng& r) {
        int type = -(int)r.i(100000, 100000000) * 8;
        m.describe(sfmt("%d", type));
        ParticleState s;
        s.type = type;
        s.energy = 10;
        int threw = 0;
        try { ParticleDef::GetParticleDefForType(type); } catch (const std::invalid_argument&) { ++threw; }
        try { s.GetMomentum(); } catch (const std::invalid_argument&) { ++threw; }
        try { s.SetMomentum(3.); } catch (const std::invalid_argument&) { ++threw; }
        m.check(threw == 3, "unknown type refused", sfmt("%d", threw));
    });
    m.cases("states", 5000, 100000, [&](mon::Rng& r) {
        Cartesian3D x(r.gauss() * 1e4, r.gauss(), r.gauss()), d(r.gauss(), r.gauss(), r.gauss());
        d.normalize();
        double E = r.logr(1, 1e9), t = r.logr(1e-9, 1), l = r.logr(1e-3, 1e6);
        ParticleState a(ParticleType::MuMinus, x, d, E, t, l), b(x, d, E, t, l);
        m.check(a.type == 13 && b.type == 0, "type", "");
        for (auto* s : { &a, &b }) {
            m.check(s->position == x && s->direction == d && s->energy == E && s->time == t && s->propagated_distance == l, "fields", "");
        }
        b.SetType(ParticleType::MuMinus);
        m.check(a == b && !(a != b), "equal states", "");
        ParticleState c(a);
        m.check(c == a, "copied state", "");
        int f = (int)r.i(0, 9);
        switch (f) {
        case 0: c.type = 11; break;
        case 1: c.position.SetX(x.GetX() + 1); break;
        case 2: c.position.SetY(x.GetY() + 1); break;
        case 3: c.position.SetZ(x.GetZ() + 1); break;
        case 4: c.direction.SetX(d.GetX() + 1e-3); break;
        case 5: c.direction.SetY(d.GetY() + 1e-3); break;
        case 6: c.direction.SetZ(d.GetZ() + 1e-3); break;
        case 7: c.energy *= 1 + 1e-9; break;
        case 8: c.time *= 1 + 1e-9; break;
        case 9: c.propagated_distance *= 1 + 1e-9; break;
        }
        m.describe(sfmt("field %d", f));
        m.check(c != a && !(c == a), "changed state is unequal", sfmt("field %d", f));
        m.nontrivial();
    });
}

// ---------------------------------------------------------------- E01
static const long double cNA = 6.022140857e23L, cMP = 938.2720813L, cMN = 939.565413L, cALPHA = 0.0072973525664L, cRE = 2.8179403227e-13L;

static long double logconst(int z)
{
    static const std::map<int, double> t { { 1, 202.4 }, { 2, 151.9 }, { 3, 159.9 }, { 4, 172.3 }, { 5, 177.9 }, { 6, 178.3 }, { 7, 176.6 },
        { 8, 173.4 }, { 9, 170.0 }, { 10, 165.8 }, { 11, 165.8 }, { 12, 167.1 }, { 13, 169.1 }, { 14, 170.8 }, { 15, 172.2 }, { 16, 173.4 },
        { 17, 174.3 }, { 18, 174.8 }, { 19, 175.1 }, { 20, 175.6 }, { 21, 176.2 }, { 22, 176.8 }, { 26, 175.8 }, { 29, 173.1 }, { 32, 173.0 },
        { 35, 173.5 }, { 42, 175.9 }, { 50, 177.4 }, { 53, 178.6 }, { 74, 177.6 }, { 82, 178.0 }, { 92, 179.8 } };
    auto i = t.find(z);
    return i == t.end() ? 182.7 : i->second;
}
static void judge_component(mon::Mon& m, const Component& c)
{
    long double Z = c.GetNucCharge(), A = c.GetAtomicNum();
    m.close(c.GetAverageNucleonWeight(), (double)((Z * cMP + (A - Z) * cMN) / A), 1e-10, 0, "mean nucleon weight", c.GetName());
    m.close(c.GetLogConstant(), (double)logconst((int)lround(c.GetNucCharge())), 1e-12, 0, "radiation logarithm", c.GetName());
    m.close(c.GetBPrime(), lround(c.GetNucCharge()) == 1 ? 446 : 1429, 1e-12, 0, "inelastic radiation logarithm", c.GetName());
    if (c.GetNucCharge() != 1) {
        long double r0 = cbrtl(A), a = 0.54L;
        r0 = 1.12L * r0 - 0.86L / r0;
        // integral of r^2/(1+exp((r-r0)/a)) from r0, numerically
        long double I = 0;
        const int n = 4000;
        long double h = 60 * a / n;
        for (int i = 0; i <= n; ++i) {
            long double t = i * h, w = (i == 0 || i == n) ? 1 : (i % 2 ? 4 : 2);
            I += w * (r0 + t) * (r0 + t) / (1 + expl(t / a));
        }
        I *= h / 3;
        m.close(c.GetWoodSaxon(), (double)(1 - 4 * M_PIl * 0.17L * I / A), 1e-7, 1e-9, "Woods-Saxon factor", c.GetName());
        // the published form drops the r0*2a^2... only if the integral above is the integral of the potential
    } else
        m.check(c.GetWoodSaxon() == 0, "Woods-Saxon factor of the proton", "");
}
static long double x0inv(long double Z, long double A)
{
    long double a2 = cALPHA * cALPHA * Z * Z, f = a2 * (1 / (1 + a2) + 0.20206L - 0.0369L * a2 + 0.0083L * a2 * a2 - 0.002L * a2 * a2 * a2), L, Lp;
    static const double tab[5][2] = { { 0, 0 }, { 5.31, 6.144 }, { 4.79, 5.621 }, { 4.74, 5.805 }, { 4.71, 5.924 } };
    if (Z == 1 || Z == 2 || Z == 3 || Z == 4) { L = tab[(int)Z][0]; Lp = tab[(int)Z][1]; }
    else { L = logl(184.15L / cbrtl(Z)); Lp = logl(1194 / powl(Z, 2.L / 3)); }
    return 4 * cALPHA * cRE * cRE * cNA / A * (Z * Z * (L - f) + Z * Lp);
}
static void judge_medium(mon::Mon& m, const Medium& d, double density, const vector<Component>& comps)
{
    long double q = 0, n = 0, w = 0, x = 0;
    for (auto& c : comps) {
        long double k = c.GetAtomInMolecule();
        q += k * c.GetNucCharge();
        n += k * c.GetAtomicNum();
        w += k * ((long double)c.GetNucCharge() * cMP + ((long double)c.GetAtomicNum() - c.GetNucCharge()) * cMN);
        x += k * c.GetAtomicNum() * x0inv(c.GetNucCharge(), c.GetAtomicNum());
    }
    auto got = d.GetComponents();
    m.check(d.GetNumComponents() == (int)comps.size() && got.size() == comps.size(), "number of components", sfmt("%d", d.GetNumComponents()));
    for (size_t i = 0; i < comps.size() && i < got.size(); ++i) m.check(got[i] == comps[i], "components", sfmt("component %zu", i));
    m.close(d.GetMassDensity(), density, 1e-15, 0, "mass density");
    m.close(d.GetSumCharge(), (double)q, 1e-12, 0, "charge sum");
    m.close(d.GetSumNucleons(), (double)n, 1e-12, 0, "nucleon sum");
    m.close(d.GetZA(), (double)(q / n), 1e-12, 0, "charge to mass");
    m.close(d.GetMolDensity(), (double)(density * cNA / n), 1e-10, 0, "molar density");
    m.close(d.GetMM(), (double)(w / n), 1e-10, 0, "mean nucleon weight");
    m.close(d.GetRadiationLength(), (double)(n / x), 1e-9, 0, "radiation length");
}
static Component anycomp(mon::Rng& r)
{
    static const vector<std::function<Component(double)>> F {
        [](double k) { return Components::Hydrogen(k); }, [](double k) { return Components::Carbon(k); }, [](double k) { return Components::Nitrogen(k); },
        [](double k) { return Components::Oxygen(k); }, [](double k) { return Components::Sodium(k); }, [](double k) { return Components::Magnesium(k); },
        [](double k) { return Components::Sulfur(k); }, [](double k) { return Components::Chlorine(k); }, [](double k) { return Components::Argon(k); },
        [](double k) { return Components::Potassium(k); }, [](double k) { return Components::Calcium(k); }, [](double k) { return Components::Iron(k); },
        [](double k) { return Components::Copper(k); }, [](double k) { return Components::Lead(k); }, [](double k) { return Components::Uranium(k); },
        [](double k) { return Components::StandardRock(k); }, [](double k) { return Components::FrejusRock(k); }
    };
    double k = r.p(0.5) ? (double)r.i(1, 9) : r.logr(1e-4, 200);
    if (r.p(0.6)) return F[r.i(0, F.size() - 1)](k);
    double Z = (double)r.i(1, 99);
    double A = Z == 1 ? r.range(1, 2.2) : Z * r.range(1.9, 2.6);
    return Component(sfmt("El%d", (int)Z), Z, A, k);
}
struct Ref { const char* name; int type; double za, dens, I, x0; vector<std::pair<std::pair<double, double>, double>> comp; };

PROP(E01)
{
    // published <Z/A>, density, mean excitation energy and radiation length (PDG / Sternheimer), and composition
    static const vector<Ref> REF {
        { "water", WATER, 0.55509, 1.0, 79.7, 36.08, {} }, { "waterpdg2001", WATERPDG2001, 0.55509, 1.0, 75, 36.08, {} }, { "waterpdg2020", WATERPDG2020, 0.55509, 1.0, 79.7, 36.08, {} },
        { "ice", ICE, 0.55509, 0.918, 79.7, 36.08, {} }, { "icepdg2001", ICEPDG2001, 0.55509, 0.917, 75, 36.08, {} }, { "icepdg2020", ICEPDG2020, 0.55509, 0.918, 79.7, 36.08, {} },
        { "salt", SALT, 0.47910, 2.323, 175.3, 21.91, {} }, { "standardrock", STANDARDROCK, 0.5, 2.65, 136.4, 26.54, {} }, { "frejusrock", FREJUSROCK, 0.49754, 2.74, 149, 0, {} },
        { "iron", IRON, 0.46557, 7.874, 286, 13.84, {} }, { "hydrogen", HYDROGEN, 0.99212, 0.0708, 21.8, 63.04, {} }, { "lead", LEAD, 0.39575, 11.35, 823, 6.37, {} },
        { "copper", COPPER, 0.45636, 8.96, 322, 12.86, {} }, { "uranium", URANIUM, 0.38651, 18.95, 890, 6.00, {} }, { "air", AIR, 0.49919, 1.205e-3, 85.7, 36.62, {} },
        { "paraffin", PARAFFIN, 0.57275, 0.93, 55.9, 44.85, {} }, { "antareswater", ANTARESWATER, 0.5535, 1.03975, 75, 0, {} },
        { "cascadiabasinwater", CASCADIABASINWATER, 0.5535, 1.0400322, 75, 0, {} }, { "liquidargon", LIQUIDARGON, 0.45059, 1.396, 188, 19.55, {} }
    };
    m.cases("built-in", 19 * 40, 19 * 400, [&](mon::Rng& r) {
        const Ref& R = REF[m.index % REF.size()];
        m.describe(R.name);
        std::string name = R.name;
        for (auto& c : name) if (r.p(0.5)) c = toupper(c);
        auto a = CreateMedium(name);
        auto b = CreateMedium((Medium_Type)R.type);
        m.check(*a == *b && a->GetHash() == b->GetHash(), "name and type agree", name);
        m.check(CreateMedium(std::string(R.name))->GetHash() == a->GetHash(), "letter case", name);
        auto h = Medium::GetMediumForHash(a->GetHash());
        m.check(h == *a && h.GetName() == a->GetName(), "found by hash", name);
        judge_medium(m, *a, R.dens, a->GetComponents());
        for (auto& c : a->GetComponents()) {
            judge_component(m, c);
            auto k = Component::GetComponentForHash(c.GetHash());
            m.check(k == c, "component found by hash", c.GetName());
        }
        m.close(a->GetZA(), R.za, 4e-3, 0, "published charge to mass ratio", name);
        m.close(a->GetI(), R.I, 1e-9, 0, "published excitation energy", name);
        if (R.x0 > 0) m.close(a->GetRadiationLength(), R.x0, 0.025, 0, "published radiation length", name);
        for (auto& o : REF) {
            auto q = CreateMedium((Medium_Type)o.type);
            bool same = (o.type == R.type) || (o.type == WATER && R.type == WATERPDG2020) || (R.type == WATER && o.type == WATERPDG2020)
                || (o.type == ICE && R.type == ICEPDG2020) || (R.type == ICE && o.type == ICEPDG2020);
            m.check((*q == *a) == same && (*q != *a) == !same && (q->GetHash() == a->GetHash()) == same, "different media differ", std::string(o.name) + " " + R.name);
        }
        // asking again gives the same medium
        m.check(*CreateMedium(R.name) == *a, "asked again", name);
        m.nontrivial();
    });
    m.once("types", [&](mon::Rng&) {
        CalciumCarbonate cc;
        judge_medium(m, cc, 2.65, cc.GetComponents());
        m.close(cc.GetZA(), 0.49955, 2e-3, 0, "published charge to mass ratio", "calcium carbonate");
        m.close(cc.GetRadiationLength(), 24.03, 0.02, 0, "published radiation length", "calcium carbonate");
        auto eq = [&](const Medium& k, const char* n) { m.check(*CreateMedium(n) == k, "class and name agree", n); };
        eq(PDG2020::Water(), "water"); eq(PDG2001::Water(), "waterpdg2001"); eq(PDG2020::Water(), "waterpdg2020");
        eq(PDG2020::Ice(), "ice"); eq(PDG2001::Ice(), "icepdg2001"); eq(PDG2020::Ice(), "icepdg2020");
        eq(Salt(), "salt"); eq(StandardRock(), "standardrock"); eq(FrejusRock(), "frejusrock"); eq(Iron(), "iron"); eq(Hydrogen(), "hydrogen");
        eq(Lead(), "lead"); eq(Copper(), "copper"); eq(Uranium(), "uranium"); eq(Air(), "air"); eq(Paraffin(), "paraffin");
        eq(AntaresWater(), "antareswater"); eq(CascadiaBasinWater(), "cascadiabasinwater"); eq(LiquidArgon(), "liquidargon");
        struct E { Component c; double Z, A, n; } es[] = {
            { Components::Hydrogen(), 1, 1.00794, 2 }, { Components::Carbon(), 6, 12.011, 1 }, { Components::Nitrogen(), 7, 14.0067, 1 }, { Components::Oxygen(), 8, 15.9994, 1 },
            { Components::Sodium(), 11, 22.98977, 1 }, { Components::Magnesium(), 12, 24.305, 1 }, { Components::Sulfur(), 16, 32.065, 1 }, { Components::Chlorine(), 17, 35.453, 1 },
            { Components::Argon(), 18, 39.948, 1 }, { Components::Potassium(), 19, 39.098, 1 }, { Components::Calcium(), 20, 40.078, 1 }, { Components::Iron(), 26, 55.845, 1 },
            { Components::Copper(), 29, 63.546, 1 }, { Components::Lead(), 82, 207.2, 1 }, { Components::Uranium(), 92, 238.0289, 1 }, { Components::StandardRock(), 11, 22, 1 },
            { Components::FrejusRock(), 10.12, 20.34, 1 } };
        for (auto& e : es) {
            m.check(e.c.GetNucCharge() == e.Z, "element charge", e.c.GetName());
            m.close(e.c.GetAtomicNum(), e.A, 1e-3, 0, "element mass", e.c.GetName());
            m.check(e.c.GetAtomInMolecule() == e.n, "default number of atoms", e.c.GetName());
            judge_component(m, e.c);
        }
    });
    m.cases("component", 4000, 100000, [&](mon::Rng& r) {
        Component c = anycomp(r);
        m.describe(sfmt("%s Z %.17g A %.17g n %.17g", c.GetName().c_str(), c.GetNucCharge(), c.GetAtomicNum(), c.GetAtomInMolecule()));
        judge_component(m, c);
        m.check(Component::GetComponentForHash(c.GetHash()) == c || Component::GetComponentForHash(c.GetHash()).GetNucCharge() == c.GetNucCharge(), "found by hash", c.GetName());
        Component d(c.GetName(), c.GetNucCharge(), c.GetAtomicNum(), c.GetAtomInMolecule());
        m.check(d == c && !(d != c) && d.GetHash() == c.GetHash(), "same description", "");
        double f = r.p(0.5) ? 1 + 1e-10 : r.range(1.1, 2);
        Component e1(c.GetName() + "x", c.GetNucCharge(), c.GetAtomicNum(), c.GetAtomInMolecule()), e2(c.GetName(), c.GetNucCharge() * f, c.GetAtomicNum(), c.GetAtomInMolecule()),
            e3(c.GetName(), c.GetNucCharge(), c.GetAtomicNum() * f, c.GetAtomInMolecule()), e4(c.GetName(), c.GetNucCharge(), c.GetAtomicNum(), c.GetAtomInMolecule() * f);
        m.check(e1 != c && e2 != c && e3 != c && e4 != c, "changed component is unequal", "");
        m.check(e2.GetHash() != c.GetHash() && e3.GetHash() != c.GetHash() && e4.GetHash() != c.GetHash(), "changed component has another hash", "");
        m.nontrivial();
    });
    m.cases("mixture", 6000, 150000, [&](mon::Rng& r) {
        int n = (int)r.i(1, 8);
        vector<Component> comps;
        for (int i = 0; i < n; ++i) comps.push_back(anycomp(r));
        double par[8] = { r.range(10, 900), -r.range(2, 11), r.range(0.05, 0.3), r.range(2, 6), r.range(-0.1, 2), r.range(2.5, 4.5), r.p(0.5) ? 0 : r.range(0, 0.2), r.logr(1e-6, 30) };
        auto build = [&](const std::string& nm, const double* p, const vector<Component>& c) { return Medium(nm, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], c); };
        Medium a = build("mix", par, comps);
        m.describe(sfmt("%d components, first %s, density %.17g", n, comps[0].GetName().c_str(), par[7]));
        judge_medium(m, a, par[7], comps);
        m.check(a.GetI() == par[0] && a.GetC() == par[1] && a.GetA() == par[2] && a.GetM() == par[3] && a.GetX0() == par[4] && a.GetX1() == par[5] && a.GetD0() == par[6] && a.GetName() == "mix", "parameters kept", "");
        m.check(Medium::GetMediumForHash(a.GetHash()) == a, "found by hash", "");
        m.check(build("mix", par, comps) == a && build("mix", par, comps).GetHash() == a.GetHash(), "same description", "");
        // common factor
        double f = r.logr(1e-3, 1e3);
        vector<Component> sc;
        for (auto& c : comps) sc.push_back(Component(c.GetName(), c.GetNucCharge(), c.GetAtomicNum(), c.GetAtomInMolecule() * f));
        Medium b = build("mix", par, sc);
        m.close(b.GetZA(), a.GetZA(), 1e-12, 0, "intensive Z/A");
        m.close(b.GetMM(), a.GetMM(), 1e-12, 0, "intensive nucleon weight");
        m.close(b.GetRadiationLength(), a.GetRadiationLength(), 1e-12, 0, "intensive radiation length");
        m.close(b.GetSumCharge(), a.GetSumCharge() * f, 1e-12, 0, "extensive charge");
        m.close(b.GetSumNucleons(), a.GetSumNucleons() * f, 1e-12, 0, "extensive nucleons");
        m.close(b.GetMolDensity() * f, a.GetMolDensity(), 1e-12, 0, "molecules per volume");
        m.check(b != a, "scaled medium is another one", "");
        // order of the components
        vector<Component> rev(comps.rbegin(), comps.rend());
        Medium c = build("mix", par, rev);
        m.close(c.GetRadiationLength(), a.GetRadiationLength(), 1e-12, 0, "order of components");
        m.close(c.GetZA(), a.GetZA(), 1e-12, 0, "order of components");
        // density scales the molar density only
        double p2[8];
        std::copy(par, par + 8, p2);
        p2[7] *= f;
        Medium d = build("mix", p2, comps);
        m.close(d.GetMolDensity(), a.GetMolDensity() * f, 1e-12, 0, "molar density follows density");
        m.close(d.GetRadiationLength(), a.GetRadiationLength(), 1e-14, 0, "radiation length is in grammage");
        // proton fraction
        m.close(calculate_proton_massnumber_fraction(comps), a.GetZA(), 1e-12, 0, "proton fraction");
        // each parameter matters
        for (int k = 0; k < 8; ++k) {
            std::copy(par, par + 8, p2);
            p2[k] = p2[k] * (1 + 1e-9) + (p2[k] == 0 ? 1e-9 : 0);
            Medium e = build("mix", p2, comps);
            m.check(e != a && !(e == a), "changed parameter is unequal", sfmt("parameter %d", k));
            m.check(e.GetHash() != a.GetHash(), "changed parameter has another hash", sfmt("parameter %d", k));
            m.check(Medium::GetMediumForHash(e.GetHash()) == e && Medium::GetMediumForHash(a.GetHash()) == a, "each found by its hash", sfmt("parameter %d", k));
        }
        m.check(build("other", par, comps) != a, "changed name is unequal", "");
        auto less = comps;
        less.pop_back();
        if (!less.empty()) m.check(build("mix", par, less) != a && a != build("mix", par, less), "fewer components unequal", "");
        int at = (int)r.i(0, n - 1);
        auto other = comps;
        other[at] = Component(other[at].GetName(), other[at].GetNucCharge(), other[at].GetAtomicNum(), other[at].GetAtomInMolecule() * (1 + 1e-6));
        Medium e = build("mix", par, other);
        m.check(e != a && e.GetHash() != a.GetHash(), "changed component is unequal", sfmt("component %d", at));
        m.nontrivial();
    });
    m.cases("refused", 500, 5000, [&](mon::Rng& r) {
        static const char* bad[] = { "", "watr", "water ", " water", "waterpdg", "hydrogenn", "liquid argon", "rock", "no such medium" };
        std::string n = bad[r.i(0, 8)];
        m.describe(n);
        bool threw = false;
        try { CreateMedium(n); } catch (const std::invalid_argument&) { threw = true; }
        m.check(threw, "unknown name refused", n);
        threw = false;
        try { CreateMedium((Medium_Type)(19 + r.i(0, 12))); } catch (const std::invalid_argument&) { threw = true; }
        m.check(threw, "unknown type refused", "");
        threw = false;
        try { Medium::GetMediumForHash(r.next()); } catch (const std::invalid_argument&) { threw = true; }
        m.check(threw, "unknown hash refused", "");
        threw = false;
        try { Component::GetComponentForHash(r.next()); } catch (const std::invalid_argument&) { threw = true; }
        m.check(threw, "unknown component hash refused", "");
    });
}

// ---------------------------------------------------------------- C01
PROP(C01)
{
    using crosssection::KinematicLimits;
    m.cases("cut", 40000, 1500000, [&](mon::Rng& r) {
        double e = r.p(0.15) ? INF : r.logr(1e-3, 1e12), v = r.p(0.15) ? 1. : r.p(0.1) ? r.logr(1e-12, 1) : r.u(), E = r.p(0.1) && !std::isinf(e) ? e / v : r.logr(1e-1, 1e15);
        bool cr = r.p(0.5);
        m.describe(sfmt("ecut %.17g vcut %.17g E %.17g", e, v, E));
        EnergyCutSettings c(e, v, cr);
        m.check(c.GetEcut() == e && c.GetVcut() == v && c.GetContRand() == cr, "settings kept", "");
        double want = e / E < v ? e / E : v;
        m.close(c.GetCut(E), want, 1e-15, 0, "smaller of both");
        m.check(c.GetCut(E) > 0 && c.GetCut(E) <= 1 && c.GetCut(E) <= v && c.GetCut(E) * E <= e * (1 + 1e-15), "bounds", sfmt("%.17g", c.GetCut(E)));
        KinematicLimits l;
        l.v_min = r.p(0.2) ? 0 : r.p(0.3) ? want * r.range(0.5, 1.5) : r.logr(1e-12, 1);
        if (l.v_min > 1) l.v_min = 1;
        l.v_max = r.p(0.2) ? l.v_min : r.p(0.2) ? 1. : r.range(l.v_min, 1);
        double g = c.GetCut(l, E), w2 = want < l.v_min ? l.v_min : want > l.v_max ? l.v_max : want;
        m.close(g, w2, 1e-15, 0, "bounded by the kinematic limits", sfmt("[%.17g,%.17g]", l.v_min, l.v_max));
        m.check(g >= l.v_min && g <= l.v_max, "within the kinematic limits", "");
        if (w2 == want && want != v) m.note("absolute cut decides");
        if (w2 == want && want == v) m.note("relative cut decides");
        if (w2 != want) m.note("kinematic limit decides");
        m.nontrivial();
        // monotonic in energy
        double E2 = E * r.logr(1, 1e3);
        m.check(c.GetCut(E2) <= c.GetCut(E), "never grows with energy", "");
        // two instances
        EnergyCutSettings d(e, v, cr);
        m.check(d == c && d.GetHash() == c.GetHash(), "equal settings", "");
        double e2 = r.p(0.5) || std::isinf(e) ? (std::isinf(e) ? 1e3 : INF) : e * (1 + 1e-12);
        double v2 = v == 1 ? 0.5 : v * (1 - 1e-12);
        EnergyCutSettings f(e2, v, cr), h(e, v2, cr), k(e, v, !cr);
        m.check(!(f == c) && !(h == c) && !(k == c), "different settings", "");
        m.check(f.GetHash() != c.GetHash(), "absolute cut in the fingerprint", "");
        m.check(h.GetHash() != c.GetHash(), "relative cut in the fingerprint", "");
        if (e <= 1 && e != v) { EnergyCutSettings s(v, e, cr); m.check(s.GetHash() != c.GetHash(), "exchanged cuts in the fingerprint", ""); }
    });
    m.cases("invalid", 4000, 40000, [&](mon::Rng& r) {
        double e = r.logr(1e-3, 1e9), v = r.u();
        int kind = (int)r.i(0, 7);
        switch (kind) {
        case 0: e = 0; break;
        case 1: e = -r.logr(1e-9, 1e9); break;
        case 2: v = 0; break;
        case 3: v = -r.logr(1e-9, 10); break;
        case 4: v = 1 + r.logr(1e-15, 10); if (v == 1) v = 1.5; break;
        case 5: e = std::nan(""); break;
        case 6: v = std::nan(""); break;
        case 7: e = -INF; break;
        }
        m.describe(sfmt("ecut %g vcut %g", e, v));
        bool threw = false;
        try { EnergyCutSettings c(e, v, r.p(0.5)); } catch (const std::invalid_argument&) { threw = true; }
        m.check(threw, "invalid settings refused", "");
        m.nontrivial();
        if (kind != 5 && kind != 6 && kind != 7) {
            nlohmann::json j { { "e_cut", e }, { "v_cut", v }, { "cont_rand", false } };
            threw = false;
            try { EnergyCutSettings c(j); } catch (const std::invalid_argument&) { threw = true; }
            m.check(threw, "invalid configuration refused", j.dump());
        }
    });
    m.cases("configuration", 8000, 100000, [&](mon::Rng& r) {
        double e = r.p(0.3) ? INF : r.p(0.3) ? (double)r.i(1, 100000) : r.logr(1e-3, 1e12), v = r.p(0.2) ? 1. : r.u();
        bool cr = r.p(0.5);
        nlohmann::json j;
        j["v_cut"] = v;
        if (v == 1 && r.p(0.5)) j["v_cut"] = 1;
        j["cont_rand"] = cr;
        if (std::isinf(e)) {
            std::string s = r.p(0.5) ? "inf" : "infinity";
            for (auto& c : s) if (r.p(0.5)) c = toupper(c);
            j["e_cut"] = s;
        } else if (e == std::floor(e) && e < 1e9 && r.p(0.5)) j["e_cut"] = (int)e;
        else j["e_cut"] = e;
        if (r.p(0.3)) j["comment"] = "ignored";
        m.describe(j.dump());
        EnergyCutSettings a(j), b(e, v, cr);
        m.check(a == b && a.GetHash() == b.GetHash() && a.GetEcut() == e && a.GetVcut() == v && a.GetContRand() == cr, "configuration equals constructor", "");
        double E = r.logr(1, 1e9);
        m.check(a.GetCut(E) == b.GetCut(E), "same cut", "");
        m.nontrivial();
        // damage
        auto k = j;
        int kind = (int)r.i(0, 8);
        switch (kind) {
        case 0: k.erase("e_cut"); break;
        case 1: k.erase("v_cut"); break;
        case 2: k.erase("cont_rand"); break;
        case 3: k["e_cut"] = "500"; break;
        case 4: k["e_cut"] = "infinit"; break;
        case 5: k["v_cut"] = "0.05"; break;
        case 6: k["cont_rand"] = "yes"; break;
        case 7: k["e_cut"] = nlohmann::json::array({ 1, 2 }); break;
        case 8: k = nlohmann::json::array({ 500, 0.05, false }); break;
        }
        m.describe(k.dump());
        bool threw = false;
        try { EnergyCutSettings c(k); } catch (const std::exception&) { threw = true; }
        m.check(threw, "damaged configuration refused", "");
        m.note("damaged configurations");
    });
}

int main(int argc, char** argv) { return mon::run(argc, argv); }
