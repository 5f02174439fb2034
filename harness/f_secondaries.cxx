// Y02 secondaries that need tables or come with them: pairs from photons, annihilation, weak interactions.
#include "xs.h"
#include "num.h"
#include "PROPOSAL/PROPOSAL.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.h"
#include "PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionTsai.h"
#include "PROPOSAL/secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.h"
#include <sstream>
namespace sc = PROPOSAL::secondaries;
typedef std::unique_ptr<sc::Parametrization> Model;

enum Which { ANNI, TSAI, TSAIFWD, TSAISAUTER, KMFWD, KMSAUTER, MUPAIR, WEAK, NW };
static const char* NAMES[] = { "HeitlerAnnihilation", "Tsai", "TsaiForwardPeaked", "TsaiSauter", "KochMotzForwardPeaked", "KochMotzSauter", "PhotoMuPair", "WeakCooperSarkarMertsch" };
static void settings()
{
    static bool done = false;
    if (done) return;
    done = true;
    Logging::SetGlobalLoglevel(spdlog::level::off);
    InterpolationSettings::TABLES_PATH = "";
    InterpolationSettings::UPPER_ENERGY_LIM = 1e10;
    InterpolationSettings::NODES_DNDX_E = 60;
    InterpolationSettings::NODES_DNDX_V = 60;
}
static const vector<ParticleDef>& weakly()
{
    static const vector<ParticleDef> v { EMinusDef(), EPlusDef(), MuMinusDef(), MuPlusDef(), TauMinusDef(), TauPlusDef() };
    return v;
}
struct Entry { Model model; ParticleDef p; shared_ptr<Medium> M; };
static Entry& model(int w, int med, int lep)
{
    static std::map<int, Entry*> all;
    settings();
    if (w != WEAK) lep = 0;
    if (w == ANNI) lep = 0;
    auto& e = all[w + NW * (med + 100 * lep)];
    if (e) return *e;
    static const char* names[] = { "water", "iron", "hydrogen", "standardrock" };
    shared_ptr<Medium> M = CreateMedium(names[med]);
    ParticleDef p = w == ANNI ? ParticleDef(EPlusDef()) : w == WEAK ? weakly()[lep] : ParticleDef(GammaDef());
    sc::Parametrization* m = nullptr;
    switch (w) {
    case ANNI: m = new sc::HeitlerAnnihilation(p, *M); break;
    case TSAI: m = new sc::PhotoPairProductionTsai(p, *M); break;
    case TSAIFWD: m = new sc::PhotoPairProductionTsaiForwardPeaked(p, *M); break;
    case TSAISAUTER: m = new sc::PhotoPairProductionTsaiSauter(p, *M); break;
    case KMFWD: m = new sc::PhotoPairProductionKochMotzForwardPeaked(p, *M); break;
    case KMSAUTER: m = new sc::PhotoPairProductionKochMotzSauter(p, *M); break;
    case MUPAIR: m = new sc::PhotoMuPairProductionBurkhardtKelnerKokoulin(p, *M); break;
    default: m = new sc::WeakCooperSarkarMertsch(p, *M);
    }
    e = new Entry { Model(m), p, M };
    return *e;
}
static Cartesian3D anydir(mon::Rng& r)
{
    if (r.p(.2)) return Cartesian3D(0, 0, r.sgn());
    double z = r.range(-1, 1), f = r.range(-M_PI, M_PI), s = std::sqrt(1 - z * z);
    Cartesian3D d(s * std::cos(f), s * std::sin(f), z);
    d.normalize();
    return d;
}
static double prob(mon::Rng& r)
{
    switch (r.i(0, 6)) {
    case 0: return r.logr(1e-12, .5);
    case 1: return 1 - r.logr(1e-12, .5);
    default: return r.u();
    }
}
static LD dot(const Cartesian3D& a, const Cartesian3D& b) { return (LD)a.GetX() * b.GetX() + (LD)a.GetY() * b.GetY() + (LD)a.GetZ() * b.GetZ(); }

PROP(Y02)
{
    m.cases("products", 6000, 200000, [&](mon::Rng& r) {
        int w = m.index % NW, med = m.index / NW % (m.thorough() ? 4 : 2), lep = r.i(0, m.thorough() ? 5 : 1) ;
        if (w == WEAK && !m.thorough()) lep = 2 * lep + (m.index / NW / 2) % 2; // one of each charge
        auto& e = model(w, med, lep);
        auto& p = e.p;
        auto comps = e.M->GetComponents();
        auto c = comps[r.i(0, comps.size() - 1)];
        bool pair = w >= TSAI && w <= KMSAUTER;
        double low = w == ANNI ? ME : pair ? 2 * ME : w == MUPAIR ? 2 * SQRTE * MMU : 1e6, E = r.p(.1) ? low * (1 + r.logr(1e-6, 1)) : r.logr(low * 1.001, 9e9);
        if (w == WEAK && E < 1e6) E = 1e6;
        auto d = anydir(r);
        Cartesian3D pos(r.range(-1e6, 1e6), r.range(-1e6, 1e6), r.range(-1e6, 1e6));
        double t = r.logr(1e-9, 1), dist = r.logr(1, 1e7);
        string k = NAMES[w];
        vector<double> rnd(e.model->RequiredRandomNumbers());
        for (auto& x : rnd) x = prob(r);
        rnd.shrink_to_fit();
        string rn;
        for (auto x : rnd) rn += sfmt(" %.17g", x);
        m.describe(sfmt("%s %s on %s of %s E=%.17g direction (%.9g, %.9g, %.9g) numbers%s", k.c_str(), p.name.c_str(), cd(c).c_str(), e.M->GetName().c_str(), E, d.GetX(), d.GetY(), d.GetZ(), rn.c_str()));
        StochasticLoss L((int)e.model->GetInteractionType(), E, pos, d, t, dist, E, c.GetHash());
        static const size_t nr[] = { 2, 4, 4, 4, 4, 4, 2, 1 };
        m.check(rnd.size() == nr[w], "count:" + k, sfmt("asks for %zu random numbers", rnd.size()));
        // is there room and rate for the process at all?
        cs::KinematicLimits lim;
        std::function<double(double)> diff;
        static const cs::PhotoPairTsai tsai(false);
        static const cs::PhotoPairKochMotz km(false);
        static const cs::PhotoMuPairBurkhardtKelnerKokoulin bkk;
        static const cs::WeakCooperSarkarMertsch csm;
        auto use = [&](auto const& q) {
            lim = q.GetKinematicLimits(p, c, E);
            diff = [&q, &p, c, E](double v) { return q.DifferentialCrossSection(p, c, E, v); };
        };
        if (w == MUPAIR) use(bkk);
        else if (w == WEAK) use(csm);
        else if (w >= KMFWD && pair) use(km);
        else if (pair) use(tsai);
        auto copy = rnd;
        vector<ParticleState> out;
        RandomGenerator::Get().SetSeed(r.i(1, 1 << 30));
        auto stream = [] { std::ostringstream o; RandomGenerator::Get().Serialize(o); return o.str(); };
        auto before = stream();
        try {
            out = e.model->CalculateSecondaries(L, c, copy);
        } catch (const std::exception& x) {
            // tables start where the rate can be resolved
            if (w != ANNI && w != WEAK && E < (w == MUPAIR ? 30 : 3) * low) m.note("no rate yet " + k);
            else m.check(false, "throws:" + k, x.what());
            return;
        }
        m.check(stream() == before, "stream:" + k, "changes the stream of random numbers");
        m.note("calculated " + k);
        m.nontrivial();
        vector<int> want, got;
        if (w == ANNI) want = { 22, 22 };
        else if (pair) want = { 11, -11 };
        else if (w == MUPAIR) want = { 13, -13 };
        else want = { p.weak_partner, (int)ParticleType::Hadron };
        for (auto& s : out) got.push_back(s.type);
        if (!m.check(got == want, "particles:" + k, sfmt("%zu particles, first %d", got.size(), got.empty() ? 0 : got[0]))) return;
        LD sum = 0;
        bool sane = true;
        for (size_t i = 0; i < out.size(); ++i) {
            auto& s = out[i];
            sum += s.energy;
            double mass = w == ANNI || w == WEAK ? 0 : pair ? ME : MMU;
            sane &= m.check(std::isfinite(s.energy) && s.energy >= mass * (1 - 1e-9) - 4e-16 * E, "mass:" + k, sfmt("particle %zu (type %d) has energy %.17g", i, s.type, s.energy));
            sane &= m.check(std::abs(s.direction.magnitude() - 1) < 1e-7, "unit:" + k, sfmt("particle %zu: direction (%.17g, %.17g, %.17g)", i, s.direction.GetX(), s.direction.GetY(), s.direction.GetZ()));
            m.check(s.position == pos, "position:" + k, sfmt("particle %zu elsewhere", i));
            m.check(s.time == t, "time:" + k, sfmt("particle %zu at %.17g instead of %.17g", i, s.time, t));
        }
        m.check(fabsl(sum - (E + (w == ANNI ? ME : 0))) <= 4e-16L * 4 * E, "energy:" + k, sfmt("sum %.17g of %.17g", (double)sum, E));
        {
            auto r2 = rnd;
            auto again = e.model->CalculateSecondaries(L, c, r2);
            bool same = again.size() == out.size();
            for (size_t i = 0; same && sane && i < out.size(); ++i) same = again[i].energy == out[i].energy && again[i].direction == out[i].direction;
            m.check(same, "repeat:" + k, "another event for the same random numbers");
        }
        if (!sane) return;
        // the split follows the cross section
        if (w == ANNI) {
            LD g = (LD)E / ME, a2 = 1 / powl(g + 1, 2), a1 = 1 + 2 * g * a2, aux = sqrtl((g - 1) / (g + 1)), lo = 1 / (g + 1) / (1 + aux), hi = (1 + aux) / 2; // lo (1 - aux)/2 without cancellation
            LD rho = out[1].energy / ((LD)E + ME);
            auto f = [&](LD x) { return a1 * logl(x) + a2 / x - x; };
            m.check(rho >= lo * (1 - 1e-6L) && rho <= hi * (1 + 1e-6L), "range:" + k, sfmt("share %.9g outside of [%.9g, %.9g]", (double)rho, (double)lo, (double)hi));
            LD q = (f(rho) - f(lo)) / (f(hi) - f(lo));
            // close to the threshold the range itself is not resolved
            if (g > 1.001L) {
                m.worst("quantile difference " + k, (double)fabsl(q - rnd[0]));
                m.check(fabsl(q - rnd[0]) < 2e-5L * (1 + 1 / aux), "split:" + k, sfmt("share %.9g is the quantile %.9g, asked for %.9g", (double)rho, (double)q, rnd[0]));
            }
            LD P = sqrtl(((LD)E - ME) * ((LD)E + ME)), k0 = out[0].energy, k1 = out[1].energy;
            LD x = k0 * out[0].direction.GetX() + k1 * out[1].direction.GetX() - P * d.GetX(), y = k0 * out[0].direction.GetY() + k1 * out[1].direction.GetY() - P * d.GetY(), z = k0 * out[0].direction.GetZ() + k1 * out[1].direction.GetZ() - P * d.GetZ();
            LD miss = sqrtl(x * x + y * y + z * z);
            // a cosine is a difference of energies: its rounding is that of the electron mass over the energy of the photon
            LD eps = 4e-16L * (1 + ((LD)ME + E) / P) ;
            LD tol = k0 * sqrtl(2 * eps * (1 + ME / k0)) + k1 * sqrtl(2 * eps * (1 + ME / k1)) + 1e-11L * P;
            if (g > 1.001L) m.check(miss <= 4 * tol, "momentum:" + k, sfmt("missing momentum %.9g of %.9g (%.3g)", (double)miss, (double)P, (double)tol));
            m.note("momentum judged");
            return;
        }
        double v = pair ? out[0].energy / E : out[1].energy / E;
        m.check(v >= lim.v_min * (1 - 1e-9) - 1e-15 && v <= lim.v_max * (1 + 1e-9), "range:" + k, sfmt("share %.17g outside of [%.17g, %.17g]", v, lim.v_min, lim.v_max));
        if (r.p(.5) && lim.v_max > lim.v_min * (1 + 1e-6)) {
            // symmetric splits in their own variable, the hadronic share in its logarithm
            auto in = [&](LD a, LD b) {
                LD s = 0;
                if (w == WEAK) {
                    for (int i = 0; i < 24; ++i) s += num::gl<8>([&](LD q) { LD x = expl(q); return x * diff((double)x); }, logl(a) + (logl(b) - logl(a)) * i / 24, logl(a) + (logl(b) - logl(a)) * (i + 1) / 24);
                } else
                    for (int i = 0; i < 24; ++i) s += num::gl<8>([&](LD x) { return diff((double)x); }, a + (b - a) * i / 24, a + (b - a) * (i + 1) / 24);
                return s;
            };
            LD vv = std::min((LD)lim.v_max, std::max((LD)lim.v_min, (LD)v)), part = in(lim.v_min, vv), tot = part + in(vv, lim.v_max), q = part / tot;
            if (tot > 0) {
                bool easy = E > 2 * low;
                LD dq = fabsl(q - rnd[0]);
                if (!easy) return;
                m.worst("quantile difference " + k, (double)dq);
                m.note("splits compared " + k);
                m.check(dq < (w == MUPAIR ? .1L : .05L), "split:" + k, sfmt("share %.9g is the quantile %.9g, asked for %.9g", v, (double)q, rnd[0]));
            }
        }
        if (w == WEAK) {
            m.check(out[0].direction == d && out[1].direction == d, "forward:" + k, "turned");
            return;
        }
        // angles
        auto ang = [&](const Cartesian3D& a) {
            LD cx = (LD)a.GetY() * d.GetZ() - (LD)a.GetZ() * d.GetY(), cy = (LD)a.GetZ() * d.GetX() - (LD)a.GetX() * d.GetZ(), cz = (LD)a.GetX() * d.GetY() - (LD)a.GetY() * d.GetX();
            return atan2l(sqrtl(cx * cx + cy * cy + cz * cz), dot(a, d));
        };
        LD t0 = ang(out[0].direction), t1 = ang(out[1].direction);
        if (w == TSAIFWD || w == KMFWD || w == MUPAIR) {
            LD want = (pair ? ME : MMU) / (LD)E, tol = 1e-7L * want + 5e-8L;
            m.check(fabsl(t0 - want) < tol && fabsl(t1 - want) < tol, "angle:" + k, sfmt("angles %.9g and %.9g instead of %.9g", (double)t0, (double)t1, (double)want));
        }
        if (t0 > 1e-5 && t1 > 1e-5 && t0 < M_PI - 1e-5 && t1 < M_PI - 1e-5) {
            // on opposite sides of the photon
            LD c0 = dot(out[0].direction, d), c1 = dot(out[1].direction, d), cc = dot(out[0].direction, out[1].direction), side = (cc - c0 * c1) / (sinl(t0) * sinl(t1));
            m.check(side < -1 + 1e-4L, "opposite:" + k, sfmt("cosine between the sides %.9g", (double)side));
            m.note("sides judged");
        }
    });
    m.once("refusals", [&](mon::Rng&) {
        // targets that no table was made for
        settings();
        auto& e = model(TSAI, 0, 0);
        Component u("Unobtainium", 77, 180, 1);
        vector<double> rnd(4, .5);
        StochasticLoss L((int)InteractionType::Photopair, 100, Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), 0, 0, 100, u.GetHash());
        for (int w : { TSAI, KMFWD, MUPAIR, WEAK }) {
            auto& q = model(w, 0, 0);
            bool threw = false;
            L.parent_particle_energy = L.energy = 1e7;
            try { q.model->CalculateSecondaries(L, u, rnd); } catch (const std::exception&) { threw = true; }
            m.check(threw, string("unknown target:") + NAMES[w], "products without a table");
        }
        bool threw = false;
        try { sc::PhotoPairProductionTsai().CalculateSecondaries(L, e.M->GetComponents()[0], rnd); } catch (const std::exception&) { threw = true; }
        m.check(threw, "no table", "products without any table");
        m.nontrivial();
    });
}
int main(int c, char** v) { return mon::run(c, v); }
