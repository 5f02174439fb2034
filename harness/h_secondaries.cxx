// Y01 secondaries
#include "xs.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/Spherical3D.h"
#include "PROPOSAL/crosssection/parametrization/Compton.h"
#include "PROPOSAL/secondaries/SecondariesCalculator.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsEGS4Approximation.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsNoDeflection.h"
#include "PROPOSAL/secondaries/parametrization/compton/NaivCompton.h"
#include "PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h"
#include "PROPOSAL/secondaries/parametrization/ionization/NaivIonization.h"
#include "PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.h"
#include "PROPOSAL/secondaries/parametrization/photoeffect/PhotoeffectNoDeflection.h"
#include "PROPOSAL/secondaries/parametrization/photonuclear/Photonuclear.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/SauterSampling.h"
#include "PROPOSAL/secondaries/parametrization/photoproduction/Photoproduction.h"
#include "num.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include <sstream>
namespace sc = PROPOSAL::secondaries;
typedef std::unique_ptr<sc::Parametrization> Model;

enum Which { COMPTON, IONIZ, BREMSNO, BREMSEGS, BREMSKM, EPAIR, EPAIREE, MUPAIR, PHOTONUC, PHOTOPROD, PHOTOEFF, NWHICH };
static const char* NAMES[] = { "NaivCompton", "NaivIonization", "BremsNoDeflection", "BremsEGS4Approximation", "BremsKochMotz", "KelnerKokoulinPetrukhinEpairProduction", "ForElectronPositronEpairProduction",
    "KelnerKokoulinPetrukhinMupairProduction", "Photonuclear", "Photoproduction", "PhotoeffectNoDeflection" };
static const size_t NRND[] = { 1, 1, 0, 1, 2, 3, 3, 3, 0, 0, 0 };
static const InteractionType TYPES[] = { InteractionType::Compton, InteractionType::Ioniz, InteractionType::Brems, InteractionType::Brems, InteractionType::Brems, InteractionType::Epair, InteractionType::Epair,
    InteractionType::MuPair, InteractionType::Photonuclear, InteractionType::Photoproduction, InteractionType::Photoeffect };
static Model build(int w, const ParticleDef& p, const Medium& M)
{
    switch (w) {
    case COMPTON: return Model(new sc::NaivCompton(p, M));
    case IONIZ: return Model(new sc::NaivIonization(p, M));
    case BREMSNO: return Model(new sc::BremsNoDeflection(p, M));
    case BREMSEGS: return Model(new sc::BremsEGS4Approximation(p, M));
    case BREMSKM: return Model(new sc::BremsKochMotz(p, M));
    case EPAIR: return Model(new sc::KelnerKokoulinPetrukhinEpairProduction(p, M));
    case EPAIREE: return Model(new sc::ForElectronPositronEpairProduction(p, M));
    case MUPAIR: return Model(new sc::KelnerKokoulinPetrukhinMupairProduction(p, M));
    case PHOTONUC: return Model(new sc::Photonuclear(p, M));
    case PHOTOPROD: return Model(new sc::Photoproduction(p, M));
    default: return Model(new sc::PhotoeffectNoDeflection(p, M));
    }
}
static Cartesian3D anydir(mon::Rng& r)
{
    double ph = r.range(-M_PI, M_PI), c = r.range(-1, 1), s;
    switch (r.i(0, 5)) {
    case 0: return Cartesian3D(0, 0, r.sgn());
    case 1: s = r.logr(1e-10, 1e-2), c = r.sgn() * std::sqrt(1 - s * s); break;
    case 2: { double v[3] = { 0, 0, 0 }; v[r.i(0, 1)] = r.sgn(); return Cartesian3D(v[0], v[1], v[2]); }
    default: s = std::sqrt(1 - c * c);
    }
    Cartesian3D d(s * std::cos(ph), s * std::sin(ph), c);
    d.normalize();
    return d;
}
struct V3 {
    LD x[3];
    V3(const Cartesian3D& c) : x { c.GetX(), c.GetY(), c.GetZ() } {}
    V3() : x { 0, 0, 0 } {}
    LD operator*(const V3& o) const { return x[0] * o.x[0] + x[1] * o.x[1] + x[2] * o.x[2]; }
    V3 cross(const V3& o) const
    {
        V3 c;
        for (int i = 0; i < 3; ++i) c.x[i] = x[(i + 1) % 3] * o.x[(i + 2) % 3] - x[(i + 2) % 3] * o.x[(i + 1) % 3];
        return c;
    }
    LD norm() const { return sqrtl(*this * *this); }
    V3 add(LD a, const V3& o) const
    {
        V3 c = *this;
        for (int i = 0; i < 3; ++i) c.x[i] += a * o.x[i];
        return c;
    }
};
static double prob(mon::Rng& r)
{
    switch (r.i(0, 6)) {
    case 0: return r.logr(1e-12, .5);
    case 1: return 1 - r.logr(1e-12, .5);
    case 2: return .5 + r.sgn() * r.logr(1e-9, .4);
    default: return r.u();
    }
}
static cs::KinematicLimits range(int w, const ParticleDef& p, const Component& c, const Medium& M, double E)
{
    switch (w) {
    case COMPTON: return cs::ComptonKleinNishina().GetKinematicLimits(p, c, E);
    case EPAIREE: return cs::EpairForElectronPositron(false).GetKinematicLimits(p, c, E);
    case MUPAIR: return cs::MupairKelnerKokoulinPetrukhin().GetKinematicLimits(p, c, E);
    case PHOTOPROD:
    case PHOTOEFF: {
        cs::KinematicLimits l;
        l.v_min = l.v_max = 1;
        return l;
    }
    default: return limits(TYPES[w], p, c, M, E);
    }
}
static double massof(int type)
{
    switch (type) {
    case (int)ParticleType::Gamma: return 0;
    case (int)ParticleType::Hadron: return 0;
    default: return ParticleDef::GetParticleDefForType(type).mass;
    }
}

PROP(Y01)
{
    m.cases("conservation", 9000, 300000, [&](mon::Rng& r) {
        int w = r.i(0, NWHICH - 1);
        bool photon = w == COMPTON || w == PHOTOPROD || w == PHOTOEFF, electron = w == BREMSKM || w == EPAIREE;
        auto p = photon ? ParticleDef(GammaDef()) : electron ? (r.p(.5) ? ParticleDef(EMinusDef()) : ParticleDef(EPlusDef())) : r.pick(charged());
        auto& M = *media()[r.i(0, media().size() - 1)];
        auto comps = M.GetComponents();
        auto c = comps[r.i(0, comps.size() - 1)];
        double low = w == PHOTOPROD ? 150 : w == PHOTOEFF ? .5 : w == COMPTON ? 1e-3 : p.mass;
        double E = photon ? r.logr(low, 1e14) : anyenergy(r, p.mass);
        auto L = range(w, p, c, M, E);
        if (!(L.v_max > L.v_min || w == PHOTOPROD || w == PHOTOEFF) || !(L.v_max > 0)) throw mon::Skip();
        double v;
        switch (r.i(0, 7)) {
        case 0: v = L.v_max; break;
        case 1: v = L.v_min; break;
        default: v = L.v_min == L.v_max ? L.v_max : between(r, std::max(L.v_min, L.v_max * 1e-12), L.v_max);
        }
        if (v <= 0) v = L.v_max * r.logr(1e-13, 1e-6);
        double loss = E * v;
        auto d = anydir(r);
        Cartesian3D pos(r.range(-1e6, 1e6), r.range(-1e6, 1e6), r.range(-1e6, 1e6));
        double t = r.logr(1e-9, 1), dist = r.logr(1, 1e7);
        StochasticLoss L0((int)TYPES[w], loss, pos, d, t, dist, E, c.GetHash());
        auto model = build(w, p, M);
        string k = NAMES[w];
        vector<double> rnd(model->RequiredRandomNumbers());
        for (auto& x : rnd) x = prob(r);
        rnd.shrink_to_fit();
        string rn;
        for (auto x : rnd) rn += sfmt(" %.17g", x);
        m.describe(sfmt("%s %s on %s E=%.17g v=%.17g in [%.9g, %.9g] direction (%.17g, %.17g, %.17g) numbers%s", k.c_str(), p.name.c_str(), cd(c).c_str(), E, v, L.v_min, L.v_max, d.GetX(), d.GetY(), d.GetZ(), rn.c_str()));
        m.check(rnd.size() == NRND[w], "count:" + k, sfmt("asks for %zu random numbers", rnd.size()));
        m.check(model->GetInteractionType() == TYPES[w], "type:" + k, "belongs to another interaction");
        if (w == EPAIR || w == EPAIREE) {
            // a loss for which the asymmetry has no room has no cross section
            double a = 1 - 4 * ME / (E * v), b = 1 - 6 * p.mass * p.mass / (E * E * (1 - v));
            if (a < 1e-9 || b < 1e-9) { m.note("no room for a pair"); throw mon::Skip(); }
        }
        auto rcopy = rnd;
        vector<ParticleState> out;
        try {
            out = model->CalculateSecondaries(L0, c, rcopy);
        } catch (const std::exception& e) {
            m.check(false, "throws:" + k, e.what());
            return;
        }
        m.note("calculated " + k);
        m.nontrivial();
        // what comes out
        vector<int> expect;
        switch (w) {
        case COMPTON: expect = { 22, 11 }; break;
        case IONIZ: expect = { p.particle_type, 11 }; break;
        case EPAIR:
        case EPAIREE: expect = { p.particle_type, 11, -11 }; break;
        case MUPAIR: expect = { p.particle_type, 13, -13 }; break;
        case PHOTONUC: expect = { p.particle_type, (int)ParticleType::Hadron }; break;
        case PHOTOPROD: expect = { (int)ParticleType::Hadron }; break;
        case PHOTOEFF: expect = { 11 }; break;
        default: expect = { p.particle_type, 22 };
        }
        vector<int> got;
        for (auto& s : out) got.push_back(s.type);
        if (!m.check(got == expect, "particles:" + k, sfmt("%zu particles, first %d", got.size(), got.empty() ? 0 : got[0]))) return;
        LD sum = 0;
        bool sane = true;
        for (size_t i = 0; i < out.size(); ++i) {
            auto& s = out[i];
            sum += s.energy;
            double mass = massof(s.type);
            sane &= m.check(std::isfinite(s.energy) && s.energy >= mass * (1 - 1e-9) - 4e-16 * E, "mass:" + k, sfmt("particle %zu (type %d) has energy %.17g", i, s.type, s.energy));
            double n = s.direction.magnitude();
            sane &= m.check(std::abs(n - 1) < 1e-7, "unit:" + k, sfmt("particle %zu: direction (%.17g, %.17g, %.17g) norm %.17g", i, s.direction.GetX(), s.direction.GetY(), s.direction.GetZ(), n));
            m.check(s.position == pos, "position:" + k, sfmt("particle %zu elsewhere", i));
            m.check(s.time == t, "time:" + k, sfmt("particle %zu at %.17g instead of %.17g", i, s.time, t));
            m.check(s.propagated_distance == 0 || s.propagated_distance == dist, "distance:" + k, sfmt("particle %zu after %.17g", i, s.propagated_distance));
        }
        LD Z = c.GetNucCharge(), want = E;
        if (w == COMPTON || w == IONIZ) want += ME;
        if (w == PHOTOEFF) want += ME - powl(Z * (LD)ALPHA, 2) * ME / 2;
        m.check(fabsl(sum - want) <= 1e-14L * want, "energy:" + k, sfmt("sum %.17g expected %.17g", (double)sum, (double)want));
        if (w != COMPTON && w != PHOTOPROD && w != PHOTOEFF) m.check(std::abs(out[0].energy - (E - loss)) <= 1e-15 * E * 4, "survivor:" + k, sfmt("energy %.17g after losing %.17g", out[0].energy, loss));
        if (w == COMPTON) m.check(std::abs(out[0].energy - (E - loss)) <= 1e-15 * E * 4, "survivor:" + k, sfmt("photon %.17g after losing %.17g", out[0].energy, loss));
        // the same numbers, the same event: repeated and from a fresh object
        {
            auto r2 = rnd, r3 = rnd;
            auto a = model->CalculateSecondaries(L0, c, r2), b = build(w, p, M)->CalculateSecondaries(L0, c, r3);
            bool same = a.size() == out.size() && b.size() == out.size();
            for (size_t i = 0; same && i < out.size(); ++i) same = a[i].energy == out[i].energy && b[i].energy == out[i].energy && (!sane || (a[i].direction == out[i].direction && b[i].direction == out[i].direction));
            m.check(same, "repeat:" + k, "another event for the same random numbers");
            // the numbers handed over are all there is to it: the generator of the user is left alone
            auto stream = [] { std::ostringstream o; RandomGenerator::Get().Serialize(o); return o.str(); };
            RandomGenerator::Get().SetSeed(r.i(1, 1 << 30));
            auto before = stream();
            auto r4 = rnd;
            model->CalculateSecondaries(L0, c, r4);
            m.check(stream() == before, "stream:" + k, "changes the stream of random numbers");
        }
        if (!sane) return;
        V3 D(d);
        if (w == COMPTON || w == IONIZ) {
            LD mu = w == COMPTON ? 0 : p.mass, e = E, f = out[0].energy, pi = sqrtl((e - mu) * (e + mu)), pf = sqrtl(std::max(0.L, (f - mu) * (f + mu))), T = e * v, pe = sqrtl(T * (T + 2 * (LD)ME));
            V3 a(out[0].direction), b(out[1].direction);
            V3 bal;
            bal = bal.add(pf, a).add(pe, b).add(-pi, D);
            // cosines carry a rounding of E E'/(p p'), angles its root
            LD d1 = 2e-15L * (e + ME) * f / (pi * std::max(pf, 1e-30L)), d2 = 2e-15L * (e + ME) * (T + ME) / (pi * std::max(pe, 1e-30L));
            if (d1 > 1e-3L || d2 > 1e-3L) { m.note("angles not resolved " + k); return; }
            LD tol = pf * sqrtl(2 * d1) + pe * sqrtl(2 * d2) + 1e-11L * pi, tl = pf * d1 + pe * d2 + 1e-11L * pi;
            m.check(bal.norm() <= tol, "momentum:" + k, sfmt("missing momentum %.9g of %.9g", (double)bal.norm(), (double)pi));
            LD along = bal * D;
            m.check(fabsl(along) <= tl, "momentum:along:" + k, sfmt("missing momentum along the track %.9g of %.9g", (double)along, (double)pi));
            if (bal.norm() < 1e-3L * pf * a.cross(D).norm()) m.note("transverse momentum resolved " + k);
            // a further number turns the event about the axis
            auto r2 = rnd;
            double step_ = r.range(.01, .99);
            r2[0] = std::fmod(rnd[0] + step_, 1.);
            auto o2 = model->CalculateSecondaries(L0, c, r2);
            V3 a2(o2[0].direction);
            LD s1 = a.cross(D).norm(), s2 = a2.cross(D).norm();
            if (s1 > 1e-5L && std::min(1 - std::abs(d.GetZ()), 1.) > 1e-9) {
                // the cosine is rebuilt from the sine, the axes from the polar angle of the track
                LD ca = fabsl(a * D), axis = hypotl(D.x[0], D.x[1]);
                m.close((double)(a * D), (double)(a2 * D), 1e-12, 1e-12 + (double)std::min(3e-8L, 2e-15L / (ca + 1e-9L) + (axis > 0 ? 1e-15L / axis : 0)), "turn:angle:" + k, "polar angle with another azimuth");
                V3 ta = a.add(-(a * D), D), tb = a2.add(-(a2 * D), D);
                LD ang = atan2l(ta.cross(tb) * D, ta * tb), ex = 2 * M_PIl * step_;
                LD dev = remainderl(ang - ex, 2 * M_PIl);
                m.check(fabsl(dev) < 1e-9L / s1 + 1e-6L, "turn:azimuth:" + k, sfmt("turned by %.9g instead of %.9g", (double)ang, (double)ex));
                m.note("turned " + k);
                (void)s2;
            }
        }
        if (w == BREMSNO || w == PHOTONUC || w == PHOTOPROD || w == PHOTOEFF || w == EPAIR || w == EPAIREE || w == MUPAIR)
            for (auto& s : out) m.check(s.direction == d, "collinear:" + k, "a particle leaves the direction of its parent");
        if (w == BREMSEGS || w == BREMSKM) {
            LD pi = sqrtl(((LD)E - p.mass) * ((LD)E + p.mass));
            V3 g(out[1].direction), e(out[0].direction), q;
            q = q.add(pi, D).add(-(LD)loss, g);
            LD n = q.norm();
            m.check((q.cross(e)).norm() <= 1e-9L * n + 4e-8L * 0 + 1e-15L * pi, "momentum:" + k, sfmt("the lepton misses the momentum left by the photon by %.9g of %.9g", (double)q.cross(e).norm(), (double)n));
            m.check(q * e >= 0, "momentum:sign:" + k, "the lepton goes against its momentum");
            if (w == BREMSEGS) {
                LD th = atan2l(g.cross(D).norm(), g * D), ex = (LD)p.mass / E;
                m.check(fabsl(th - ex) <= 4e-8L + 1e-9L * ex, "angle:" + k, sfmt("photon angle %.9g instead of %.9g", (double)th, (double)ex));
            }
        }
        if (w == EPAIR || w == EPAIREE || w == MUPAIR) {
            // the split between the pair follows the differential cross section
            LD E1 = out[1].energy, E2 = out[2].energy, rho = (E1 - E2) / (E1 + E2);
            bool neg = rnd[1] < .5;
            LD tiny = 1e-9L;
            m.check(neg ? rho <= tiny : rho >= -tiny, "sign:" + k, sfmt("asymmetry %.9g for the number %.9g", (double)rho, rnd[1]));
            LD mx = w == MUPAIR ? 1 - 2 * (LD)MMU / loss : sqrtl(1 - 4 * (LD)ME / loss) * (1 - 6 * (LD)p.mass * p.mass / ((LD)E * E * (1 - v)));
            m.check(fabsl(rho) <= mx + 1e-9L, "range:" + k, sfmt("asymmetry %.9g beyond %.9g", (double)rho, (double)mx));
            auto dens = [&](LD x) -> LD {
                // the density of the pair production parametrizations is a function of 1 - rho
                if (w == EPAIR) { static cs::EpairKelnerKokoulinPetrukhin q(false); return q.FunctionToIntegral(p, c, E, v, (double)(1 - x)); }
                if (w == EPAIREE) { static cs::EpairForElectronPositron q(false); return q.FunctionToIntegral(p, c, E, v, (double)(1 - x)); }
                static cs::MupairKelnerKokoulinPetrukhin q;
                return q.FunctionToIntegral(p, c, E, v, (double)x);
            };
            if (mx > 1e-3L && r.p(.4)) {
                // in u = ln(1-rho/max)
                auto in = [&](LD a, LD b) {
                    LD lo = logl(std::max(1e-14L, 1 - b / mx)), hi = logl(std::max(1e-14L, 1 - a / mx)), t = 0;
                    for (int i = 0; i < 40 && lo < hi; ++i) t += num::gl<8>([&](LD u) { return dens(mx * (1 - expl(u))) * mx * expl(u); }, lo + (hi - lo) * i / 40, lo + (hi - lo) * (i + 1) / 40);
                    return t;
                };
                LD part = in(0, std::min(fabsl(rho), mx)), tot = part + in(std::min(fabsl(rho), mx), mx);
                // next to the largest losses the formula is cut off at zero within the range: a kink the integrator does not resolve
                bool cut = false;
                for (int i = 1; i < 32; ++i) cut |= !(dens(mx * i / 32) > 0);
                if (cut)
                    m.note("cut off within the range " + k);
                else if (tot > 0) {
                    m.note("splits compared " + k);
                    LD q = part / tot;
                    m.worst("quantile difference " + k, (double)std::min(fabsl(q - rnd[0]), fabsl(1 - q - rnd[0])));
                    m.check(std::min(fabsl(q - rnd[0]), fabsl(1 - q - rnd[0])) < (p.mass > 2000 || E > 1e12 ? .1L : w == MUPAIR ? .05L : 3e-2L), "split:" + k, sfmt("asymmetry %.9g is the quantile %.9g, asked for %.9g", (double)rho, (double)q, rnd[0]));
                } else
                    m.note("no cross section left " + k);
            }
        }
    });
    // the photon angle of Koch and Motz against its density
    m.cases("kochmotz", 60, 600, [&](mon::Rng& r) {
        auto p = r.p(.5) ? ParticleDef(EMinusDef()) : ParticleDef(EPlusDef());
        auto c = anycomp(r);
        auto& M = *media()[0];
        double E = p.mass * (1 + r.logr(.5, 1e4)), v = r.range(.05, .95) * (1 - p.mass / E), k = E * v;
        sc::BremsKochMotz model(p, M);
        Cartesian3D d(0, 0, 1);
        m.describe(sfmt("%s on %s E=%.17g v=%.17g", p.name.c_str(), cd(c).c_str(), E, v));
        LD e0 = E / ME, e1 = (E - k) / ME, q = e1 / e0, xm = powl(M_PIl * e0, 2), Z = c.GetNucCharge();
        auto g = [&](LD x) { // EGS5 (2.152)
            LD mm = powl((1 - q) / (2 * e0 * q), 2) + powl(cbrtl(Z) / (111 * (x + 1)), 2);
            return 3 * (1 + q * q) - 2 * q - (4 + logl(mm)) * ((1 + q * q) - 4 * x * q / powl(x + 1, 2));
        };
        // sampled in s = x/(1+x): uniform times g
        auto dens = [&](LD s) { return std::max(0.L, g(s / (1 - s))); };
        // rejection works where g stays below the larger of its ends and its value at one
        LD top = std::max(g(0), std::max(g(1), g(xm))), worst = 0, least = 1e30L;
        for (int i = 0; i <= 400; ++i) { LD s = xm / (1 + xm) * i / 400; worst = std::max(worst, g(s / (1 - s))); least = std::min(least, g(s / (1 - s))); }
        if (worst > top * 1.0001L || least < 0 || top <= 0) { m.note("density not below its bound"); throw mon::Skip(); }
        const int n = 1500, B = 400;
        vector<LD> cdf(B + 1, 0);
        LD sm = xm / (1 + xm);
        for (int i = 0; i < B; ++i) cdf[i + 1] = cdf[i] + num::gl<8>([&](LD s) { return dens(s); }, sm * i / B, sm * (i + 1) / B);
        vector<LD> u;
        for (int i = 0; i < n; ++i) {
            vector<double> rnd { r.u(), r.u() };
            auto o = model.CalculateDirections(d, E, k, c, rnd);
            LD th = atan2l(hypotl(o.second.GetX(), o.second.GetY()), o.second.GetZ()), x = powl(th * e0, 2), s = x / (1 + x) / sm * B;
            int j = std::max(0, std::min(B - 1, (int)s));
            u.push_back((cdf[j] + (cdf[j + 1] - cdf[j]) * (s - j)) / cdf[B]);
        }
        std::sort(u.begin(), u.end());
        LD ks = 0;
        for (int i = 0; i < n; ++i) ks = std::max(ks, std::max(fabsl(u[i] - (LD)i / n), fabsl(u[i] - (LD)(i + 1) / n)));
        LD lam = ks * sqrtl(n);
        m.worst("Kolmogorov distance", (double)lam);
        m.check(lam < 3.3, "angles", sfmt("Kolmogorov-Smirnov statistic %.3f for %d photons", (double)lam, n));
        m.nontrivial();
    });
    m.cases("sauter", 2000, 60000, [&](mon::Rng& r) {
        double e1 = ME * (1 + (r.p(.1) ? 0 : r.logr(1e-9, 1e10))), e2 = ME * (1 + (r.p(.1) ? 0 : r.logr(1e-9, 1e10)));
        auto d = anydir(r);
        sc::SauterSampling s;
        double a = prob(r), b = prob(r), z = prob(r);
        auto c = media()[0]->GetComponents()[0];
        m.describe(sfmt("energies %.17g %.17g numbers %.17g %.17g %.17g", e1, e2, a, b, z));
        auto o = s.CalculateDirections(d, c, a, b, z, e1, e2);
        V3 D(d), x(std::get<0>(o)), y(std::get<1>(o));
        bool ok = m.check(fabsl(x.norm() - 1) < 1e-7L && fabsl(y.norm() - 1) < 1e-7L, "unit", sfmt("norms %.9g %.9g", (double)x.norm(), (double)y.norm()));
        if (!ok) return;
        auto cosine = [&](double e, double u) { LD p_ = sqrtl(((LD)e - ME) * ((LD)e + ME)), w = 2 * (LD)u - 1; return (e * w + p_) / (p_ * w + e); };
        // 1-cos keeps few digits for energetic particles
        auto cmp = [&](LD got, LD want, LD e, LD u, const char* n) { LD den = sqrtl((e - ME) * (e + ME)) * (2 * u - 1) + e; m.check(fabsl(got - want) < 1e-11L + 1e-7L * (1 - fabsl(want)) + 4e-15L * e / den + 5e-8L * sqrtl(std::max(0.L, 1 - want * want)), string("angle:") + n, sfmt("cosine %.17g expected %.17g", (double)got, (double)want)); };
        // near rest the momentum is a difference of squares
        if (e1 > ME * (1 + 1e-6)) cmp(x * D, cosine(e1, b), e1, b, "electron");
        if (e2 > ME * (1 + 1e-6)) cmp(y * D, cosine(e2, z), e2, z, "positron");
        V3 tx = x.add(-(x * D), D), ty = y.add(-(y * D), D);
        if (tx.norm() > 1e-5L && ty.norm() > 1e-5L) m.check(tx * ty / (tx.norm() * ty.norm()) < -1 + 1e-6L, "opposite", "the pair is not back to back in the transverse plane");
        m.nontrivial();
    });
    // the calculator hands a loss to the model of its interaction, and refuses others
    m.cases("calculator", 1500, 40000, [&](mon::Rng& r) {
        auto p = r.pick(charged());
        auto& M = *media()[r.i(0, media().size() - 1)];
        auto comps = M.GetComponents();
        auto c = comps[r.i(0, comps.size() - 1)];
        bool def = r.p(.5);
        vector<int> w;
        for (int k : { (int)IONIZ, (int)BREMSEGS, (int)EPAIR, (int)MUPAIR, (int)PHOTONUC }) if (r.p(.6)) w.push_back(k);
        vector<InteractionType> types;
        for (int k : w) types.push_back(TYPES[k]);
        SecondariesCalculator calc = def ? SecondariesCalculator(types, p, M) : SecondariesCalculator();
        if (!def) for (int k : w) calc.addInteraction(build(k, p, M));
        static const vector<int> all { IONIZ, BREMSEGS, EPAIR, MUPAIR, PHOTONUC };
        int ask = r.pick(all);
        bool known = std::find(w.begin(), w.end(), ask) != w.end();
        double E = p.mass * 100 + r.logr(1e4, 1e9), v = r.range(.05, .3);
        auto d = anydir(r);
        auto type = TYPES[ask];
        int number = (int)type;
        if (!known && r.p(.5)) { number = r.p(.5) ? (int)r.i(-5, 5) : (int)r.i(0, 2000000000); for (int k : w) if ((int)TYPES[k] == number) throw mon::Skip(); }
        StochasticLoss L((int)number, E * v, Cartesian3D(1, 2, 3), d, 1., 2., E, c.GetHash());
        m.describe(sfmt("%s asked for %s, type %d, %zu models%s", p.name.c_str(), NAMES[ask], number, w.size(), def ? " (default)" : ""));
        size_t n = calc.RequiredRandomNumbers((InteractionType)number);
        m.check(n == (known ? NRND[ask] : 0), "count", sfmt("%zu random numbers", n));
        vector<double> rnd(NRND[ask]);
        for (auto& x : rnd) x = r.u();
        bool thrown = false;
        vector<ParticleState> o;
        try { o = calc.CalculateSecondaries(L, c, rnd); } catch (const std::logic_error&) { thrown = true; }
        m.check(thrown == !known, "unknown", known ? "a known interaction is refused" : "an unknown interaction is accepted");
        if (known && !thrown) {
            auto b = build(ask, p, M)->CalculateSecondaries(L, c, rnd);
            bool same = b.size() == o.size();
            for (size_t i = 0; same && i < b.size(); ++i) same = b[i] == o[i];
            m.check(same, "model", "the calculator gives other particles than its model");
            m.nontrivial();
        }
    });
}

int main(int c, char** v) { return mon::run(c, v); }
