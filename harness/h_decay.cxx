// K01 decay kinematics, K02 decay tables, K03 built-in decays
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "mon.h"
using namespace PROPOSAL;
using mon::sfmt;
using std::vector;
typedef long double ld;

static ParticleDef newdef(double mass, int shard, double charge = 0)
{
    static int next = 3000000;
    int type = next++ * 16 + shard;
    return ParticleDef::Builder().SetName(sfmt("D%d", type)).SetMass(mass).SetParticleType(type).SetCharge(charge).SetLifetime(1e-9).build();
}
static const vector<ParticleDef>& builtins()
{
    static const vector<ParticleDef> v { EMinusDef(), EPlusDef(), MuMinusDef(), MuPlusDef(), NuEDef(), NuEBarDef(), NuMuDef(), NuMuBarDef(), NuTauDef(), NuTauBarDef(),
        PiMinusDef(), PiPlusDef(), Pi0Def(), K0Def(), KMinusDef(), KPlusDef(), GammaDef() };
    return v;
}
static Cartesian3D anydir(mon::Rng& r)
{
    if (r.p(0.2)) {
        int k = (int)r.i(0, 5);
        double s = k < 3 ? 1 : -1;
        return Cartesian3D(k % 3 == 0 ? s : 0, k % 3 == 1 ? s : 0, k % 3 == 2 ? s : 0);
    }
    if (r.p(0.1)) { double e = r.logr(1e-12, 1e-3); return Cartesian3D(e, 0, std::sqrt(1 - e * e)); }
    Cartesian3D d(r.gauss(), r.gauss(), r.gauss());
    d.normalize();
    return d;
}
// where the generator takes its numbers from in this case
struct Source {
    std::shared_ptr<mon::Rng> g;
    std::shared_ptr<uint64_t> calls = std::make_shared<uint64_t>(0);
    int kind;
    Source(mon::Rng& r, int k) : g(std::make_shared<mon::Rng>(r.next())), kind(k)
    {
        auto gg = g;
        auto c = calls;
        int kk = kind;
        std::function<double()> f = [gg, c, kk] {
            ++*c;
            if (kk == 1 && gg->p(0.3)) { // hostile numbers
                static const double x[] = { 0, 5e-324, 1e-300, 1e-17, 1e-12, 1e-6, 0.25, 0.5, 0.75, 1 - 1e-6, 1 - 1e-12, 1 - 1.1102230246251565e-16 };
                return x[gg->i(0, 11)];
            }
            double u = gg->u();
            return u < 1 ? u : 0.5;
        };
        RandomGenerator::Get().SetRandomNumberGenerator(f);
    }
    ~Source() { RandomGenerator::Get().SetDefaultRandomNumberGenerator(); }
};

static double cmass(const vector<ParticleDef>& d) { double s = 0; for (auto& x : d) s += x.mass; return s; }

// the four-momentum balance, judged in long double from the reported states
static void judge(mon::Mon& m, const ParticleDef& parent, const ParticleState& s, const vector<ParticleDef>& want, const vector<ParticleState>& out, bool hostile = false)
{
    if (!m.check(out.size() == want.size(), "number of products", sfmt("%zu instead of %zu", out.size(), want.size()))) return;
    ld E = 0, px = 0, py = 0, pz = 0;
    for (size_t i = 0; i < out.size(); ++i) {
        auto& o = out[i];
        m.check(o.type == want[i].particle_type, "products are those of the channel", sfmt("product %zu is %d instead of %d", i, o.type, want[i].particle_type));
        m.check(o.position == s.position, "position of the parent", "");
        m.check(o.time == s.time, "time of the parent", "");
        ld mass = want[i].mass;
        if (!m.check(std::isfinite(o.energy) && o.energy >= mass * (1 - 1e-12L), "energy at least the rest mass", sfmt("product %zu: %.17g, mass %.17g", i, o.energy, want[i].mass))) continue;
        double mag = o.direction.magnitude();
        m.check(std::fabs(mag - 1) < 1e-9, "unit direction", sfmt("product %zu: magnitude %.17g", i, mag));
        ld p = (ld)o.energy > mass ? sqrtl(((ld)o.energy - mass) * ((ld)o.energy + mass)) : 0;
        E += o.energy;
        px += p * o.direction.GetX(); py += p * o.direction.GetY(); pz += p * o.direction.GetZ();
        m.note("products");
    }
    ld Ep = s.energy, M = parent.mass, P = Ep > M ? sqrtl((Ep - M) * (Ep + M)) : 0;
    // the frames are changed through the momentum: that of a slow product is known within sqrt(eps) of its mass
    ld masses = 0;
    for (auto& w : want) masses += w.mass;
    ld tol = 2e-10L + 2e-7L * masses / M;
    if (hostile && want.size() > 2) tol += 1e-7L; // pairs just above their threshold, boosted: gamma times that
    m.close((double)E, s.energy, (double)tol, 0, "energy conserved");
    ld dx = px - P * s.direction.GetX(), dy = py - P * s.direction.GetY(), dz = pz - P * s.direction.GetZ();
    m.check(sqrtl(dx * dx + dy * dy + dz * dz) <= 2 * tol * Ep, "momentum conserved", sfmt("deviation (%Lg,%Lg,%Lg) of energy %Lg", dx, dy, dz, Ep));
    // transverse to the parent
    ld l = dx * s.direction.GetX() + dy * s.direction.GetY() + dz * s.direction.GetZ();
    ld tx = dx - l * s.direction.GetX(), ty = dy - l * s.direction.GetY(), tz = dz - l * s.direction.GetZ();
    // the momentum of a slow product follows from its energy only within sqrt(eps)
    ld slack = 0;
    for (size_t i = 0; i < out.size(); ++i) {
        ld mm = want[i].mass, p = (ld)out[i].energy > mm ? sqrtl(((ld)out[i].energy - mm) * ((ld)out[i].energy + mm)) : 0;
        ld de = 4e-16L * out[i].energy;
        slack += p > 0 ? std::min(out[i].energy * de / p, sqrtl(2 * out[i].energy * de)) : sqrtl(2 * out[i].energy * de);
    }
    m.check(sqrtl(tx * tx + ty * ty + tz * tz) <= (hostile && want.size() > 2 ? 2e-7L * M : 0) + 2e-7L * masses + 1e-9L * M + 1e-13L * Ep + 10 * slack, "transverse momentum conserved", sfmt("deviation %Lg, energy %Lg, mass %Lg", sqrtl(tx * tx + ty * ty + tz * tz), Ep, M));
}
static ParticleState parentstate(mon::Rng& r, const ParticleDef& d)
{
    ParticleState s;
    s.type = d.particle_type;
    s.position = Cartesian3D(r.gauss() * 1e5, r.gauss() * 1e5, r.gauss() * 1e5);
    s.direction = anydir(r);
    s.energy = r.p(0.25) ? d.mass : r.p(0.3) ? d.mass * (1 + r.logr(1e-14, 1)) : d.mass * r.logr(1, 1e12);
    s.time = r.p(0.3) ? 0 : r.logr(1e-12, 1);
    s.propagated_distance = r.p(0.3) ? 0 : r.logr(1, 1e7);
    return s;
}
// energy of a product in the rest frame of the parent
static ld restenergy(const ParticleDef& d, const ParticleState& s, const ParticleState& o, double mass)
{
    ld g = (ld)s.energy / d.mass, bg = s.energy > d.mass ? sqrtl(g * g - 1) : 0;
    ld p = o.energy > mass ? sqrtl(((ld)o.energy - mass) * ((ld)o.energy + mass)) : 0;
    ld c = (ld)o.direction.GetX() * s.direction.GetX() + (ld)o.direction.GetY() * s.direction.GetY() + (ld)o.direction.GetZ() * s.direction.GetZ();
    return g * o.energy - bg * p * c;
}

PROP(K01)
{
    builtins();
    // all built-in channels
    m.cases("built-in", 40000, 1000000, [&](mon::Rng& r) {
        static const vector<ParticleDef> parents { MuMinusDef(), MuPlusDef(), TauMinusDef(), TauPlusDef() };
        const auto& d = parents[r.i(0, 3)];
        auto s = parentstate(r, d);
        double u = r.u();
        m.describe(sfmt("%s E %.17g, channel %.17g, dir %.17g %.17g %.17g", d.name.c_str(), s.energy, u, s.direction.GetX(), s.direction.GetY(), s.direction.GetZ()));
        DecayChannel& c = d.decay_table.SelectChannel(u);
        Source src(r, (int)r.i(0, 1));
        ParticleState before(s);
        auto out = c.Decay(d, s);
        m.check(s == before, "parent untouched", "");
        vector<ParticleDef> want;
        for (auto& o : out) want.push_back(ParticleDef::GetParticleDefForType(o.type));
        m.check(out.size() >= 2, "has products", sfmt("%zu", out.size()));
        judge(m, d, s, want, out, src.kind);
        m.note("decays " + c.GetName());
        m.nontrivial();
    });
    m.cases("two-body", 30000, 1000000, [&](mon::Rng& r) {
        double a = r.p(0.2) ? 0 : r.logr(1e-3, 1e4), b = r.p(0.2) ? 0 : r.p(0.2) ? a : r.logr(1e-3, 1e4);
        bool at = a + b > 0 && r.p(0.1);
        double M = at ? a + b : (a + b) * (1 + r.logr(1e-9, 1e4)) + (a + b == 0 ? r.logr(1e-3, 1e4) : 0);
        auto d = newdef(M, m.shard, -1), x = newdef(a, m.shard, -1), y = newdef(b, m.shard);
        auto s = parentstate(r, d);
        m.describe(sfmt("%.17g -> %.17g %.17g E %.17g", M, a, b, s.energy));
        Source src(r, (int)r.i(0, 1));
        TwoBodyPhaseSpace c(x, y);
        std::unique_ptr<DecayChannel> cl(c.clone());
        auto out = (r.p(0.5) ? (DecayChannel&)c : *cl).Decay(d, s);
        judge(m, d, s, { x, y }, out);
        if (out.size() == 2) {
            ld e = ((ld)M * M + (ld)a * a - (ld)b * b) / (2 * (ld)M);
            m.close((double)restenergy(d, s, out[0], a), (double)e, 1e-9 + 2e-7 * (a + b) / M, 1e-15 * s.energy / M * s.energy + 2e-7 * (a + b), "two-body energy");
        }
        if (at) m.note("at threshold");
        m.nontrivial();
    });
    m.cases("leptonic", 30000, 800000, [&](mon::Rng& r) {
        double M = r.logr(1e-2, 1e5), a = r.p(0.1) ? 0 : M * (r.p(0.3) ? 1 - r.logr(0.05, 1) : r.logr(1e-6, 0.9));
        if (a < 0) a = 0;
        auto d = newdef(M, m.shard, -1), x = newdef(a, m.shard, -1);
        auto s = parentstate(r, d);
        bool approx = r.p(0.5);
        if (!approx && a == 0) throw mon::Skip(); // the full spectrum is defined for a massive lepton
        m.describe(sfmt("%s %.17g -> %.17g + 2 neutrinos, E %.17g", approx ? "approximate" : "full", M, a, s.energy));
        int hostile = (int)r.i(0, 1);
        Source src(r, hostile);
        mon::Rng shadow(*src.g); // the same numbers
        std::unique_ptr<DecayChannel> c;
        if (approx) c.reset(new LeptonicDecayChannelApprox(x, NuTauDef(), NuMuBarDef()));
        else c.reset(new LeptonicDecayChannel(x, NuTauDef(), NuMuBarDef()));
        if (r.p(0.5)) { std::unique_ptr<DecayChannel> k(c->clone()); c = std::move(k); }
        auto out = c->Decay(d, s);
        judge(m, d, s, { x, NuTauDef(), NuMuBarDef() }, out);
        m.nontrivial();
        if (hostile || out.size() != 3 || s.energy > 10 * M) return;
        // the share of the decay spectrum below the lepton energy is the random number
        double u = shadow.u();
        ld e = restenergy(d, s, out[0], a), emax = ((ld)M * M + (ld)a * a) / (2 * (ld)M);
        auto cum = [&](ld E) -> ld {
            if (approx) { ld x = E / emax, x0 = a / emax; auto f = [](ld x) { return x * x * x * (1 - x / 2); }; return (f(x) - f(x0)) / (f(1) - f(x0)); }
            // integral of p (M E (3M-4E) + m^2 (3E-2M)) by Simpson in p (removes the square root end)
            auto I = [&](ld E) {
                ld P = sqrtl(std::max((ld)0, (E - a) * (E + a)));
                const int n = 400;
                ld h = P / n, sum = 0;
                for (int i = 0; i <= n; ++i) {
                    ld p = i * h, e = sqrtl(p * p + (ld)a * a), f = e > 0 ? p * p / e * (M * e * (3 * M - 4 * e) + (ld)a * a * (3 * e - 2 * M)) : 0;
                    sum += f * ((i == 0 || i == n) ? 1 : i % 2 ? 4 : 2);
                }
                return sum * h / 3;
            };
            return I(E) / I(emax);
        };
        ld tol = 4e-3L * emax;
        ld lo = cum(std::max((ld)a, e - tol)), hi = cum(std::min(emax, e + tol));
        if (emax - a < 3 * tol) return;
        m.note("lepton energies judged against the spectrum");
        m.check(u >= lo - 1e-3 && u <= hi + 1e-3, "lepton energy follows the spectrum", sfmt("random number %g, share below the energy %g..%g", u, (double)lo, (double)hi));
    });
    m.cases("many-body", 3000, 60000, [&](mon::Rng& r) {
        int n = (int)r.i(2, 7);
        vector<ParticleDef> ds;
        ManyBodyPhaseSpace::Builder b;
        bool made = r.p(0.5);
        int massless = 0;
        double scale = r.logr(1e-2, 1e3);
        for (int i = 0; i < n; ++i) {
            if (made) ds.push_back(newdef(r.p(0.2) ? 0 : scale * r.logr(1e-2, 10), m.shard));
            else ds.push_back(builtins()[r.i(0, builtins().size() - 1)]);
            b.addDaughter(ds.back());
            massless += ds.back().mass == 0;
        }
        double sum = cmass(ds);
        double M = sum > 0 ? sum * (1 + r.logr(1e-6, 1e3)) : r.logr(1, 1e4);
        auto d = newdef(M, m.shard);
        int me = (int)r.i(0, 3);
        auto calls = std::make_shared<int>(0);
        if (me == 1) b.setMatrixElement([calls](const ParticleState&, const vector<ParticleState>& p) { ++*calls; return 1 + p[0].energy / 1e3; });
        std::unique_ptr<DecayChannel> c;
        {
            auto built = std::make_unique<ManyBodyPhaseSpace>(b.build());
            if (r.p(0.5)) c.reset(built->clone());
            else c.reset(new ManyBodyPhaseSpace(*built));
            if (r.p(0.2)) { std::unique_ptr<DecayChannel> k(c->clone()); c = std::move(k); }
        }
        bool uniform = r.p(n <= 4 ? 0.7 : n == 5 ? 0.3 : 0.05);
        c->SetUniformSampling(uniform);
        auto s = parentstate(r, d);
        m.describe(sfmt("%d bodies, mass %.17g, sum %.17g, E %.17g, uniform %d, matrix element %d", n, M, sum, s.energy, (int)uniform, me));
        Source src(r, n <= 3 ? (int)r.i(0, 1) : 0);
        for (int k = 0; k < 3; ++k) {
            auto out = c->Decay(d, s);
            judge(m, d, s, ds, out, src.kind);
            s = parentstate(r, d);
        }
        if (me == 1 && uniform) m.check(*calls > 0, "matrix element is used", "");
        m.note(sfmt("%d bodies", n));
        m.nontrivial();
    });
    // statistics of the emission: isotropic in the rest frame, equal products share equally
    m.cases("isotropy", 60, 400, [&](mon::Rng& r) {
        int kind = (int)r.i(0, 4), n;
        double M = r.logr(1, 1e4);
        auto d = newdef(M, m.shard, -1);
        double mass = r.p(0.3) ? 0 : M * r.range(0.01, 0.19);
        std::unique_ptr<DecayChannel> c;
        vector<double> masses;
        auto x = newdef(mass, m.shard, -1);
        if (kind == 0) { c.reset(new TwoBodyPhaseSpace(x, NuTauDef())); masses = { mass, 0 }; n = 2; }
        else if (kind == 1) { c.reset(new LeptonicDecayChannelApprox(x, NuTauDef(), NuMuBarDef())); masses = { mass, 0, 0 }; n = 3; }
        else if (kind == 2) { if (mass == 0) throw mon::Skip(); c.reset(new LeptonicDecayChannel(x, NuTauDef(), NuMuBarDef())); masses = { mass, 0, 0 }; n = 3; }
        else {
            n = (int)r.i(3, 5);
            ManyBodyPhaseSpace::Builder b;
            for (int i = 0; i < n; ++i) { b.addDaughter(x); masses.push_back(mass); }
            c.reset(new ManyBodyPhaseSpace(b.build()));
        }
        m.describe(sfmt("kind %d, %d bodies of mass %g in %g", kind, n, mass, M));
        ParticleState s;
        s.type = d.particle_type;
        s.energy = M;
        s.direction = anydir(r);
        RandomGenerator::Get().SetDefaultRandomNumberGenerator();
        RandomGenerator::Get().SetSeed((int)r.i(0, 1 << 30));
        const int N = 4000;
        vector<double> sx(n), sy(n), sz(n), qx(n), qz(n), e(n), e2(n);
        for (int k = 0; k < N; ++k) {
            auto out = c->Decay(d, s);
            if ((int)out.size() != n) return;
            for (int i = 0; i < n; ++i) {
                auto& o = out[i].direction;
                sx[i] += o.GetX(); sy[i] += o.GetY(); sz[i] += o.GetZ();
                qx[i] += o.GetX() * o.GetX(); qz[i] += o.GetZ() * o.GetZ();
                e[i] += out[i].energy; e2[i] += out[i].energy * out[i].energy;
            }
        }
        double lim = 6 * std::sqrt(1. / 3 / N), lim2 = 6 * std::sqrt(4. / 45 / N);
        for (int i = 0; i < n; ++i) {
            m.check(std::fabs(sx[i] / N) < lim && std::fabs(sy[i] / N) < lim && std::fabs(sz[i] / N) < lim, "isotropic emission", sfmt("product %d: mean direction (%g,%g,%g)", i, sx[i] / N, sy[i] / N, sz[i] / N));
            m.check(std::fabs(qx[i] / N - 1. / 3) < lim2 && std::fabs(qz[i] / N - 1. / 3) < lim2, "isotropic emission", sfmt("product %d: second moments (%g,%g)", i, qx[i] / N, qz[i] / N));
            if (kind >= 3) {
                double mean = e[i] / N, sd = std::sqrt(std::max(1e-12, e2[i] / N - mean * mean) / N);
                m.check(std::fabs(mean - M / n) < 6 * sd, "equal products share equally", sfmt("product %d: mean energy %g, expected %g +- %g", i, mean, M / n, sd));
            }
            if (kind == 1 || kind == 2) {
                if (i == 0) continue;
                double mean = e[i] / N, other = e[3 - i] / N, sd = std::sqrt((e2[1] / N + e2[2] / N) / N);
                m.check(std::fabs(mean - other) < 6 * sd, "neutrinos share equally", sfmt("%g %g", mean, other));
            }
        }
        if (kind >= 3 && n == 3 && mass == 0) // flat phase space: x = 2E/M has density 2x
            for (int i = 0; i < 3; ++i) {
                double x2 = e2[i] / N * 4 / M / M;
                m.check(std::fabs(x2 - 0.5) < 6 * 0.29 / std::sqrt(N), "flat three-body phase space", sfmt("second moment %g", x2));
                m.note("flat phase space judged");
            }
        m.nontrivial();
    });
    // no direction is left out: shares of slices along each axis
    m.cases("slices", 16, 200, [&](mon::Rng& r) {
        double M = r.logr(1, 1e4), mass = r.p(.5) ? 0 : M * r.range(.01, .8);
        auto d = newdef(M, m.shard, -1), x = newdef(mass, m.shard, -1);
        TwoBodyPhaseSpace c(x, NuTauDef());
        ParticleState s;
        s.type = d.particle_type;
        s.energy = M;
        s.direction = anydir(r);
        RandomGenerator::Get().SetDefaultRandomNumberGenerator();
        RandomGenerator::Get().SetSeed((int)r.i(0, 1 << 30));
        m.describe(sfmt("mass %g in %g", mass, M));
        const int N = 40000, B = 50;
        vector<vector<int>> h(4, vector<int>(B));
        for (int k = 0; k < N; ++k) {
            auto out = c.Decay(d, s);
            if (out.size() != 2) return;
            auto& o = out[0].direction;
            double v[4] = { o.GetX(), o.GetY(), o.GetZ(), std::atan2(o.GetY(), o.GetX()) / M_PI };
            for (int i = 0; i < 4; ++i) h[i][std::min(B - 1, std::max(0, (int)((v[i] + 1) / 2 * B)))]++;
        }
        for (int i = 0; i < 4; ++i)
            for (int b = 0; b < B; ++b)
                m.check(std::abs(h[i][b] - N / B) < 6.5 * std::sqrt((double)N / B), "isotropic emission", sfmt("%s, slice %d of %d: %d of %d", i == 3 ? "azimuth" : (const char*[]) { "x", "y", "z" }[i], b, B, h[i][b], N));
        m.note("slices", 4 * B);
        m.nontrivial();
    });
    m.cases("boost", 20000, 500000, [&](mon::Rng& r) {
        double mass = r.p(0.3) ? 0 : r.logr(1e-3, 1e3);
        auto d = newdef(mass, m.shard);
        ParticleState s;
        s.type = d.particle_type;
        s.direction = anydir(r);
        double p = r.p(0.05) && mass > 0 ? 0 : (mass > 0 ? mass : 1) * r.logr(1e-6, 1e6);
        s.SetMomentum(p);
        ld E0 = hypotl(p, mass);
        Cartesian3D dir = anydir(r);
        double bg = r.p(0.1) ? 0 : r.logr(1e-6, 1e6), g = std::sqrt(1 + bg * bg), len = r.p(0.5) ? 1 : r.logr(1e-3, 1e3);
        m.describe(sfmt("mass %.17g p %.17g betagamma %.17g", mass, p, bg));
        auto s2 = s;
        DecayChannel::Boost(s2, dir * len, g, bg);
        ld c = (ld)s.direction.GetX() * dir.GetX() + (ld)s.direction.GetY() * dir.GetY() + (ld)s.direction.GetZ() * dir.GetZ();
        ld pl = p * c, plb = (ld)g * pl - (ld)bg * E0, Eb = (ld)g * E0 - (ld)bg * pl;
        ld amp = (ld)g * E0 * 1e-12L;
        ld tx = p * ((ld)s.direction.GetX() - c * dir.GetX()), ty = p * ((ld)s.direction.GetY() - c * dir.GetY()), tz = p * ((ld)s.direction.GetZ() - c * dir.GetZ());
        m.check(fabsl(s2.energy - Eb) <= amp + 10 * bg * std::min(p > 0 ? 4e-16L * E0 * E0 / p : (ld)1e300, 2e-8L * E0), "boosted energy", sfmt("%.17g expected %.17Lg", s2.energy, Eb));
        ld P = s2.energy > mass ? sqrtl(((ld)s2.energy - mass) * ((ld)s2.energy + mass)) : 0;
        m.check(fabsl(s2.direction.magnitude() - 1) < 1e-9, "unit direction", sfmt("%.17g", s2.direction.magnitude()));
        // the momentum of the original is known from its energy only within this
        ld slack = g * std::min(p > 0 ? 4e-16L * E0 * E0 / p : (ld)1e300, 2e-8L * E0) + std::min(P > 0 ? 4e-16L * s2.energy * s2.energy / P : (ld)1e300, 2e-8L * s2.energy);
        ld ex = tx + plb * dir.GetX() - P * s2.direction.GetX(), ey = ty + plb * dir.GetY() - P * s2.direction.GetY(), ez = tz + plb * dir.GetZ() - P * s2.direction.GetZ();
        m.check(sqrtl(ex * ex + ey * ey + ez * ez) <= amp + 10 * slack, "boosted momentum", sfmt("deviation %Lg of %Lg", sqrtl(ex * ex + ey * ey + ez * ez), P));
        // and back
        if (bg < 1e3) {
            DecayChannel::Boost(s2, dir * -len, g, bg);
            m.close(s2.energy, s.energy, 1e-11 * g * g + 1e-7 * g * bg, 0, "boost and back");
        }
        m.nontrivial();
    });
    m.cases("momentum", 20000, 500000, [&](mon::Rng& r) {
        double a = r.p(0.2) ? 0 : r.logr(1e-4, 1e4), b = r.p(0.2) ? 0 : r.logr(1e-4, 1e4), M = (a + b) * (1 + r.logr(1e-8, 1e3)) + (a + b == 0 ? r.logr(1e-3, 10) : 0);
        m.describe(sfmt("%.17g -> %.17g %.17g", M, a, b));
        ld e = ((ld)M * M + (ld)a * a - (ld)b * b) / (2 * (ld)M);
        double p = DecayChannel::Momentum(M, a, b);
        ld want = sqrtl(((ld)M - a - b) * ((ld)M + a + b) * ((ld)M - a + b) * ((ld)M + a - b)) / (2 * (ld)M);
        double rel = 1e-9 + 1e-15 * M / std::max(1e-300, M - a - b);
        m.close(p, (double)want, rel, 0, "two-body momentum");
        m.check(DecayChannel::Momentum(M, b, a) == p || std::fabs(DecayChannel::Momentum(M, b, a) - p) <= 2 * rel * p, "symmetric", "");
        (void)e;
        m.nontrivial();
    });
    m.cases("direction", 200, 2000, [&](mon::Rng& r) {
        RandomGenerator::Get().SetDefaultRandomNumberGenerator();
        RandomGenerator::Get().SetSeed((int)r.i(0, 1 << 30));
        const int N = 4000;
        double s[3] {}, q[3] {}, x[3] {};
        for (int i = 0; i < N; ++i) {
            auto d = DecayChannel::GenerateRandomDirection();
            double v[3] = { d.GetX(), d.GetY(), d.GetZ() };
            m.check(std::fabs(d.magnitude() - 1) < 1e-12, "unit direction", "");
            for (int k = 0; k < 3; ++k) { s[k] += v[k]; q[k] += v[k] * v[k]; x[k] += v[k] * v[(k + 1) % 3]; }
        }
        for (int k = 0; k < 3; ++k) {
            m.check(std::fabs(s[k] / N) < 6 * std::sqrt(1. / 3 / N), "isotropic", sfmt("%g", s[k] / N));
            m.check(std::fabs(q[k] / N - 1. / 3) < 6 * std::sqrt(4. / 45 / N), "isotropic", sfmt("%g", q[k] / N));
            m.check(std::fabs(x[k] / N) < 6 * std::sqrt(1. / 15 / N), "isotropic", sfmt("%g", x[k] / N));
        }
        m.nontrivial();
    });
}

// ---------------------------------------------------------------- K02
PROP(K02)
{
    builtins();
    m.once("empty", [&](mon::Rng&) {
        // a table without channels has nothing to select: an error, not a made-up channel
        DecayTable t, u(t);
        for (auto* x : { &t, &u })
            for (double v : { 0., .5, 1. }) {
                bool thrown = false;
                try { x->SelectChannel(v); } catch (std::exception const&) { thrown = true; }
                m.check(thrown, "empty-selected", sfmt("a channel was selected from an empty table for %g", v));
            }
        ParticleDef d = ParticleDef::Builder().SetName("nameless").SetMass(5).SetLow(5).SetLifetime(1).SetCharge(0).SetParticleType(777003).build();
        bool thrown = false;
        try { d.decay_table.SelectChannel(.5); } catch (std::exception const&) { thrown = true; }
        m.check(thrown, "empty-selected", "a particle without decay channels decayed");
    });
    m.cases("selection", 3000, 60000, [&](mon::Rng& r) {
        int n = (int)r.i(1, 12);
        vector<double> br;
        vector<std::unique_ptr<TwoBodyPhaseSpace>> ch;
        bool equal = false;
        for (int i = 0; i < n; ++i) {
            double b = r.p(0.3) ? r.i(1, 5) * 0.1 : r.p(0.2) ? r.logr(1e-6, 1e3) : r.u();
            if (i && r.p(0.3)) b = br[r.i(0, i - 1)];
            for (double o : br) equal = equal || o == b;
            br.push_back(b);
            ch.emplace_back(new TwoBodyPhaseSpace(builtins()[i], GammaDef()));
        }
        double sum = 0;
        for (double b : br) sum += b;
        std::string txt;
        for (double b : br) txt += sfmt("%.6g ", b);
        m.describe("ratios " + txt);
        auto make = [&](const vector<int>& order) {
            auto t = std::make_unique<DecayTable>();
            for (int i : order) t->addChannel(br[i], *ch[i]);
            return t;
        };
        vector<int> order(n), shuffled;
        for (int i = 0; i < n; ++i) order[i] = i;
        shuffled = order;
        for (int i = n - 1; i > 0; --i) std::swap(shuffled[i], shuffled[r.i(0, i)]);
        auto which = [&](const DecayTable& t, double u) {
            auto& c = t.SelectChannel(u);
            for (int i = 0; i < n; ++i) if (c == *ch[i]) return i;
            return -1;
        };
        auto t = make(order);
        const int N = 2000;
        auto judge = [&](const DecayTable& t, const std::string& what) {
            vector<int> cnt(n);
            int changes = 0, last = -2;
            for (int k = 0; k < N; ++k) {
                int w = which(t, (k + 0.5) / N);
                if (!m.check(w >= 0, "a channel of the table", what)) return;
                cnt[w]++;
                if (w != last) ++changes;
                last = w;
            }
            for (int i = 0; i < n; ++i)
                m.check(std::fabs(cnt[i] - N * br[i] / sum) <= 1.01, "selected in proportion to its ratio", sfmt("%s: channel %d of %d with ratio %.17g of %.17g: %d of %d", what.c_str(), i, n, br[i], sum, cnt[i], N));
            m.check(changes <= n, "one interval per channel", sfmt("%s: %d intervals for %d channels", what.c_str(), changes, n));
        };
        judge(*t, "table");
        if (equal) m.note("tables with equal ratios");
        // the ends of the interval
        m.check(which(*t, 0.) >= 0, "smallest number", "");
        int wl = which(*t, 1 - 1.1102230246251565e-16), wl2 = which(*t, 1 - 1e-12);
        m.check(wl >= 0 && (wl == wl2 || n > 1), "largest number", "");
        if (n > 1 && br[wl2] / sum > 1e-9) m.check(wl == wl2, "largest number belongs to the last interval", sfmt("%d %d", wl, wl2));
        // another order of adding
        auto o = make(shuffled);
        judge(*o, "other order");
        if (!equal) m.check(*o == *t, "order of adding does not matter", "");
        // copies
        DecayTable copy(*t), assigned;
        if (r.p(0.5)) assigned.addChannel(0.7, StableChannel());
        assigned = *t;
        DecayTable third(copy);
        m.check(copy == *t && assigned == *t && !(copy != *t), "copies compare equal", "");
        assigned = *&assigned;
        vector<int> want;
        for (int k = 0; k < 200; ++k) want.push_back(which(*t, (k + 0.3) / 200));
        t.reset();
        for (auto* c : { &copy, &assigned, &third }) {
            for (int k = 0; k < 200; ++k) m.check(which(*c, (k + 0.3) / 200) == want[k], "copies choose identically", "");
        }
        // changing a copy leaves the others
        third.addChannel(sum * 0.5, StableChannel());
        m.check(third != copy && copy == assigned, "copies are independent", "");
        copy.SetStable();
        for (int k = 0; k < 50; ++k) {
            auto d = MuMinusDef();
            ParticleState s;
            s.energy = d.mass;
            s.direction = Cartesian3D(0, 0, 1);
            m.check(copy.SelectChannel((k + 0.5) / 50).Decay(d, s).empty(), "stable particles have no products", "");
        }
        for (int k = 0; k < 200; ++k) m.check(which(assigned, (k + 0.3) / 200) == want[k], "copies are independent", "");
        swap(copy, assigned);
        for (int k = 0; k < 200; ++k) m.check(which(copy, (k + 0.3) / 200) == want[k], "swapped", "");
        m.nontrivial();
    });
    m.cases("stable", 200, 2000, [&](mon::Rng& r) {
        static const vector<ParticleDef> st { EMinusDef(), EPlusDef(), NuEDef(), NuEBarDef(), NuMuDef(), NuMuBarDef(), NuTauDef(), NuTauBarDef(), GammaDef(), StauMinusDef(), StauPlusDef(), MonopoleDef(), SMPMinusDef(), SMPPlusDef() };
        auto& d = st[r.i(0, st.size() - 1)];
        m.describe(d.name);
        ParticleState s;
        s.type = d.particle_type;
        s.energy = d.mass * 2 + 1;
        s.direction = anydir(r);
        for (double u : { 0., 0.5, 1 - 1e-16, r.u() })
            m.check(d.decay_table.SelectChannel(u).Decay(d, s).empty(), "stable particles have no products", d.name);
        DecayTable t(TauMinusDef().decay_table);
        t.SetStable();
        for (double u : { 0., 0.5, 1 - 1e-16, r.u() }) m.check(t.SelectChannel(u).Decay(d, s).empty(), "stable particles have no products", "made stable");
        m.nontrivial();
    });
    // tables and channels with different content compare unequal
    m.cases("comparison", 4000, 60000, [&](mon::Rng& r) {
        auto& B = builtins();
        auto pick = [&] { return B[r.i(0, B.size() - 1)]; };
        auto mk = [&](int kind, const vector<ParticleDef>& d) -> std::unique_ptr<DecayChannel> {
            switch (kind) {
            case 0: return std::make_unique<TwoBodyPhaseSpace>(d[0], d[1]);
            case 1: return std::make_unique<LeptonicDecayChannelApprox>(d[0], d[1], d[2]);
            case 2: return std::make_unique<LeptonicDecayChannel>(d[0], d[1], d[2]);
            case 3: { ManyBodyPhaseSpace::Builder b; for (auto& x : d) b.addDaughter(x); return std::make_unique<ManyBodyPhaseSpace>(b.build()); }
            default: return std::make_unique<StableChannel>();
            }
        };
        vector<ParticleDef> d;
        for (int i = 0; i < 3; ++i) d.push_back(pick());
        int k = (int)r.i(0, 4), k2 = (int)r.i(0, 4);
        auto a = mk(k, d), b = mk(k2, d);
        m.describe(sfmt("kinds %d %d of %s %s %s", k, k2, d[0].name.c_str(), d[1].name.c_str(), d[2].name.c_str()));
        // both spectra of the leptonic decay count as the same channel (a test of the project relies on it)
        bool same = k == k2 || (k + k2 == 3 && k * k2 == 2);
        m.check((*a == *b) == same, "kind of channel", "");
        m.check((*b == *a) == same, "kind of channel", "reversed");
        std::unique_ptr<DecayChannel> c(a->clone());
        m.check(*c == *a && !(*c != *a), "clone", "");
        if (k < 4) {
            int at = (int)r.i(0, k == 0 ? 1 : 2);
            vector<ParticleDef> e;
            for (int i = 0; i < 3; ++i) {
                if (i != at) { e.push_back(d[i]); continue; }
                for (;;) {
                    auto x = pick();
                    if (r.p(0.5)) { bool same = false; for (auto& y : B) if (y.mass == d[i].mass && y.particle_type != d[i].particle_type) { e.push_back(y); same = true; break; } if (same) { m.note("product exchanged for one of equal mass"); break; } }
                    if (x.particle_type != d[i].particle_type) { e.push_back(x); break; }
                }
            }
            auto f = mk(k, e);
            m.check(*f != *a && *a != *f, "other product", sfmt("product %d: %s instead of %s", at, e[at].name.c_str(), d[at].name.c_str()));
            DecayTable s, t;
            s.addChannel(0.4, *a); t.addChannel(0.4, *f);
            m.check(s != t, "tables of different channels", "");
        }
        DecayTable s, t;
        double q = r.u();
        s.addChannel(q, *a); t.addChannel(q * (1 + 1e-9), *a);
        m.check(s != t && !(s == t), "tables of different ratios", "");
        DecayTable u(s);
        u.addChannel(q / 3, *b);
        m.check(u != s && s != u, "table with one more channel", "");
        m.nontrivial();
    });
    // a decay drawn from a copy equals the one drawn from the original under the same seed
    m.cases("copies-decay", 1500, 30000, [&](mon::Rng& r) {
        auto& B = builtins();
        auto d = newdef(r.logr(3e3, 1e4), m.shard);
        auto t = std::make_unique<DecayTable>();
        int n = (int)r.i(1, 5);
        for (int i = 0; i < n; ++i) {
            ManyBodyPhaseSpace::Builder b;
            int k = (int)r.i(3, 4);
            for (int j = 0; j < k; ++j) b.addDaughter(B[r.i(0, B.size() - 1)]);
            if (r.p(0.4)) b.setMatrixElement([](const ParticleState&, const vector<ParticleState>& p) { return 1 + p[1].energy / 1e4; });
            switch (r.i(0, 3)) {
            case 0: t->addChannel(0.1 * (i + 1), TwoBodyPhaseSpace(B[r.i(0, 3)], B[r.i(4, 9)])); break;
            case 1: t->addChannel(0.1 * (i + 1), LeptonicDecayChannel(B[r.i(0, 3)], B[r.i(4, 9)], B[r.i(4, 9)])); break;
            default: t->addChannel(0.1 * (i + 1), b.build());
            }
        }
        auto c = std::make_unique<DecayTable>(*t);
        DecayTable e;
        e = *c;
        bool uni = r.p(0.5);
        t->SetUniformSampling(uni); c->SetUniformSampling(uni); e.SetUniformSampling(uni);
        m.check(*t == *c && e == *c, "copies compare equal", "");
        int seed = (int)r.i(0, 1 << 30);
        auto s = parentstate(r, d);
        m.describe(sfmt("%d channels, mass %g, energy %g, seed %d", n, d.mass, s.energy, seed));
        auto run = [&](DecayTable& x) {
            RandomGenerator::Get().SetDefaultRandomNumberGenerator();
            RandomGenerator::Get().SetSeed(seed);
            vector<ParticleState> out;
            for (int k = 0; k < 4; ++k) {
                auto o = x.SelectChannel(RandomGenerator::Get().RandomDouble()).Decay(d, s);
                out.insert(out.end(), o.begin(), o.end());
            }
            return out;
        };
        auto a = run(*t);
        t.reset();
        auto b = run(*c);
        c.reset();
        auto f = run(e);
        m.check(a == b && a == f, "copies decay identically", "");
        m.nontrivial();
    });
    m.cases("channel-assigned", 300, 3000, [&](mon::Rng& r) {
        // a many-body channel taken over by assignment works after the original is gone
        auto& B = builtins();
        auto d = newdef(r.logr(3e3, 1e4), m.shard);
        auto mk = [&](bool me) {
            ManyBodyPhaseSpace::Builder b;
            for (int j = 0; j < 3; ++j) b.addDaughter(B[r.i(0, B.size() - 1)]);
            if (me) b.setMatrixElement([](const ParticleState&, const vector<ParticleState>& p) { return 1 + p[1].energy / 1e4; });
            return std::make_unique<ManyBodyPhaseSpace>(b.build());
        };
        auto a = mk(r.p(0.5)), b = mk(r.p(0.5));
        auto s = parentstate(r, d);
        m.describe("assigned many-body channel");
        int seed = (int)r.i(0, 1 << 30);
        RandomGenerator::Get().SetSeed(seed);
        if (r.p(0.5)) { b->Decay(d, s); RandomGenerator::Get().SetSeed(seed); }
        *b = *a;
        m.check(*b == *a, "assigned equal", "");
        std::unique_ptr<DecayChannel> ref(a->clone());
        a.reset();
        auto x = b->Decay(d, s);
        RandomGenerator::Get().SetSeed(seed);
        auto y = ref->Decay(d, s);
        m.check(x == y, "assigned channel decays as the original", "");
    });
}

// ---------------------------------------------------------------- K03
static void quantum(int type, double* q)
{
    // charge, electron number, muon number, tau number
    static const std::map<int, std::array<double, 4>> t { { 11, { -1, 1, 0, 0 } }, { 12, { 0, 1, 0, 0 } }, { 13, { -1, 0, 1, 0 } }, { 14, { 0, 0, 1, 0 } }, { 15, { -1, 0, 0, 1 } }, { 16, { 0, 0, 0, 1 } },
        { 22, { 0, 0, 0, 0 } }, { 111, { 0, 0, 0, 0 } }, { 211, { 1, 0, 0, 0 } }, { 311, { 0, 0, 0, 0 } }, { 321, { 1, 0, 0, 0 } } };
    auto i = t.find(std::abs(type));
    if (i == t.end()) throw std::runtime_error(sfmt("unexpected product %d", type));
    for (int k = 0; k < 4; ++k) q[k] += (type < 0 ? -1 : 1) * i->second[k];
}
static int anti(int type) { return (type == 22 || type == 111 || type == 311) ? type : -type; }

PROP(K03)
{
    builtins();
    struct Channel { vector<int> products; double share; std::string name; };
    // the channels as a user sees them: by selecting with a dense row of numbers and decaying
    auto scan = [&](const ParticleDef& d, mon::Rng& r, int N) {
        std::map<const DecayChannel*, Channel> cs;
        vector<const DecayChannel*> order;
        RandomGenerator::Get().SetSeed((int)r.i(0, 1 << 30));
        for (int k = 0; k < N; ++k) {
            auto& c = d.decay_table.SelectChannel((k + 0.5) / N);
            auto& e = cs[&c];
            if (e.products.empty()) {
                order.push_back(&c);
                ParticleState s;
                s.type = d.particle_type;
                s.energy = d.mass;
                s.direction = anydir(r);
                for (auto& o : c.Decay(d, s)) e.products.push_back(o.type);
                e.name = c.GetName();
                std::sort(e.products.begin(), e.products.end());
            }
            e.share += 1. / N;
        }
        vector<Channel> out;
        for (auto* c : order) out.push_back(cs[c]);
        return out;
    };
    m.cases("built-in", 40, 200, [&](mon::Rng& r) {
        static const vector<ParticleDef> parents { MuMinusDef(), MuPlusDef(), TauMinusDef(), TauPlusDef() };
        auto& d = parents[m.index % 4];
        m.describe(d.name);
        const int N = 100003;
        auto cs = scan(d, r, N);
        double total = 0;
        std::set<vector<int>> seen;
        for (auto& c : cs) {
            std::string txt;
            double mass = 0, q[4] = { 0, 0, 0, 0 }, want[4] = { 0, 0, 0, 0 };
            quantum(d.particle_type, want);
            for (int p : c.products) { txt += sfmt("%d ", p); mass += ParticleDef::GetParticleDefForType(p).mass; quantum(p, q); }
            static const char* names[] = { "charge", "electron number", "muon number", "tau number" };
            for (int k = 0; k < 4; ++k) m.check(q[k] == want[k], std::string(names[k]) + " conserved", d.name + " -> " + txt);
            double ch = 0;
            for (int p : c.products) ch += ParticleDef::GetParticleDefForType(p).charge;
            m.check(ch == d.charge, "charge of the definitions conserved", d.name + " -> " + txt);
            m.check(mass < d.mass, "energetically allowed", d.name + " -> " + txt);
            m.check(c.products.size() >= 2, "has products", txt);
            m.check(seen.insert(c.products).second, "each channel once", txt);
            total += c.share;
            m.note("channels");
        }
        m.close(total, 1, 1e-9, 0, "shares sum to one");
        // mirror
        auto& a = parents[(m.index % 4) ^ 1];
        auto as = scan(a, r, N);
        m.check(as.size() == cs.size(), "mirror has as many channels", "");
        for (auto& c : cs) {
            vector<int> mir;
            for (int p : c.products) mir.push_back(anti(p));
            std::sort(mir.begin(), mir.end());
            bool found = false;
            for (auto& b : as)
                if (b.products == mir) {
                    found = true;
                    m.check(std::fabs(b.share - c.share) < 3. / N, "mirror ratio", sfmt("%s: %g and %g", d.name.c_str(), c.share, b.share));
                    m.check(b.name == c.name, "mirror model", b.name + " " + c.name);
                }
            m.check(found, "mirror channel", d.name);
        }
        m.check((d.particle_type == 13 || d.particle_type == -13) ? cs.size() == 1 : cs.size() == 10, "number of channels", sfmt("%zu", cs.size()));
        // published ratios (shares of the listed channels)
        if (std::abs(d.particle_type) == 15) {
            int sg = d.particle_type > 0 ? 1 : -1;
            vector<std::pair<vector<int>, double>> pdg { { { 13, 16, -14 }, .1737 }, { { 11, 16, -12 }, .1783 }, { { -211, 16 }, .1153 }, { { -211, 111, 16 }, .2595 }, { { -211, 111, 111, 16 }, .0952 },
                { { -211, -211, 211, 16 }, .098 }, { { -211, -211, 211, 111, 16 }, .0457 }, { { -211, 111, 111, 111, 16 }, .0119 }, { { -211, 311, 16 }, .01 }, { { -321, 211, -211, 16 }, .00349 } };
            double sum = 0;
            for (auto& p : pdg) sum += p.second;
            for (auto& p : pdg) {
                vector<int> k;
                for (int t : p.first) k.push_back(sg > 0 ? t : anti(t));
                std::sort(k.begin(), k.end());
                double share = 0;
                for (auto& c : cs) if (c.products == k) share += c.share;
                m.close(share, p.second / sum, 5e-3, 2. / N, "published ratio", sfmt("%d..", k[0]));
                m.note("ratios compared");
            }
        } else if (!cs.empty()) {
            vector<int> k = d.particle_type > 0 ? vector<int> { -12, 11, 14 } : vector<int> { -14, -11, 12 };
            std::sort(k.begin(), k.end());
            m.check(cs[0].products == k, "muon decay", "");
        }
        m.nontrivial();
    });
    m.cases("lab", 4000, 100000, [&](mon::Rng& r) {
        // the same numbers conserved decay by decay, for the registered definitions
        static const int types[] = { 13, -13, 15, -15 };
        auto d = ParticleDef::GetParticleDefForType(types[r.i(0, 3)]);
        auto s = parentstate(r, d);
        double u = r.u();
        m.describe(sfmt("%s %.17g", d.name.c_str(), u));
        RandomGenerator::Get().SetSeed((int)r.i(0, 1 << 30));
        auto out = d.decay_table.SelectChannel(u).Decay(d, s);
        double q[4] = { 0, 0, 0, 0 }, want[4] = { 0, 0, 0, 0 };
        quantum(d.particle_type, want);
        for (auto& o : out) quantum(o.type, q);
        for (int k = 0; k < 4; ++k) m.check(q[k] == want[k], "quantum numbers conserved", sfmt("%d", k));
        m.nontrivial();
    });
}

int main(int argc, char** argv) { return mon::run(argc, argv); }
