// Z01: constant objects queried by several threads at once (built with the thread sanitizer).
#include "models.h"
#include "dens.h"
#include "PROPOSAL/decay/DecayChannel.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/math/Spherical3D.h"
#include "PROPOSAL/scattering/multiple_scattering/Highland.h"
#include "PROPOSAL/scattering/stochastic_deflection/ScatteringFactory.h"
#include <atomic>
#include <thread>

typedef vector<double> Ans;
// an object and a question; the answer depends on the seed alone
struct Obj {
    string name;
    std::function<Ans(uint64_t)> ask;
};
static void vec(Ans& a, const Cartesian3D& v) { a.push_back(v.GetX()), a.push_back(v.GetY()), a.push_back(v.GetZ()); }
template <class F> static void tried(Ans& a, F f)
{
    try { f(); } catch (const std::exception&) { a.push_back(-12345); }
}
static Cartesian3D dir(mon::Rng& r)
{
    double c = r.range(-1, 1), s = std::sqrt(1 - c * c), p = r.range(-M_PI, M_PI);
    return Cartesian3D(s * std::cos(p), s * std::sin(p), c);
}
static Obj geometry(mon::Rng& r)
{
    auto b = geo::rbody(r, 1, 1e4, 1e4);
    auto g = b.make();
    auto twin = b.make();
    return { "geometry", [=](uint64_t seed) {
        mon::Rng q(seed);
        Ans a;
        double S = (double)b.size();
        for (int i = 0; i < 6; ++i) {
            Cartesian3D p((double)b.c.x + q.range(-S, S), (double)b.c.y + q.range(-S, S), (double)b.c.z + q.range(-S, S)), d = dir(q);
            auto l = g->DistanceToBorder(p, d);
            a.push_back(l.first), a.push_back(l.second);
            a.push_back(g->IsInside(p, d)), a.push_back(g->IsInfront(p, d)), a.push_back(g->IsBehind(p, d)), a.push_back(g->IsEntering(p, d)), a.push_back(g->IsLeaving(p, d));
            a.push_back((int)g->GetLocation(p, d)), a.push_back(g->DistanceToClosestApproach(p, d));
        }
        a.push_back(*g == *twin), a.push_back(g->GetHierarchy()), vec(a, g->GetPosition());
        std::ostringstream o;
        o << *g;
        a.push_back(g->GetName().size());
        return a;
    } };
}
static Obj density(mon::Rng& r)
{
    double S = r.logr(1, 1e5);
    auto p = dens::rprof(r, S);
    shared_ptr<Density_distr> D = p.make();
    return { "density", [=](uint64_t seed) {
        mon::Rng q(seed);
        Ans a;
        for (int i = 0; i < 4; ++i) {
            auto x = geo::c3(dens::unit(q) * (S * q.range(0, 2))), d = geo::c3(dens::unit(q));
            double l = S * q.range(.01, 1), c = 0;
            a.push_back(D->Evaluate(x));
            tried(a, [&] { a.push_back(c = D->Calculate(x, d, l)); });
            tried(a, [&] { a.push_back(D->Integrate(x, d, l)); });
            tried(a, [&] { a.push_back(D->Correct(x, d, c * .5, l)); });
        }
        std::unique_ptr<Density_distr> C(D->clone());
        a.push_back(*C == *D);
        return a;
    } };
}
static Obj medium(mon::Rng& r)
{
    auto M = media()[r.i(0, media().size() - 1)];
    return { "medium", [=](uint64_t seed) {
        mon::Rng q(seed);
        Ans a { M->GetSumCharge(), M->GetZA(), M->GetI(), M->GetC(), M->GetMassDensity(), M->GetRadiationLength(), M->GetMolDensity(), M->GetMM(), M->GetSumNucleons(), (double)M->GetHash() };
        Medium copy(*M);
        a.push_back(copy == *M);
        for (auto& c : M->GetComponents()) {
            auto f = Component::GetComponentForHash(c.GetHash());
            a.push_back(f.GetNucCharge()), a.push_back(f.GetAtomicNum()), a.push_back(c.GetLogConstant()), a.push_back(c.GetBPrime()), a.push_back(c.GetWoodSaxon()), a.push_back((double)c.GetHash()), a.push_back(f == c);
        }
        a.push_back(Medium::GetMediumForHash(M->GetHash()) == *M);
        tried(a, [&] { a.push_back(Component::GetComponentForHash(q.next()).GetNucCharge()); });
        auto N = CreateMedium("ice");
        a.push_back(N->GetMassDensity());
        std::ostringstream o;
        o << *M;
        return a;
    } };
}
static Obj particle(mon::Rng& r)
{
    shared_ptr<const ParticleDef> p = make_shared<const ParticleDef>(r.pick(charged()));
    double E = p->mass * r.logr(1.001, 1e6);
    ParticleState s((ParticleType)p->particle_type, Cartesian3D(1, 2, 3), Cartesian3D(0, 0, 1), E, 1., 2.);
    auto sp = make_shared<const ParticleState>(s);
    return { "particle", [=](uint64_t seed) {
        mon::Rng q(seed);
        Ans a { p->mass, p->charge, p->lifetime, (double)p->GetHash() };
        auto g = ParticleDef::GetParticleDefForType(p->particle_type);
        a.push_back(g == *p);
        a.push_back(sp->GetMomentum());
        ParticleState c(*sp);
        c.SetMomentum(c.GetMomentum() * q.range(.5, 1));
        a.push_back(c.energy), a.push_back(c == *sp);
        tried(a, [&] { a.push_back(ParticleDef::GetParticleDefForType((int)q.i(-100, -50)).mass); });
        double u = q.u();
        tried(a, [&] { a.push_back(p->decay_table.SelectChannel(u).GetName().size()); });
        auto t = p->decay_table;
        a.push_back(t == p->decay_table);
        std::ostringstream o;
        o << *p << *sp;
        return a;
    } };
}
static Obj parametrisation(mon::Rng& r)
{
    auto k = anycut(r);
    auto M = media()[r.i(0, media().size() - 1)];
    Model q;
    shared_ptr<const ParticleDef> pp;
    for (;;) {
        bool l = r.p(.3);
        ParticleDef b = l ? (r.p(.5) ? (ParticleDef)MuMinusDef() : r.p(.5) ? (ParticleDef)EMinusDef() : (ParticleDef)GammaDef()) : (ParticleDef)MuMinusDef();
        auto all = models(k, l ? &b : nullptr, l ? &*M : nullptr, 1.);
        q = all[r.i(0, all.size() - 1)];
        pp = make_shared<const ParticleDef>(l ? b : beam(r, q.beam));
        // these two keep an interpolation table in use
        if (q.name == "ElectronScreening" || q.name == "PhotoPairKochMotz" || q.name == "WeakCooperSarkarMertsch") continue;
        break;
    }
    auto comps = M->GetComponents();
    auto c = comps[r.i(0, comps.size() - 1)];
    auto& p = *pp;
    // integrals over it
    shared_ptr<CrossSectionDNDX> dn;
    shared_ptr<CrossSectionDEDX> de;
    shared_ptr<CrossSectionDE2DX> d2;
    double top = 1e7;
    bool integrals = q.slow == 1;
    if (integrals) dn = q.dndx(p, c, *M, make_shared<const EnergyCutSettings>(500., .05, false)), de = q.dedx(p, c, *M, make_shared<const EnergyCutSettings>(500., .05, false)), d2 = q.de2dx(p, c, *M, make_shared<const EnergyCutSettings>(500., .05, false));
    return { "cross section " + q.name, [=](uint64_t seed) {
        mon::Rng r(seed);
        Ans a;
        for (int i = 0; i < (q.slow > 1 ? 2 : 4); ++i) {
            double low = q.low(*pp), E = std::max(low, pp->mass) * 1.05 + r.logr(1, top);
            auto L = q.lim(*pp, c, *M, E);
            a.push_back(L.v_min), a.push_back(L.v_max);
            double v = L.v_min > 0 ? L.v_min * std::pow(L.v_max / L.v_min, r.u()) : L.v_max * r.u();
            if (!(L.v_max > L.v_min)) continue;
            tried(a, [&] { a.push_back(q.dsdv(*pp, c, *M, E, v)); });
            tried(a, [&] { a.push_back(q.fdedx(*pp, c, *M, E, v)); });
            if (integrals && i == 0) {
                tried(a, [&] { a.push_back(dn->Calculate(E)); });
                tried(a, [&] { a.push_back(dn->GetUpperLimit(E, dn->Calculate(E) * r.range(.1, .9))); });
                tried(a, [&] { a.push_back(de->Calculate(E)); });
                tried(a, [&] { a.push_back(d2->Calculate(E)); });
            }
        }
        a.push_back((double)q.hash());
        return a;
    } };
}
static Obj scattering(mon::Rng& r)
{
    auto p = r.pick(charged());
    auto M = media()[r.i(0, media().size() - 1)];
    auto h = make_shared<multiple_scattering::Highland>(p, *M);
    double m = p.mass;
    return { "multiple scattering", [=](uint64_t seed) {
        mon::Rng q(seed);
        Ans a;
        for (int i = 0; i < 6; ++i) {
            double E = m * 1.1 + q.logr(1, 1e7), X = q.logr(1e-3, 1e3);
            auto o = h->CalculateRandomAngle(X, E, E * .9 + m * .1, { { q.u(), q.u(), q.u(), q.u() } });
            auto d = multiple_scattering::ScatterInitialDirection(dir(q), o);
            vec(a, d.first), vec(a, d.second);
            double u = q.u(), w = q.u();
            a.push_back(h->CalculateScatteringAngle(X, E, E * .9 + m * .1, u)), a.push_back(h->CalculateScatteringAngle2D(X, E, E * .9 + m * .1, u, w));
        }
        a.push_back(*h == *h->clone());
        return a;
    } };
}
static Obj deflection(mon::Rng& r)
{
    static const char* names[] = { "ionizNaive", "bremsTsaiApproximation", "bremsGinneken", "epairGinneken", "photoBorogPetrukhin", "photoGinneken" };
    int k = r.i(0, 5);
    auto M = media()[r.i(0, media().size() - 1)];
    auto comps = M->GetComponents();
    auto c = comps[r.i(0, comps.size() - 1)];
    ParticleDef mu = MuMinusDef();
    shared_ptr<stochastic_deflection::Parametrization> d = make_stochastic_deflection(string(names[k]), mu, *M);
    return { string("deflection ") + names[k], [=](uint64_t seed) {
        mon::Rng q(seed);
        Ans a;
        for (int i = 0; i < 6; ++i) {
            double E = q.logr(1e4, 1e9), v = q.range(.01, .09);
            vector<double> u(d->RequiredRandomNumbers());
            for (auto& x : u) x = q.u();
            tried(a, [&] {
                auto s = d->CalculateStochasticDeflection(E, E * (1 - v), u, c.GetHash());
                a.push_back(s.zenith), a.push_back(s.azimuth);
            });
        }
        a.push_back(d->clone()->RequiredRandomNumbers());
        return a;
    } };
}
static Obj vectors(mon::Rng& r)
{
    auto d = make_shared<const Cartesian3D>(dir(r));
    auto s = make_shared<const Spherical3D>(*d);
    auto cut = anycut(r);
    return { "vectors and cuts", [=](uint64_t seed) {
        mon::Rng q(seed);
        Ans a;
        Cartesian3D e(*s), t(*d);
        vec(a, e);
        t.deflect(q.range(-1, 1), q.range(0, 6));
        vec(a, t), vec(a, t + *d), vec(a, 2. * *d);
        a.push_back(*d * t), a.push_back(d->magnitude()), a.push_back(s->GetZenith()), a.push_back(*d == t);
        double E = q.logr(1, 1e9), lo = q.range(0, .1), hi = q.range(.2, 1);
        a.push_back(cut->GetCut(E)), a.push_back((double)cut->GetHash());
        cs::KinematicLimits L;
        L.v_min = lo, L.v_max = hi;
        a.push_back(cut->GetCut(L, E));
        return a;
    } };
}
static bool same(const Ans& a, const Ans& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
    return true;
}

PROP(Z01)
{
    m.cases("shared", 1200, 30000, [&](mon::Rng& r) {
        static std::function<Obj(mon::Rng&)> kinds[] = { geometry, density, medium, particle, parametrisation, scattering, deflection, vectors };
        int n = r.i(1, 4);
        vector<Obj> shared, alone;
        media();
        charged();
        int base = r.i(0, 7);
        string what;
        for (int i = 0; i < n; ++i) {
            uint64_t s = r.next();
            int k = i == 0 || r.p(.5) ? base : r.i(0, 7);
            // the object under test and one nobody else has seen
            mon::Rng a(s), b(s);
            shared.push_back(kinds[k](a));
            alone.push_back(kinds[k](b));
            what += (i ? ", " : "") + shared.back().name;
            m.note("shared: " + shared.back().name);
        }
        int T = r.i(2, 6), K = r.i(8, 24);
        m.describe(sfmt("%d threads, %d questions each to %s", T, K, what.c_str()));
        struct Q { int obj; uint64_t seed; Ans got; bool mixed; };
        vector<vector<Q>> plan(T);
        for (auto& t : plan) for (int k = 0; k < K; ++k) t.push_back({ (int)r.i(0, n - 1), 0, {}, false });
        // some questions are the same for all threads
        for (int k = 0; k < K; ++k) { uint64_t s = r.next(); bool eq = r.p(.4); int o = r.i(0, n - 1); for (auto& t : plan) { t[k].seed = eq ? s : r.next(); if (eq) t[k].obj = o; } }
        std::atomic<int> ready(0), go(0);
        vector<std::atomic<int>> busy(n);
        for (auto& b : busy) b = 0;
        vector<string> err(T);
        vector<std::thread> th;
        vector<uint64_t> jit(T);
        for (auto& j : jit) j = r.next();
        for (int i = 0; i < T; ++i)
            th.emplace_back([&, i] {
                mon::Rng j(jit[i]);
                ready.fetch_add(1, std::memory_order_relaxed);
                while (!go.load(std::memory_order_relaxed)) std::this_thread::yield();
                for (auto& q : plan[i]) {
                    // relaxed counters order nothing between the threads
                    int before = busy[q.obj].fetch_add(1, std::memory_order_relaxed);
                    q.mixed = before > 0;
                    if (j.p(.1)) std::this_thread::yield();
                    try { q.got = shared[q.obj].ask(q.seed); } catch (const std::exception& e) { err[i] = e.what(); }
                    q.mixed = busy[q.obj].fetch_sub(1, std::memory_order_relaxed) > 1 || q.mixed;
                    if (j.p(.05)) std::this_thread::sleep_for(std::chrono::microseconds(j.i(1, 60)));
                }
            });
        while (ready.load() < T) std::this_thread::yield();
        go.store(1, std::memory_order_relaxed);
        for (auto& t : th) t.join();
        int mixed = 0;
        uint64_t h = 0;
        for (auto& t : plan) for (auto& q : t) mixed += q.mixed, h = mon::mix(h * 31 + q.mixed + 2 * q.obj);
        for (int k = 0; k < mixed; ++k) m.note("questions while another thread asked the same object");
        for (auto& e : err) m.check(e.empty(), "throws", e);
        for (auto& t : plan)
            for (auto& q : t) {
                Ans want = alone[q.obj].ask(q.seed);
                m.check(same(q.got, want), "answer:" + shared[q.obj].name, "another answer than without other threads");
            }
        if (mixed) m.nontrivial(h);
    });
}
int main(int c, char** v) { return mon::run(c, v); }
