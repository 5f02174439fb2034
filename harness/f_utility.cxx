// P04 propagation utilities: tables and integrals of the same quantities.
#include "bench.h"
using namespace bench;
static const double C = 2.99792458e10;
static double dist(Cartesian3D const& a, Cartesian3D const& b) { return (a - b).magnitude(); }
struct Pair { // calculators with and without tables of their own
    Matter* a;
    shared_ptr<Displacement> disp[2];
    shared_ptr<Interaction> inter[2], free;
    shared_ptr<Time> time[2];
    shared_ptr<::PROPOSAL::Decay> decay[2];
    shared_ptr<ContRand> rand[2];
};
static Pair& pair(int k, int i)
{
    static std::map<int, Pair> all;
    auto it = all.find(2 * k + i);
    if (it != all.end()) return it->second;
    Bench& b = bench::get(k);
    Matter& a = b.m[i];
    Pair& q = all[2 * k + i];
    q.a = &a;
    q.disp[0] = a.disp; q.inter[0] = a.inter; q.time[0] = a.exact; q.decay[0] = a.decay; q.rand[0] = a.rand;
    q.disp[1] = make_displacement(a.cross, false);
    q.inter[1] = make_interaction(q.disp[1], a.cross, false, false);
    q.free = make_interaction(a.disp, a.cross, false, true);
    q.time[1] = make_time(q.disp[1], *b.p, false);
    if (a.decay) q.decay[1] = make_decay(q.disp[1], *b.p, false);
    if (a.rand) q.rand[1] = make_contrand(q.disp[1], a.cross, false);
    return q;
}
static LD spread(Matter& a, double E)
{
    LD s = 0;
    for (auto& c : a.cross) s += c->CalculatedE2dx(E);
    return s;
}
PROP(P04)
{
    m.cases("integrals", 1000, 30000, [&](Rng& r) {
        int k = m.index % 8 + 8 * (m.index / 8 % (m.thorough() ? 4 : 1)), w = r.i(0, 1);
        Bench& b = bench::get(k);
        Pair& q = pair(k, w);
        Matter& a = *q.a;
        double M = b.p->mass, lim = a.disp->GetLowerLim();
        bool ph = b.kind == 5;
        double E1 = r.p(.1) ? lim : r.logr(lim * 1.0001, 4e8), E3 = r.p(.1) ? E1 * (1 + r.logr(1e-7, 1e-2)) : r.logr(E1, 5e8), E2 = E1 + (E3 - E1) * r.u();
        if (!(E1 <= E2 && E2 <= E3 && E3 > E1)) throw mon::Skip();
        double rho = r.logr(1e-4, 20);
        int v = r.i(0, 1);
        m.describe(b.str + sfmt(" matter %d %s, E %.17g %.17g %.17g density %.17g", w, v ? "integrals" : "tables", E3, E2, E1, rho));
        m.note(v ? "direct integrals" : "tables");
        m.nontrivial();
        auto quantity = [&](const char* n, std::function<double(double, double)> f, std::function<double(double)> weight) {
            if (ph && !v) return f(E3, E1); // tables with few nodes do not resolve the thresholds of photons
            LD whole = along(a, std::max(2 * E3, 1.5 * M), std::max(lim, 1e-3), weight), want = along(a, E3, E1, weight);
            double x = f(E3, E1), y = f(E3, E2), z = f(E2, E1);
            bool step = n[0] == 'i'; // the rate of interactions sets in with a threshold
            double tol = step ? 5e-3 : E1 < 1.5 * M ? 2e-2 : v ? 1e-3 : 4e-4;
            m.check(x >= -1e-12 * whole && y >= -1e-12 * whole && z >= -1e-12 * whole, "negative", sfmt("%s: %g = %g + %g", n, x, y, z));
            if (!ph || !v || E1 > 10) m.close(x, y + z, n[0] == 't' && E1 < 1.5 * M ? .3 : v ? step ? .1 : 1e-2 : 1e-6, (v ? 1e-4 : step ? 3e-6 : 1e-7) * (double)whole, "additive", string(n));
            if (!ph || E1 > 3) m.close(x, want, ph || step ? .05 : .012, tol * (double)whole, "value", string(n));
            if (want > 1e-3 * whole && E1 > 1.5 * M && !ph) m.worst(string(v ? "integral of " : "table of ") + n, (double)fabsl(x / want - 1));
            m.note(string("judged ") + n);
            return x;
        };
        double S = quantity("column", [&](double i, double f) { return q.disp[v]->SolveTrackIntegral(i, f); }, [](double) { return 1.; });
        double T = quantity("time", [&](double i, double f) { return q.time[v]->TimeElapsed(i, f, NAN, rho) * rho; }, [&](double E) { return E / (C * sqrt(std::max(1e-300, (E - M) * (E + M)))); });
        if (E1 > 1.5 * M && !(ph && (!v || E1 < 10))) m.check(T * C >= S * (1 - (ph ? .1 : .03)), "faster than light", sfmt("%g g/cm2 in %g s at 1 g/cm3", S, T));
        m.close(a.approx->TimeElapsed(E3, E1, S, rho), S / (C * rho), 1e-12, 0, "approximate-time", "time at the speed of light");
        quantity("interactions", [&](double i, double f) { return q.inter[v]->EnergyIntegral(i, f); }, [&](double E) { return (double)rate(a, E); });
        if (q.rand[v]) quantity("variance", [&](double i, double f) { return q.rand[v]->Variance(i, f); }, [&](double E) { return (double)spread(a, E); });
    });
    m.cases("inverse", 1000, 30000, [&](Rng& r) {
        int k = m.index % 8 + 8 * (m.index / 8 % (m.thorough() ? 4 : 1)), w = r.i(0, 1);
        Bench& b = bench::get(k);
        Pair& q = pair(k, w);
        Matter& a = *q.a;
        double M = b.p->mass, lim = a.disp->GetLowerLim(), rho = r.logr(1e-4, 20);
        bool ph = b.kind == 5;
        double E = r.logr(lim * 1.001, 5e8), rnd = r.p(.1) ? r.logr(1e-300, 1) : r.p(.1) ? 1 - r.logr(1e-15, .1) : r.u();
        int v = r.i(0, 1);
        m.describe(b.str + sfmt(" matter %d %s, E %.17g rnd %.17g density %.17g", w, v ? "integrals" : "tables", E, rnd, rho));
        m.nontrivial();
        double L = -log(rnd);
        // reached: the energy at which the accumulated integral is the wanted one
        auto inverse = [&](const char* n, double got, std::function<double(double)> f, double want) {
            double all = f(lim);
            if (!m.check(got >= lim * (1 - 1e-12) && got <= E * (1 + 1e-12), "range", sfmt("%s: energy %.17g not within %.17g and %.17g", n, got, lim, E))) return;
            if (!(all > 0)) return;
            got = std::min(std::max(got, lim), E);
            if (want >= all * (1 + 1e-9)) { m.check(got <= lim * (1 + 1e-6), "beyond", sfmt("%s: %g wanted of %g, at the energy %.17g", n, want, all, got)); m.note(string("beyond: ") + n); return; }
            double have = f(got), slope = fabs(f(std::max(lim, got * (1 - 1e-6))) - f(std::min(E, got * (1 + 1e-6))));
            m.close(have, want, v ? 2e-3 : 1e-6, (v ? 1e-3 : 1e-8) * all + 2 * slope, "inverse", string(n) + sfmt(" up to %.17g, of %g", got, all));
            m.note(string("inverted: ") + n);
        };
        { // energy after a column
            auto f = [&](double e) { return q.disp[v]->SolveTrackIntegral(E, e); };
            double all = f(lim), x = all * (r.p(.3) ? r.logr(1e-9, 1) : r.u());
            if (all > 0) inverse("column", q.disp[v]->UpperLimitTrackIntegral(E, x), f, x);
        }
        inverse("interaction", q.inter[v]->EnergyInteraction(E, rnd), [&](double e) { return q.inter[v]->EnergyIntegral(E, e); }, L);
        if (q.decay[v]) {
            auto weight = [&](double e) { return M / (C * sqrt(std::max(1e-300, (e - M) * (e + M)))); };
            double rn = r.p(.5) ? rnd : exp(-(double)along(a, E, std::max(lim, 1.2 * M), weight) / (b.p->lifetime * rho) * r.u()), Ln = -log(rn);
            double got = q.decay[v]->EnergyDecay(E, rn, rho);
            m.check(got >= lim * (1 - 1e-12) && got <= E * (1 + 1e-12), "range", sfmt("decay: energy %.17g not within %.17g and %.17g", got, lim, E));
            if (got > 1.5 * M && E > 1.5 * M && rn < 1 - 1e-6) {
                LD have = along(a, E, got, weight) / (b.p->lifetime * rho), all = along(a, E, 1.2 * M, weight) / (b.p->lifetime * rho);
                m.close(have, Ln, .02, 5e-3 * (double)all, "decay-depth", sfmt("decay integral up to %.17g", got));
                m.note("inverted: decay");
            } else if (got <= lim * (1 + 1e-9)) {
                LD all = along(a, E, 1.2 * M, weight) / (b.p->lifetime * rho);
                if (E > 1.2 * M) m.check(Ln >= all * .97L, "decayed too late", sfmt("%g wanted, %Lg down to 1.2 masses", Ln, all));
                m.note("no decay in flight");
            }
            // later for smaller numbers, earlier in thin matter
            double later = q.decay[v]->EnergyDecay(E, rn * .7, rho), thin = q.decay[v]->EnergyDecay(E, rn, rho / 2);
            m.check(later <= got * (1 + 1e-5) && thin >= got * (1 - 1e-5), "decay-monotone", sfmt("%.17g, for 0.7 of the number %.17g, in half the density %.17g", got, later, thin));
        }
        double later = q.inter[v]->EnergyInteraction(E, rnd * .7), now = q.inter[v]->EnergyInteraction(E, rnd);
        m.check(later <= now * (1 + 1e-5), "interaction-monotone", sfmt("%.17g, for 0.7 of the number %.17g", now, later));
        (void)ph;
    });
    m.cases("rates", 1500, 40000, [&](Rng& r) {
        int k = m.index % 8 + 8 * (m.index / 8 % (m.thorough() ? 4 : 1)), w = r.i(0, 1);
        Bench& b = bench::get(k);
        Pair& q = pair(k, w);
        Matter& a = *q.a;
        double lim = a.disp->GetLowerLim(), E = r.logr(lim * 1.001, 5e8);
        m.describe(b.str + sfmt(" matter %d E %.17g", w, E));
        auto rates = q.inter[0]->Rates(E);
        LD sum = 0, all = rate(a, E);
        std::map<const CrossSectionBase*, LD> per;
        for (auto& x : rates) { sum += x.rate; per[x.crosssection.get()] += x.rate; m.check(x.rate >= 0, "negative rate", sfmt("%g", x.rate)); }
        m.close(sum, all, 1e-9, 1e-300, "sum of rates", "all rates");
        for (auto& c : a.cross) m.close(per[c.get()], c->CalculatedNdx(E), 1e-9, 1e-300, "rates of a process", c->GetParametrizationName());
        if (r.p(.2)) { // a target which is not there: an error, whatever is asked, and nothing is changed by it
            auto& c = a.cross[r.i(0, (int)a.cross.size() - 1)];
            size_t none = r.next();
            double before = c->CalculatedNdx(E);
            int errors = 0;
            try { c->CalculatedNdx(E, none); } catch (std::exception const&) { ++errors; }
            try { c->CalculateCumulativeCrosssection(E, none, .5); } catch (std::exception const&) { ++errors; }
            m.check(errors == 2, "unknown target", c->GetParametrizationName() + ": a rate for a target that is not in the medium");
            m.close(c->CalculatedNdx(E), before, 1e-15, 0, "unknown target", "rate after the wrong question");
            m.note("unknown targets");
        }
        double f = q.inter[0]->MeanFreePath(E), g = q.free->MeanFreePath(E);
        if (all > 0) {
            m.close(f * all, 1, 1e-9, 0, "free path", "mean free path x rate");
            m.note("free paths");
            if (!(b.kind == 5)) {
                LD lo = std::min({ all, rate(a, E * .97), rate(a, E * 1.03) }), hi = std::max({ all, rate(a, E * .97), rate(a, E * 1.03) });
                if (hi < 1.05L * lo && E > 3 * b.p->mass) { m.close(1 / g, all, .03, 0, "tabulated free path", "rate"); m.note("tabulated free paths"); }
            }
        } else { m.check(std::isinf(f), "free path", sfmt("%g without interactions", f)); m.note("no interactions"); return; }
        m.nontrivial();
        // a sampled interaction: the rates of the processes before it and its own up to the loss make up the share
        double rnd = r.p(.1) ? r.logr(1e-12, 1) : r.p(.1) ? 1 - r.logr(1e-9, .1) : r.u();
        auto loss = q.inter[0]->SampleLoss(E, rates, rnd);
        LD acc = 0;
        bool found = false;
        string what = sfmt("share %.17g: type %d loss %.17g target %zx", rnd, (int)loss.type, loss.v_loss, loss.comp_hash);
        for (auto& x : rates) {
            if (acc + x.rate > rnd * sum) {
                found = true;
                double rest = acc + x.rate - rnd * sum;
                if (rest < 1e-9L * sum || x.rate - rest < 1e-9L * sum) { m.note("between two processes"); break; }
                m.check(loss.type == x.crosssection->GetInteractionType() && loss.comp_hash == x.comp_hash, "which process", what);
                double direct = x.crosssection->CalculateStochasticLoss(x.comp_hash, E, rest);
                m.close(loss.v_loss, direct, 1e-6, 1e-12, "loss", what);
                m.check(loss.v_loss >= 0 && loss.v_loss <= 1 + 1e-9, "loss-range", what);
                m.note("sampled losses");
                break;
            }
            acc += x.rate;
        }
        m.check(found, "share", what);
    });
    // the one interface of the propagation hands every question to the calculator it was given
    m.cases("calls", 1500, 40000, [&](Rng& r) {
        int k = m.index % 8 + 8 * (m.index / 8 % (m.thorough() ? 4 : 1)), w = r.i(0, 1);
        Bench& b = bench::get(k);
        Matter& a = b.m[w];
        double M = b.p->mass, lim = a.disp->GetLowerLim(), E = r.p(.1) ? lim * (1 + r.logr(1e-6, 1)) : r.logr(lim * 1.001, 5e8), Ef = E - (E - lim) * (r.p(.5) ? r.u() : r.logr(1e-9, 1)), rho = r.logr(1e-4, 20);
        int si = r.i(0, (int)a.scat.size() - 1);
        Coll c;
        c.displacement_calc = a.disp;
        c.interaction_calc = a.inter;
        c.time_calc = r.p(.5) ? a.exact : a.approx;
        if (r.p(.6)) c.decay_calc = a.decay;
        if (r.p(.6)) c.cont_rand = a.rand;
        c.scattering = a.scat[si];
        PropagationUtility u(c);
        vector<double> num(12);
        for (auto& x : num) x = r.range(1e-6, 1 - 1e-6);
        size_t used = 0;
        auto rnd = [&]() { return num[used++ % 12]; };
        auto fresh = [&]() -> std::function<double()> { used = 0; return rnd; };
        m.describe(b.str + sfmt(" matter %d scattering %s decay %d randomisation %d E %.17g to %.17g", w, a.sname[si].c_str(), c.decay_calc != nullptr, c.cont_rand != nullptr, E, Ef));
        double x = a.disp->SolveTrackIntegral(E, Ef);
        m.close(u.LengthContinuous(E, Ef), x, 1e-13, 0, "call:column", "");
        double part = a.disp->SolveTrackIntegral(E, lim) * r.u();
        if (part > 0) m.close(u.EnergyDistance(E, part), a.disp->UpperLimitTrackIntegral(E, part), 1e-13, 0, "call:energy after a column", "");
        m.close(u.TimeElapsed(E, Ef, x, rho), c.time_calc->TimeElapsed(E, Ef, x, rho), 1e-13, 0, "call:time", "");
        m.close(u.EnergyInteraction(E, fresh()), a.inter->EnergyInteraction(E, num[0]), 1e-13, 0, "call:interaction", "");
        m.close(u.EnergyDecay(E, fresh(), rho), c.decay_calc ? c.decay_calc->EnergyDecay(E, num[0], rho) : 0, 1e-13, 0, "call:decay", "");
        double mine = r.p(.5) ? 0 : Ef * r.u();
        m.close(u.EnergyRandomize(E, Ef, fresh(), mine), c.cont_rand ? c.cont_rand->EnergyRandomize(E, Ef, num[0], mine) : Ef, 1e-13, 0, "call:randomisation", "");
        Cartesian3D d(r.gauss(), r.gauss(), r.gauss());
        d.normalize();
        m.note("calls");
        m.nontrivial();
        auto both = u.DirectionsScatter(x, E, Ef, d, fresh());
        auto mean = std::get<0>(both), out = std::get<1>(both);
        if (!c.scattering) m.check(mean == d && out == d, "call:no scattering", "the direction changed");
        else if (x > 0) {
            auto want = multiple_scattering::ScatterInitialDirection(d, c.scattering->CalculateMultipleScattering(x, E, Ef, std::array<double, 4> { num[0], num[1], num[2], num[3] }));
            m.check(dist(mean, std::get<0>(want)) < 1e-12 && dist(out, std::get<1>(want)) < 1e-12, "call:scattering", sfmt("directions off by %g and %g", dist(mean, std::get<0>(want)), dist(out, std::get<1>(want))));
            m.note("scattered");
        }
        auto comps = a.med->GetComponents();
        size_t hash = comps[r.i(0, comps.size() - 1)].GetHash();
        for (auto& cr : a.cross) {
            auto t = cr->GetInteractionType();
            if (!(Ef > M * (1 + 1e-9)) || !(E > Ef)) break;
            auto now = u.DirectionDeflect(t, E, Ef, d, fresh(), hash);
            size_t n = c.scattering ? c.scattering->StochasticDeflectionRandomNumbers(t) : 0;
            if (!n) { m.check(dist(now, d) < 1e-15, "call:no deflection", sfmt("type %d: the direction changed by %g", (int)t, dist(now, d))); continue; }
            auto q = c.scattering->CalculateStochasticDeflection(t, E, Ef, vector<double>(num.begin(), num.begin() + n), hash);
            double th = q.zenith;
            if (!(th >= 0 && th < M_PI)) { m.note("angles beyond a half turn"); continue; }
            auto across = [&](Cartesian3D const& o) { return o - d * (o * d); };
            double sn = across(now).magnitude(), cn = now * d;
            m.check(std::fabs(std::atan2(sn, cn) - th) < 1e-7 + 1e-9 * th, "call:deflection", sfmt("type %d: turned by %.12g instead of %.12g", (int)t, std::atan2(sn, cn), th));
            m.check(std::fabs(now.magnitude() - 1) < 1e-9, "call:deflected direction", sfmt("norm-1 %g", now.magnitude() - 1));
            // another number of the azimuth, the last one: turned around the direction by the difference
            if (sn > 1e-5) {
                double old = num[n - 1], da = r.range(.05, .45) * (old > .5 ? -1 : 1);
                num[n - 1] = old + da;
                auto other = across(u.DirectionDeflect(t, E, Ef, d, fresh(), hash)), mine2 = across(now);
                num[n - 1] = old;
                double co = mine2 * other / (mine2.magnitude() * other.magnitude());
                m.check(std::fabs(co - std::cos(2 * M_PI * da)) < 1e-5, "call:azimuth", sfmt("type %d: numbers apart by %.9g, cosine between the two %.9g", (int)t, da, co));
                m.note("azimuths");
            }
            m.note("deflected");
        }
    });
    m.cases("randomised", 1500, 40000, [&](Rng& r) {
        int k = m.index % 8 + 8 * (m.index / 8 % (m.thorough() ? 4 : 1)), w = r.i(0, 1);
        Bench& b = bench::get(k);
        Pair& q = pair(k, w);
        Matter& a = *q.a;
        if (!a.rand) throw mon::Skip();
        double lim = a.disp->GetLowerLim(), E = r.logr(lim * 1.001, 5e8), Ef = r.p(.5) ? E * (1 - r.logr(1e-9, .5)) : r.logr(lim, E), mine = r.p(.5) ? 0 : r.u() * Ef;
        Ef = std::max(Ef, lim);
        int v = r.i(0, 1);
        m.describe(b.str + sfmt(" matter %d %s E %.17g to %.17g not below %.17g", w, v ? "integrals" : "tables", E, Ef, mine));
        double var = q.rand[v]->Variance(E, Ef), sd = sqrt(std::max(0., var)), lo = std::max(lim, mine), last = -1;
        double n[7] = { 0, 1e-9, .2, .5, .8, 1 - 1e-9, 1 };
        n[2] = r.range(1e-3, .5); n[4] = r.range(.5, 1 - 1e-3);
        for (double x : n) {
            double e = q.rand[v]->EnergyRandomize(E, Ef, x, mine);
            m.check(e >= lo * (1 - 1e-12) && e <= E * (1 + 1e-12), "range", sfmt("number %g: %.17g not within %.17g and %.17g", x, e, lo, E));
            m.check(e >= last * (1 - 1e-12), "monotone", sfmt("number %g: %.17g after %.17g", x, e, last));
            last = e;
            if (sd > 1e-9 * E && lo < E) { // share of the truncated normal distribution
                auto F = [&](double y) { return .5L * erfcl((Ef - (LD)y) / sd / sqrtl(2)); };
                LD p0 = F(lo), p1 = F(E), noise = sd > 0 ? (LD)(2e-14 * E / sd) : 0;
                if (p1 - p0 > 1e-3L && x > 0 && x < 1) { m.close((F(e) - p0) / (p1 - p0), x, 1e-6, 1e-6 + (double)(noise / (p1 - p0)), "share", sfmt("energy %.17g sd %g", e, sd)); m.note("shares judged"); }
            }
        }
        m.nontrivial();
    });
}
int main(int c, char** v) { return mon::run(c, v); }
