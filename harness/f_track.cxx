// P01 histories, P02 accounting and queries of tracks, P03 reproducibility.
#include "bench.h"
using namespace bench;
static const double C = 2.99792458e10;
static Cartesian3D unit(Cartesian3D v) { v.normalize(); return v; }
static double dist(const Cartesian3D& a, const Cartesian3D& b) { return (a - b).magnitude(); }
static double dotp(const Cartesian3D& a, const Cartesian3D& b) { return a.GetX() * b.GetX() + a.GetY() * b.GetY() + a.GetZ() * b.GetZ(); }
struct Run {
    Bench* b;
    World w;
    ParticleState s0;
    double maxd, mine, far;
    unsigned hier;
    int seed;
    std::shared_ptr<Propagator> prop;
    std::shared_ptr<Secondaries> t;
};
static void go(Run& q)
{
    RandomGenerator::Get().SetSeed(q.seed);
    q.t = std::make_shared<Secondaries>(q.prop->Propagate(q.s0, q.maxd, q.mine, q.hier));
}
static Run setup(Rng& r, Bench& b, bool plain = false)
{
    Run q;
    q.b = &b;
    q.w = world(r, *q.b, plain);
    q.s0 = start(r, *q.b, q.w);
    q.seed = r.i(1, 1 << 30);
    double far = r.p(.4) ? 1e14 : r.logr(1, q.w.size * 4);
    q.maxd = q.s0.propagated_distance + far;
    q.mine = r.p(.6) ? 0 : q.s0.energy * r.logr(1e-3, .9);
    q.hier = r.p(.5) ? 0 : r.i(1, 4);
    if (q.hier && r.p(.7)) { // from inside one of the bodies
        auto& s = q.w.s[r.i(0, (int)q.w.s.size() - 1)];
        if (s.g->GetHierarchy() > 1) q.s0.position = s.g->GetPosition() + q.s0.direction * (q.w.size * r.logr(1e-6, 1e-2));
        q.maxd = q.s0.propagated_distance + (far = 1e14);
    }
    q.prop = std::make_shared<Propagator>(*q.b->p, q.w.sectors);
    q.far = far;
    return q;
}
static Run setup(Mon& m, Rng& r, int k, bool plain = false)
{
    Run q = setup(r, bench::get(k), plain);
    m.describe(q.w.str + sfmt(" E %.17g pos (%g %g %g) dir (%.17g %.17g %.17g) max %g min %g hier %u seed %d", q.s0.energy, q.s0.position.GetX(), q.s0.position.GetY(), q.s0.position.GetZ(),
        q.s0.direction.GetX(), q.s0.direction.GetY(), q.s0.direction.GetZ(), q.far, q.mine, q.hier, q.seed));
    return q;
}
struct Tally { double n = 0, h = 0; };
static std::map<string, Tally> tally;

PROP(P01)
{
    m.cases("history", 1600, 40000, [&](Rng& r) {
        Run q = setup(m, r, m.index % 8 + 8 * (m.index / 8 % (m.thorough() ? 4 : 1)));
        go(q);
        auto tr = q.t->GetTrack();
        auto ty = q.t->GetTrackTypes();
        auto th = q.t->GetTargetHashes();
        double M = q.b->p->mass;
        if (!m.check(tr.size() == ty.size() && tr.size() == th.size() && tr.size() >= 2, "sizes", sfmt("%zu points %zu types %zu targets", tr.size(), ty.size(), th.size()))) return;
        m.check(tr[0].energy == q.s0.energy && tr[0].position == q.s0.position && tr[0].direction == q.s0.direction && tr[0].time == q.s0.time && tr[0].propagated_distance == q.s0.propagated_distance, "first-point", "the track does not start with the initial state");
        m.note("points", tr.size());
        bool bent = q.w.scat > 0;
        int stop = 0;
        LD hInter = 0, hDecay = 0;
        double low = 1.3 * M; // below, the tables are not resolved
        for (size_t i = 1; i < tr.size(); ++i) {
            auto &a = tr[i - 1], &b = tr[i];
            string at = sfmt("point %zu of %zu (type %d): E %.17g -> %.17g, ", i, tr.size(), (int)ty[i], a.energy, b.energy);
            m.check(b.energy <= a.energy, "energy-grows", at);
            m.check(b.energy >= 0 && std::isfinite(b.energy), "energy", at);
            m.check(b.type == q.s0.type, "type", at);
            m.check(std::fabs(b.direction.magnitude() - 1) < 1e-9, "unit-direction", at + sfmt("norm-1 %g", b.direction.magnitude() - 1));
            double L = b.propagated_distance - a.propagated_distance, dt = b.time - a.time;
            m.check(L >= 0 && dt >= 0 && std::isfinite(L) && std::isfinite(dt), "monotone", at + sfmt("length %g time %g", L, dt));
            double pos = dist(a.position, b.position), reps = 1e-9 * (std::fabs(b.propagated_distance) + q.w.size + b.position.magnitude());
            m.check(std::fabs(pos - L) <= reps, "path", at + sfmt("distance of the points %.17g, path %.17g", pos, L));
            if (ty[i] != InteractionType::ContinuousEnergyLoss) {
                m.check(pos == 0 && L == 0 && dt == 0, "interaction-moves", at);
                if (ty[i] == InteractionType::Decay) {
                    m.check(i + 1 == tr.size() && b.energy == a.energy && b.direction == a.direction, "decay", at);
                    m.check(q.b->m[0].decay != nullptr, "stable-decays", at);
                    stop = 1;
                    m.note("decays");
                    if (q.w.homog) m.note("decay of " + string(pnames[q.b->kind]));
                    continue;
                }
                m.note("interactions");
                // the process, its target and its size belong to the matter at this place
                int k = q.w.at(a.position, a.direction);
                bool found = false, size = false;
                string seen;
                for (int kk : { k, i >= 2 ? q.w.at(tr[i - 2].position + unit(a.position - tr[i - 2].position) * (dist(a.position, tr[i - 2].position) * .5), a.direction) : k }) {
                    if (kk < 0) continue;
                    auto& A = q.b->m[q.w.s[kk].m];
                    for (auto& c : A.cross) {
                        if (c->GetInteractionType() != ty[i]) continue;
                        bool t = A.med->GetHash() == th[i];
                        for (auto& comp : A.med->GetComponents()) t |= comp.GetHash() == th[i];
                        found |= t;
                        double v = 1 - b.energy / a.energy;
                        auto cut = c->GetEnergyCutSettings();
                        bool only = !cut;
                        if (only) size |= b.energy == 0;
                        else size |= v >= cut->GetCut(a.energy) * (1 - 1e-6) - 1e-9 && v <= 1;
                        // ... or below the whole kinematic range
                        seen += sfmt(" v %.9g cut %.9g", v, only ? 1 : cut->GetCut(a.energy));
                    }
                }
                if (b.energy > M * (1 + 1e-9)) { // a deflection that follows from the energies alone, or none at all
                    auto sc = q.b->m[q.w.s[std::max(k, 0)].m].scat[q.w.scat];
                    size_t n = sc ? sc->StochasticDeflectionRandomNumbers(ty[i]) : 0;
                    if (!n) m.check(dist(a.direction, b.direction) < 1e-12, "deflected", at + "no deflection asked for");
                    else if (ty[i] == InteractionType::Ioniz && n == 1) {
                        double ang = sc->CalculateStochasticDeflection(ty[i], a.energy, b.energy, vector<double> { .3 }, th[i]).zenith, got = dist(a.direction, b.direction);
                        m.check(std::fabs(got - 2 * std::sin(ang / 2)) < 1e-7 + 1e-6 * ang, "deflection", at + sfmt("turned by %.12g instead of %.12g", 2 * std::asin(got / 2), ang));
                        m.note("deflections judged");
                    }
                }
                m.check(found, "process", at + "no such process with this target here");
                m.check(!found || size, "cut", at + "a stochastic loss below the cut" + seen);
                if (b.energy > 0 && M > 0) m.check(b.energy >= M * (1 - 1e-6), "below-mass", at + sfmt("mass %g", M));
                if (b.energy <= std::max(q.mine, q.b->m[0].disp->GetLowerLim())) stop = i + 1 == tr.size() ? 2 : stop;
                continue;
            }
            m.check(b.energy >= std::min(a.energy, std::min(q.b->m[0].disp->GetLowerLim(), q.b->m[1].disp->GetLowerLim())), "below-limit", at);
            m.check(b.propagated_distance <= q.maxd * (1 + 1e-12) + reps, "beyond-limit", at + sfmt("distance %.17g limit %.17g", b.propagated_distance, q.maxd));
            m.check(b.energy >= std::min(a.energy, q.mine) * (1 - 1e-9), "below-minimum", at + sfmt("minimum %.17g", q.mine));
            if (i + 1 == tr.size()) {
                if (b.propagated_distance >= q.maxd - reps) stop = 3;
                else if (b.energy <= std::max(q.mine, q.b->m[0].disp->GetLowerLim()) * (1 + 1e-9) || b.energy <= std::max(q.mine, q.b->m[1].disp->GetLowerLim()) * (1 + 1e-9)) stop = 4;
            }
            if (L == 0) continue;
            auto dir = unit(b.position - a.position);
            // a step stays in one sector
            int k = -1;
            bool same = true, near = L < .02;
            if (!near)
                for (double f : { .5, .1, .9, .003, .997, 0., 1. }) {
                    double x = f == 0 ? 4e-3 : f == 1 ? L - 4e-3 : f * L;
                    int kk = q.w.at(a.position + dir * x, dir);
                    if (k < 0) k = kk;
                    same &= kk == k;
                }
            else k = q.w.at(a.position + dir * (L / 2), dir);
            // directions within 1e-9 of a surface have no definite sector
            if (k < 0 || !m.check(same, "crosses-border", at + sfmt("length %g: the step leaves its sector", L))) { if (near) m.note("very short steps"); continue; }
            if (near) {
                auto& P = q.w.s[k];
                auto& A = q.b->m[P.m];
                hInter += along(A, a.energy, std::max(b.energy, low), [&](double E) { return rate(A, E); });
                if (A.decay) hDecay += along(A, a.energy, std::max(b.energy, low), [&](double E) { return M / (C * sqrt((E - M) * (E + M)) * q.b->p->lifetime * P.rho); });
                continue;
            }
            auto& P = q.w.s[k];
            auto& A = q.b->m[P.m];
            if (!bent && i >= 2) m.check(dist(dir, a.direction) < 1e-6 + 2 * reps / L, "straight", at + sfmt("without scattering the direction changed by %g", dist(dir, a.direction)));
            if (P.homog && !q.w.rand) {
                LD x = along(A, a.energy, b.energy, [](double) { return 1.; });
                LD whole = along(A, a.energy, std::max(A.disp->GetLowerLim(), 1e-3), [](double) { return 1.; });
                if (whole > 0 && b.energy > A.disp->GetLowerLim() * (1 + 1e-6)) m.close(L * P.rho, x, q.b->kind == 5 ? .05 : .012, (a.energy < 1.5 * M ? 2e-2 : 2e-4) * whole + 2e-3 * P.rho, "consumed", at + "column of the step");
                hInter += along(A, a.energy, std::max(b.energy, low), [&](double E) { return rate(A, E); });
                if (A.decay) hDecay += along(A, a.energy, std::max(b.energy, low), [&](double E) { return M / (C * sqrt((E - M) * (E + M)) * q.b->p->lifetime * P.rho); });
                m.note("steps judged");
            }
            if (q.w.approx) {
                if (P.homog) m.close(dt, L / C, 1e-6, 1e-12 * b.time + (reps + 2 * PARTICLE_POSITION_RESOLUTION) / C, "light-time", at + "time at the speed of light");
            } else if (P.homog && (M > 0 || b.energy > 1)) { // the tables of photons span eighteen orders of magnitude: not resolved at the bottom
                double be = M > 0 ? sqrt((b.energy - M) * (b.energy + M)) / b.energy : 1, bi = M > 0 ? sqrt((a.energy - M) * (a.energy + M)) / a.energy : 1;
                LD whole = along(A, a.energy, std::max(A.disp->GetLowerLim() * (M > 0 ? 1.001 : 1), 1e-3), [](double) { return 1.; }) / P.rho;
                double tol = .012 * L + (a.energy < 3 * M ? 2e-2 : 4e-4) * whole + 4e-3; // the first intervals of the tables are not resolved
                m.check(dt * C >= L - tol - 1e-12 * b.time * C, "superluminal", at + sfmt("length %g in %g s (%g)", L, dt, dt * C));
                if (!q.w.rand && be > 0) m.check(dt * C <= (L + tol) / be + 1e-12 * b.time * C, "slow", at + sfmt("length %g in %g s (%g), beta %g %g", L, dt, dt * C, bi, be));
            }
        }
        if (!stop) {
            // an outer border: the sector before had a higher, the one behind a lower hierarchy than asked for
            auto& e = tr.back();
            int k1 = q.w.at(e.position, e.direction), k0 = q.w.at(tr[tr.size() - 2].position + unit(e.position - tr[tr.size() - 2].position) * (dist(e.position, tr[tr.size() - 2].position) * .5), e.direction);
            bool ok = k0 >= 0 && k1 >= 0 && q.w.s[k0].g->GetHierarchy() > q.hier && q.w.s[k1].g->GetHierarchy() < q.hier;
            if (m.check(ok, "stopped-for-nothing", sfmt("E %.17g distance %.17g of %.17g, hierarchies %d %d condition %u", e.energy, e.propagated_distance, q.maxd, k0 < 0 ? -1 : (int)q.w.s[k0].g->GetHierarchy(), k1 < 0 ? -1 : (int)q.w.s[k1].g->GetHierarchy(), q.hier))) stop = 5;
        }
        static const char* why[] = { "?", "decay", "fatal interaction", "distance", "energy", "border" };
        m.note(string("ended by ") + why[stop]);
        if (q.w.homog && !q.w.rand && M > 0) {
            auto& T = tally[string("interactions of ") + pnames[q.b->kind]];
            T.h += hInter;
            for (size_t i = 1; i < ty.size(); ++i) if (ty[i] != InteractionType::ContinuousEnergyLoss && ty[i] != InteractionType::Decay && tr[i - 1].energy > low) T.n++;
            auto& D = tally[string("decays of ") + pnames[q.b->kind]];
            D.h += hDecay;
            D.n += stop == 1 && tr.back().energy > low;
        }
        m.nontrivial();
    });
    // nothing left to do from the start: the particle stays as it is
    m.cases("nothing-to-do", 200, 4000, [&](Rng& r) {
        Run q = setup(m, r, m.index % 8);
        int k = r.i(0, 2);
        if (k != 1) q.mine = q.s0.energy * (1 + r.logr(1e-9, 10));
        if (k != 0) q.maxd = q.s0.propagated_distance - r.logr(1e-6, 1e6);
        go(q);
        m.note(k == 0 ? "below the minimal energy from the start" : k == 1 ? "beyond the maximal distance from the start" : "both from the start");
        auto tr = q.t->GetTrack();
        auto ty = q.t->GetTrackTypes();
        if (!m.check(tr.size() >= 1 && tr.size() == ty.size(), "sizes", sfmt("%zu points %zu types", tr.size(), ty.size()))) return;
        auto &a = q.s0, &b = tr.back();
        for (auto& x : tr) m.check(x.energy <= a.energy, "energy-grows", sfmt("from %.17g to %.17g, asked for at least %.17g", a.energy, x.energy, q.mine));
        for (auto& x : tr) m.check(x.propagated_distance >= a.propagated_distance && x.time >= a.time, "monotone", sfmt("distance %.17g -> %.17g (limit %.17g) time %.17g -> %.17g", a.propagated_distance, x.propagated_distance, q.maxd, a.time, x.time));
        m.check(b.propagated_distance == a.propagated_distance && b.position == a.position, "went-on", sfmt("moved by %g", b.propagated_distance - a.propagated_distance));
        m.nontrivial();
    });
    // outside of all sectors, from the start or later on: an error, never a made-up answer
    m.cases("no-sector", 200, 4000, [&](Rng& r) {
        Run q = setup(m, r, m.index % 8);
        vector<Sector> left;
        for (size_t i = 0; i < q.w.sectors.size(); ++i) if (q.w.s[i].g->GetHierarchy() > 0) left.push_back(q.w.sectors[i]);
        if (left.empty()) throw mon::Skip();
        q.w.s.erase(std::find_if(q.w.s.begin(), q.w.s.end(), [](Place& p) { return p.g->GetHierarchy() == 0; }));
        q.prop = std::make_shared<Propagator>(*q.b->p, left);
        q.maxd = q.s0.propagated_distance + 1e14;
        bool thrown = false, inside = q.w.at(q.s0.position, q.s0.direction) >= 0;
        try { go(q); } catch (std::logic_error const&) { thrown = true; }
        m.check(thrown || inside, "accepted", "no sector at the start, and no error");
        m.note(thrown ? inside ? "left the sectors" : "outside from the start" : "stayed inside");
        m.nontrivial();
    });
    if (m.only_index < 0 && m.only_class.empty())
        m.cases("totals", m.nshard, m.nshard, [&](Rng&) {
            for (auto& t : tally) {
                if (t.second.h + t.second.n < 5) continue;
                double z = (t.second.n - t.second.h) / (sqrt(t.second.h) + .02 * t.second.h + 1);
                m.worst("deviation of " + t.first, z);
                m.note(t.first + " expected", (uint64_t)t.second.h);
                m.note(t.first + " seen", (uint64_t)t.second.n);
                m.check(std::fabs(z) < 6, t.first.substr(0, t.first.find(' ')), sfmt("%s: %g seen, %g expected along the tracks", t.first.c_str(), t.second.n, t.second.h));
            }
        });
}
// where along the polyline of a track there is material of a body
struct Inside {
    vector<std::pair<LD, LD>> iv; // in terms of the propagated distance
    bool from_start = false, to_end = false;
};
static Inside inside(Body const& g, vector<ParticleState> const& tr)
{
    Inside r;
    LD s0 = tr.front().propagated_distance, s1 = tr.back().propagated_distance;
    for (size_t i = 1; i < tr.size(); ++i) {
        LD a = tr[i - 1].propagated_distance, L = tr[i].propagated_distance - a;
        if (!(L > 0)) continue;
        V p = lv(tr[i - 1].position), d = (lv(tr[i].position) - p) * (1 / norm(lv(tr[i].position) - p));
        for (auto& q : material(g, p, d)) {
            LD lo = std::max(q.lo, (LD)0), hi = std::min(q.hi, L);
            if (!(lo < hi)) continue;
            if (!r.iv.empty() && a + lo <= r.iv.back().second * (1 + 1e-18L)) r.iv.back().second = a + hi;
            else r.iv.push_back({ a + lo, a + hi });
        }
    }
    if (!r.iv.empty()) { r.from_start = r.iv.front().first == s0; r.to_end = r.iv.back().second == s1; }
    return r;
}
static void same_loss(Mon& m, Loss const& a, Loss const& b, const char* rule) { m.check(a.type == b.type && a.energy == b.energy && a.parent_particle_energy == b.parent_particle_energy, rule, sfmt("type %d energy %.17g of %.17g against type %d energy %.17g of %.17g", a.type, a.energy, a.parent_particle_energy, b.type, b.energy, b.parent_particle_energy)); }

PROP(P02)
{
    m.cases("account", 1200, 30000, [&](Rng& r) {
        Run q = setup(m, r, m.index % 8 + 8 * (m.index / 8 % (m.thorough() ? 4 : 1)));
        go(q);
        auto& t = *q.t;
        auto tr = t.GetTrack();
        auto ty = t.GetTrackTypes();
        auto th = t.GetTargetHashes();
        size_t n = tr.size();
        if (n > 3000) throw mon::Skip();
        m.nontrivial();
        // --- losses
        vector<StochasticLoss> st;
        vector<ContinuousLoss> co;
        vector<size_t> sti, coi;
        LD sum = 0;
        for (size_t i = 1; i < n; ++i) {
            double e = tr[i - 1].energy - tr[i].energy;
            sum += e;
            if (ty[i] == InteractionType::ContinuousEnergyLoss) {
                co.emplace_back(e, tr[i - 1].energy, tr[i - 1].position, tr[i].position, tr[i - 1].direction, tr[i].direction, tr[i - 1].time, tr[i].time);
                coi.push_back(i);
            } else {
                st.emplace_back((int)ty[i], e, tr[i].position, tr[i].direction, tr[i].time, tr[i].propagated_distance, tr[i - 1].energy, th[i]);
                sti.push_back(i);
            }
        }
        auto stoch = [&](vector<StochasticLoss> const& got, std::function<bool(size_t)> f, const char* rule) {
            size_t j = 0;
            for (size_t k = 0; k < st.size(); ++k) {
                if (!f(sti[k])) continue;
                if (!m.check(j < got.size(), rule, sfmt("only %zu losses", got.size()))) return;
                auto& a = got[j++]; auto& b = st[k];
                same_loss(m, a, b, rule);
                m.check(a.position == b.position && a.direction == b.direction && a.time == b.time && a.propagated_distance == b.propagated_distance && a.target_hash == b.target_hash, rule, "place, time or target differ");
            }
            m.check(j == got.size(), rule, sfmt("%zu losses, expected %zu", got.size(), j));
        };
        auto cont = [&](vector<ContinuousLoss> const& got, std::function<bool(size_t)> f, const char* rule) {
            size_t j = 0;
            for (size_t k = 0; k < co.size(); ++k) {
                if (!f(coi[k])) continue;
                if (!m.check(j < got.size(), rule, sfmt("only %zu losses", got.size()))) return;
                auto& a = got[j++]; auto& b = co[k];
                same_loss(m, a, b, rule);
                m.check(a.start_position == b.start_position && a.end_position == b.end_position && a.direction_initial == b.direction_initial && a.direction_final == b.direction_final && a.time_initial == b.time_initial && a.time_final == b.time_final, rule, "places or times differ");
            }
            m.check(j == got.size(), rule, sfmt("%zu losses, expected %zu", got.size(), j));
        };
        stoch(t.GetStochasticLosses(), [&](size_t i) { return ty[i] != InteractionType::Decay; }, "stochastic");
        cont(t.GetContinuousLosses(), [&](size_t) { return true; }, "continuous");
        LD tot = 0;
        for (auto& l : t.GetStochasticLosses()) tot += l.energy;
        for (auto& l : t.GetContinuousLosses()) tot += l.energy;
        m.close(tot + tr.back().energy, tr.front().energy, 1e-12, 0, "balance", "losses and final energy");
        for (auto& x : Type_Interaction_Name_Map) {
            if (x.first == InteractionType::ContinuousEnergyLoss) continue;
            stoch(t.GetStochasticLosses(x.first), [&](size_t i) { return ty[i] == x.first; }, "by-type");
            stoch(t.GetStochasticLosses(x.second), [&](size_t i) { return ty[i] == x.first; }, "by-name");
        }
        if (r.p(.2)) {
            static const char* bad[] = { "", "brems", "Bremsstrahlung", "ioniz ", "Epair2", "decay" };
            string s = bad[r.i(0, 5)];
            bool thrown = false;
            try { t.GetStochasticLosses(s); } catch (std::exception const&) { thrown = true; }
            m.check(thrown, "unknown-name", "accepted '" + s + "'");
            m.note("unknown names");
        }
        // --- the columns of the track
        auto po = t.GetTrackPositions(), di = t.GetTrackDirections();
        auto en = t.GetTrackEnergies(), ti = t.GetTrackTimes(), pd = t.GetTrackPropagatedDistances();
        if (m.check(po.size() == n && di.size() == n && en.size() == n && ti.size() == n && pd.size() == n && t.GetTrackLength() == n, "columns", "lengths"))
            for (size_t i = 0; i < n; ++i) m.check(po[i] == tr[i].position && di[i] == tr[i].direction && en[i] == tr[i].energy && ti[i] == tr[i].time && pd[i] == tr[i].propagated_distance, "columns", sfmt("point %zu", i));
        m.check(t.GetInitialState() == tr.front() && t.GetFinalState() == tr.back(), "ends", "initial or final state");
        // --- decay products carry the energy of the decaying particle
        auto prod = t.GetDecayProducts();
        bool dec = ty.back() == InteractionType::Decay;
        m.check(prod.empty() == !dec, "decay-products", sfmt("%zu products, decayed %d", prod.size(), dec));
        if (!prod.empty()) {
            LD e = 0;
            for (auto& x : prod) {
                e += x.energy;
                m.check(x.position == tr.back().position && x.time == tr.back().time, "decay-place", sfmt("product %d", x.type));
            }
            m.close(e, tr.back().energy, 1e-6, 0, "decay-energy", "energy of the decay products");
        }
        // --- states on the track
        double size = q.w.size + tr.front().position.magnitude() + tr.back().position.magnitude();
        double reps = 2e-3 + 1e-9 * size + 4e-16 * (std::fabs(tr.front().propagated_distance) + tr.back().propagated_distance);
        auto on = [&](ParticleState const& S, const char* rule, string what) {
            m.check(S.type == q.s0.type, rule, what + ": another particle");
            m.check(std::isfinite(S.energy) && std::isfinite(S.time) && std::isfinite(S.position.magnitude()), rule, what + sfmt(": E %g t %g", S.energy, S.time));
            m.check(std::fabs(S.direction.magnitude() - 1) < 1e-9, rule, what + sfmt(": direction of length %g", S.direction.magnitude()));
            string why;
            for (size_t i = 0; i < n; ++i) {
                if (S == tr[i]) return;
                if (i == 0) continue;
                auto &a = tr[i - 1], &b = tr[i];
                double L = b.propagated_distance - a.propagated_distance, d = S.propagated_distance - a.propagated_distance;
                if (L == 0 && d == 0 && dist(S.position, a.position) <= reps && S.energy <= a.energy && S.energy >= b.energy) return;
                if (L <= 0 || d < -reps || d > L + reps) continue;
                double off = dist(S.position, a.position + unit(b.position - a.position) * d);
                if (off > reps) { why += sfmt(" off by %g", off); continue; }
                if (q.w.rand || q.b->kind == 5) return;
                int k = q.w.at(a.position + unit(b.position - a.position) * (L / 2), unit(b.position - a.position));
                if (k < 0) return;
                auto& P = q.w.s[k];
                auto& A = q.b->m[P.m];
                double de = (.01 + 4 * reps / (L + reps)) * (a.energy - b.energy) + 1e-6 * a.energy + loss(A, std::max(a.energy, A.disp->GetLowerLim())) * P.rho * reps;
                if (!(S.energy <= a.energy * (1 + 1e-9) && S.energy >= b.energy - de)) { why += sfmt(" energy %.17g not within %.17g and %.17g", S.energy, a.energy, b.energy); continue; }
                double dt = (.01 + 4 * reps / (L + reps)) * (b.time - a.time) + 1e-12 * b.time + 2 * reps / C;
                if (!(S.time >= a.time - dt && S.time <= b.time + dt)) { why += sfmt(" time %.17g not within %.17g and %.17g", S.time, a.time, b.time); continue; }
                if (P.homog && L > 1 && S.energy >= b.energy * (1 - 1e-9)) {
                    m.note("states judged");
                    LD M = q.b->p->mass;
                    LD whole = along(A, a.energy, std::max(A.disp->GetLowerLim(), 1e-3), [](double) { return 1.; });
                    if (whole > 0 && a.energy > 1.5 * M && S.energy > A.disp->GetLowerLim() * (1 + 1e-6)) m.close(d * P.rho, along(A, a.energy, S.energy, [](double) { return 1.; }), q.b->kind == 5 ? .05 : .02, (a.energy < 3 * M ? 5e-3 : 1e-3) * whole + 2 * reps * P.rho, "state-column", what + sfmt(": column up to the state (step from %.17g to %.17g, %g of %g cm, density %g whole %Lg)", a.energy, b.energy, d, L, P.rho, whole));
                    double frac = d / L;
                    // the particle slows down: later in time than the same share of the path, by no more than the slowing
                    double lin = a.time + frac * (b.time - a.time);
                    if (q.w.approx) m.close(S.time - a.time, d / C, 1e-6, dt, "state-time", what + ": time at the speed of light");
                    else if (a.energy > 10 * M) m.close(S.time, lin, 0, .02 * (b.time - a.time) + dt, "state-time", what + ": time");
                }
                return;
            }
            m.check(false, rule, what + sfmt(": not on the track: E %.17g distance %.17g", S.energy, S.propagated_distance) + why);
        };
        for (int k = 0; k < 4; ++k) {
            double lo = tr.front().propagated_distance, hi = tr.back().propagated_distance, x;
            int how = r.i(0, 5);
            if (how == 0) x = lo - r.logr(1e-6, 1e3);
            else if (how == 1) x = hi + r.logr(1e-6, 1e3);
            else if (how == 2) x = tr[r.i(0, (int)n - 1)].propagated_distance;
            else x = lo + (hi - lo) * r.u();
            ParticleState S;
            // with randomised energies, the mean loss may stop the particle before it gets there (announced by a warning)
            try { S = t.GetStateForDistance(x); } catch (std::logic_error const&) { if (!q.w.rand) throw; m.note("randomised: not reached"); continue; }
            if (x <= lo) m.check(S == tr.front(), "before-start", sfmt("distance %.17g", x));
            else if (x >= hi) m.check(S == tr.back() || S.propagated_distance == tr.back().propagated_distance, "after-end", sfmt("distance %.17g", x));
            else {
                m.close(S.propagated_distance, x, 1e-12, 1e-9, "asked-distance", "distance of the state");
                on(S, "state-for-distance", sfmt("asked for the distance %.17g (%.17g to %.17g)", x, lo, hi));
                m.note("states by distance");
            }
            double e0 = tr.front().energy, e1 = tr.back().energy, e;
            how = r.i(0, 5);
            if (how == 0) e = e0 * (1 + r.u());
            else if (how == 1) e = e1 * r.u();
            else if (how == 2) e = tr[r.i(0, (int)n - 1)].energy;
            else if (how == 3 || e1 <= 0) { int i = r.i(1, (int)n - 1); e = tr[i].energy + (tr[i - 1].energy - tr[i].energy) * r.u(); }
            else e = r.logr(e1, e0);
            S = t.GetStateForEnergy(e);
            if (e >= e0) m.check(S == tr.front(), "above-start", sfmt("energy %.17g", e));
            else if (e <= e1) m.check(S == tr.back() || S.energy == e1, "below-end", sfmt("energy %.17g", e));
            else {
                size_t i = 1;
                while (i < n && !(tr[i].energy < e)) ++i;
                if (ty[i] == InteractionType::ContinuousEnergyLoss) {
                    m.close(S.energy, e, 1e-12, 0, "asked-energy", "energy of the state");
                    m.note("states by energy");
                } else {
                    m.check(S.energy == tr[i - 1].energy && S.propagated_distance == tr[i - 1].propagated_distance, "before-loss", sfmt("asked for %.17g within a loss from %.17g to %.17g, got %.17g", e, tr[i - 1].energy, tr[i].energy, S.energy));
                    m.note("energies within a stochastic loss");
                }
                if (!q.w.rand && q.b->kind != 5 && tr[i - 1].energy > 1.01 * q.b->p->mass) on(S, "state-for-energy", sfmt("asked for the energy %.17g", e));
            }
        }
        // --- bodies
        for (int k = 0; k < 3; ++k) {
            Body g;
            if (r.p(.3)) g = q.w.s[r.i(0, (int)q.w.s.size() - 1)].body;
            else {
                double len = tr.back().propagated_distance - tr.front().propagated_distance;
                g = rbody(r, len * .05 + 1, len * 2 + 10, 0);
                auto& x = tr[r.i(0, (int)n - 1)].position;
                g.c = asdouble(lv(x) + rdir(r) * (g.size() * r.range(0, 1.2)));
            }
            auto geo = g.make();
            // losses and points inside
            double eps = 1e-6 * (double)g.size() + reps;
            bool near = false;
            for (auto& x : tr) near |= g.surf(lv(x.position)) < eps;
            auto in = [&](size_t i) { return near ? geo->IsInside(tr[i].position, tr[i].direction) : g.contains(lv(tr[i].position)); };
            stoch(t.GetStochasticLosses(*geo), [&](size_t i) { return ty[i] != InteractionType::Decay && in(i); }, "stochastic-inside");
            cont(t.GetContinuousLosses(*geo), in, "continuous-inside");
            auto part = t.GetTrack(*geo);
            size_t j = 0;
            for (size_t i = 0; i < n; ++i)
                if (in(i)) { m.check(j < part.size() && part[j] == tr[i], "track-inside", sfmt("point %zu", i)); ++j; }
            m.check(part.size() == j, "track-inside", sfmt("%zu points, expected %zu", part.size(), j));
            // closest approach
            std::shared_ptr<ParticleState> ca;
            try { ca = t.GetClosestApproachPoint(*geo); t.GetELost(*geo); } catch (std::logic_error const&) { if (!q.w.rand) throw; m.note("randomised: not reached"); continue; }
            if (m.check(ca != nullptr, "closest-approach", "no point")) {
                LD best = norm(lv(tr[0].position) - g.c);
                for (size_t i = 1; i < n; ++i) {
                    V p = lv(tr[i - 1].position), d = lv(tr[i].position) - p;
                    LD L = norm(d);
                    best = std::min(best, norm(lv(tr[i].position) - g.c));
                    if (!(L > 0)) continue;
                    d = d * (1 / L);
                    LD s = dot(g.c - p, d);
                    if (s > 0 && s < L) best = std::min(best, norm(p + d * s - g.c));
                }
                LD got = norm(lv(ca->position) - g.c);
                m.check(fabsl(got - best) < 2 * reps + 1e-9 * best, q.w.scat ? "closest-approach-bent" : "closest-approach", sfmt("distance %.17Lg, the track comes as close as %.17Lg", got, best) + g.str());
                on(*ca, "closest-approach-state", "closest approach");
                m.note("closest approaches");
            }
            // hits, entries and exits
            if (tr.back().propagated_distance - tr.front().propagated_distance < reps) { m.note("at one place"); continue; }
            LD e = std::min(g.mind() * 1e-2L, (LD)(4 * reps) + g.size() * 1e-7L);
            if (e < 3 * reps) { m.note("body too thin"); continue; }
            // a point on the border is not resolved from that far away
            if (near && (size > 1e11 || size * size * 1e-16 > 1e-5 * (double)g.mind())) { m.note("border point, far away"); continue; }
            Inside w = inside(g, tr), a = inside(g.grown(e), tr), b = inside(g.grown(-e), tr);
            bool robust = true;
            for (auto* x : { &a, &b }) robust = robust && x->iv.size() == w.iv.size() && x->from_start == w.from_start && x->to_end == w.to_end;
            for (size_t i = 0; robust && i < w.iv.size(); ++i) for (auto* x : { &a, &b }) robust = robust && fabsl(x->iv[i].first - w.iv[i].first) < 1e3L * e && fabsl(x->iv[i].second - w.iv[i].second) < 1e3L * e;
            if (!robust) { m.note("crossings not definite"); continue; }
            LD slack = e;
            for (size_t i = 0; i < w.iv.size(); ++i) for (auto* x : { &a, &b }) slack = std::max({ slack, fabsl(x->iv[i].first - w.iv[i].first), fabsl(x->iv[i].second - w.iv[i].second) });
            string at = sfmt("%zu crossings, from the start %d, to the end %d: ", w.iv.size(), w.from_start, w.to_end) + g.str() + ": ";
            m.check(t.HitGeometry(*geo) == !w.iv.empty(), "hit", at);
            m.note(w.iv.empty() ? "missed" : w.from_start ? w.to_end ? "always inside" : "leaving" : w.to_end ? "entering" : "crossing");
            if (w.iv.size() > 1) m.note("several crossings");
            auto en1 = t.GetEntryPoint(*geo), ex = t.GetExitPoint(*geo);
            bool hase = !w.iv.empty() && !w.from_start, hasx = !w.iv.empty() && !w.to_end;
            m.check((en1 != nullptr) == hase, "entry", at + (en1 ? "an entry" : "no entry"));
            m.check((ex != nullptr) == hasx, "exit", at + (ex ? "an exit" : "no exit"));
            if (en1 && hase) {
                m.close(en1->propagated_distance, w.iv.front().first, 1e-12, slack + reps, "entry-place", at + "distance at the entry");
                on(*en1, "entry-state", "entry " + at);
            }
            if (ex && hasx) {
                m.close(ex->propagated_distance, w.iv.back().second, 1e-12, slack + reps, "exit-place", at + "distance at the exit");
                on(*ex, "exit-state", "exit " + at);
            }
            double lost = t.GetELost(*geo);
            double first = w.iv.empty() ? 0 : w.from_start ? tr.front().energy : en1 ? en1->energy : NAN, last = w.iv.empty() ? 0 : w.to_end ? tr.back().energy : ex ? ex->energy : NAN;
            if (w.iv.size() <= 1) m.close(lost, first - last, 1e-9, 1e-9 * tr.front().energy, "energy-lost", at + "energy lost inside");
        }
    });
}
// the first tracks of a kind of particle, as another process computes them
static vector<uint64_t> tracks(uint64_t seed, Bench& b, int n)
{
    vector<uint64_t> v;
    for (int i = 0; i < n; ++i) {
        Rng r(mon::mix(seed * 31 + b.kind) ^ mon::mix(i));
        Run q = setup(r, b);
        try { go(q); v.push_back(digest(*q.t)); } catch (std::exception const&) { v.push_back(1); }
    }
    return v;
}
PROP(P03)
{
    // the same again: after others, with a copy, with new sectors, after questions to the track
    m.cases("again", 700, 20000, [&](Rng& r) {
        int k = m.index % 8 + 8 * (m.index / 8 % (m.thorough() ? 4 : 1));
        Run q = setup(m, r, k);
        go(q);
        uint64_t d = digest(*q.t);
        double next = RandomGenerator::Get().RandomDouble();
        size_t n = q.t->GetTrackLength();
        m.nontrivial(d);
        m.note("points", n);
        string what;
        auto same = [&](const char* rule) {
            uint64_t e = digest(*q.t);
            m.checkf(d == e, rule, [&] { return what + sfmt("track of %zu points instead of %zu", (size_t)q.t->GetTrackLength(), n); });
            m.checkf(RandomGenerator::Get().RandomDouble() == next, "random numbers used", [&] { return what; });
            m.note(rule);
        };
        for (int i = r.i(1, 3); i > 0; --i) {
            switch (r.i(0, 6)) {
            case 0: go(q); same("straight away"); break;
            case 1: { // other propagations in between
                int o = r.p(.5) ? k : r.i(0, 7);
                Run x = setup(r, bench::get(o));
                try { go(x); } catch (std::exception const&) {}
                what = "after " + bench::get(o).str + ": ";
                go(q); same("after others"); break;
            }
            case 2: { // the same propagator with another start
                auto x = q;
                x.s0 = start(r, *q.b, q.w);
                x.maxd = x.s0.propagated_distance + r.logr(1, q.w.size * 4);
                x.seed = r.i(1, 1 << 30);
                try { go(x); } catch (std::exception const&) {}
                go(q); same("after another start"); break;
            }
            case 3: q.prop = std::make_shared<Propagator>(*q.b->p, q.w.sectors); go(q); same("with a new propagator"); break;
            case 4: { auto p = std::make_shared<Propagator>(*q.prop); q.prop = p; go(q); same("with a copy"); break; }
            case 5: { // sectors put together anew from the same parts
                vector<Sector> v;
                for (auto& s : q.w.s) {
                    auto g = s.body.make();
                    g->SetHierarchy(s.g->GetHierarchy());
                    v.push_back(std::make_tuple(shared_ptr<const Geometry>(g), PropagationUtility(s.c), s.d));
                }
                q.prop = std::make_shared<Propagator>(*q.b->p, v);
                go(q); same("with new sectors"); break;
            }
            default: { // questions
                auto& t = *q.t;
                t.GetStochasticLosses(); t.GetContinuousLosses(); t.GetDecayProducts();
                auto g = q.w.s[r.i(0, (int)q.w.s.size() - 1)].g;
                t.HitGeometry(*g); t.GetTrack(*g);
                try { t.GetELost(*g); t.GetStateForDistance(q.s0.propagated_distance + r.u() * q.far); t.GetStateForEnergy(q.s0.energy * r.u()); t.GetClosestApproachPoint(*g); } catch (std::exception const&) {}
                m.check(digest(t) == d, "questions", "the track changed when it was asked");
                go(q); same("after questions"); break;
            }
            }
        }
        // the track depends on the seed
        if (n > 20) {
            auto x = q;
            x.seed = q.seed ^ (1 << r.i(0, 29));
            go(x);
            m.check(digest(*x.t) != d, "another seed", sfmt("seeds %d and %d give the same track of %zu points", q.seed, x.seed, n));
            m.note("other seeds");
        }
    });
    // tables and calculators built anew, while those of the first ones are still around and after other ones
    m.cases("rebuilt", 8, 16, [&](Rng&) {
        int k = m.index;
        auto a = tracks(m.seed, bench::get(k), 12);
        Bench b = fresh(m.seed, k);
        auto c = tracks(m.seed, b, 12);
        for (size_t i = 0; i < a.size(); ++i) { m.check(a[i] == c[i], "rebuilt", sfmt("track %zu of ", i) + b.str); m.note("compared with rebuilt tables"); }
        m.nontrivial(a[3]);
    });
    m.cases("process", 8, 16, [&](Rng&) {
        int k = m.index;
        auto a = tracks(m.seed, bench::get(k), 12);
        FILE* f = popen(sfmt("ASAN_OPTIONS=detect_leaks=0 /proc/%d/exe --tracks %llu %d 2>/dev/null", (int)getpid(), (unsigned long long)m.seed, k).c_str(), "r");
        size_t n = 0;
        char s[64];
        while (f && fgets(s, sizeof s, f)) {
            uint64_t h = strtoull(s, nullptr, 16);
            m.check(n < a.size() && a[n] == h, "process", sfmt("track %zu of ", n) + bench::get(k).str);
            m.note("compared with another process");
            ++n;
        }
        if (f) pclose(f);
        m.check(n == a.size(), "process", sfmt("%zu of %zu tracks", n, a.size()));
        m.nontrivial();
    });
}
int main(int c, char** v)
{
    if (c > 3 && string(v[1]) == "--tracks") {
        uint64_t seed = strtoull(v[2], nullptr, 10);
        Bench b = fresh(seed, atoi(v[3]));
        for (auto h : tracks(seed, b, 12)) printf("%llx\n", (unsigned long long)h);
        return 0;
    }
    return mon::run(c, v);
}
