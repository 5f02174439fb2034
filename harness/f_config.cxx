// P05 propagators from configurations against the same sectors built by hand.
#include "bench.h"
#include <fstream>
using namespace bench;
using nlohmann::json;
namespace cs = crosssection;
namespace sd = stochastic_deflection;
static void coarse()
{
    bench::settings();
    InterpolationSettings::NODES_DEDX = InterpolationSettings::NODES_DE2DX = 30;
    InterpolationSettings::NODES_DNDX_E = InterpolationSettings::NODES_DNDX_V = 12;
    InterpolationSettings::NODES_UTILITY = InterpolationSettings::NODES_RATE_INTERPOLANT = 80;
}
static string letters(Rng& r, string s)
{
    int how = r.i(0, 3);
    for (auto& c : s) c = how == 0 ? c : how == 1 ? tolower(c) : how == 2 ? toupper(c) : r.p(.5) ? tolower(c) : toupper(c);
    return s;
}
// what a configuration says, as values
struct Proc { string key, name; bool lpm, lpm_given, hard, hard_given; double mult; string shadow; };
struct Opt { // absent means: look at the global settings
    bool medium = false, cuts = false, exact = false, interp = false, scat = false, cross = false;
    string vmedium;
    double e = 500, v = .05;
    bool rand = false;
    bool vexact = true, vinterp = true;
    string ms;
    double msm = 1;
    vector<string> defl;
    vector<std::pair<InteractionType, double>> dm;
    vector<Proc> procs;
};
struct Sec {
    Opt o;
    int dens = 0; // none, homogeneous, exponential
    double rho = 1, sigma = 1, d0 = 0;
    bool radial = true;
    vector<Body> bodies;
    vector<int> hier; // -1: not given
};
static const char* tname(InteractionType t)
{
    switch (t) { case InteractionType::Brems: return "Brems"; case InteractionType::Ioniz: return "Ioniz"; case InteractionType::Epair: return "Epair"; default: return "Photonuclear"; }
}
static Opt roption(Rng& r, int kind, double give, bool need)
{
    Opt o;
    o.medium = r.p(give) || need;
    static const char* n[] = { "ice", "standardrock", "water", "air", "iron", "hydrogen", "lead", "salt" };
    o.vmedium = n[r.i(0, 7)];
    o.cuts = r.p(give) || need;
    o.e = r.p(.4) ? std::numeric_limits<double>::infinity() : r.logr(50, 5000);
    o.v = std::isinf(o.e) || r.p(.5) ? r.logr(.01, .5) : 1;
    o.rand = kind != 5 && r.p(.5);
    o.exact = r.p(give / 2);
    o.vexact = r.p(.5);
    o.interp = r.p(give / 2);
    o.vinterp = true;
    o.scat = kind != 5 && r.p(give);
    static const char* ms[] = { "", "Highland", "Moliere", "NoScattering", "HighlandIntegral", "MoliereInterpol" };
    o.ms = ms[r.i(0, 4)];
    if (r.p(.3)) o.msm = r.logr(.1, 10);
    static const char* df[] = { "BremsTsaiApproximation", "IonizNaive", "DefaultIoniz", "DefaultBrems", "BremsGinneken", "PhotoBorogPetrukhin", "PhotoGinneken", "EpairGinneken" };
    int nd = r.p(.5) ? 0 : r.i(1, 3);
    for (int i = 0; i < nd; ++i) o.defl.push_back(df[r.i(0, 7)]);
    if (r.p(.3)) {
        static const InteractionType t[] = { InteractionType::Brems, InteractionType::Epair, InteractionType::Ioniz, InteractionType::Photonuclear };
        for (int i = 0; i < 4; ++i)
            if (r.p(.4)) o.dm.push_back({ t[i], r.range(.1, 1) });
    }
    o.cross = r.p(give) || need;
    auto pick = [&](const char* key, vector<const char*> names) {
        Proc p { key, names[r.i(0, (int)names.size() - 1)], r.p(.5), r.p(.7), r.p(.5), r.p(.7), r.p(.4) ? r.logr(.2, 5) : 1., "" };
        if (p.key == "brems" && p.name == "ElectronScreening" && kind != 3 && kind != 4) p.name = "KelnerKokoulinPetrukhin";
        if (!p.lpm_given) p.lpm = true;
        if (!p.hard_given) p.hard = true;
        o.procs.push_back(p);
    };
    if (kind == 5) {
        pick("photopair", { "Tsai" });
        pick("compton", { "KleinNishina" });
        if (r.p(.3)) pick("photomupair", { "BurkhardtKelnerKokoulin" });
        if (r.p(.3)) pick("photoproduction", { "Rhode", "Caldwell", "Kokoulin" });
    } else {
        pick("ioniz", { kind == 3 ? "BergerSeltzerMoller" : kind == 4 ? "BergerSeltzerBhabha" : "BetheBlochRossi" });
        if (r.p(.7)) pick("brems", { "KelnerKokoulinPetrukhin", "PetrukhinShestakov", "CompleteScreening", "AndreevBezrukovBugaev", "SandrockSoedingreksoRhode", "ElectronScreening" });
        if (r.p(.2)) pick("epair", { kind == 3 || kind == 4 ? "ForElectronPositron" : "KelnerKokoulinPetrukhin" });
        if (kind == 4 && r.p(.5)) pick("annihilation", { "Heitler" });
        if (r.p(.3)) pick("photo", { "Zeus", "BezrukovBugaev", "Kokoulin", "Rhode" });
    }
    return o;
}
static json jproc(Rng& r, Proc const& p)
{
    json q;
    q["parametrization"] = letters(r, p.name);
    if (p.lpm_given) q["lpm"] = p.lpm;
    if (p.key == "photo" && p.hard_given) q["hard_component"] = p.hard;
    if (!p.shadow.empty()) q["shadow"] = letters(r, p.shadow);
    if (p.mult != 1 || r.p(.1)) q["multiplier"] = p.mult;
    return q;
}
static json jopt(Rng& r, Opt const& o)
{
    json j = json::object();
    if (o.medium) j["medium"] = letters(r, o.vmedium);
    if (o.cuts) {
        json c;
        if (std::isinf(o.e)) c["e_cut"] = letters(r, r.p(.5) ? "inf" : "infinity"); else c["e_cut"] = o.e;
        c["v_cut"] = o.v;
        c["cont_rand"] = o.rand;
        j["cuts"] = c;
    }
    if (o.exact) j["exact_time"] = o.vexact;
    if (o.interp) j["do_interpolation"] = o.vinterp;
    if (o.scat) {
        json s = json::object();
        if (!o.ms.empty()) s["multiple_scattering"] = letters(r, o.ms);
        if (o.msm != 1 || r.p(.1)) s["multiple_scattering_multiplier"] = o.msm;
        if (!o.defl.empty()) { s["stochastic_deflection"] = json::array(); for (auto& d : o.defl) s["stochastic_deflection"].push_back(letters(r, d)); }
        if (!o.dm.empty()) for (auto& d : o.dm) s["stochastic_deflection_multiplier"][letters(r, tname(d.first))] = d.second;
        j["scattering"] = s;
    }
    if (o.cross) {
        json s = json::object();
        for (auto& p : o.procs) {
            s[p.key] = jproc(r, p);
        }
        j["CrossSections"] = s;
    }
    return j;
}
static json jsec(Rng& r, Sec const& s)
{
    json j = jopt(r, s.o);
    if (s.dens == 1) j["density_distribution"] = { { "type", "homogeneous" }, { "mass_density", s.rho } };
    if (s.dens == 2) {
        json d = { { "type", "exponential" }, { "mass_density", s.rho }, { "sigma", s.sigma }, { "d0", s.d0 }, { "axis_type", s.radial ? "radial" : "cartesian" }, { "fp0", { 1., -2., 3. } } };
        if (!s.radial) d["fAxis"] = { 0., 0., 1. };
        j["density_distribution"] = d;
    }
    json g = json::array();
    for (size_t i = 0; i < s.bodies.size(); ++i) {
        auto& b = s.bodies[i];
        json q;
        q["origin"] = { (double)b.c.x, (double)b.c.y, (double)b.c.z };
        if (b.k == K_SPH) { q["shape"] = "sphere"; q["outer_radius"] = (double)b.a; if (b.b > 0 || r.p(.3)) q["inner_radius"] = (double)b.b; }
        if (b.k == K_CYL) { q["shape"] = "cylinder"; q["outer_radius"] = (double)b.a; if (b.b > 0 || r.p(.3)) q["inner_radius"] = (double)b.b; q["height"] = (double)b.h; }
        if (b.k == K_BOX) { q["shape"] = "box"; q["length"] = (double)b.a; q["width"] = (double)b.b; q["height"] = (double)b.h; }
        if (s.hier[i] >= 0) q["hierarchy"] = s.hier[i];
        g.push_back(q);
    }
    j["geometries"] = g;
    return j;
}
// the settings in force in a sector
static Opt force(Opt const& s, Opt const& g)
{
    Opt o = s;
    if (!s.medium) o.vmedium = g.vmedium;
    if (!s.cuts) { o.e = g.e; o.v = g.v; o.rand = g.rand; }
    if (!s.exact) o.vexact = g.exact ? g.vexact : true;
    if (!s.interp) o.vinterp = g.interp ? g.vinterp : true;
    if (!s.scat) { o.scat = g.scat; o.ms = g.ms; o.msm = g.msm; o.defl = g.defl; o.dm = g.dm; }
    if (!s.cross) { o.cross = g.cross; o.procs = g.procs; }
    return o;
}
// one process, made without the factories
static shared_ptr<CrossSectionBase> hand(Proc const& q, ParticleDef const& p, Medium const& med, shared_ptr<const EnergyCutSettings> cut, double dc, bool interp)
{
    shared_ptr<CrossSectionBase> c;
    string n = q.name;
    auto add = [&](auto m, shared_ptr<const EnergyCutSettings> k, bool tables = true) { c = make_crosssection(m, p, med, k, interp && tables); };
    if (q.key == "annihilation") { if (n == "Heitler") add(cs::AnnihilationHeitler {}, nullptr); }
    else if (q.key == "brems") {
        if (n == "KelnerKokoulinPetrukhin") add(cs::BremsKelnerKokoulinPetrukhin { q.lpm, p, med, dc }, cut);
        if (n == "PetrukhinShestakov") add(cs::BremsPetrukhinShestakov { q.lpm, p, med, dc }, cut);
        if (n == "CompleteScreening") add(cs::BremsCompleteScreening { q.lpm, p, med, dc }, cut);
        if (n == "AndreevBezrukovBugaev") add(cs::BremsAndreevBezrukovBugaev { q.lpm, p, med, dc }, cut);
        if (n == "SandrockSoedingreksoRhode") add(cs::BremsSandrockSoedingreksoRhode { q.lpm, p, med, dc }, cut);
        if (n == "ElectronScreening") add(cs::BremsElectronScreening { q.lpm, p, med, dc }, cut);
    } else if (q.key == "compton") { if (n == "KleinNishina") add(cs::ComptonKleinNishina {}, cut); }
    else if (q.key == "epair") {
        if (n == "ForElectronPositron") add(cs::EpairForElectronPositron { q.lpm, p, med, dc }, cut);
        if (n == "KelnerKokoulinPetrukhin") add(cs::EpairKelnerKokoulinPetrukhin { q.lpm, p, med, dc }, cut);
        if (n == "SandrockSoedingreksoRhode") add(cs::EpairSandrockSoedingreksoRhode { q.lpm, p, med, dc }, cut);
    } else if (q.key == "ioniz") {
        EnergyCutSettings k(*cut);
        if (n == "BetheBlochRossi") add(cs::IonizBetheBlochRossi { k }, cut);
        if (n == "BergerSeltzerMoller") add(cs::IonizBergerSeltzerMoller { k }, cut);
        if (n == "BergerSeltzerBhabha") add(cs::IonizBergerSeltzerBhabha { k }, cut);
    } else if (q.key == "mupair") { if (n == "KelnerKokoulinPetrukhin") add(cs::MupairKelnerKokoulinPetrukhin {}, cut); }
    else if (q.key == "photo") {
        shared_ptr<cs::ShadowEffect> sh;
        if (q.shadow == "DuttaRenoSarcevicSeckel") sh = std::make_shared<cs::ShadowDuttaRenoSarcevicSeckel>();
        else sh = std::make_shared<cs::ShadowButkevichMikheyev>();
        if (n == "Zeus") add(cs::PhotoZeus { q.hard }, cut);
        if (n == "BezrukovBugaev") add(cs::PhotoBezrukovBugaev { q.hard }, cut);
        if (n == "Kokoulin") add(cs::PhotoKokoulin { q.hard }, cut);
        if (n == "Rhode") add(cs::PhotoRhode { q.hard }, cut);
        if (n == "AbramowiczLevinLevyMaor91") add(cs::PhotoAbramowiczLevinLevyMaor91 { sh }, cut);
        if (n == "AbramowiczLevinLevyMaor97") add(cs::PhotoAbramowiczLevinLevyMaor97 { sh }, cut);
        if (n == "ButkevichMikheyev") add(cs::PhotoButkevichMikheyev { sh }, cut);
        if (n == "RenoSarcevicSu") add(cs::PhotoRenoSarcevicSu { sh }, cut);
        if (n == "AbtFT") add(cs::PhotoAbtFT { sh }, cut);
        if (n == "BlockDurandHa") add(cs::PhotoBlockDurandHa { sh }, cut);
    } else if (q.key == "photoeffect") { if (n == "Sauter") add(cs::PhotoeffectSauter {}, nullptr, false); }
    else if (q.key == "photomupair") { if (n == "BurkhardtKelnerKokoulin") add(cs::PhotoMuPairBurkhardtKelnerKokoulin {}, nullptr); }
    else if (q.key == "photoproduction") {
        if (n == "Zeus") add(cs::PhotoproductionZeus {}, nullptr, false);
        if (n == "BezrukovBugaev") add(cs::PhotoproductionBezrukovBugaev {}, nullptr, false);
        if (n == "Rhode") add(cs::PhotoproductionRhode {}, nullptr, false);
        if (n == "Caldwell") add(cs::PhotoproductionCaldwell {}, nullptr, false);
        if (n == "Kokoulin") add(cs::PhotoproductionKokoulin {}, nullptr, false);
        if (n == "Heck") add(cs::PhotoproductionHeck {}, nullptr, false);
        if (n == "HeckC7Shadowing") add(cs::PhotoproductionHeckC7Shadowing {}, nullptr, false);
    } else if (q.key == "photopair") {
        if (n == "Tsai") add(cs::PhotoPairTsai { q.lpm, p, med, dc }, nullptr);
        if (n == "KochMotz") add(cs::PhotoPairKochMotz { q.lpm, p, med, dc }, nullptr);
    } else if (q.key == "weak") { if (n == "CooperSarkarMertsch") add(cs::WeakCooperSarkarMertsch {}, nullptr); }
    if (!c) throw std::runtime_error("harness: unknown process " + q.key + " " + n);
    if (q.mult != 1) c = make_crosssection_multiplier(c, q.mult);
    return c;
}
static List mine(Opt const& o, ParticleDef const& p, Medium const& med, shared_ptr<const EnergyCutSettings> cut, double dc)
{
    List l;
    if (!o.cross) return GetStdCrossSections(p, med, cut, o.vinterp);
    static const char* order[] = { "annihilation", "brems", "compton", "epair", "ioniz", "mupair", "photo", "photoeffect", "photomupair", "photoproduction", "photopair", "weak" };
    for (auto key : order)
        for (auto& q : o.procs)
            if (q.key == key) l.push_back(hand(q, p, med, cut, dc, o.vinterp));
    return l;
}
static shared_ptr<Scattering> scatter(Opt const& o, ParticleDef const& p, Medium const& med, List const& l)
{
    if (!o.scat) return nullptr;
    std::unique_ptr<multiple_scattering::Parametrization> ms;
    if (o.ms == "Highland") ms = make_highland(p, med);
    if (o.ms == "Moliere") ms = make_moliere(p, med);
    if (o.ms == "MoliereInterpol") ms = make_moliereinterpol(p, med);
    if (o.ms == "HighlandIntegral") ms = make_highland_integral(p, med, l, o.vinterp);
    vector<std::unique_ptr<sd::Parametrization>> v;
    for (auto& d : o.defl) {
        if (d == "BremsTsaiApproximation" || d == "DefaultBrems") v.emplace_back(new sd::BremsTsaiApproximation(p, med));
        if (d == "IonizNaive" || d == "DefaultIoniz") v.emplace_back(new sd::IonizNaive(p, med));
        if (d == "BremsGinneken") v.emplace_back(new sd::BremsGinneken(p, med));
        if (d == "PhotoBorogPetrukhin") v.emplace_back(new sd::PhotoBorogPetrukhin(p, med));
        if (d == "PhotoGinneken") v.emplace_back(new sd::PhotoGinneken(p, med));
        if (d == "EpairGinneken") v.emplace_back(new sd::EpairGinneken(p, med));
    }
    if (o.msm == 1 && o.dm.empty()) return std::make_shared<Scattering>(std::move(ms), std::move(v));
    return shared_ptr<Scattering>(new ScatteringMultiplier(std::move(ms), std::move(v), o.msm, o.dm));
}
struct Config { Opt g; bool global; vector<Sec> s; json j; int kind; string str; };
static Config rconfig(Rng& r, int kind)
{
    Config c;
    c.kind = kind;
    c.global = r.p(.8);
    double gg = c.global ? .7 : 0;
    c.g = roption(r, kind, gg, false);
    // without processes anywhere the standard set would be used, whose tables take long: kept for photons
    int n = r.i(1, 2);
    double size = r.logr(1e3, 1e7);
    for (int i = 0; i < n; ++i) {
        Sec s;
        s.o = roption(r, kind, c.global ? .4 : .7, false);
        if (!c.g.medium && !s.o.medium) s.o.medium = true;
        if (!c.g.cuts && !s.o.cuts) s.o.cuts = true;
        if (!c.g.cross && !s.o.cross && (kind != 5 || r.p(.5))) s.o.cross = true;
        // without the photons' sampling of low energies
        s.dens = r.p(.5) ? 0 : r.p(.6) ? 1 : 2;
        s.rho = r.logr(.01, 20);
        s.radial = r.p(.5);
        s.sigma = size * r.logr(3, 30) * r.sgn();
        s.d0 = r.p(.5) ? 0 : r.range(-.1, .1) * size;
        int nb = i == 0 ? 1 : r.i(1, 2);
        for (int b = 0; b < nb; ++b) {
            if (i == 0) { s.bodies.push_back(Body { K_SPH, { 0, 0, 0 }, (LD)(size * 10), 0, 0 }); s.hier.push_back(r.p(.5) ? -1 : 0); continue; }
            Body g { (Kind)r.i(0, 2), { (LD)(r.gauss() * size / 3), (LD)(r.gauss() * size / 3), (LD)(r.gauss() * size / 3) }, (double)(size * r.range(.3, 2)), 0, 0 };
            g.c.x = (double)g.c.x; g.c.y = (double)g.c.y; g.c.z = (double)g.c.z;
            if (g.k == K_BOX) { g.b = (double)(size * r.range(.3, 3)); g.h = (double)(size * r.range(.3, 3)); }
            else { if (g.k == K_CYL) g.h = (double)(size * r.range(.3, 3)); if (r.p(.3)) g.b = (double)((double)g.a * r.range(.1, .9)); }
            s.bodies.push_back(g);
            s.hier.push_back(r.p(.15) ? -1 : r.i(0, 3));
        }
        c.s.push_back(s);
    }
    if (c.global) c.j["global"] = jopt(r, c.g);
    c.j["sectors"] = json::array();
    for (auto& s : c.s) c.j["sectors"].push_back(jsec(r, s));
    c.str = string(pnames[kind]) + " " + c.j.dump();
    return c;
}
static vector<Sector> byhand(Config const& c, ParticleDef const& p, double* low)
{
    vector<Sector> v;
    *low = 0;
    for (auto& s : c.s) {
        Opt o = force(s.o, c.g);
        auto med = CreateMedium(o.vmedium);
        auto cut = std::make_shared<EnergyCutSettings>(o.e, o.v, o.rand);
        double md = med->GetMassDensity(), dc = s.dens ? s.rho / md : 1.;
        auto l = mine(o, p, *med, cut, dc);
        Coll k;
        k.displacement_calc = make_displacement(l, o.vinterp);
        *low = std::max(*low, k.displacement_calc->GetLowerLim());
        k.interaction_calc = make_interaction(k.displacement_calc, l, o.vinterp, false);
        k.scattering = scatter(o, p, *med, l);
        if (std::isfinite(p.lifetime)) k.decay_calc = make_decay(l, p, o.vinterp);
        if (o.rand) k.cont_rand = make_contrand(l, o.vinterp);
        if (o.vexact) k.time_calc = make_time(l, p, o.vinterp); else k.time_calc = std::make_shared<ApproximateTimeBuilder>();
        PropagationUtility u(k);
        for (size_t i = 0; i < s.bodies.size(); ++i) {
            shared_ptr<Geometry> g = s.bodies[i].make();
            g->SetHierarchy(s.hier[i] < 0 ? 0 : s.hier[i]);
            shared_ptr<Density_distr> d;
            if (s.dens == 0) d = std::make_shared<Density_homogeneous>(md);
            else if (s.dens == 1) d = std::make_shared<Density_homogeneous>(s.rho);
            else if (s.radial) d = std::make_shared<Density_exponential>(RadialAxis(Cartesian3D(1, -2, 3)), s.sigma, s.d0, s.rho);
            else d = std::make_shared<Density_exponential>(CartesianAxis(Cartesian3D(0, 0, 1), Cartesian3D(1, -2, 3)), s.sigma, s.d0, s.rho);
            v.push_back(std::make_tuple(g, u, d));
        }
    }
    return v;
}
// every process there is; kinds: 0.. as in bench.h, 5 photons
struct Known { const char* key; vector<const char*> names; };
static vector<Known> known(int kind)
{
    if (kind == 5) return { { "compton", { "KleinNishina" } }, { "photoeffect", { "Sauter" } }, { "photomupair", { "BurkhardtKelnerKokoulin" } }, { "photopair", { "Tsai", "KochMotz" } },
        { "photoproduction", { "Zeus", "BezrukovBugaev", "Caldwell", "Kokoulin", "Rhode", "Heck", "HeckC7Shadowing" } } };
    vector<Known> v { { "brems", { "KelnerKokoulinPetrukhin", "PetrukhinShestakov", "CompleteScreening", "AndreevBezrukovBugaev", "SandrockSoedingreksoRhode", "ElectronScreening" } },
        { "epair", { "KelnerKokoulinPetrukhin", "SandrockSoedingreksoRhode", "ForElectronPositron" } }, { "ioniz", { "BetheBlochRossi", "BergerSeltzerMoller", "BergerSeltzerBhabha" } },
        { "mupair", { "KelnerKokoulinPetrukhin" } }, { "weak", { "CooperSarkarMertsch" } },
        { "photo", { "Zeus", "BezrukovBugaev", "Kokoulin", "Rhode", "AbramowiczLevinLevyMaor91", "AbramowiczLevinLevyMaor97", "ButkevichMikheyev", "RenoSarcevicSu", "AbtFT", "BlockDurandHa" } } };
    if (kind == 3 || kind == 4) v[1].names = { "KelnerKokoulinPetrukhin", "SandrockSoedingreksoRhode", "ForElectronPositron" };
    if (kind == 4) v.push_back({ "annihilation", { "Heitler" } });
    return v;
}
static Proc rproc(Rng& r, Known const& k)
{
    Proc p { k.key, k.names[r.i(0, (int)k.names.size() - 1)], r.p(.5), r.p(.7), r.p(.5), r.p(.7), r.p(.4) ? r.logr(.2, 5) : 1., "" };
    if (!p.lpm_given) p.lpm = true;
    if (!p.hard_given) p.hard = true;
    if (p.key == "photo" && r.p(.7)) p.shadow = r.p(.5) ? "DuttaRenoSarcevicSeckel" : "ButkevichMikheyev";
    return p;
}
static std::unique_ptr<CrossSectionBase> factory(Proc const& q, ParticleDef const& p, Medium const& med, shared_ptr<const EnergyCutSettings> cut, double dc, bool interp, json const& j)
{
    if (q.key == "annihilation") return make_annihilation(p, med, interp, j);
    if (q.key == "brems") return make_bremsstrahlung(p, med, cut, interp, j, dc);
    if (q.key == "compton") return make_compton(p, med, cut, interp, j);
    if (q.key == "epair") return make_epairproduction(p, med, cut, interp, j, dc);
    if (q.key == "ioniz") return make_ionization(p, med, cut, interp, j);
    if (q.key == "mupair") return make_mupairproduction(p, med, cut, interp, j);
    if (q.key == "photo") {
        if (q.name == "Zeus" || q.name == "BezrukovBugaev" || q.name == "Kokoulin" || q.name == "Rhode") return make_photonuclearreal(p, med, cut, interp, j);
        return make_photonuclearQ2(p, med, cut, interp, j);
    }
    if (q.key == "photoeffect") return make_photoeffect(p, med, j);
    if (q.key == "photomupair") return make_photomupairproduction(p, med, interp, j);
    if (q.key == "photoproduction") return make_photoproduction(p, med, j);
    if (q.key == "photopair") return make_photopairproduction(p, med, interp, j, dc);
    return make_weakinteraction(p, med, interp, j);
}
template <class F> static string refused(F f)
{
    try { f(); } catch (std::exception const& e) { return string("refused: ") + e.what(); }
    return "accepted";
}
PROP(P05)
{
    coarse();
    m.cases("valid", 176, 8000, [&](Rng& r) {
        int kind = m.index % 7;
        if (kind == 6) kind = 0;
        auto c = rconfig(r, kind);
        m.describe(c.str);
        auto p = particle(kind);
        double low;
        vector<Sector> hand;
        try { hand = byhand(c, *p, &low); }
        catch (std::exception const& e) { // tables of rates that vanish nearly everywhere can not be built
            string o = refused([&] { Propagator q(*p, c.j); });
            m.check(o == string("refused: ") + e.what(), "refused-as-by-hand", "by hand: " + string(e.what()) + ", from the configuration: " + o);
            m.note("refused by both");
            return;
        }
        Propagator own(*p, hand);
        shared_ptr<Propagator> conf;
        bool file = r.p(.3);
        if (file) {
            string f = m.scratch + sfmt("/config%llu.json", (unsigned long long)r.next());
            std::ofstream(f) << (r.p(.5) ? c.j.dump(4) : c.j.dump());
            conf = std::make_shared<Propagator>(*p, f);
            std::remove(f.c_str());
            m.note("from a file");
        } else conf = std::make_shared<Propagator>(*p, c.j);
        m.nontrivial();
        m.note(string("configurations of ") + pnames[kind]);
        if (c.global && c.g.cuts) m.note("global cuts");
        for (auto& s : c.s) {
            if (s.o.cuts && c.g.cuts && c.global) m.note("cuts overridden");
            if (s.o.medium && c.g.medium) m.note("medium overridden");
            if (s.o.scat && c.g.scat) m.note("scattering overridden");
            if (s.o.cross && c.g.cross) m.note("processes overridden");
            if (!s.o.cross && c.g.cross) m.note("processes of the global settings");
            if (!s.o.cross && !c.g.cross) m.note("standard processes");
            if (s.o.exact || c.g.exact) m.note("exact time given");
            if (s.dens) m.note("density given");
        }
        double size = (double)c.s[0].bodies[0].a / 10;
        for (int k = 0; k < (m.thorough() ? 6 : 4); ++k) {
            ParticleState s;
            s.type = p->particle_type;
            s.energy = r.p(.2) ? r.logr(low * 1.01, low * 1e3) : r.logr(std::max(low * 2, 1e3), 5e8);
            s.position = Cartesian3D(r.gauss() * size, r.gauss() * size, r.gauss() * size);
            s.direction = s.position * -1. + Cartesian3D(r.gauss(), r.gauss(), r.gauss()) * (size / 2);
            s.direction.normalize();
            int seed = r.i(1, 1000000000);
            double maxd = r.p(.5) ? 1e20 : size * r.range(.1, 4), mine = r.p(.7) ? low : r.logr(low, s.energy);
            unsigned h = r.p(.7) ? 0 : r.i(0, 3);
            auto go = [&](Propagator& q) -> std::pair<uint64_t, string> {
                RandomGenerator::Get().SetSeed(seed);
                try { auto t = q.Propagate(s, maxd, mine, h); return { digest(t), sfmt("%u points, final E %.17g t %.17g at %.17g", (unsigned)t.GetTrackLength(), t.GetFinalState().energy, t.GetFinalState().time, t.GetFinalState().propagated_distance) }; }
                catch (std::exception const& e) { return { 1, string("exception ") + e.what() }; }
            };
            auto a = go(own), b = go(*conf);
            if (a.first != 1) m.note("tracks"); else m.note("tracks refused by both");
            if (!m.check(a == b, "same-track", "by hand: " + a.second + ", from the configuration: " + b.second + sfmt(" start E %.17g max %g min %g hier %u", s.energy, maxd, mine, h))) break;
        }
    });
    m.cases("factories", 1600, 100000, [&](Rng& r) {
        int kind = m.index % 7;
        if (kind == 6) kind = 5;
        auto p = particle(kind);
        auto ks = known(kind);
        auto q = rproc(r, ks[(m.index / 7) % ks.size()]);
        static const char* n[] = { "ice", "standardrock", "water", "air", "iron", "hydrogen", "lead", "salt" };
        auto med = CreateMedium(n[r.i(0, 7)]);
        auto cut = std::make_shared<EnergyCutSettings>(r.p(.3) ? std::numeric_limits<double>::infinity() : r.logr(50, 5000), r.logr(.01, 1), r.p(.5));
        double dc = r.p(.3) ? 1 : r.logr(.01, 10);
        json j = jproc(r, q);
        m.describe(string(pnames[kind]) + " in " + med->GetName() + " " + q.key + " " + j.dump() + sfmt(" density correction %g", dc));
        shared_ptr<CrossSectionBase> a, b;
        string oa = refused([&] { a = hand(q, *p, *med, cut, dc, false); }), ob = refused([&] { b = factory(q, *p, *med, cut, dc, false, j); });
        m.nontrivial();
        if (!m.check(oa == ob, "made-as-by-hand", "by hand: " + oa + ", by the factory: " + ob)) return;
        if (a && b) {
            m.note("made " + q.key);
            m.check(a->GetHash() == b->GetHash() && a->GetParametrizationName() == b->GetParametrizationName() && a->GetInteractionType() == b->GetInteractionType() && a->GetLowerEnergyLim() == b->GetLowerEnergyLim(), "same-process",
                "by hand " + a->GetParametrizationName() + sfmt(" hash %zx", a->GetHash()) + ", by the factory " + b->GetParametrizationName() + sfmt(" hash %zx", b->GetHash()));
            auto x = a->GetEnergyCutSettings(), y = b->GetEnergyCutSettings();
            m.check(!x == !y && (!x || x->GetHash() == y->GetHash()), "same-cuts", "other energy cuts");
            if (r.p(.25)) {
                double e = std::max(a->GetLowerEnergyLim(), 1.) * r.logr(1.1, 1e4);
                double u[2], v[2];
                string ou = refused([&] { u[0] = a->CalculatedEdx(e); u[1] = a->CalculatedNdx(e); }), ov = refused([&] { v[0] = b->CalculatedEdx(e); v[1] = b->CalculatedNdx(e); });
                if (m.check(ou == ov, "same-values", ou + " / " + ov) && ou == "accepted")
                    m.check(!memcmp(u, v, sizeof u), "same-values", sfmt("at %.17g MeV by hand dEdx %.17g dNdx %.17g, by the factory %.17g %.17g", e, u[0], u[1], v[0], v[1]));
                m.note("values compared");
            }
        }
        // what is missing or unknown is refused
        json k = j;
        string what;
        switch (r.i(0, q.key == "photo" ? 3 : 2)) {
        case 0: k.erase("parametrization"); what = "without a name"; break;
        case 1: k["parametrization"] = q.name + (r.p(.5) ? "s" : " "); what = "with an unknown name"; break;
        case 2: k["parametrization"] = r.p(.5) ? json(1) : json(nullptr); what = "with a number as name"; break;
        default: if (q.name == "Zeus" || q.name == "BezrukovBugaev" || q.name == "Kokoulin" || q.name == "Rhode") return; k["shadow"] = r.p(.5) ? "nonsense" : ""; what = "with an unknown shadow effect"; break;
        }
        m.check(refused([&] { factory(q, *p, *med, cut, dc, false, k); }) != "accepted", "factory-refuses", q.key + " " + what + " accepted: " + k.dump());
        m.note("refused " + what);
    });
    m.cases("rare", 160, 4000, [&](Rng& r) {
        // one sector, the rare processes next to the usual one
        static const int kinds[] = { 0, 5, 0, 4, 5, 2, 0, 5 };
        int kind = kinds[m.index % 8];
        InterpolationSettings::NODES_DEDX = InterpolationSettings::NODES_DE2DX = 12;
        InterpolationSettings::NODES_DNDX_E = InterpolationSettings::NODES_DNDX_V = 10;
        struct Back { ~Back() { coarse(); } } back;
        Config c;
        c.kind = kind;
        c.global = r.p(.5);
        Opt o;
        o.medium = o.cuts = o.cross = true;
        static const char* n[] = { "hydrogen", "iron", "copper", "lead" };
        o.vmedium = n[r.i(0, 3)];
        o.e = r.p(.5) ? std::numeric_limits<double>::infinity() : r.logr(50, 5000);
        o.v = r.logr(.01, .5);
        vector<string> rare = kind == 5 ? vector<string> { "photoeffect", "photomupair", "photopair", "photoproduction" } : kind == 4 ? vector<string> { "annihilation", "photo", "mupair" } : vector<string> { "mupair", "weak", "photo", "epair" };
        vector<string> want { kind == 5 ? "compton" : "ioniz", rare[(m.index / 8) % rare.size()], rare[r.i(0, (int)rare.size() - 1)] };
        for (auto& k : known(kind)) {
            if (std::find(want.begin(), want.end(), k.key) == want.end()) continue;
            Known x = k;
            if (x.key == string("ioniz")) x.names = { kind == 4 ? "BergerSeltzerBhabha" : "BetheBlochRossi" };
            if (x.key == string("epair") && kind != 4) x.names = { "KelnerKokoulinPetrukhin", "SandrockSoedingreksoRhode" };
            auto q = rproc(r, x);
            if (q.key != "ioniz" && q.key != "compton" && r.p(.5)) q.mult = r.logr(1, 1e4); // to be seen at all
            o.procs.push_back(q);
        }
        Sec s;
        double size = r.logr(1e4, 1e7);
        if (c.global) { c.g = o; s.o = Opt(); } else s.o = o;
        s.bodies.push_back(Body { K_SPH, { 0, 0, 0 }, (LD)(size * 10), 0, 0 });
        s.hier.push_back(0);
        c.s.push_back(s);
        if (c.global) c.j["global"] = jopt(r, c.g);
        c.j["sectors"] = json::array({ jsec(r, s) });
        c.str = string(pnames[kind]) + " " + c.j.dump();
        m.describe(c.str);
        auto p = particle(kind);
        double low;
        vector<Sector> h;
        try { h = byhand(c, *p, &low); }
        catch (std::exception const& e) {
            string w = refused([&] { Propagator q(*p, c.j); });
            m.check(w == string("refused: ") + e.what(), "refused-as-by-hand", "by hand: " + string(e.what()) + ", from the configuration: " + w);
            m.note("refused by both");
            return;
        }
        Propagator own(*p, h), conf(*p, c.j);
        m.nontrivial();
        for (auto& q : o.procs) m.note("rare " + q.key);
        for (int k = 0; k < 6; ++k) {
            ParticleState st;
            st.type = p->particle_type;
            st.energy = r.logr(std::max(low * 2, 1e2), 1e9);
            st.position = Cartesian3D(0, 0, 0);
            st.direction = Cartesian3D(0, 0, 1);
            int seed = r.i(1, 1000000000);
            double maxd = size * r.range(.1, 4);
            std::map<string, int> seen;
            auto go = [&](Propagator& q) -> std::pair<uint64_t, string> {
                RandomGenerator::Get().SetSeed(seed);
                try {
                    auto t = q.Propagate(st, maxd, low);
                    for (auto& x : t.GetStochasticLosses()) seen[Type_Interaction_Name_Map.at((InteractionType)x.type)]++;
                    return { digest(t), sfmt("%u points, final E %.17g t %.17g at %.17g", (unsigned)t.GetTrackLength(), t.GetFinalState().energy, t.GetFinalState().time, t.GetFinalState().propagated_distance) };
                } catch (std::exception const& e) { return { 1, string("exception ") + e.what() }; }
            };
            auto a = go(own), b = go(conf);
            for (auto& x : seen) m.note("losses by " + x.first, x.second);
            m.note(a.first != 1 ? "rare tracks" : "tracks refused by both");
            if (!m.check(a == b, "same-track", "by hand: " + a.second + ", from the configuration: " + b.second + sfmt(" start E %.17g max %g", st.energy, maxd))) break;
        }
    });
    m.cases("invalid", 1000, 60000, [&](Rng& r) {
        // a photonless configuration with quick tables, one field of which is spoilt
        auto c = rconfig(r, r.i(0, 1) ? 0 : 3);
        json j = c.j;
        vector<json::json_pointer> at; // the paths that matter
        string what;
        auto ptr = [](string s) { return json::json_pointer(s); };
        int ns = (int)j["sectors"].size(), k = r.i(0, ns - 1);
        string S = sfmt("/sectors/%d", k);
        json& sec = j["sectors"][k];
        static const char* words[] = { "nonsense", "", "brems", "inf inity", "0" };
        auto wrong = [&](int type) -> json { // a value of another type than the given one: 0 number, 1 text, 2 object, 3 list, 4 bool
            for (;;) {
                int t = r.i(0, 5);
                if (t == type) continue;
                switch (t) {
                case 0: return json(r.range(-5, 5));
                case 1: return json(words[r.i(0, 4)]);
                case 2: return json({ { "a", 1 } });
                case 3: return json({ 1, "a" });
                case 4: return json(true);
                default: return json(nullptr);
                }
            }
        };
        int how = r.i(0, 21);
        bool must = true; // must be refused; otherwise: only no crash
        switch (how) {
        case 0: j.erase("sectors"); what = "no sectors"; break;
        case 1: j["sectors"] = wrong(3); what = "sectors are no list"; break;
        case 2: sec.erase("geometries"); what = "no geometries"; break;
        case 3: sec["geometries"] = wrong(3); what = "geometries are no list"; break;
        case 4: sec["geometries"][0].erase(r.p(.5) ? "shape" : "origin"); what = "geometry without a shape or origin"; break;
        case 5: sec["geometries"][0]["shape"] = r.p(.5) ? json("cone") : wrong(1); what = "wrong shape"; break;
        case 6: sec["geometries"][0]["origin"] = r.p(.5) ? wrong(3) : json({ 1, "a", 3 }); what = "wrong origin"; break;
        case 7: sec["medium"] = r.p(.5) ? json("nonsense") : wrong(1); what = "wrong medium"; break;
        case 8: if (j.contains("global")) j["global"].erase("medium"); sec.erase("medium"); what = "no medium"; break;
        case 9: if (j.contains("global")) j["global"].erase("cuts"); sec.erase("cuts"); what = "no cuts"; break;
        case 10: {
            static const char* f[] = { "e_cut", "v_cut", "cont_rand" };
            sec["cuts"] = { { "e_cut", 500 }, { "v_cut", .05 }, { "cont_rand", false } };
            int x = r.i(0, 2);
            if (r.p(.5)) sec["cuts"].erase(f[x]); else sec["cuts"][f[x]] = x == 2 ? wrong(4) : x == 1 ? json(r.p(.5) ? -.1 : 1.1) : json(r.p(.5) ? "infinite" : "");
            what = "wrong cuts";
            break;
        }
        case 11: sec["cuts"] = wrong(2); what = "cuts are no object"; break;
        case 12: sec["CrossSections"] = json({ { "ioniz", { { "parametrization", r.p(.5) ? json("nonsense") : wrong(1) } } } }); what = "wrong parametrization"; break;
        case 13: sec["CrossSections"] = json({ { "ioniz", { { "multiplier", 1. } } } }); what = "no parametrization"; break;
        case 14: sec["scattering"] = json({ { "multiple_scattering", r.p(.5) ? json("nonsense") : wrong(1) } }); what = "wrong multiple scattering"; break;
        case 15: sec["scattering"] = json({ { "stochastic_deflection", r.p(.5) ? json::array({ r.p(.5) ? "nonsense" : r.p(.5) ? "DefaultDecay" : "Defaultnonsense" }) : wrong(3) } }); what = "wrong deflection"; break;
        case 16: sec["scattering"] = json({ { "stochastic_deflection_multiplier", r.p(.5) ? json({ { "nonsense", 1. } }) : r.p(.5) ? json({ { "brems", "a" } }) : wrong(2) } }); what = "wrong deflection multiplier"; break;
        case 17: sec["exact_time"] = wrong(4); if (sec["exact_time"].is_number()) must = false; what = "wrong exact_time"; break;
        case 18: sec["density_distribution"] = r.p(.5) ? json({ { "type", "nonsense" }, { "mass_density", 1. } }) : wrong(2); what = "wrong density distribution"; break;
        case 19: sec["density_distribution"] = r.p(.5) ? json({ { "type", "homogeneous" } }) : json({ { "type", "homogeneous" }, { "mass_density", r.p(.5) ? json("a") : json(nullptr) } }); what = "wrong mass density"; break;
        case 20: j = wrong(9); what = "no configuration at all"; break;
        case 21: { // any value anywhere
            must = false;
            auto flat = j.flatten();
            auto it = flat.begin();
            std::advance(it, r.i(0, (int)flat.size() - 1));
            auto q = ptr(it.key());
            if (r.p(.5)) j[q] = wrong(9); else { while (r.p(.5) && !q.empty()) q.pop_back(); if (!q.empty()) j[q] = wrong(9); }
            what = "spoilt " + q.to_string();
            break;
        }
        }
        m.describe(what + ": " + j.dump().substr(0, 3000));
        auto p = particle(c.kind);
        m.nontrivial();
        // accepted ones take long to build
        string o = refused([&] { Propagator q(*p, j); });
        if (must) { m.check(o != "accepted", "refused-" + [&] { string w = what; for (auto& x : w) if (x == ' ') x = '-'; return w; }(), what + " accepted: " + j.dump().substr(0, 2500)); m.note("spoilt: " + what); }
        else m.note("anything: " + o.substr(0, 7));
    });
    m.cases("files", 200, 4000, [&](Rng& r) {
        auto c = rconfig(r, 0);
        string t = c.j.dump(r.i(0, 4)), f = m.scratch + sfmt("/config%llu.json", (unsigned long long)r.next()), what;
        auto p = particle(0);
        m.nontrivial();
        int how = r.i(0, 4);
        if (how == 0) { what = "missing"; f = m.scratch + "/none.json"; }
        else {
            what = how == 1 ? "cut off" : how == 2 ? "empty" : how == 3 ? "a bracket removed" : "a directory";
            if (how == 4) f = m.scratch;
            else {
                if (how == 1) t = t.substr(0, r.i(1, (int)t.size() - 1));
                if (how == 2) t = r.p(.5) ? "" : "  \n";
                if (how == 3) { size_t k; do k = r.i(0, (int)t.size() - 1); while (!strchr("{}[]:,", t[k]) ); bool colon = t[k] == ',' && false; (void)colon; t.erase(k, 1); }
                std::ofstream(f) << t;
            }
        }
        m.describe(what + " " + t.substr(0, 1000));
        string o = refused([&] { Propagator q(*p, f); });
        m.check(o != "accepted", "file-refused", "file " + what + " accepted");
        m.note("file " + what);
        if (how != 0 && how != 4) std::remove(f.c_str());
    });
}
int main(int c, char** v) { return mon::run(c, v); }
