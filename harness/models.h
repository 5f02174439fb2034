// All parametrisations that can be built here, behind one interface
#pragma once
#include "xs.h"
#include "PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.h"
#include "PROPOSAL/crosssection/CrossSectionDEDX/CrossSectionDEDXIntegral.h"
#include "PROPOSAL/crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.h"
typedef shared_ptr<const EnergyCutSettings> Cut;
enum Beam { CHARGED, ELECTRON, POSITRON, EITHER, PHOTON, LEPTON };
struct Model {
    string name;
    Beam beam;
    shared_ptr<cs::Parametrization<Component>> pc;
    shared_ptr<cs::Parametrization<Medium>> pm;
    std::function<shared_ptr<CrossSectionDNDX>(const ParticleDef&, const Component&, const Medium&, Cut)> dndx;
    std::function<shared_ptr<CrossSectionDEDX>(const ParticleDef&, const Component&, const Medium&, Cut)> dedx;
    std::function<shared_ptr<CrossSectionDE2DX>(const ParticleDef&, const Component&, const Medium&, Cut)> de2dx;
    double slow = 1; // cost of one evaluation
    string pname;
    unsigned pid = 0;
    double low(const ParticleDef& p) const { return pc ? pc->GetLowerEnergyLim(p) : pm->GetLowerEnergyLim(p); }
    cs::KinematicLimits lim(const ParticleDef& p, const Component& c, const Medium& M, double E) const { return pc ? pc->GetKinematicLimits(p, c, E) : pm->GetKinematicLimits(p, M, E); }
    double dsdv(const ParticleDef& p, const Component& c, const Medium& M, double E, double v) const { return pc ? pc->DifferentialCrossSection(p, c, E, v) : pm->DifferentialCrossSection(p, M, E, v); }
    double fdedx(const ParticleDef& p, const Component& c, const Medium& M, double E, double v) const { return pc ? pc->FunctionToDEdxIntegral(p, c, E, v) : pm->FunctionToDEdxIntegral(p, M, E, v); }
    double fde2dx(const ParticleDef& p, const Component& c, const Medium& M, double E, double v) const { return pc ? pc->FunctionToDE2dxIntegral(p, c, E, v) : pm->FunctionToDE2dxIntegral(p, M, E, v); }
    size_t hash() const { return pc ? pc->GetHash() : pm->GetHash(); }
};
template <class P> static Model mc(string n, Beam b, const P& q, double slow = 1)
{
    Model m { n, b };
    m.pc = make_shared<P>(q);
    m.pname = cs::ParametrizationName<P>::value;
    m.pid = cs::ParametrizationId<P>::value;
    m.dndx = [q](const ParticleDef& p, const Component& c, const Medium&, Cut k) -> shared_ptr<CrossSectionDNDX> { return make_shared<CrossSectionDNDXIntegral>(q, p, c, k); };
    m.dedx = [q](const ParticleDef& p, const Component& c, const Medium&, Cut k) -> shared_ptr<CrossSectionDEDX> { return make_shared<CrossSectionDEDXIntegral>(q, p, c, *k); };
    m.de2dx = [q](const ParticleDef& p, const Component& c, const Medium&, Cut k) -> shared_ptr<CrossSectionDE2DX> { return make_shared<CrossSectionDE2DXIntegral>(q, p, c, *k); };
    m.slow = slow;
    return m;
}
template <class P> static Model mm(string n, Beam b, const P& q)
{
    Model m { n, b };
    m.pm = make_shared<P>(q);
    m.pname = cs::ParametrizationName<P>::value;
    m.pid = cs::ParametrizationId<P>::value;
    m.dndx = [q](const ParticleDef& p, const Component&, const Medium& c, Cut k) -> shared_ptr<CrossSectionDNDX> { return make_shared<CrossSectionDNDXIntegral>(q, p, c, k); };
    m.dedx = [q](const ParticleDef& p, const Component&, const Medium& c, Cut k) -> shared_ptr<CrossSectionDEDX> { return make_shared<CrossSectionDEDXIntegral>(q, p, c, *k); };
    m.de2dx = [q](const ParticleDef& p, const Component&, const Medium& c, Cut k) -> shared_ptr<CrossSectionDE2DX> { return make_shared<CrossSectionDE2DXIntegral>(q, p, c, *k); };
    return m;
}
static vector<Model> photonuclear()
{
    vector<Model> v;
    for (int bm = 0; bm < 2; ++bm) {
        shared_ptr<cs::ShadowEffect> s;
        if (bm) s = make_shared<cs::ShadowButkevichMikheyev>();
        else s = make_shared<cs::ShadowDuttaRenoSarcevicSeckel>();
        string t = bm ? " BM" : " DRSS";
        v.push_back(mc("ALLM91" + t, CHARGED, cs::PhotoAbramowiczLevinLevyMaor91(s), 100));
        v.push_back(mc("ALLM97" + t, CHARGED, cs::PhotoAbramowiczLevinLevyMaor97(s), 100));
        v.push_back(mc("PhotoButkevichMikheyev" + t, CHARGED, cs::PhotoButkevichMikheyev(s), 100));
        v.push_back(mc("RenoSarcevicSu" + t, CHARGED, cs::PhotoRenoSarcevicSu(s), 100));
        v.push_back(mc("AbtFT" + t, CHARGED, cs::PhotoAbtFT(s), 100));
        v.push_back(mc("BlockDurandHa" + t, CHARGED, cs::PhotoBlockDurandHa(s), 100));
    }
    return v;
}
// without suppression; models that need the cut are built with it
static vector<Model> models(Cut k, const ParticleDef* p = nullptr, const Medium* M = nullptr, double dc = 1)
{
    vector<Model> v;
    bool l = p != nullptr;
#define LPM(CLS) (l ? cs::CLS(true, *p, *M, dc) : cs::CLS(false))
    if (!l || p->charge != 0) {
        v.push_back(mc("PetrukhinShestakov", CHARGED, LPM(BremsPetrukhinShestakov)));
        v.push_back(mc("KelnerKokoulinPetrukhin", CHARGED, LPM(BremsKelnerKokoulinPetrukhin)));
        v.push_back(mc("CompleteScreening", CHARGED, LPM(BremsCompleteScreening)));
        v.push_back(mc("AndreevBezrukovBugaev", CHARGED, LPM(BremsAndreevBezrukovBugaev)));
        v.push_back(mc("SandrockSoedingreksoRhode", CHARGED, LPM(BremsSandrockSoedingreksoRhode)));
        v.push_back(mc("ElectronScreening", EITHER, LPM(BremsElectronScreening)));
        v.push_back(mc("EpairKelnerKokoulinPetrukhin", CHARGED, LPM(EpairKelnerKokoulinPetrukhin), 100));
        v.push_back(mc("EpairSandrockSoedingreksoRhode", CHARGED, LPM(EpairSandrockSoedingreksoRhode), 100));
        v.push_back(mc("EpairForElectronPositron", EITHER, LPM(EpairForElectronPositron), 100));
    }
    if (!l || p->charge == 0) {
        v.push_back(mc("PhotoPairTsai", PHOTON, LPM(PhotoPairTsai)));
        v.push_back(mc("PhotoPairKochMotz", PHOTON, LPM(PhotoPairKochMotz)));
    }
#undef LPM
    if (l) return v;
    v.push_back(mc("MupairKelnerKokoulinPetrukhin", CHARGED, cs::MupairKelnerKokoulinPetrukhin(), 100));
    v.push_back(mm("IonizBetheBlochRossi", CHARGED, cs::IonizBetheBlochRossi(*k)));
    v.push_back(mm("IonizBergerSeltzerBhabha", POSITRON, cs::IonizBergerSeltzerBhabha(*k)));
    v.push_back(mm("IonizBergerSeltzerMoller", ELECTRON, cs::IonizBergerSeltzerMoller(*k)));
    v.push_back(mc("ComptonKleinNishina", PHOTON, cs::ComptonKleinNishina()));
    v.push_back(mc("PhotoMuPairBurkhardtKelnerKokoulin", PHOTON, cs::PhotoMuPairBurkhardtKelnerKokoulin()));
    for (auto& m : photonuclear()) v.push_back(m);
    static const cs::WeakCooperSarkarMertsch weak;
    v.push_back(mc("WeakCooperSarkarMertsch", LEPTON, weak));
    return v;
}
static Cut anycut(mon::Rng& r, bool stoch = false)
{
    double e = r.p(.25) ? INFINITY : r.logr(1e-1, 1e6), v = r.p(.25) ? 1. : r.logr(1e-5, 1);
    if (stoch && std::isinf(e) && v == 1) v = .05;
    return make_shared<const EnergyCutSettings>(e, v, r.p(.5));
}
static ParticleDef beam(mon::Rng& r, Beam b, double mhi = 3e5)
{
    switch (b) {
    case ELECTRON: return EMinusDef();
    case POSITRON: return EPlusDef();
    case EITHER: return r.p(.5) ? (ParticleDef)EMinusDef() : (ParticleDef)EPlusDef();
    case PHOTON: return GammaDef();
    case LEPTON: return charged()[r.i(0, 7)];
    default: return r.p(.6) ? charged()[r.i(0, charged().size() - 1)] : madeup(r, .3, mhi);
    }
}
static string cutd(const EnergyCutSettings& k) { return sfmt("ecut=%.9g vcut=%.9g", k.GetEcut(), k.GetVcut()); }
