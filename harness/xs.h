// Workload shared by the cross section harnesses: particles, targets, energies, losses
#pragma once
#include "ref.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/crosssection/parametrization/Bremsstrahlung.h"
#include "PROPOSAL/crosssection/parametrization/Compton.h"
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/crosssection/parametrization/Ionization.h"
#include "PROPOSAL/crosssection/parametrization/MupairProduction.h"
#include "PROPOSAL/crosssection/parametrization/ParamTables.h"
#include "PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoQ2Integration.h"
#include "PROPOSAL/crosssection/parametrization/WeakInteraction.h"
#include "PROPOSAL/math/Interpolant.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/medium/MediumFactory.h"
using namespace PROPOSAL;
namespace cs = PROPOSAL::crosssection;
using mon::sfmt;
using ref::LD;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

// ------------------------------------------------------------------ workload
static const vector<ParticleDef>& charged()
{
    static const vector<ParticleDef> v { MuMinusDef(), MuPlusDef(), EMinusDef(), EPlusDef(), TauMinusDef(), TauPlusDef(), StauMinusDef(), StauPlusDef(),
        PiMinusDef(), PiPlusDef(), KMinusDef(), KPlusDef(), MonopoleDef(), SMPMinusDef() };
    return v;
}
static ParticleDef madeup(mon::Rng& r, double mlo = .3, double mhi = 3e5)
{
    static int n = 0;
    ++n;
    return ParticleDef::Builder().SetName(sfmt("Made%d", n)).SetMass(r.logr(mlo, mhi)).SetLow(1.).SetLifetime(-1).SetCharge(r.sgn() * (r.p(.5) ? 1. : r.range(.2, 3))).SetParticleType(7000000 + n).build();
}
static const vector<shared_ptr<Medium>>& media()
{
    static vector<shared_ptr<Medium>> v;
    if (v.empty())
        for (auto n : { "water", "ice", "salt", "standardrock", "frejusrock", "iron", "hydrogen", "lead", "copper", "uranium", "air", "paraffin", "antareswater", "liquidargon" })
            v.push_back(CreateMedium(n));
    return v;
}
static Component anycomp(mon::Rng& r)
{
    if (r.p(.6)) {
        auto& M = *media()[r.i(0, media().size() - 1)];
        auto c = M.GetComponents();
        return c[r.i(0, c.size() - 1)];
    }
    static int n = 0;
    double Z = r.p(.4) ? (double)r.i(1, 5) : (double)r.i(1, 100);
    return Component(sfmt("X%d", n++), Z, Z * r.range(1.0, 2.6), r.p(.5) ? 1. : r.range(.2, 4));
}
static string pd(const ParticleDef& p) { return sfmt("%s(m=%.9g q=%.9g)", p.name.c_str(), p.mass, p.charge); }
static string cd(const Component& c) { return sfmt("%s(Z=%.9g A=%.9g k=%.9g)", c.GetName().c_str(), c.GetNucCharge(), c.GetAtomicNum(), c.GetAtomInMolecule()); }
// a loss between a and b: uniform, logarithmic, close to either end
static double between(mon::Rng& r, double a, double b)
{
    double w = b - a;
    switch (r.i(0, 4)) {
    case 0: return r.range(a, b);
    case 1: return std::min(b, std::exp(r.range(std::log(std::max(a, b * 1e-12)), std::log(b))));
    case 2: return a + w * r.logr(1e-8, 1);
    case 3: return b - w * r.logr(1e-8, 1);
    default: return a + w * r.range(.05, .95);
    }
}
static double anyenergy(mon::Rng& r, double low)
{
    if (r.p(.2)) return low * (1 + r.logr(1e-4, 1));
    return r.logr(low * 1.0001, std::max(1e14, low * 10));
}
// the range of losses of a process of charged particles
static cs::KinematicLimits limits(InteractionType t, const ParticleDef& p, const Component& c, const Medium& M, double E)
{
    switch (t) {
    case InteractionType::Brems: return cs::BremsKelnerKokoulinPetrukhin(false).GetKinematicLimits(p, c, E);
    case InteractionType::Epair: return cs::EpairKelnerKokoulinPetrukhin(false).GetKinematicLimits(p, c, E);
    case InteractionType::Photonuclear: return cs::PhotoAbramowiczLevinLevyMaor97(make_unique<cs::ShadowButkevichMikheyev>()).GetKinematicLimits(p, c, E);
    default: {
        EnergyCutSettings cut(500, .05, false);
        return cs::IonizBetheBlochRossi(cut).GetKinematicLimits(p, M, E);
    }
    }
}
