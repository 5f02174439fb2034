// Independent reference implementations of the published cross section formulas,
// written for any floating type: evaluated in long double they give the value,
// evaluated in double at neighbouring points they give the rounding noise that a
// double implementation of the same formula may legitimately show.
#pragma once
#include "num.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/ParticleDef.h"
namespace ref {
typedef long double LD;
// constants of the simulation (CODATA/PDG values it documents)
constexpr LD ALPHA = 0.0072973525664L, NA = 6.022140857e23L, ME = 0.5109989461L, RE = 2.8179403227e-13L,
             MMU = 105.6583745L, MTAU = 1776.86L, MPI = 139.57018L, MP = 938.2720813L, MN = 939.565413L, IONK = 0.307075L, PI = M_PIl;

struct Proj { double m, q; };
struct Tgt { double Z, A, B, Bp, M, ws, k; };
inline Proj proj(const PROPOSAL::ParticleDef& p) { return { p.mass, p.charge }; }
inline Tgt tgt(const PROPOSAL::Component& c)
{
    return { c.GetNucCharge(), c.GetAtomicNum(), c.GetLogConstant(), c.GetBPrime(), c.GetAverageNucleonWeight(), c.GetWoodSaxon(), c.GetAtomInMolecule() };
}
template <class T> T sqr(T x) { return x * x; }
// exact in long double; in double as the published expression is rounded
inline LD ln1p(LD x) { return log1pl(x); }
inline double ln1p(double x) { return std::log(1 + x); }
inline LD li2_unit(LD x) // 0..1
{
    if (x == 0) return 0;
    if (x == 1) return PI * PI / 6;
    if (x > 0.5L) return PI * PI / 6 - logl(x) * log1pl(-x) - li2_unit(1 - x);
    LD s = 0, p = 1;
    for (int k = 1; k < 200; ++k) { p *= x; LD t = p / ((LD)k * k); s += t; if (t < 1e-22L * s) break; }
    return s;
}
// real part of the dilogarithm for x >= 0
template <class T> T li2(T x)
{
    LD y = x;
    if (y <= 1) return (T)li2_unit(y);
    LD l = logl(y);
    return (T)(PI * PI / 3 - l * l / 2 - li2_unit(1 / y));
}
template <class T> T E12() { return std::exp(T(0.5)); }
template <class T> T coulomb(T Z)
{
    T a = sqr(T(ALPHA) * Z);
    return a * (1 / (1 + a) + T(0.20206L) + a * (T(-0.0369L) + a * (T(0.0083L) - T(0.002L) * a)));
}
template <class T> void tsaiL(T Z, T& Lr, T& Lp)
{
    int z = (int)(double)(Z + T(0.5));
    static const LD R[] = { 0, 5.31L, 4.79L, 4.74L, 4.71L }, P[] = { 0, 6.144L, 5.621L, 5.805L, 5.924L };
    if (z >= 1 && z <= 4) { Lr = R[z]; Lp = P[z]; return; }
    Lr = std::log(T(184.15L)) - std::log(Z) / 3;
    Lp = std::log(T(1194)) - 2 * std::log(Z) / 3;
}
template <class T> void screening(T x, T& f1, T& f2)
{
    if (x <= 1) {
        f1 = T(20.867L) - x * (T(3.242L) - T(0.625L) * x);
        f2 = T(20.029L) - x * (T(1.930L) + T(0.086L) * x);
    } else
        f1 = f2 = T(21.12L) - T(4.184L) * std::log(x + T(0.952L));
}

// ---------------------------------------------------------------- bremsstrahlung
// largest loss at which the atomic electron recoils
template <class T> T brems_vrecoil(T m, T E)
{
    T p = std::sqrt(std::max((E - m) * (E + m), T(0)));
    // E - p without cancellation would be m^2/(E+p); the published limit is written with E - p + m_e
    return T(ME) * (E - m) / (E * (E - p + T(ME)));
}
template <class T> T brems_ps(const Proj& P, const Tgt& t, T E, T v)
{
    T m = P.m, Z = t.Z, F = 189 / (T(ME) * std::cbrt(Z)), d = m * m * v / (2 * E * (1 - v));
    T Fd = m * F / (1 + E12<T>() * d * F);
    if (t.Z > 10) Fd *= T(2) / (3 * std::cbrt(Z));
    return (T(4) / 3 * (1 - v) + v * v) * std::log(Fd);
}
template <class T> T brems_kkp(const Proj& P, const Tgt& t, T E, T v)
{
    T m = P.m, Z = t.Z, e = ME, c3 = std::cbrt(Z), s = E12<T>();
    T d = m * m * v / (2 * E * (1 - v)), D = T(1.54L) * std::pow(T(t.A), T(0.27L));
    T at = std::log(1 + e * c3 / (d * s * T(t.B)));
    T nu = std::log(D / (1 + d * (D * s - 2) / m));
    T ae = 0;
    if (v < brems_vrecoil(m, E)) ae = std::log(m / (d * (d * m / (e * e) + s))) - std::log(1 + e * c3 * c3 / (d * s * T(t.Bp)));
    T L = std::log(m / d) - T(0.5) - at - nu;
    T add = ae + (t.Z != 1 ? nu : T(0));
    return (T(4) / 3 * (1 - v) + v * v) * (L + add / Z);
}
template <class T> T brems_cs(const Proj&, const Tgt& t, T, T v)
{
    T Z = t.Z, Lr, Lp;
    tsaiL(Z, Lr, Lp);
    return (T(4) / 3 * (1 - v) + v * v) * (Lr - coulomb(Z) + Lp / Z) + (1 - v) * (1 + 1 / Z) / 9;
}
template <class T> T brems_abb(const Proj& P, const Tgt& t, T E, T v)
{
    T m = P.m, Z = t.Z, c3 = std::cbrt(Z), e = ME;
    T d = m * m * v / (2 * E * (1 - v));
    T a1 = T(184.15L) / (c3 * E12<T>() * e), a2 = 1194 / (c3 * c3 * E12<T>() * e);
    T x1 = a1 * d, x2 = a2 * d, d1 = 0, d2 = 0;
    if (t.Z != 1) {
        T r = m * c3 / (T(1.9L) * T(MMU)), z = std::sqrt(1 + 4 * r * r);
        T w = z * std::log((z + 1) / (z - 1)) / 2;
        d1 = std::log(r) + w;
        d2 = std::log(r) + ((3 - z * z) * w + 4 * r * r) / 2;
    }
    auto psi = [&](T ma, T x, T c) { return (c + 2 * std::log(ma) - std::log(1 + x * x)) / 2; };
    auto tail = [&](T x) { return x * std::atan(1 / x); };
    auto tail2 = [&](T x) { return 2 * x * x * (1 - x * std::atan(1 / x) + T(0.75) * (2 * std::log(x) - std::log(1 + x * x))); };
    T p1 = psi(m * a1, x1, 1) - tail(x1) + (psi(m * a2, x2, 1) - tail(x2)) / Z - d1;
    T p2 = psi(m * a1, x1, T(2) / 3) + tail2(x1) + (psi(m * a2, x2, T(2) / 3) + tail2(x2)) / Z - d2;
    return std::max((2 - 2 * v + v * v) * p1 - T(2) / 3 * (1 - v) * p2, T(0));
}
template <class T> T brems_ssr(const Proj& P, const Tgt& t, T E, T v)
{
    T m = P.m, Z = t.Z, c3 = std::cbrt(Z), e = ME, B = t.B;
    T D = T(1.54L) * std::pow(T(t.A), T(0.27L));
    T mq = m * D / (T(MMU) * std::exp(T(1))), rho = std::sqrt(1 + 4 * mq * mq);
    T lr = std::log((rho + 1) / (rho - 1));
    T D1 = std::log(mq) + rho * lr / 2, D2 = std::log(mq) + rho * (3 - rho * rho) * lr / 4 + 2 * mq * mq;
    T d = m * m * v / (2 * E * (1 - v));
    T f1 = std::log(B / c3 * (m / e) / (1 + B / c3 * std::exp(T(1) / 2) * d / e));
    T f2 = std::log(B / c3 * std::exp(-T(1) / 6) * (m / e) / (1 + B / c3 * std::exp(T(1) / 3) * d / e));
    T w = t.Z == 1 ? T(1) : 1 - 1 / Z;
    f1 -= D1 * w;
    f2 -= D2 * w;
    T sat = 0;
    if (v < brems_vrecoil(m, E))
        sat = (T(4) / 3 * (1 - v) + v * v)
            * (std::log((m / d) / (m * d / (e * e) + E12<T>())) - std::log(1 + e * c3 * c3 / (d * T(t.Bp) * E12<T>())));
    T L = std::log(1 - v), sr;
    if (v < T(0.02L)) sr = T(-0.00349L) + v * (T(148.84L) - T(987.531L) * v);
    else if (v < T(0.1L)) sr = T(0.1642L) + v * (T(132.573L) + v * (T(-585.361L) + v * T(1407.77L)));
    else if (v < T(0.9L)) sr = T(-2.8922L) + v * (T(-19.0156L) + v * T(57.698L)) - T(63.418L) * v * std::log(v) + L * (T(14.1166L) + T(1.84206L) * L);
    else sr = T(2134.19L) + v * (T(581.823L) - T(2708.85L) * v) + T(4767.05L) * v * std::log(v) + L * (T(1.52918L) + T(0.361933L) * L);
    return std::max((2 - 2 * v + v * v) * f1 - T(2) / 3 * (1 - v) * f2 + sat / Z + T(ALPHA) / 4 * f1 * sr, T(0));
}
// electron screening without the empirical low-energy factor
template <class T> T brems_es(const Proj& P, const Tgt& t, T E, T v, T A)
{
    T m = P.m, Z = t.Z, f1, f2, Lr, Lp;
    T d = m * m * v / (2 * E * (1 - v));
    screening<T>(272 * d / (std::cbrt(Z) * T(ME)), f1, f2);
    tsaiL(Z, Lr, Lp);
    T fc = coulomb(Z), xi = Lp / (Lr - fc);
    if (E < 50) fc = 0;
    T c = T(4) / 3 * std::log(Z) + 4 * fc;
    return A * Z * (Z + xi) * ((2 - 2 * v + v * v) * (f1 - c) - T(2) / 3 * (1 - v) * (f2 - c));
}
template <class T> T brems_pref(const Proj& P, const Tgt& t, T v) // (2 Z q^2 re me/m)^2 alpha/v N_A/A
{
    T a = 2 * T(P.q) * T(P.q) * T(ME) / T(P.m) * T(RE) * T(t.Z);
    return T(NA) / T(t.A) * a * a * T(ALPHA) / v;
}
// Migdal functions in the approximation of Stanev et al.
template <class T> void migdal(T s, T& phi, T& G)
{
    T s2 = s * s, pi = PI;
    if (s < T(1.54954L)) phi = 1 - std::exp(-6 * s * (1 + (3 - pi) * s) + s * s2 / (T(0.623L) + T(0.796L) * s + T(0.658L) * s2));
    else phi = 1 - T(0.012L) / (s2 * s2);
    if (s < T(0.710390L)) {
        T ps = 1 - std::exp(-4 * s - 8 * s2 / (1 + T(3.936L) * s + T(4.97L) * s2 - T(0.05L) * s2 * s + T(7.50L) * s2 * s2));
        G = 3 * ps - 2 * phi;
    } else if (s < T(0.904912L)) G = 36 * s2 / (36 * s2 + 1);
    else G = 1 - T(0.022L) / (s2 * s2);
}
template <class T> T lpm_xi(T sp, T s1)
{
    if (sp < s1) return 2;
    if (sp >= 1) return 1;
    T h = std::log(sp) / std::log(s1), k = 1 - h;
    return 1 + h - T(0.08L) * k * (1 - k * k) / std::log(s1);
}
struct LpmMed { double sumcharge, moldens, massdens; LD elpm; };
template <class T> T brems_lpm(const Proj& P, const Tgt& t, const LpmMed& M, T E, T v, T rho)
{
    T m = P.m, D = T(1.54L) * std::pow(T(t.A), T(0.27L)), e = ME;
    T s1 = sqr(e * std::cbrt(T(t.Z)) / (m * T(t.B))) * (1 + sqr(m / T(MMU) * D)) * std::sqrt(T(2));
    T sp = std::sqrt(T(M.elpm) * v / (rho * E * (1 - v))) / 8;
    T xi = lpm_xi(sp, s1);
    T Gm = 1 + 4 * T(PI) * T(M.sumcharge) * T(RE) * sqr(T(RE) * e / (T(ALPHA) * m * v)) * T(M.moldens) * rho;
    T phi, G;
    migdal(sp / std::sqrt(xi) * Gm, phi, G);
    return xi / 3 * (v * v * G / (Gm * Gm) + 2 * (1 + sqr(1 - v)) * phi / Gm) / (T(4) / 3 * (1 - v) + v * v);
}

// ---------------------------------------------------------------- electron pairs
template <class T> T ep_zeta(const Proj& P, const Tgt& t, T E)
{
    T g = E / T(P.m), c3 = std::cbrt(T(t.Z));
    T g1 = t.Z == 1 ? T(4.4e-5L) : T(1.95e-5L), g2 = t.Z == 1 ? T(4.8e-5L) : T(5.3e-5L);
    T a = T(0.073L) * std::log(g / (1 + g1 * c3 * c3 * g)) - T(0.26L), b = T(0.058L) * std::log(g / (1 + g2 * c3 * g)) - T(0.14L);
    return a > 0 && b > 0 ? a / b : T(0);
}
template <class T> T ep_Be(T x, T b, T r2) { return ((2 + r2) * (1 + b) + x * (3 + r2)) * ln1p(1 / x) + (1 - r2 - b) / (1 + x) - (3 + r2); }
template <class T> T ep_Bm(T x, T b, T r2)
{
    return ((1 + r2) * (1 + T(1.5) * b) - (1 + 2 * b) * (1 - r2) / x) * ln1p(x) + x * (1 - r2 - b) / (1 + x) + (1 + 2 * b) * (1 - r2);
}
// w: result before clamping to zero
template <class T> T epair_kkp(const Proj& P, const Tgt& t, T E, T v, T r) // r = 1 - rho
{
    T rho = 1 - r, r2 = rho * rho, m = P.m, e = ME, c3 = std::cbrt(T(t.Z)), B = t.B;
    T x = sqr(m * v / (2 * e)) * (1 - r2) / (1 - v), b = v * v / (2 * (1 - v));
    T Ye = (5 - r2 + 4 * b * (1 + r2)) / (2 * (1 + 3 * b) * std::log(3 + 1 / x) - r2 - 2 * b * (2 - r2));
    T Ym = (4 + r2 + 3 * b * (1 + r2)) / ((1 + r2) * (T(1.5) + 2 * b) * std::log(3 + x) + 1 - T(1.5) * r2);
    T q = T(1.5) * e * c3 / m, s = 2 * e * E12<T>() * B / (c3 * E * v * (1 - r2));
    T he = (1 + x) * (1 + Ye), hm = (1 + x) * (1 + Ym);
    T Le = std::log(B / c3 * std::sqrt(he) / (1 + s * he)) - std::log(1 + q * q * he) / 2;
    T Lm = std::log(B / (q * c3) / (1 + s * hm));
    T F = 0;
    if (Le > 0) F += Le * (1 / x < T(1e-5L) ? (T(1.5) - r2 / 2 + b * (1 + r2)) / x : ep_Be(x, b, r2));
    if (Lm > 0) F += Lm * ep_Bm(x, b, r2) * sqr(e * T(P.q) / m);
    T pre = sqr(T(ALPHA) * T(RE) * T(P.q)) * 2 / (T(1.5) * T(PI)) * T(t.Z) * (T(t.Z) + ep_zeta(P, t, E));
    return std::max(pre * (1 - v) / v * F, T(0));
}
template <class T> T epair_ssr(const Proj& P, const Tgt& t, T E, T v, T r)
{
    T rho = 1 - r, r2 = rho * rho, m = P.m, e = ME, c3 = std::cbrt(T(t.Z)), B = t.B, Z = t.Z;
    T D = T(1.54L) * std::pow(T(t.A), T(0.27L));
    T x = sqr(m * v / (2 * e)) * (1 - r2) / (1 - v), b = v * v / (2 * (1 - v));
    T l = ln1p(1 / x), lx = ln1p(x);
    T Be = ep_Be(x, b, r2);
    T Ce2 = ((1 - r2) * (1 + b) + x * (3 - r2)) * l + 2 * (1 - b - r2) / (1 + x) - (3 - r2), Ce1 = Be - Ce2;
    T De = ((2 + r2) * (1 + b) + x * (3 + r2)) * li2(1 / (1 + x)) - (2 + r2) * x * l - (x + r2 + b) / (1 + x);
    T Bm = ep_Bm(x, b, r2);
    T Cm2 = ((1 - b) * (1 - r2) - x * (1 + r2)) * lx / x - 2 * (1 - b - r2) / (1 + x) + 1 - b - (1 + b) * r2, Cm1 = Bm - Cm2;
    T Dm = ((1 + r2) * (1 + T(1.5) * b) - (1 + 2 * b) * (1 - r2) / x) * li2(x / (1 + x)) + (1 + T(1.5) * b) * (1 - r2) / x * lx
        + (1 - r2 - b / 2 * (1 + r2) + (1 - r2) / (2 * x) * b) * x / (1 + x);
    T k = De / Be;
    // log of a + X e^y written so that neither factor overflows; X = exp(-k)
    auto lse = [](T la, T lb) { T M = std::max(la, lb); return M + std::log(std::exp(la - M) + std::exp(lb - M)); };
    auto Le = [&](T c) { // c = 0 for L_e1, 1/6 for L_e2
        T g = std::log(2 * e * std::exp(T(0.5) - c) * B / c3 * (1 + x) / (E * v * (1 - r2)));
        T n = 2 * std::log(e / m * D) - 2 * c + ln1p(x);
        return std::log(B / c3) - c + ln1p(x) / 2 - lse(-k, g) - k - lse(-k, n) / 2;
    };
    T km = Dm / Bm;
    auto Lm = [&](T c) {
        T g = std::log(2 * e * std::exp(T(0.5) - c) * B / c3 * (1 + x) / (E * v * (1 - r2)));
        return -km + std::log(m / e * B / (c3 * D)) - lse(-km, g);
    };
    T sixth = T(1) / 6;
    T de = Ce1 * Le(0) + Ce2 * Le(sixth), dm = sqr(e * T(P.q) / m) * (Cm1 * Lm(0) + Cm2 * Lm(sixth));
    T pre = 4 / (3 * T(PI)) * Z * (Z + ep_zeta(P, t, E)) * sqr(T(ALPHA) * T(RE) * T(P.q)) * (1 - v) / v;
    return pre * (std::max(de, T(0)) + std::max(dm, T(0)));
}
// pairs of the projectile's own flavour scaled from muon pairs (Kelner, Kokoulin, Petrukhin 2000);
// M: mass of the produced lepton, U0: the screening logarithm's argument at zero momentum transfer
template <class T> T pair_same(const Proj& P, T Z, T E, T v, T rho, T M, T B, T nucl)
{
    T r2 = rho * rho, m = P.m, e = ME, c3 = std::cbrt(Z), b = v * v / (2 * (1 - v));
    T rm = 1 - 2 * M / (v * E);
    T x = sqr(m * v / (2 * M)) * (1 - r2) / (1 - v);
    T phi = ((2 + r2) * (1 + b) + x * (3 + r2)) * ln1p(1 / x) + ((1 + r2) * (1 + T(1.5) * b) - (1 + 2 * b) * (1 - r2) / x) * ln1p(x) - 1
        - 3 * r2 + b * (1 - 2 * r2);
    T Y = 12 * std::sqrt(M / E);
    auto U = [&](T xx, T q2) { return nucl * B / c3 * M / e / (1 + 2 * E12<T>() * M * M * B / c3 * (1 + xx) * (1 + Y) / (e * E * v * (1 - q2))); };
    T xm = v * v * (1 - rm * rm) / (4 * (1 - v));
    T X = 1 + U(x, r2) - U(xm, rm * rm);
    T rl = T(RE) * e / M;
    if (!(X > 0)) return 0;
    return std::max(2 * sqr(T(ALPHA) * rl * T(P.q) * Z) * phi * (1 - v) / (T(1.5) * T(PI) * v) * std::log(X), T(0));
}
template <class T> T epair_elpos(const Proj& P, const Tgt& t, T E, T v, T rho) { Proj q { (double)ME, P.q }; return pair_same<T>(q, t.Z, E, v, rho, ME, t.B, 1); }
template <class T> T mupair_kkp(const Proj& P, const Tgt& t, T E, T v, T rho, T nucleons)
{
    return pair_same<T>(P, t.Z, E, v, rho, MMU, 183, T(0.65L) * std::pow(nucleons, T(-0.27L)));
}
// Polityko et al. 2002
template <class T> T epair_lpm(T elpm, T E, T v, T r2, T b, T x, T rho)
{
    T s = std::sqrt(elpm / (rho * E * v * (1 - r2))) / 4, s6 = 6 * s, q = s6 * s6;
    if (s6 * (x + 1) > T(1e10L)) return 1;
    T d1 = s6 / (s6 + 1), d2 = q / (q + 1), at = std::atan(s6 * (x + 1)) - T(PI) / 2;
    T l1 = std::log((q * sqr(1 + x) + 1) / (q * x * x)), l2 = std::log((s6 * (1 + x) + 1) / (s6 * x)), w = (q - 1) / (q + 1);
    T A = d2 / 2 * (1 + 2 * d2 * x) * l1 - d2 + 6 * d2 * s * (1 + w * x) * at;
    T B = d1 * (1 + d1 * x) * l2 - d1;
    T C = -d2 * d2 * x * l1 + d2 - d2 * d2 * (q - 1) / s6 * x * at;
    T D = d1 - d1 * d1 * x * l2, Ee = -s6 * at;
    return ((1 + b) * (A + (1 + r2) * B) + b * (C + (1 + r2) * D) + (1 - r2) * Ee) / ep_Be(x, b, r2);
}

// ---------------------------------------------------------------- ionisation
struct MedI { double I, X0, X1, D0, a, C, m; LD ZA; };
inline MedI med(const PROPOSAL::Medium& M)
{
    LD z = 0, a = 0;
    for (auto& c : M.GetComponents()) { z += (LD)c.GetAtomInMolecule() * c.GetNucCharge(); a += (LD)c.GetAtomInMolecule() * c.GetAtomicNum(); }
    return { M.GetI(), M.GetX0(), M.GetX1(), M.GetD0(), M.GetA(), M.GetC(), M.GetM(), z / a };
}
template <class T> T dens(const MedI& M, T bg)
{
    T X = std::log10(bg);
    if (X < M.X0) return T(M.D0) * std::pow(T(10), 2 * (X - T(M.X0)));
    T d = 2 * std::log(T(10)) * X + T(M.C);
    return X < M.X1 ? d + T(M.a) * std::pow(T(M.X1) - X, T(M.m)) : d;
}
template <class T> T ion_vmax(T m, T E)
{
    T g = E / m, r = T(ME) / m;
    return std::min(2 * T(ME) * (g - 1) * (g + 1) / ((1 + 2 * g * r + r * r) * E), 1 - m / E);
}
template <class T> T ion_rossi0(const Proj& P, const MedI& M, T E, T v)
{
    T m = P.m, b2 = (E - m) * (E + m) / (E * E), g = E / m;
    return T(IONK) * T(P.q) * T(P.q) * T(M.ZA) / (2 * b2 * E * v * v) * (1 - b2 * v / ion_vmax(m, E) + sqr(v / (1 + 1 / g)) / 2);
}
template <class T> T ion_inel(const Proj& P, T E, T v)
{
    T m = P.m, e = ME;
    T a = ln1p(2 * v * E / e), b = std::log((1 - v / ion_vmax(m, E)) / (1 - v)), c = std::log(2 * E * (1 - v) * e / (m * m * v));
    return T(ALPHA) / (2 * T(PI)) * (a * (2 * b + c) - b * b);
}
template <class T> T ion_rossi(const Proj& P, const MedI& M, T E, T v) { return ion_rossi0(P, M, E, v) * (1 + ion_inel(P, E, v)); }
template <class T> T ion_rossi_loss(const Proj& P, const MedI& M, T E, T vup)
{
    T m = P.m, b2 = (E - m) * (E + m) / (E * E), g = E / m, vm = ion_vmax(m, E), I = T(M.I) * T(1e-6L);
    T L = std::log(2 * T(ME) * E * vup * b2 * g * g / (I * I)) + sqr(vup / (2 * (1 + 1 / g))) - b2 * (1 + vup / vm) - dens(M, std::sqrt(b2) * g);
    return std::max(L, T(0)) * T(IONK) * T(P.q) * T(P.q) * T(M.ZA) / (2 * b2);
}
template <class T> T ion_bhabha(const Proj& P, const MedI& M, T E, T v)
{
    T m = P.m, g = E / m, e = v * E / (E - m), b2 = 1 - 1 / (g * g), y = 1 / (g + 1), w = 1 - 2 * y;
    T B1 = 2 - y * y, B2 = w * (3 + y * y), B4 = w * w * w, B3 = w * w + B4;
    T s = 1 / (b2 * e * e) - B1 / e + B2 + e * (B4 * e - B3);
    return std::max(s / (g - 1) * g / (g - 1) * 2 * T(PI) * T(RE) * T(RE) * T(NA) * T(M.ZA), T(0));
}
template <class T> T ion_moller(const Proj& P, const MedI& M, T E, T v)
{
    T m = P.m, g = E / m, e = v * E / (E - m), b2 = 1 - 1 / (g * g), c = (2 * g - 1) / (g * g);
    T s = sqr((g - 1) / g) + (1 / e) * (1 / e - c) + 1 / (1 - e) * (1 / (1 - e) - c);
    return std::max(s / b2 * g / sqr(g - 1) * 2 * T(PI) * T(RE) * T(RE) * T(NA) * T(M.ZA), T(0));
}
// restricted loss of electrons (minus) and positrons (plus), Berger and Seltzer
template <class T> T ion_bs(const MedI& M, T E, T vup, T vmax, bool plus)
{
    T e = ME, D = std::min(vup, vmax) * E / e, g = E / e, b2 = 1 - 1 / (g * g), t = g - 1, y = 1 / (g + 1), F;
    if (plus)
        F = std::log(t * D)
            - b2 / t * (t + 2 * D - T(1.5) * D * D * y - (D - D * D * D / 3) * y * y - (D * D / 2 - t * D * D * D / 3 + D * D * D * D / 4) * y * y * y);
    else
        F = -1 - b2 + std::log((t - D) * D) + t / (t - D) + (D * D / 2 + (2 * t + 1) * ln1p(-D / t)) / (g * g);
    T I = T(M.I) * T(1e-6L) / e;
    T L = std::log(2 * (t + 2) / (I * I * e * e / e)) + F - dens(M, std::sqrt(b2) * g);
    return std::max(2 * T(PI) * T(RE) * T(RE) * e / b2 * T(NA) * T(M.ZA) * L, T(0));
}

// ---------------------------------------------------------------- photons
template <class T> T compton_kn(const Tgt& t, T E, T v)
{
    T k = E / T(ME), e = 1 - v;
    // Klein-Nishina in the fraction e of the energy the photon keeps
    T c = 1 - (1 / e - 1) / k; // cos of the scattering angle
    T s = T(PI) * T(RE) * T(RE) / k * (e + 1 / e - (1 - c * c));
    return T(NA) / T(t.A) * T(t.Z) * s;
}
template <class T> T photomu(const Tgt& t, T E, T x)
{
    T M = MMU, e = ME, c3 = std::cbrt(T(t.Z)), Z = t.Z, B = t.B, D = T(1.54L) * std::pow(T(t.A), T(0.27L)), s = E12<T>();
    T d = M * M / (2 * E * x * (1 - x));
    T l1 = std::log(M / e * B / c3 / (1 + B / c3 * s * d / e)), l2 = std::log(D / (1 + d * (D * s - 2) / M));
    T Phi = l1 - (t.Z > 1 ? 1 - 1 / Z : T(1)) * l2;
    T el = (std::log((M / d) / (d * M / (e * e) + s)) - std::log(1 + e * c3 * c3 / (d * s * T(t.Bp)))) / Z;
    T r = 4 * Z * Z * T(ALPHA) * sqr(T(RE) * e / M) * (Phi + el) * (1 - T(4) / 3 * x * (1 - x));
    return std::max(T(NA) / T(t.A) * r, T(0));
}
// Tsai; unclamped, per gram
template <class T> T photopair_tsai_raw(const Tgt& t, T E, T x)
{
    T Z = t.Z, e = ME, al = ALPHA, lz = std::log(Z), d = e * e / (2 * E * x * (1 - x)), F1, F2, P1, P2;
    if (t.Z <= 2.5) {
        T eta = t.Z <= 1.5 ? T(1) : T(1.6875L), C = d / (2 * al * e * eta), C2 = C * C, l0 = 4 * std::log(1 / (2 * eta * al)), at = std::atan(1 / C);
        T lp = ln1p(C2), lm = ln1p(1 / C2);
        F1 = 4 * lz / 3 + l0 + T(13) / 3 - 2 * lp - T(6.5) * C * at + 1 / (6 * (1 + 1 / C2));
        F2 = 4 * lz / 3 + l0 + T(11) / 3 - 2 * lp + 25 * C2 * (1 - C * at) - 14 * C2 * lm;
        P1 = 8 * lz / 3 + l0 + T(23) / 3 - 2 * lp - T(17.5) * C * at + 8 * C2 * lm - 1 / (6 * (1 + 1 / C2));
        P2 = 8 * lz / 3 + l0 + 7 - 2 * lp - 105 * C2 * (1 - C * at) + 50 * C2 * lm - 24 * C2 * (-std::log(C2) * lm + li2<T>(1 + 1 / C2) - T(PI * PI / 6));
    } else if (t.Z <= 4.5) {
        T a = (t.Z <= 3.5 ? T(100) : T(106)) / (std::cbrt(Z) * e), ap = (t.Z <= 3.5 ? T(418.6L) : T(571.4L)) / (std::cbrt(Z * Z) * e), b = d * a, bp = d * ap;
        auto one = [&](T n, T b) { return 2 * (1 + 2 * std::log(n)) - 2 * ln1p(b * b) - 4 * b * std::atan(1 / b); };
        auto two = [&](T n, T b) {
            return 2 * (T(2) / 3 + 2 * std::log(n)) - 2 * ln1p(b * b) + 8 * b * b * (1 - b * std::atan(1 / b) - T(0.75) * ln1p(1 / (b * b)));
        };
        T n = a * e * std::cbrt(Z), np = ap * e * std::cbrt(Z * Z);
        F1 = one(n, b); F2 = two(n, b); P1 = one(np, bp); P2 = two(np, bp);
    } else {
        T g = 200 * d / (e * std::cbrt(Z)), ep = 200 * d / (e * std::cbrt(Z * Z));
        F1 = T(20.863L) - 2 * ln1p(sqr(T(0.55846L) * g)) - 4 * (1 - T(0.6L) * std::exp(T(-0.9L) * g) - T(0.4L) * std::exp(T(-1.5L) * g));
        F2 = F1 - T(2) / 3 / (1 + T(6.5L) * g + 6 * g * g);
        P1 = T(28.340L) - 2 * ln1p(sqr(T(3.621L) * ep)) - 4 * (1 - T(0.7L) * std::exp(-8 * ep) - T(0.3L) * std::exp(T(-29.2L) * ep));
        P2 = P1 - T(2) / 3 / (1 + 40 * ep + 400 * ep * ep);
    }
    T z = sqr(Z / 137), f = z * (T(1.202L) - T(1.0369L) * z + T(1.008L) * z * z / (1 + z));
    T s = (1 - T(4) / 3 * x * (1 - x)) * (Z * Z * (F1 - 4 * lz / 3 - 4 * f) + Z * (P1 - 8 * lz / 3)) - T(2) / 3 * x * (1 - x) * (Z * Z * (F1 - F2) + Z * (P1 - P2));
    T p = std::sqrt((x * E - e) * (x * E + e));
    return T(NA) / T(t.A) * s * al * T(RE) * T(RE) * x * E / p;
}
template <class T> T photopair_km(const Tgt& t, T E, T x)
{
    T Z = t.Z, f1, f2, Lr, Lp, d = T(ME) * T(ME) / (2 * E * x * (1 - x));
    screening<T>(272 * d / (std::cbrt(Z) * T(ME)), f1, f2);
    tsaiL(Z, Lr, Lp);
    T fc = coulomb(Z), xi = Lp / (Lr - fc);
    if (E < 50) fc = 0;
    T c = 4 * std::log(Z) / 3 + 4 * fc;
    return std::max(T(NA) / T(t.A) * Z * (Z + xi) * T(RE) * T(RE) * T(ALPHA) * ((1 - 2 * x * (1 - x)) * (f1 - c) + T(2) / 3 * x * (1 - x) * (f2 - c)), T(0));
}
template <class T> T photopair_lpm(const Tgt& t, const LpmMed& M, T E, T x, T rho)
{
    T s1 = sqr(std::cbrt(T(t.Z)) / T(t.B)) * std::sqrt(T(2));
    T sp = std::sqrt(T(M.elpm) / (rho * E * x * (1 - x))) / 8, xi = lpm_xi(sp, s1);
    T Gm = 1 + 4 * T(PI) * T(M.sumcharge) * T(RE) * sqr(T(RE) / (T(ALPHA) * x)) * T(M.moldens) * rho, phi, G;
    migdal(sp / std::sqrt(xi) * Gm, phi, G);
    return xi / 3 * (G / (Gm * Gm) + 2 * (x * x + sqr(1 - x)) * phi / Gm) / (1 - T(4) / 3 * x * (1 - x));
}

// ---------------------------------------------------------------- photonuclear
template <class T> T shadow_drss(const Tgt& t, T x)
{
    if (t.Z == 1) return 1;
    if (x < T(0.0014L)) return std::pow(T(t.A), T(-0.1L));
    if (x < T(0.04L)) return std::pow(T(t.A), T(0.069L) * std::log10(x) + T(0.097L));
    return 1;
}
template <class T> T shadow_gvdm(T A, T sigma) // sigma in microbarn
{
    T z = T(0.00282L) * std::cbrt(A) * sigma;
    return 3 / z * (T(0.5) + ((1 + z) * std::exp(-z) - 1) / (z * z));
}
template <class T> T shadow_bm(const Tgt& t, T x, T nu)
{
    if (t.Z == 1) return 1;
    T w = t.ws;
    if (x > T(0.3L)) {
        T a = 1 / (1 - x), c = 1 / (1 - T(0.278L));
        return 1 - T(0.437L) * w * (1 - x / 2) * (a - c - T(MPI) / T(t.M) * (a * a - c * c));
    }
    T m1 = T(0.129L) * w, m2 = T(0.456L) * w, m3 = T(0.553L) * w, n = nu / 1000;
    T s = T(112.2L) * (T(0.609L) * std::pow(n, T(0.0988L)) + T(1.037L) * std::pow(n, T(-0.5944L)));
    T G = T(0.25) + T(0.75) * shadow_gvdm<T>(t.A, s);
    T x0 = std::pow(G / (1 + m2), 1 / m1);
    return x >= x0 ? std::pow(x, m1) * (1 + m2) * (1 - m3 * x) : G;
}
struct Allm { LD aP[3], bP[3], cP[3], aR[3], bR[3], cR[3], m0, mP, mR, L2, Q0; };
inline const Allm& allm91()
{
    static const Allm a { { -0.04503L, -0.36407L, 8.17091L }, { 0.49222L * 0.49222L, 0.52116L * 0.52116L, 3.55115L }, { 0.26550L, 0.04856L, 1.04682L },
        { 0.60408L, 0.17353L, 1.61812L }, { 1.26066L * 1.26066L, 1.83624L * 1.83624L, 0.81141L }, { 0.67639L, 0.49027L, 2.66275L }, 0.30508e6L, 10.67564e6L,
        0.20623e6L, 0.06527e6L, 0.27799e6L + 0.06527e6L };
    return a;
}
inline const Allm& allm97()
{
    static const Allm a { { -0.0808L, -0.44812L, 1.1709L }, { 0.36292L, 1.8917L, 1.8439L }, { 0.28067L, 0.22291L, 2.1979L }, { 0.58400L, 0.37888L, 2.6063L },
        { 0.01147L, 3.7582L, 0.49338L }, { 0.80107L, 0.97307L, 3.4942L }, 0.31985e6L, 49.457e6L, 0.15052e6L, 0.06527e6L, 0.52544e6L };
    return a;
}
inline const Allm& allmFT()
{
    static const Allm a { { -0.075L, -0.470L, 9.2L }, { -0.477L, 54.0L, 0.073L }, { 0.356L, 0.171L, 18.6L }, { 0.882L, 0.082L, -8.5L }, { 0.339L, 3.38L, 1.07L },
        { -0.636L, 3.37L, -0.660L }, 0.388e6L, 50.8e6L, 0.838e6L, 4.4e-3L, 18.7L };
    return a;
}
template <class T> T pn_ratio(T x) { return 1 + x * (T(-1.85L) + x * (T(2.45L) + x * (T(-2.35L) + x))); }
template <class T> T f2_allm(const Allm& a, const Tgt& t, T E, T v, T Q)
{
    T M = t.M, x = Q / (2 * M * v * E), tt = std::log(std::log((Q + T(a.Q0)) / T(a.L2)) / std::log(T(a.Q0 / a.L2)));
    if (tt < 0) tt = 0;
    auto up = [&](const LD* p) { return tt == 0 && p[2] < 0 ? T(p[0]) : T(p[0]) + T(p[1]) * std::pow(tt, T(p[2])); };
    auto dn = [&](const LD* p) { return T(p[0]) + T(p[0] - p[1]) * (1 / (1 + std::pow(tt, T(p[2]))) - 1); };
    T W2 = 2 * M * v * E - Q; // W^2 - M^2
    auto F = [&](T c, T av, T b, T m) { return c * std::pow((Q + m) / (Q + m + W2), av) * std::pow(1 - x, b); };
    T Fp = Q / (Q + T(a.m0)) * (F(dn(a.cP), dn(a.aP), up(a.bP), a.mP) + F(up(a.cR), up(a.aR), up(a.bR), a.mR));
    return Fp * (T(t.Z) + (T(t.A) - T(t.Z)) * pn_ratio(x));
}
template <class T> T f2_bdh(const Tgt& t, T E, T v, T Q)
{
    T x = Q / (2 * T(t.M) * v * E), mu = T(2.82e6L), M2 = T(0.753e6L), l = ln1p(Q / mu);
    T A = T(8.205e-4L) + l * (T(-5.148e-2L) - T(4.725e-3L) * l), B = T(2.217e-3L) + l * (T(1.244e-2L) + T(5.958e-4L) * l), C = T(0.255L) + T(1.475e-1L) * l;
    T D = Q * (Q + T(2.430L) * M2) / sqr(Q + M2), y = std::log(Q / (x * (Q + mu)));
    return D * std::pow(1 - x, T(11.49L)) * (C + y * (A + B * y)) * (T(t.Z) + (T(t.A) - T(t.Z)) * pn_ratio(x));
}
template <class T> T f2_bm(const Tgt& t, T E, T v, T Q)
{
    T x = Q / (2 * T(t.M) * v * E), n = T(1.5) * (1 + Q / (Q + T(3.0292e6L))), D = T(0.0988L) * (1 + 2 * Q / (Q + T(1.4817e6L)));
    T s = T(0.12L) * std::pow(x, -D) * std::pow(Q / (Q + T(0.2513e6L)), 1 + D);
    T val = std::pow(x, 1 - T(0.4056L)) * std::pow(1 - x, n) * std::pow(Q / (Q + T(0.6186e6L)), T(0.4056L)), U = T(1.2437L) * val, Dn = T(0.1853L) * val * (1 - x);
    T p = s * std::pow(1 - x, n + 4) + U + Dn, nn = s * std::pow(1 - x, n + T(1.8152L)) + U / 4 + 4 * Dn;
    return T(t.Z) * p + (T(t.A) - T(t.Z)) * nn;
}
// d2sigma/dv dQ2 from the structure function (Dutta et al. for spin 1/2, Reno et al. for spin 0)
template <class T> T q2_kernel(const Proj& P, const Tgt& t, T E, T v, T Q, T F2, T R, bool scalar)
{
    T m2 = sqr(T(P.m)), M = t.M, x = Q / (2 * M * v * E), pre = 4 * T(PI) * sqr(T(ME) * T(RE) / Q) * F2 / v, k = 1 + sqr(2 * M * x) / Q;
    if (scalar) return pre * (1 - v + v * v / 4 - v * v / 4 * (1 + 4 * m2 / Q) * k / (1 + R));
    return pre * (1 - v - M * x * v / (2 * E) + (1 - 2 * m2 / Q) * v * v * k / (2 * (1 + R)));
}
} // namespace ref
