// W01: the integral propagation utility and the search for its upper limit.
#include "mon.h"
#include "num.h"
#include "PROPOSAL/propagation_utility/PropagationUtilityIntegral.h"
#include "PROPOSAL/Constants.h"
#include <functional>
#include <memory>

using namespace PROPOSAL;
using mon::sfmt;
using std::string;
typedef long double LD;

// a positive rate with its antiderivative
struct Rate {
    std::function<double(double)> f;
    std::function<LD(LD, LD)> F; // integral from a to b
    string name;
};
static Rate rate(mon::Rng& r)
{
    double c = r.logr(1e-12, 1e12);
    switch (r.i(0, 4)) {
    case 0: { // power law
        double a = r.p(.3) ? (double)r.i(-2, 1) : r.range(-2, 1);
        return { [=](double E) { return c * std::pow(E, a); },
            [=](LD p, LD q) -> LD { return std::abs(a + 1) < 1e-9 ? (LD)c * logl(q / p) : (LD)c * powl(p, (LD)a + 1) * expm1l(((LD)a + 1) * logl(q / p)) / ((LD)a + 1); }, sfmt("%.17g E^%.17g", c, a) };
    }
    case 1: { // one over a loss of a plus b E
        double b = r.logr(1e-8, 1), a = r.logr(1e-3, 1e3);
        return { [=](double E) { return c / (a + b * E); },
            [=](LD p, LD q) -> LD { return (LD)c / b * log1pl(b * (q - p) / (a + b * p)); }, sfmt("%.17g/(%.17g+%.17gE)", c, a, b) };
    }
    case 2: { // a smooth wave in the logarithm
        double k = r.range(0, .95), w = r.range(.1, 1.5), s = r.range(0, 6);
        return { [=](double E) { return c / E * (1 + k * std::cos(w * std::log(E) + s)); },
            [=](LD p, LD q) -> LD { return (LD)c * (logl(q / p) + k / w * 2 * sinl(w * logl(q / p) / 2) * cosl(w * (logl(q) + logl(p)) / 2 + s)); }, sfmt("%.17g/E(1+%.17gcos(%.17g lnE+%.17g))", c, k, w, s) };
    }
    case 3: { // sum of two powers
        double d = c * r.logr(1e-6, 1e6), a = r.range(-1.8, -1.05), b = r.range(-.9, .5);
        return { [=](double E) { return c * std::pow(E, a) + d * std::pow(E, b); },
            [=](LD p, LD q) -> LD { return c * powl(p, (LD)a + 1) * expm1l((a + 1) * logl(q / p)) / (a + 1) + d * powl(p, (LD)b + 1) * expm1l((b + 1) * logl(q / p)) / (b + 1); }, sfmt("%.17g E^%.17g + %.17g E^%.17g", c, a, d, b) };
    }
    default:
        return { [=](double) { return c; }, [=](LD p, LD q) -> LD { return (LD)c * (q - p); }, sfmt("%.17g", c) };
    }
}
struct Task {
    Rate R;
    double E, low; // start and limit
    double sign;   // of the integrand: towards the limit the integral grows
    LD S;          // accumulated over the whole range
    string str() const { return sfmt("%s%s from %.17g limit %.17g", sign < 0 ? "-" : "", R.name.c_str(), E, low); }
};
static Task task(mon::Rng& r)
{
    Task t;
    t.R = rate(r);
    t.E = r.logr(1e-3, 1e14);
    double f = r.p(.15) ? 1 + r.logr(1e-9, 1) : r.logr(1.01, 1e4);
    bool up = r.p(.35);
    t.low = up ? t.E * f : t.E / f;
    t.sign = up ? 1 : -1;
    t.S = fabsl(t.R.F(t.E, t.low));
    return t;
}
static UtilityIntegral make(const Task& t, size_t hash = 7)
{
    auto f = t.R.f;
    double s = t.sign;
    return UtilityIntegral([f, s](double E) { return s * f(E); }, t.low, hash);
}
// precision asked of the integrator is 1e-5; smooth integrands do much better
static const LD REL = 5e-5L;

PROP(W01)
{
    m.cases("value", 8000, 300000, [&](mon::Rng& r) {
        auto t = task(r);
        auto U = make(t, 99);
        m.describe(t.str());
        double a = t.E, b = t.low;
        if (r.p(.4)) a = t.E * std::pow(t.low / t.E, r.range(-.3, 1.3)), b = t.E * std::pow(t.low / t.E, r.range(-.3, 1.3));
        LD want = t.sign * t.R.F(a, b);
        double got = U.Calculate(a, b);
        m.describe(t.str() + sfmt(" between %.17g and %.17g", a, b));
        // intervals of less than 1e-10 count as empty
        if (std::abs(b - a) < 1e-8 * std::max(a, b)) { m.check(got == 0 || fabsl(got - want) <= 1e-5L * fabsl(want), "narrow", sfmt("%.17g instead of %.17Lg", got, want)); throw mon::Skip(); }
        LD cancel = std::abs(b - a) / std::max(a, b);
        LD tol = REL * fabsl(want) + (cancel > 0 ? 4e-16L / cancel * fabsl(want) : 0);
        m.worst("relative deviation of the integral", want != 0 ? (double)(fabsl(got - want) / fabsl(want)) : 0);
        m.check(fabsl(got - want) <= tol, "value", sfmt("%.17g instead of %.17Lg", got, want));
        m.check(fabsl(U.Calculate(b, a) + got) <= tol, "sign", "swapping the energies does not change the sign");
        m.check(U.Calculate(a, a) == 0 && U.Calculate(b, b) == 0, "empty", "an empty interval has an integral");
        double c = a * std::pow(b / a, r.u());
        if (std::abs(c - a) < 1e-8 * a) c = a;
        if (std::abs(c - b) < 1e-8 * b) c = b;
        LD s = (LD)U.Calculate(a, c) + U.Calculate(c, b);
        m.check(fabsl(s - got) <= 3 * tol, "additive", sfmt("%.17g in parts %.17Lg", got, s));
        m.check(U.GetHash() == 99, "hash", "not the given one");
        UtilityIntegral V(U);
        m.check(V.Calculate(a, b) == got && V.GetHash() == 99, "copy", "a copy has another integral");
        m.nontrivial();
    });
    m.cases("inverse", 12000, 500000, [&](mon::Rng& r) {
        auto t = task(r);
        auto U = make(t);
        double q;
        switch (r.i(0, 5)) {
        case 0: q = r.logr(1e-12, 1e-2); break;
        case 1: q = 1 - r.logr(1e-12, 1e-2); break;
        case 2: q = 0; break;
        default: q = r.u();
        }
        double x = q * (double)t.S;
        m.describe(t.str() + sfmt(" value %.17g (%.12g of the whole)", x, q));
        double lim;
        try {
            lim = U.GetUpperLimit(t.E, x);
        } catch (const std::logic_error&) {
            m.check(q > 1 - 1e-4, "reachable", "a reachable value is refused");
            m.note("refused next to the end");
            return;
        }
        double lo = std::min(t.E, t.low), hi = std::max(t.E, t.low);
        m.check(lim >= lo * (1 - 1e-11) && lim <= hi * (1 + 1e-11), "range", sfmt("limit %.17g outside [%.17g, %.17g]", lim, lo, hi));
        // accumulated up to limits that differ by the stopping step of the search
        auto acc = [&](LD e) { return fabsl(t.R.F(t.E, std::min((LD)hi, std::max((LD)lo, e)))); };
        LD du = 4e-5L, a1 = acc(lim * (1 - du)), a2 = acc(lim * (1 + du));
        LD tol = REL * x + 1e-4L * 1e-2L * t.S;
        // the share of a narrow range is resolved by the rounding of its logarithm
        m.worst("share missed", (double)(fabsl(acc(lim) - x) / t.S));
        m.check(x >= std::min(a1, a2) - tol && x <= std::max(a1, a2) + tol, "inverse", sfmt("limit %.17g accumulates %.17Lg instead of %.17g", lim, acc(lim), x));
        if (std::abs(t.E / t.low - 1) > 1e-3) m.check(fabsl(acc(lim) - x) <= 2e-3L * t.S, "share", sfmt("limit %.17g accumulates %.17Lg instead of %.17g of %.17Lg", lim, acc(lim), x, t.S));
        double back = U.Calculate(t.E, lim);
        if (std::abs(lim - t.E) > 1e-8 * t.E) m.check(fabsl(back - acc(lim)) <= 2 * tol + 1e-13L * t.S / std::max(1e-9L, fabsl((LD)t.E / t.low - 1)), "consistent", sfmt("integrating back gives %.17g", back));
        if (q == 0) m.close(lim, t.E, 1e-9, 0, "nothing accumulated");
        m.nontrivial();
        // larger values lie further
        double x2 = q < .999 ? x + (r.p(.5) ? r.u() : r.logr(1e-3, 1.)) * (.999 * (double)t.S - x) : x;
        double l2 = U.GetUpperLimit(t.E, x2);
        bool ord = t.low < t.E ? l2 <= lim * (1 + 4e-5L) : l2 >= lim * (1 - 4e-5L);
        m.check(ord, "monotone", sfmt("%.17g for the larger value %.17g, %.17g before", l2, x2, lim));
        // the history of the object does not matter
        m.check(make(t).GetUpperLimit(t.E, x) == lim && U.GetUpperLimit(t.E, x) == lim, "history", "another limit when asked again");
        // additive: what is left from an intermediate energy
        if (q > .01 && q < .99 && std::abs(t.E / t.low - 1) > 1e-2) {
            double part = r.range(.1, .9) * x, mid = U.GetUpperLimit(t.E, part), fin = U.GetUpperLimit(mid, x - part);
            m.check(fabsl(acc(fin) - acc(lim)) <= 4e-3L * t.S, "composed", sfmt("in two steps %.17g, in one %.17g", fin, lim));
        }
    });
    m.cases("unreachable", 3000, 100000, [&](mon::Rng& r) {
        auto t = task(r);
        auto U = make(t);
        bool away = r.p(.25);
        double E = t.E, x = (double)t.S * (1 + r.logr(2e-4, 1e3));
        if (away) { // starts beyond the limit
            E = t.low < t.E ? t.low / r.logr(1.01, 1e2) : t.low * r.logr(1.01, 1e2);
            x = r.u() * (double)t.S;
        }
        if (std::abs(t.E / t.low - 1) < 1e-6) throw mon::Skip();
        m.describe(t.str() + sfmt(" value %.17g from %.17g", x, E));
        bool thrown = false;
        try {
            double l = U.GetUpperLimit(E, x);
            m.describe(m.desc + sfmt(" gave %.17g", l));
        } catch (const std::logic_error&) { thrown = true; }
        m.check(thrown, away ? "beyond the limit" : "unreachable", "a value that cannot be reached gets a limit");
        // and the object works on
        double lim = U.GetUpperLimit(t.E, .5 * (double)t.S);
        m.check(lim == make(t).GetUpperLimit(t.E, .5 * (double)t.S), "recovers", "another limit after a refusal");
        if (t.low > 0) {
            bool th = false;
            double l = t.E;
            try { l = U.GetUpperLimit(t.low, (double)t.S * r.logr(1e-6, 1)); } catch (const std::logic_error&) { th = true; }
            m.check(th, "at the limit", sfmt("%.17g", l));
        }
        m.nontrivial();
    });
    // rates that vanish beyond some energy, or everywhere
    m.cases("vanishing", 1500, 50000, [&](mon::Rng& r) {
        double E = r.logr(1, 1e10), low = E / r.logr(2, 1e4), cut = low * std::pow(E / low, r.range(.05, .95)), c = r.logr(1e-6, 1e6);
        bool none = r.p(.3);
        UtilityIntegral U([=](double e) { return none || e < cut ? 0. : -c / e; }, low, 1);
        m.describe(sfmt("%g/E above %.17g (%s) from %.17g to %.17g", c, cut, none ? "none" : "cut", E, low));
        double S = none ? 0 : c * std::log(E / cut);
        if (none) {
            m.check(U.Calculate(E, low) == 0, "none", "an integral of nothing");
            bool th = false;
            try { U.GetUpperLimit(E, r.logr(1e-12, 1)); } catch (const std::logic_error&) { th = true; }
            m.check(th, "none reached", "a limit without a rate");
        } else {
            double got = U.Calculate(E, low);
            m.check(std::abs(got - S) < .05 * c * std::log(E / low), "step", sfmt("%.17g instead of %.17g", got, S));
            double q = r.range(0, .9), l;
            try {
                l = U.GetUpperLimit(E, q * S);
                m.check(l >= low * (1 - 1e-11) && l <= E * (1 + 1e-11), "step range", sfmt("%.17g", l));
                m.check(std::abs(std::log(E / l) * c - q * S) < .05 * c * std::log(E / low), "step inverse", sfmt("%.17g accumulates %.17g instead of %.17g", l, std::log(E / l) * c, q * S));
            } catch (const std::logic_error&) { m.check(q * S > S - .05 * c * std::log(E / low), "step reachable", "refused"); }
        }
        m.nontrivial();
    });
    m.cases("throwing", 300, 5000, [&](mon::Rng& r) {
        auto t = task(r);
        int n = 0, at = r.i(1, 30);
        bool arm = true;
        auto f = t.R.f;
        double s = t.sign;
        UtilityIntegral U([&, f, s](double e) { if (arm && ++n >= at) throw std::domain_error("rate"); return s * f(e); }, t.low, 1);
        m.describe(t.str());
        bool th = false;
        try { U.GetUpperLimit(t.E, .3 * (double)t.S); } catch (const std::domain_error&) { th = true; }
        if (n >= at) m.check(th, "error", "an error of the rate is lost");
        arm = false;
        m.check(U.GetUpperLimit(t.E, .3 * (double)t.S) == make(t).GetUpperLimit(t.E, .3 * (double)t.S), "afterwards", "another limit after an error of the rate");
        m.nontrivial();
    });
}
int main(int c, char** v) { return mon::run(c, v); }
