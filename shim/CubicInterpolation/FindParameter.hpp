#pragma once
#include "CubicInterpolation/Interpolant.h"
namespace cubic_splines {
template <typename T> struct ParameterGuess;
template <> struct ParameterGuess<double> { double x = NAN, lower = NAN, upper = NAN; };
template <> struct ParameterGuess<std::array<double, 2>> {
    std::array<double, 2> x { NAN, NAN };
    size_t n = 0;
};
// root of f within [a, b] (bisection to the last bit); the library reports a failed search with a runtime_error
template <typename F> double bracketed(F&& f, double a, double b)
{
    double fa = f(a), fb = f(b);
    if (fa == 0) return a;
    if (fb == 0) return b;
    if (!(fa < 0 && fb > 0) && !(fa > 0 && fb < 0)) throw std::runtime_error("no root in the bracket");
    for (int i = 0; i < 200; i++) {
        double c = a + (b - a) / 2;
        if (!(c > a && c < b)) break;
        double fc = f(c);
        if (fc == 0) return c;
        ((fc < 0) == (fa < 0) ? a : b) = c;
    }
    return a;
}
template <typename S> double find_parameter(Interpolant<S> const& in, double value, ParameterGuess<double> const& g)
{
    return bracketed([&](double x) { return in.evaluate(x) - value; }, g.lower, g.upper);
}
template <typename S> double find_parameter(Interpolant<S> const& in, double value, ParameterGuess<std::array<double, 2>> const& g)
{
    auto x = g.x;
    auto& ax = *in.GetDefinition().GetAxis()[g.n];
    return bracketed([&](double y) { x[g.n] = y; return in.evaluate(x) - value; }, ax.GetLow(), ax.GetHigh());
}
} // namespace cubic_splines
