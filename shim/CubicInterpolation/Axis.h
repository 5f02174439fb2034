// Stand-in for the CubicInterpolation library, which is not installed here: the part of its interface
// that PROPOSAL uses, written for the monitors of /verif. Values are kept in memory; nothing is written to disk.
#pragma once
#include <cmath>
#include <cstddef>
namespace cubic_splines {
template <typename T> class Axis {
protected:
    T low, high, step;
public:
    Axis(T l, T h, T s) : low(l), high(h), step(s) {}
    virtual ~Axis() = default;
    virtual T transform(T) const = 0;      // value -> number of nodes from the lower end
    virtual T back_transform(T) const = 0;
    virtual T derive(T x) const = 0;       // d transform / dx
    virtual T back_derive(T t) const = 0;
    T GetLow() const { return low; }
    T GetHigh() const { return high; }
    virtual size_t nodes() const { return size_t(std::llround(transform(high))) + 1; }
};
template <typename T> class LinAxis : public Axis<T> {
public:
    LinAxis(T l, T h, T s = 1) : Axis<T>(l, h, s) {}
    LinAxis(T l, T h, size_t n) : Axis<T>(l, h, (h - l) / (n - 1)) {}
    T transform(T x) const override { return (x - this->low) / this->step; }
    T back_transform(T t) const override { return t * this->step + this->low; }
    T derive(T) const override { return 1 / this->step; }
    T back_derive(T) const override { return this->step; }
};
template <typename T> class ExpAxis : public Axis<T> {
public:
    ExpAxis(T l, T h, T s = 1) : Axis<T>(l, h, s) {}
    ExpAxis(T l, T h, size_t n) : Axis<T>(l, h, std::log(h / l) / (n - 1)) {}
    T transform(T x) const override { return std::log(x / this->low) / this->step; }
    T back_transform(T t) const override { return this->low * std::exp(t * this->step); }
    T derive(T x) const override { return 1 / (x * this->step); }
    T back_derive(T t) const override { return this->step * back_transform(t); }
};
template <typename T> class ExpM1Axis : public Axis<T> {
public:
    ExpM1Axis(T l, T h, T s = 1) : Axis<T>(l, h, s) {}
    ExpM1Axis(T l, T h, size_t n) : Axis<T>(l, h, std::log1p(h / l) / (n - 1)) {}
    T transform(T x) const override { return std::log1p(x / this->low) / this->step; }
    T back_transform(T t) const override { return this->low * std::expm1(t * this->step); }
    T derive(T x) const override { return 1 / ((this->low + x) * this->step); }
    T back_derive(T t) const override { return this->step * this->low * std::exp(t * this->step); }
};
} // namespace cubic_splines
