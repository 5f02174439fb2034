#pragma once
#include "CubicInterpolation/BicubicSplines.h"
#include "CubicInterpolation/CubicSplines.h"
#include <map>
#include <mutex>
#include <string>
#include <utility>
namespace cubic_splines {
// Tables asked for with a path are shared by name (as the library does with its files), so that two
// configurations with one fingerprint get one table. Cleared by the monitors between experiments.
struct Store {
    static std::map<std::string, std::shared_ptr<void>>& all()
    {
        static std::map<std::string, std::shared_ptr<void>> m;
        return m;
    }
    static std::mutex& lock()
    {
        static std::mutex m;
        return m;
    }
    static size_t& built() { static size_t n = 0; return n; }
    static size_t& reused() { static size_t n = 0; return n; }
};
template <typename S> class Interpolant {
    using Def = typename S::Definition;
    using Data = typename S::Data;
    Def def;
    std::shared_ptr<Data> data;
public:
    Interpolant(Def&& d, std::string path = "", std::string file = "") : def(std::move(d))
    {
        std::string key = path + "/" + file;
        if (!path.empty()) {
            std::lock_guard<std::mutex> g(Store::lock());
            auto it = Store::all().find(key);
            if (it != Store::all().end()) {
                data = std::static_pointer_cast<Data>(it->second);
                Store::reused()++;
                return;
            }
        }
        data = std::make_shared<Data>(S::build(def));
        std::lock_guard<std::mutex> g(Store::lock());
        Store::built()++;
        if (!path.empty()) Store::all()[key] = data;
    }
    template <typename X> auto evaluate(X const& x) const { return S::eval(def, *data, x); }
    Def const& GetDefinition() const { return def; }
};
} // namespace cubic_splines
