#pragma once
#include <memory>
#include <vector>
namespace Euclid { namespace MathUtils { class Function { public: virtual ~Function() = default; virtual double operator()(const double) const = 0; virtual void operator()(const std::vector<double>& xs, std::vector<double>& out) const; virtual std::unique_ptr<Function> clone() const = 0; }; } }
