#pragma once
#include <functional>
#include "MathUtils/function/Function.h"
namespace Euclid { namespace MathUtils { class FunctionAdapter : public Function { public: explicit FunctionAdapter(std::function<double(double)>); double operator()(const double) const override; std::unique_ptr<Function> clone() const override; }; } }
