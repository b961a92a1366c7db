#pragma once
#include "MathUtils/function/Function.h"
#include "NdArray/NdArray.h"
namespace Euclid { namespace MathUtils { enum class InterpolationType { LINEAR, CUBIC_SPLINE };
std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::vector<double>& y, InterpolationType t, bool extrapolate = false);
template <std::size_t N> class InterpN { public: template <typename... A> double operator()(A...) const; };
template <std::size_t N> std::unique_ptr<InterpN<N>> interpn(const std::vector<std::vector<double>>&, const NdArray::NdArray<double>&, InterpolationType, bool = false);
} }
