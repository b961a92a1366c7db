#include <functional>
#include "ModelFitting/Parameters/BasicParameter.h"
#include "ModelFitting/Parameters/DependentParameter.h"
using P = std::shared_ptr<ModelFitting::BasicParameter>;
template class ModelFitting::DependentParameter<P>;
template class ModelFitting::DependentParameter<P, P, P>;
P sx_make1(std::function<double(double)> c, P a) { return std::make_shared<ModelFitting::DependentParameter<P>>(c, a); }
P sx_make3(std::function<double(double, double, double)> c, P a, P b, P d) { return std::make_shared<ModelFitting::DependentParameter<P, P, P>>(c, a, b, d); }
