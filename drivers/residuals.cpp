#include <vector>
#include "ModelFitting/Engine/DataVsModelResiduals.h"
#include "ModelFitting/Engine/ChiSquareComparator.h"
#include "ModelFitting/Engine/LogChiSquareComparator.h"
#include "ModelFitting/Engine/AsinhChiSquareComparator.h"
using V = std::vector<double>;
using namespace ModelFitting;
struct SxComparator { double operator()(double real, double model, double weight) const; };
template class ModelFitting::DataVsModelResiduals<V, V, V, SxComparator>;
auto sx_make(V a, V b, V c) { return createDataVsModelResiduals(a, std::move(b), c, SxComparator{}); }
#include "ModelFitting/Engine/EngineParameterManager.h"
void sx_get(EngineParameterManager& m, double* p, V& v) { m.getEngineValues(p); m.getEngineValues(v.begin()); m.updateEngineValues(p); m.updateEngineValues(v.begin()); }
double sx_use(double r, double m, double w) { return ChiSquareComparator{}(r, m, w) + LogChiSquareComparator{}(r, m, w) + AsinhChiSquareComparator{}(r, m, w); }
