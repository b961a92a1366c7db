// parse-only driver: model profiles and rasterisation (never compiled into anything)
#include "ElementsKernel/Exception.h"
#include "SEImplementation/Image/ImageInterfaceTraits.h"
#include "ModelFitting/Models/CircularlySymmetricModelComponent.h"
#include "ModelFitting/Models/ExtendedModel.h"
#include "ModelFitting/Models/CompactSersicModel.h"
#include "ModelFitting/Models/CompactExponentialModel.h"
#include "ModelFitting/Models/TransformedModel.h"

using namespace SourceXtractor;
using namespace ModelFitting;
template class ModelFitting::CircularlySymmetricModelComponent<SersicProfile>;
template class ModelFitting::ExtendedModel<ImageInterfaceTypePtr>;
template class ModelFitting::CompactSersicModel<ImageInterfaceTypePtr>;
template class ModelFitting::CompactExponentialModel<ImageInterfaceTypePtr>;
template class ModelFitting::TransformedModel<ImageInterfaceTypePtr>;
