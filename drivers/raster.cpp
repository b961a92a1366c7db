// parse-only driver: raster traits and frame models (never compiled into anything)
#include "SEImplementation/Image/ImageInterfaceTraits.h"
#include "SEImplementation/Image/WriteableImageInterfaceTraits.h"
#include "SEImplementation/Image/ImagePsf.h"
#include "ModelFitting/Models/FrameModel.h"
#include "ModelFitting/Models/ExtendedModel.h"

using namespace SourceXtractor;
using namespace ModelFitting;
using Frame = ModelFitting::FrameModel<ImagePsf, ImageInterfaceTypePtr>;
template void Frame::rasterToImage(ImageInterfaceTypePtr&);
template void Frame::recomputeImage();
template std::size_t Frame::size() const;
template Frame::FrameModel(double, std::size_t, std::size_t, std::vector<ConstantModel>, std::vector<PointModel>, std::vector<std::shared_ptr<ExtendedModel<ImageInterfaceTypePtr>>>, ImagePsf);
template class ModelFitting::ExtendedModel<ImageInterfaceTypePtr>;
