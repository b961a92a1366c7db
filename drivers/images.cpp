// parse-only driver: instantiates the image templates whose members are analysed (never compiled into anything)
#include <functional>
#include "SEFramework/Image/Image.h"
#include "SEFramework/Image/ImageChunk.h"
#include "SEFramework/Image/ImageAccessor.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Image/SubImage.h"
#include "SEFramework/Image/MirrorImage.h"
#include "SEFramework/Image/RecenterImage.h"
#include "SEFramework/Image/PaddedImage.h"
#include "SEFramework/Image/MaskedImage.h"
#include "SEFramework/Image/ThresholdedImage.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Image/FunctionalImage.h"
#include "SEFramework/Image/ProcessedImage.h"
#include "SEFramework/Image/ImageProcessingList.h"

using namespace SourceXtractor;

template class SourceXtractor::ImageChunk<SeFloat>;
template class SourceXtractor::ImageAccessor<SeFloat>;
template class SourceXtractor::VectorImage<SeFloat>;
template class SourceXtractor::SubImage<SeFloat>;
template class SourceXtractor::MirrorImage<SeFloat>;
template class SourceXtractor::RecenterImage<SeFloat>;
template class SourceXtractor::MaskedImage<SeFloat, std::int64_t>;
template class SourceXtractor::ThresholdedImage<SeFloat>;
template class SourceXtractor::ConstantImage<SeFloat>;
template class SourceXtractor::FunctionalImage<SeFloat>;
template class SourceXtractor::ProcessedImage<SeFloat, SubtractOperation<SeFloat>>;
template class SourceXtractor::ProcessedImage<SeFloat, MultiplyOperation<SeFloat>>;
template class SourceXtractor::ProcessedImage<SeFloat, SnrOperation<SeFloat>>;
template class SourceXtractor::PaddedImage<SeFloat>;
template class SourceXtractor::PaddedImage<SeFloat, ReplicateCoordinates>;
template class SourceXtractor::PaddedImage<SeFloat, ReflectCoordinates>;
template class SourceXtractor::PaddedImage<SeFloat, Reflect101Coordinates>;
template class SourceXtractor::PaddedImage<SeFloat, WrapCoordinates>;

namespace sxdriver {
void universal(std::shared_ptr<ImageChunk<SeFloat>> c, std::vector<SeFloat> v, int w, int h, SeFloat x) {
  auto a = UniversalImageChunk<SeFloat>::create(std::move(*c));
  auto b = UniversalImageChunk<SeFloat>::create(std::move(v), w, h);
  auto d = UniversalImageChunk<SeFloat>::create(w, h);
  d->setValue(w, h, x);
  d->at(w, h) = x;
}
void vectorimage(std::shared_ptr<const Image<SeFloat>> i, std::vector<SeFloat> v, int w, int h) {
  auto a = VectorImage<SeFloat>::create(w, h);
  auto b = VectorImage<SeFloat>::create(w, h, v);
  auto c = VectorImage<SeFloat>::create(w, h, v.begin(), v.end());
  auto d = VectorImage<SeFloat>::create(*i);
  auto e = VectorImage<SeFloat>::create(i);
  auto f = VectorImage<SeFloat>::create(*a);
}
}
