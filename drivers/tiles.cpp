// parse-only driver: instantiates the tile cache templates whose members are analysed (never compiled into anything)
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/WriteableBufferedImage.h"
#include "SEFramework/Image/ProcessingImageSource.h"
#include "SEFramework/Image/InterpolatedImageSource.h"
#include "SEFramework/Image/ScaledImageSource.h"
#include "SEFramework/Image/WriteableImage.h"

using namespace SourceXtractor;

template class SourceXtractor::ImageTileWithType<float>;
template class SourceXtractor::WriteableBufferedImage<float>;
template class SourceXtractor::WriteableBufferedImage<int>;
template class SourceXtractor::InterpolatedImageSource<float>;
template class SourceXtractor::ScaledImageSource<float>;
