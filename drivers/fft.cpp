// parse-only driver: instantiates the convolution strategies and FFT helpers (never compiled into anything)
#include "SEFramework/Convolution/DFT.h"
#include "SEFramework/Convolution/DirectConvolution.h"
#include "SEFramework/FFT/FFT.h"
#include "SEFramework/FFT/FFTHelper.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Image/ImageChunk.h"

using namespace SourceXtractor;

template class SourceXtractor::DFTConvolution<SeFloat, PaddedImage<SeFloat>>;
template class SourceXtractor::DirectConvolution<SeFloat, PaddedImage<SeFloat>>;

namespace sxdriver {
void conv(std::shared_ptr<WriteableImage<SeFloat>> i, std::shared_ptr<const Image<SeFloat>> k) {
  DFTConvolution<SeFloat, PaddedImage<SeFloat>> a(k);
  auto c = a.prepare(i);
  a.convolve(i, c);
  a.convolve(i);
  DirectConvolution<SeFloat, PaddedImage<SeFloat>> b(k);
  b.convolve(i);
  DFTConvolution<SeFloat> a2(k);
  auto c2 = a2.prepare(i);
  a2.convolve(i, c2);
}
void work(std::shared_ptr<VectorImage<SeFloat>> i, std::shared_ptr<ImageChunk<SeFloat>> ch, std::vector<SeFloat>& v) {
  copyImageToFFTWorkArea(*i, v);
  copyImageToFFTWorkArea(*ch, v);
  copyFFTWorkAreaToImage(v, *i);
}
}
