// parse-only driver: instantiates the aperture drawing helpers (never compiled into anything)
#include "SEFramework/Aperture/FluxMeasurement.h"
using namespace SourceXtractor;
namespace sxdriver {
void apertures(const std::shared_ptr<Aperture>& a, float x, float y, const std::shared_ptr<WriteableImage<int>>& i, int v) {
  fillAperture<int>(a, x, y, i, v);
  drawAperture<int>(a, x, y, i, v);
}
}
