// instantiates the header-only background filters for the extractor
#include "SEImplementation/Background/SE/MedianFilter.h"
#include <algorithm>
template class SourceXtractor::MedianFilter<float>;
