// parse-only: gives the header-only utilities a translation unit
#include <algorithm>
#include <cassert>
#include "SEUtils/Mat22.h"
#include "SEUtils/PixelRectangle.h"
#include "SEUtils/PixelCoordinate.h"
#include "SEUtils/NumericalDerivative.h"
#include "SEFramework/Source/SourceFlags.h"
