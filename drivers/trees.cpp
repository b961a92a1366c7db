// instantiates the spatial trees for the extractor
#include <algorithm>
#include <cassert>
#include <memory>
#include <vector>
#include "SEUtils/KdTree.h"
#include "SEUtils/QuadTree.h"
struct TreePoint { double p[3]; bool operator==(const TreePoint& o) const; };
namespace sxt { double treeCoord(const TreePoint& t, size_t index); }
namespace SourceXtractor {
template <> struct KdTreeTraits<TreePoint> { static double getCoord(const TreePoint& t, size_t index) { return sxt::treeCoord(t, index); } };
template <> struct QuadTreeTraits<TreePoint> { static double getCoord(const TreePoint& t, size_t index) { return sxt::treeCoord(t, index); } };
template class KdTree<TreePoint, 2, 100>;
template class QuadTree<TreePoint>;
}
