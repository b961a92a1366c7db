#pragma once
#include <memory>
#include <type_traits>
namespace Euclid { using std::make_unique;
template <typename It, typename T> class ConstRangeIter; }
