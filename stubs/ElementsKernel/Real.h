#pragma once
#include <cstddef>
#include "ElementsKernel/Exception.h"
namespace Elements {
template <typename A, typename B> bool isEqual(const A& a, const B& b);
template <typename A, typename B> bool isNotEqual(const A& a, const B& b);
template <std::size_t U, typename A, typename B> bool isEqual(const A& a, const B& b);
template <typename A, typename B> bool realBitWiseEqual(const A& a, const B& b);
}
