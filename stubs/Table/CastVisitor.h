#pragma once
#include "Table/Row.h"
namespace Euclid { namespace Table { template <typename T> class CastVisitor : public boost::static_visitor<T> { public: template <typename F> T operator()(const F&) const; }; } }
