#pragma once
#include "MathUtils/function/Function.h"
namespace Euclid { namespace MathUtils { double derivative(const Function& f, double x); } }
