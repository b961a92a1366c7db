#pragma once
#include <ostream>
namespace Pyston { class GraphvizGenerator { public: template<class...A> GraphvizGenerator(A&&...); std::string str() const; }; }
