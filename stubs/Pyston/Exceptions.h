#pragma once
#include <exception>
#include <string>
#include <vector>
#include <boost/python.hpp>
#include "Pyston/GIL.h"
namespace Pyston { struct Traceback { std::string m_filename; long m_lineno; }; class Exception : public std::exception { public: Exception(); template<class...A> explicit Exception(A&&...); const char* what() const noexcept override; const std::vector<Traceback>& getTraceback() const; bool isUserDefined() const; template<class L> const Exception& log(int, L&) const; }; }
