#pragma once
#include <string>
namespace Elements { class Environment { public: class Variable { public: Variable& operator=(const std::string&); bool exists() const; std::string value() const; operator std::string() const; }; Variable operator[](const std::string&); std::string get(const std::string&, const std::string& = "") const; bool hasKey(const std::string&) const; }; }
