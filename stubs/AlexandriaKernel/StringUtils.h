#pragma once
#include <string>
#include <vector>
namespace Euclid { template <typename T> std::vector<T> stringToVector(std::string s, const std::string& sep = ","); template <typename It> std::string join(const std::string&, It, It); std::string join(const std::string&, const std::vector<std::string>&); bool endsWith(const std::string&, const std::string&); bool startsWith(const std::string&, const std::string&); }
