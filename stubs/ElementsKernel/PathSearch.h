#pragma once
#include <string>
#include <vector>
#include <boost/filesystem.hpp>
namespace Elements { enum class SearchType { Local, Recursive }; std::vector<boost::filesystem::path> pathSearchInEnvVariable(const std::string&, const std::string&, SearchType = SearchType::Recursive); }
