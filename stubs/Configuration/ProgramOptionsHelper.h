#pragma once
#include <map>
#include <string>
#include <vector>
#include "Configuration/Configuration.h"
namespace Euclid { namespace Configuration { class ProgramOptionsHelper { public: static bool isMultiOption(const std::string&); static std::string wildcard(const std::string&, const std::string& = "*"); static bool hasOption(const std::string&, const std::map<std::string, boost::program_options::variable_value>&); static std::vector<std::string> findWildcardNames(const std::vector<std::string>&, const std::map<std::string, boost::program_options::variable_value>&); }; } }
