#pragma once
#include <string>
#include <vector>
namespace Elements { namespace System { std::string getEnv(const std::string&); bool getEnv(const std::string&, std::string&); bool isEnvSet(const std::string&); bool setEnv(const std::string&, const std::string&); const std::string& hostName(); } }
