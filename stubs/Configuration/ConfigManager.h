#pragma once
#include <map>
#include <memory>
#include <string>
#include <boost/program_options.hpp>
namespace Euclid { namespace Configuration {
class Configuration;
class ConfigManager { public: static ConfigManager& getInstance(long id); virtual ~ConfigManager();
 template <typename T> void registerConfiguration(); template <typename A, typename B> void registerDependency();
 boost::program_options::options_description closeRegistration();
 void initialize(const std::map<std::string, boost::program_options::variable_value>& v);
 template <typename T> T& getConfiguration(); template <typename T> const T& getConfiguration() const; };
} }
