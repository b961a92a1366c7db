#pragma once
#include "AlexandriaKernel/memory_tools.h"
#include "ElementsKernel/Exception.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <typeindex>
#include <vector>
#include <boost/filesystem.hpp>
#include "ElementsKernel/Logging.h"
#include <boost/program_options.hpp>
#include "ElementsKernel/Exception.h"
#include "Configuration/ConfigManager.h"
namespace Euclid { namespace Configuration {
class Configuration { public:
  enum class State { CONSTRUCTED, PRE_INITIALIZED, INITIALIZED, FINAL };
  using OptionDescriptionList = std::vector<boost::program_options::option_description>;
  using UserValues = std::map<std::string, boost::program_options::variable_value>;
  explicit Configuration(long manager_id); virtual ~Configuration() = default;
  virtual std::map<std::string, OptionDescriptionList> getProgramOptions();
  virtual void preInitialize(const UserValues& v); virtual void initialize(const UserValues& v); virtual void postInitialize(const UserValues& v);
  State& getCurrentState(); const State& getCurrentState() const;
protected:
  template <typename T> void declareDependency();
  template <typename T> T& getDependency();
  template <typename T> const T& getDependency() const;
  bool isReady() const;
  long m_manager_id{0};
};
} }
#include "Configuration/ConfigManagerImpl.h"
