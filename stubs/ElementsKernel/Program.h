#pragma once
#include <map>
#include <string>
#include <boost/program_options.hpp>
#include "ElementsKernel/Exception.h"
#include "ElementsKernel/Logging.h"
#include <memory>
#define ELEMENTS_API
#define CREATE_MANAGER_WITH_ARGS(M, P, ...) Elements::ProgramManager M{std::make_unique<P>(__VA_ARGS__), "x"}

namespace Elements {
class Program { public: using OptionsDescription = boost::program_options::options_description; using PositionalOptionsDescription = boost::program_options::positional_options_description; using VariableValue = boost::program_options::variable_value;
  Program(); virtual ~Program();
  virtual ExitCode mainMethod(std::map<std::string, boost::program_options::variable_value>& args) = 0;
  virtual OptionsDescription defineSpecificProgramOptions();
  virtual std::pair<OptionsDescription, PositionalOptionsDescription> defineProgramArguments();
};
class ProgramManager { public: ProgramManager(std::unique_ptr<Program>&&, const std::string& = ""); ExitCode run(int, char**); static void onTerminate() noexcept; };
}
