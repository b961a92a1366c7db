#pragma once
#include <string>
#include <boost/filesystem.hpp>
namespace Elements { boost::filesystem::path getAuxiliaryPath(const boost::filesystem::path&, bool raise = true); }
