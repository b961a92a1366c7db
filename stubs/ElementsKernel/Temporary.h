#pragma once
#include <string>
#include <boost/filesystem.hpp>
#include "ElementsKernel/Environment.h"
namespace Elements {
extern const std::string DEFAULT_TMP_KEEP_VAR;
class TempPath { public: explicit TempPath(const std::string& m = "", const std::string& k = DEFAULT_TMP_KEEP_VAR); virtual ~TempPath(); boost::filesystem::path path() const; std::string motif() const; };
class TempDir : public TempPath { public: explicit TempDir(const std::string& m = "", const std::string& k = DEFAULT_TMP_KEEP_VAR); };
class TempFile : public TempPath { public: explicit TempFile(const std::string& m = "", const std::string& k = DEFAULT_TMP_KEEP_VAR); };
class TempEnv { public: std::string& operator[](const std::string&); };
}
