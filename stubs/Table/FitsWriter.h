#pragma once
#include <memory>
#include "Table/TableWriter.h"
namespace CCfits { class FITS; }
namespace Euclid { namespace Table { class FitsWriter : public TableWriter { public: enum class Format { ASCII, BINARY }; explicit FitsWriter(const std::string&, bool override_flag = false); explicit FitsWriter(std::shared_ptr<CCfits::FITS>); FitsWriter& setFormat(Format); FitsWriter& setHduName(const std::string&); void addComment(const std::string&) override; }; } }
