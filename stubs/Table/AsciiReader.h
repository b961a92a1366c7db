#pragma once
#include <istream>
#include "Table/TableReader.h"
namespace Euclid { namespace Table { class AsciiReader : public TableReader { public: explicit AsciiReader(std::istream&); explicit AsciiReader(const std::string&); AsciiReader& setCommentIndicator(const std::string&); AsciiReader& fixColumnNames(std::vector<std::string>); }; } }
