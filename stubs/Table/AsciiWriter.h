#pragma once
#include <ostream>
#include "Table/TableWriter.h"
namespace Euclid { namespace Table { class AsciiWriter : public TableWriter { public: explicit AsciiWriter(std::ostream&); explicit AsciiWriter(const std::string&); AsciiWriter& setCommentIndicator(const std::string&); AsciiWriter& showColumnInfo(bool); template<class...A> static AsciiWriter create(A&&...); }; } }
