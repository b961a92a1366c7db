#pragma once
#include "Table/Row.h"
namespace Euclid { namespace Table { class TableWriter { public: virtual ~TableWriter() = default; virtual void addComment(const std::string&); void addData(const Table&); }; } }
