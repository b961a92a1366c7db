#pragma once
#include "Table/Row.h"
namespace Euclid { namespace Table { class TableReader { public: virtual ~TableReader() = default; virtual const ColumnInfo& getInfo(); std::string getComment(); Table read(long rows = -1); void skip(long); bool hasMoreRows(); std::size_t rowsLeft(); }; } }
