#pragma once
#include "Table/TableReader.h"
namespace CCfits { class HDU; class FITS; }
namespace Euclid { namespace Table { class FitsReader : public TableReader { public: explicit FitsReader(const std::string&, int = 1); FitsReader(const CCfits::HDU&); template <typename... A> FitsReader(std::shared_ptr<CCfits::FITS>, A...); FitsReader(std::unique_ptr<CCfits::FITS>, int = 1); FitsReader& fixColumnNames(std::vector<std::string>); }; } }
