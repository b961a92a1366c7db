#pragma once
#include "AlexandriaKernel/memory_tools.h"
#include "ElementsKernel/Exception.h"
#include <memory>
#include <string>
#include <vector>
#include <typeindex>
#include <boost/variant.hpp>
#include "NdArray/NdArray.h"
namespace Euclid { namespace Table {
struct ColumnDescription { ColumnDescription(std::string name, std::type_index t = typeid(std::string), std::string unit = "", std::string descr = ""); std::string name, unit, description; std::type_index type; };
class ColumnInfo { public: using info_type = ColumnDescription; explicit ColumnInfo(std::vector<ColumnDescription>); std::size_t size() const; const ColumnDescription& getDescription(std::size_t) const; std::unique_ptr<std::size_t> find(const std::string&) const; };
class Row { public: using cell_type = boost::variant<bool, int32_t, int64_t, float, double, std::string, std::vector<bool>, std::vector<int32_t>, std::vector<int64_t>, std::vector<float>, std::vector<double>, NdArray::NdArray<int32_t>, NdArray::NdArray<int64_t>, NdArray::NdArray<float>, NdArray::NdArray<double>>;
  using const_iterator = std::vector<cell_type>::const_iterator;
  Row(std::vector<cell_type> v, std::shared_ptr<ColumnInfo> i); std::shared_ptr<ColumnInfo> getColumnInfo() const; std::size_t size() const; const cell_type& operator[](std::size_t) const; const cell_type& operator[](const std::string&) const; const_iterator begin() const; const_iterator end() const; };
class Table { public: using const_iterator = std::vector<Row>::const_iterator; explicit Table(std::vector<Row>); Table(std::shared_ptr<ColumnInfo>); std::shared_ptr<ColumnInfo> getColumnInfo() const; std::size_t size() const; const Row& operator[](std::size_t) const; const_iterator begin() const; const_iterator end() const; };
} }
