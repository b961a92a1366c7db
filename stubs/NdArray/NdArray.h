#pragma once
#include "AlexandriaKernel/memory_tools.h"
#include "ElementsKernel/Exception.h"
#include <vector>
#include <string>
#include <memory>
#include <initializer_list>
#include <ostream>
namespace Euclid { namespace NdArray {
template <typename T> class NdArray { public: typedef std::size_t size_t_; using shape_t = std::vector<std::size_t>; using attrs_t = std::vector<std::string>;
  using iterator = T*; using const_iterator = const T*;
  NdArray(); explicit NdArray(const std::vector<std::size_t>& shape); 
  NdArray(std::initializer_list<std::size_t> shape);
  template <template <class...> class Container = std::vector> NdArray(const std::vector<std::size_t>& shape, const Container<T>& data);
  template <template <class...> class Container = std::vector> NdArray(const std::vector<std::size_t>& shape, Container<T>&& data);
  NdArray(const std::vector<std::size_t>& shape, const attrs_t& attrs);
  template <typename It> NdArray(const std::vector<std::size_t>& shape, It b, It e);
  NdArray(const NdArray&); NdArray(NdArray&&); NdArray& operator=(const NdArray&); NdArray& operator=(NdArray&&); virtual ~NdArray();
  const std::vector<std::size_t>& shape() const; NdArray& reshape(const std::vector<std::size_t>&); std::size_t size() const; const attrs_t& attributes() const;
  template <typename... I> T& at(std::size_t i, I... r); template <typename... I> const T& at(std::size_t i, I... r) const;
  T& at(const std::vector<std::size_t>&); const T& at(const std::vector<std::size_t>&) const;
  T& front(); const T& front() const; T& back();
  iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const; NdArray slice(std::size_t); template <typename X> NdArray& concatenate(const X&); NdArray copy() const; };
template <typename T> std::ostream& operator<<(std::ostream&, const NdArray<T>&);
} }
