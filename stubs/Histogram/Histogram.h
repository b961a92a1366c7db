#pragma once
#include <sys/types.h>
#include <tuple>
#include <vector>
#include <memory>
namespace Euclid { namespace Histogram {
template <typename V> class BinStrategy { public: virtual ~BinStrategy() = default; std::size_t getBinCount() const; virtual ssize_t getBinIndex(V) const = 0; virtual V getEdge(size_t) const = 0; virtual V getBin(size_t) const = 0; std::pair<V, V> getBinEdges(std::size_t) const; template <typename It> void computeBins(It, It);
protected: size_t m_nbins = 0; };
template <typename V, typename W = V> class Histogram { public: template <typename It, typename S> Histogram(It b, It e, S&& s); std::tuple<V, V, V> getStats() const; void clip(V lo, V hi); std::vector<V> getBins() const; std::vector<V> getEdges() const; std::pair<V,V> getBinEdges(std::size_t) const; std::size_t size() const; const std::vector<W>& getCounts() const; };
} }
