#pragma once
#include <map>
#include <memory>
#include <string>
#include <boost/any.hpp>
#include <boost/python.hpp>
namespace Pyston { class NodeBase { public: virtual ~NodeBase(); virtual std::string repr() const; template <typename V> void visit(V&&) const; }; template <typename T> class Node : public NodeBase {}; using Context = std::map<std::string, boost::any>; class AttributeSet { public: AttributeSet(); virtual ~AttributeSet(); template <typename T> void emplace(const std::string&, T); template<class...A> void emplace(A&&...); }; }
