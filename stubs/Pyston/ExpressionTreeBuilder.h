#pragma once
#include <functional>
#include <string>
#include <vector>
#include "Pyston/Exceptions.h"
#include "Pyston/Graph/Node.h"
namespace Pyston {
class Exception; template <typename S> class ExpressionTree; 
template <typename R, typename... A> class ExpressionTree<R(A...)> { public: ExpressionTree(const ExpressionTree&); R operator()(A... a) const; R operator()(const Context&, A... a) const; bool isCompiled() const; const class Exception* reason() const; std::shared_ptr<NodeBase> getTree() const; };
class ExpressionTreeBuilder { public: ExpressionTreeBuilder(); template <typename S, typename... X> ExpressionTree<S> build(const boost::python::object& f, X&&... x) const; template <typename S, typename F> void registerFunction(const std::string&, F&&); };
}
