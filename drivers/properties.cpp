// instantiates the property templates for two property types
#include <memory>
#include <functional>
#include <unordered_map>
#include <map>
#include "SEFramework/Property/PropertyId.h"
#include "SEFramework/Property/PropertyHolder.h"
#include "SEFramework/Source/SourceInterface.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEFramework/Task/TaskFactory.h"
#include "SEFramework/Task/TaskFactoryRegistry.h"
namespace sx {
using namespace SourceXtractor;
struct PropA : public Property {};
struct PropB : public Property { explicit PropB(int v) : m_v(v) {} int m_v; };
struct FactA : public TaskFactory { std::shared_ptr<Task> createTask(const PropertyId&) const override { return nullptr; } };
struct FactB : public TaskFactory { std::shared_ptr<Task> createTask(const PropertyId&) const override { return nullptr; } };
PropertyId idA(unsigned int i) { return PropertyId::create<PropA>(i); }
PropertyId idB() { return PropertyId::create<PropB>(); }
const PropA& getA(const SourceInterface& s, unsigned int i) { return s.getProperty<PropA>(i); }
const PropB& getB(const SourceInterface& s) { return s.getProperty<PropB>(); }
void setA(SourceInterface& s, std::size_t i) { s.setIndexedProperty<PropA>(i); }
void setB(SourceInterface& s, int v) { s.setProperty<PropB>(v); }
void setIB(SourceInterface& s, std::size_t i, int v) { s.setIndexedProperty<PropB>(i, v); }
std::size_t hashOf(const PropertyId& i) { return std::hash<PropertyId>()(i); }
void reg(TaskFactoryRegistry& r) { r.registerTaskFactory<FactA, PropA, PropB>(); }
void reg1(TaskFactoryRegistry& r) { r.registerTaskFactory<FactB, PropB>(); }
void pull(SimpleSourceGroup& g, std::vector<std::shared_ptr<SourceInterface>>) { (void)g; }
}
