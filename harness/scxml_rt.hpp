// Runtime for machines generated from SCXML documents: drives a generated machine and a machine which is registered
// directly from the description of the document with the same inputs and compares everything observable.
#pragma once
#include <hsmcpp/hsm.hpp>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sx {
using namespace hsmcpp;

struct Rec {                     // what one machine did
    std::vector<std::string> log;
    std::map<std::string, int> count;
    unsigned long long seed = 1;
    void put(const std::string& s);
    bool answer(const std::string& name, int percent);   // the same answers for the same history of calls
    void action(const char* name, const VariantVector_t& a);
    bool guard(const char* name, const VariantVector_t& a);
    bool enter(const char* name, const VariantVector_t& a);
    bool exit(const char* name);
};

struct Gen {                     // a generated machine
    Rec rec;
    std::map<std::string, int> states, events, timers;
    virtual ~Gen() = default;
    virtual HierarchicalStateMachine& m() = 0;
    virtual bool init(const std::weak_ptr<IHsmEventDispatcher>& d) = 0;
    virtual std::string sname(int id) = 0;
    virtual std::string ename(int id) = 0;
    void failed(const std::list<StateID_t>& act, int e, const VariantVector_t& a);
};

struct Doc {
    const char* name;
    const char* table;           // description of the document
    std::function<std::unique_ptr<Gen>()> make;
};
std::vector<Doc>& docs();
struct Reg { Reg(const char* n, const char* t, std::function<std::unique_ptr<Gen>()> f) { docs().push_back({n, t, std::move(f)}); } };
}  // namespace sx
