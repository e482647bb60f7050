// C26: long member lists
#include "nat_reflect.hpp"

namespace rt {
#include "nat_reflect_wide.hpp"
} // namespace rt

void wide_types() {
    using namespace rt;
    { auto o = std::make_unique<wide33>(); enumerate("wide33", *o); values<wide33>("wide33"); }
    { auto o = std::make_unique<wide120>(); enumerate("wide120", *o); }
    auto o = std::make_unique<wide280>();
    table got;
    fields<wide280>([&](const char* name, auto member) { auto& m = member(o.get()); add(got, name, &m, sizeof m); });
    judge("wide280 for_each_field<T>", got, expected(*o), true, true);
}
