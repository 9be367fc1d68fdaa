#pragma once
#include "pybind11.h"

namespace pybind11 {
template<typename V, typename... Extra>
void
bind_vector(module_& m, const char* name, const Extra&...)
{
    using T = typename V::value_type;
    auto t = m.add(name, typeid(V));
    t->init = [](const args_t& a, const kwargs&) {
        V v;
        if (a.size() == 1)
            for (auto& x : std::get<std::vector<object>>(*a[0].v))
                v.push_back(x.cast<T>());
        return cast(std::move(v));
    };
    t->methods["append"] = [](const args_t& a) {
        detail::self<V>(a.at(0)).push_back(a.at(1).cast<T>());
        return object();
    };
    t->methods["extend"] = [](const args_t& a) {
        for (auto& x : std::get<std::vector<object>>(*a.at(1).v))
            detail::self<V>(a[0]).push_back(x.cast<T>());
        return object();
    };
    t->methods["clear"] = [](const args_t& a) {
        detail::self<V>(a.at(0)).clear();
        return object();
    };
    t->methods["__len__"] = [](const args_t& a) { return cast(detail::self<V>(a.at(0)).size()); };
    t->methods["__getitem__"] = [](const args_t& a) { // a reference
        auto& i = std::get<instance>(*a.at(0).v);
        return object(value(instance{ typeid(T), std::shared_ptr<void>(i.p, &detail::self<V>(a[0]).at(a.at(1).cast<size_t>())) }));
    };
    t->methods["__setitem__"] = [](const args_t& a) {
        detail::self<V>(a.at(0)).at(a.at(1).cast<size_t>()) = a.at(2).cast<T>();
        return object();
    };
}
} // namespace pybind11
