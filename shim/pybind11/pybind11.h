// Stand-in for the part of pybind11 that acquire-zarr's module uses: Python values are C++ objects, classes and
// functions are recorded in a registry through which the harness plays the Python program. Conversions are as
// strict as pybind11's (ranges of integers, no lists for opaque vectors, instances by their type).
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <variant>
#include <vector>

struct PyObject
{
    const char* name;
};
inline PyObject py_runtime_error{ "RuntimeError" }, py_value_error{ "ValueError" }, py_type_error{ "TypeError" }, py_index_error{ "IndexError" };
#define PyExc_RuntimeError (&py_runtime_error)
#define PyExc_ValueError (&py_value_error)
#define PyExc_TypeError (&py_type_error)
#define PyExc_IndexError (&py_index_error)
inline thread_local std::string py_error;
inline void
PyErr_SetString(PyObject* type, const char* what)
{
    py_error = std::string(type->name) + ": " + what;
}
inline void
PyErr_Clear()
{
    py_error.clear();
}
inline PyObject*
PyErr_Occurred()
{
    return py_error.empty() ? nullptr : &py_runtime_error;
}

#define PYBIND11_MAKE_OPAQUE(...) static_assert(true)

namespace pybind11 {
using ssize_t = ::ssize_t;
struct error_already_set : std::exception
{
    std::string text = std::exchange(py_error, {});
    const char* what() const noexcept override { return text.c_str(); }
};
struct builtin_exception : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
struct cast_error : builtin_exception
{
    using builtin_exception::builtin_exception;
};
struct type_error : builtin_exception
{
    using builtin_exception::builtin_exception;
};
struct value_error : builtin_exception
{
    using builtin_exception::builtin_exception;
};
struct index_error : builtin_exception
{
    using builtin_exception::builtin_exception;
};
struct key_error : builtin_exception
{
    using builtin_exception::builtin_exception;
};
[[noreturn]] inline void
pybind11_fail(const std::string& s)
{
    throw std::runtime_error(s);
}

class object;
// strided elements in memory
struct ndarray
{
    std::shared_ptr<void> owner;
    char* data = nullptr;
    ssize_t itemsize = 1;
    char kind = 'u';
    std::vector<ssize_t> shape, strides;
    ssize_t size() const
    {
        ssize_t n = 1;
        for (auto s : shape)
            n *= s;
        return n;
    }
    template<typename F>
    void each(F&& f) const // elements in row-major order
    {
        std::vector<ssize_t> i(shape.size(), 0);
        for (ssize_t n = size(); n > 0; --n) {
            char* p = data;
            for (size_t d = 0; d < i.size(); ++d)
                p += i[d] * strides[d];
            f(p);
            for (size_t d = i.size(); d-- > 0;) {
                if (++i[d] < shape[d])
                    break;
                i[d] = 0;
            }
        }
    }
    bool row_major() const
    {
        ssize_t want = itemsize;
        for (size_t d = shape.size(); d-- > 0; want *= shape[d])
            if (shape[d] != 1 && strides[d] != want && size() > 0)
                return false;
        return true;
    }
    bool column_major() const
    {
        ssize_t want = itemsize;
        for (size_t d = 0; d < shape.size(); want *= shape[d++])
            if (shape[d] != 1 && strides[d] != want && size() > 0)
                return false;
        return true;
    }
    std::shared_ptr<ndarray> copy() const // row-major
    {
        auto c = std::make_shared<ndarray>(*this);
        const size_t n = size() * itemsize;
        std::shared_ptr<char[]> mem(new char[n]);
        char* o = mem.get();
        each([&](char* p) { memcpy(o, p, itemsize), o += itemsize; });
        c->data = mem.get();
        c->owner = std::shared_ptr<void>(mem, mem.get());
        ssize_t s = itemsize;
        for (size_t d = shape.size(); d-- > 0; s *= shape[d])
            c->strides[d] = s;
        return c;
    }
};
struct instance
{
    std::type_index type;
    std::shared_ptr<void> p;
};
struct none_t
{};
using value = std::variant<none_t, bool, __int128, double, std::string, std::vector<object>, instance, std::shared_ptr<ndarray>>;

class object
{
  public:
    std::shared_ptr<value> v;
    object()
      : v(std::make_shared<value>(none_t{}))
    {
    }
    explicit object(value x)
      : v(std::make_shared<value>(std::move(x)))
    {
    }
    bool is_none() const { return std::holds_alternative<none_t>(*v); }
    explicit operator bool() const { return v != nullptr; }
    object ptr() const { return *this; }
    template<typename T>
    T cast() const;
};
using handle = object;
struct none : object
{};
struct null_object : object
{
    null_object() { v = nullptr; }
};

namespace detail {
template<typename T>
struct is_optional : std::false_type
{};
template<typename T>
struct is_optional<std::optional<T>> : std::true_type
{};
template<typename T>
struct is_uptr : std::false_type
{};
template<typename T>
struct is_uptr<std::unique_ptr<T>> : std::true_type
{};
template<typename T>
T&
self(const object& o)
{
    auto* i = o.v ? std::get_if<instance>(o.v.get()) : nullptr;
    if (!i || i->type != typeid(T))
        throw cast_error(std::string("cannot use this object as ") + typeid(T).name());
    return *static_cast<T*>(i->p.get());
}
template<typename T>
T
convert(const object& o)
{
    if (!o.v)
        throw cast_error("null object");
    if constexpr (std::is_base_of_v<object, T>) {
        if constexpr (std::is_same_v<object, T>)
            return o;
        else
            return T(o);
    } else if constexpr (std::is_same_v<T, bool>) {
        if (auto* b = std::get_if<bool>(o.v.get()))
            return *b;
        throw cast_error("not a bool");
    } else if constexpr (std::is_integral_v<T>) {
        __int128 n;
        if (auto* b = std::get_if<bool>(o.v.get()))
            n = *b;
        else if (auto* i = std::get_if<__int128>(o.v.get()))
            n = *i;
        else
            throw cast_error("not an integer");
        if (n < (__int128)std::numeric_limits<T>::min() || n > (__int128)std::numeric_limits<T>::max())
            throw cast_error("integer out of range");
        return (T)n;
    } else if constexpr (std::is_floating_point_v<T>) {
        if (auto* d = std::get_if<double>(o.v.get()))
            return (T)*d;
        if (auto* i = std::get_if<__int128>(o.v.get()))
            return (T)*i;
        throw cast_error("not a number");
    } else if constexpr (std::is_same_v<T, std::string>) {
        if (auto* s = std::get_if<std::string>(o.v.get()))
            return *s;
        throw cast_error("not a string");
    } else if constexpr (is_optional<T>::value) {
        if (o.is_none())
            return std::nullopt;
        return convert<typename T::value_type>(o);
    } else
        return self<T>(o);
}
template<typename T>
decltype(auto)
argument(const object& o)
{
    using D = std::remove_cv_t<std::remove_reference_t<T>>;
    if constexpr (std::is_base_of_v<object, D> || std::is_arithmetic_v<D> || std::is_same_v<D, std::string> || is_optional<D>::value)
        return convert<D>(o);
    else if constexpr (std::is_pointer_v<D>)
        return &self<std::remove_cv_t<std::remove_pointer_t<D>>>(o);
    else
        return (D&)self<D>(o);
}
} // namespace detail

template<typename T>
T
object::cast() const
{
    return detail::convert<std::remove_cv_t<std::remove_reference_t<T>>>(*this);
}
template<typename T>
T
cast(const object& o)
{
    return o.cast<T>();
}
template<typename T, typename D = std::decay_t<T>, typename = std::enable_if_t<!std::is_base_of_v<object, D>>>
object
cast(T&& x)
{
    if constexpr (std::is_same_v<D, bool>)
        return object(value(std::in_place_type<bool>, x));
    else if constexpr (std::is_integral_v<D>)
        return object(value(std::in_place_type<__int128>, x));
    else if constexpr (std::is_floating_point_v<D>)
        return object(value(std::in_place_type<double>, x));
    else if constexpr (std::is_convertible_v<D, std::string>)
        return object(value(std::in_place_type<std::string>, x));
    else if constexpr (detail::is_optional<D>::value)
        return x ? cast(*x) : object();
    else if constexpr (detail::is_uptr<D>::value)
        return object(value(instance{ typeid(typename D::element_type), std::shared_ptr<void>(std::shared_ptr<typename D::element_type>(std::move(x))) }));
    else
        return object(value(instance{ typeid(D), std::make_shared<D>(std::forward<T>(x)) }));
}
inline object
cast(const object& o)
{
    return o;
}

class kwargs : public object
{
  public:
    std::map<std::string, object> m;
    bool contains(const std::string& k) const { return m.count(k); }
    object operator[](const std::string& k) const
    {
        auto it = m.find(k);
        if (it == m.end())
            throw key_error(k);
        return it->second;
    }
    size_t size() const { return m.size(); }
    bool empty() const { return m.empty(); }
};
using dict = kwargs;

// what a Python program can reach
using args_t = std::vector<object>;
using callable = std::function<object(const args_t&)>;
struct type_info
{
    std::string name;
    std::type_index type = typeid(void);
    std::function<object(const args_t&, const kwargs&)> init;
    std::map<std::string, callable> methods, getters, setters;
    std::map<std::string, object> values; // of an enumeration
};
class module_
{
  public:
    std::string docs;
    std::map<std::string, std::shared_ptr<type_info>> types;
    std::map<std::string, callable> functions;
    std::string& doc() { return docs; }
    template<typename F, typename... Extra>
    module_& def(const char* name, F&& f, const Extra&...);
    std::shared_ptr<type_info> add(const char* name, std::type_index t)
    {
        auto& p = types[name];
        if (p)
            throw std::runtime_error(std::string(name) + " is registered twice");
        p = std::make_shared<type_info>();
        p->name = name;
        p->type = t;
        return p;
    }
};
using module = module_;

struct arg
{
    explicit arg(const char*) {}
    template<typename T>
    arg& operator=(T&&)
    {
        return *this;
    }
    arg& noconvert() { return *this; }
};
namespace literals {
inline arg
operator""_a(const char* s, size_t)
{
    return arg(s);
}
}
struct dynamic_attr
{};
struct module_local
{};
enum class return_value_policy
{
    automatic,
    automatic_reference,
    take_ownership,
    copy,
    move,
    reference,
    reference_internal
};
struct gil_scoped_release
{
    gil_scoped_release() {}
    ~gil_scoped_release() {}
};
struct gil_scoped_acquire
{
    gil_scoped_acquire() {}
    ~gil_scoped_acquire() {}
};
template<typename... T>
struct call_guard
{};
template<size_t, size_t>
struct keep_alive
{};

namespace detail {
template<typename R, typename... A, size_t... I>
object
call(const std::function<R(A...)>& f, const args_t& a, std::index_sequence<I...>)
{
    if (a.size() != sizeof...(A))
        throw type_error("wrong number of arguments");
    if constexpr (std::is_void_v<R>) {
        f(argument<A>(a[I])...);
        return object();
    } else
        return pybind11::cast(f(argument<A>(a[I])...));
}
template<typename R, typename... A>
callable
erase(std::function<R(A...)> f)
{
    return [f](const args_t& a) { return call(f, a, std::index_sequence_for<A...>{}); };
}
template<typename F>
callable
make(F f)
{
    return erase(std::function(std::move(f)));
}
template<typename R, typename C, typename... A>
callable
make(R (C::*f)(A...))
{
    return erase(std::function<R(C&, A...)>([f](C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }));
}
template<typename R, typename C, typename... A>
callable
make(R (C::*f)(A...) const)
{
    return erase(std::function<R(C&, A...)>([f](C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }));
}
template<typename F>
struct factory
{
    F f;
};
template<typename... A>
struct constructor
{};
} // namespace detail
template<typename F>
detail::factory<F>
init(F f)
{
    return { std::move(f) };
}
template<typename... A>
detail::constructor<A...>
init()
{
    return {};
}

template<typename F, typename... Extra>
module_&
module_::def(const char* name, F&& f, const Extra&...)
{
    functions[name] = detail::make(std::decay_t<F>(f));
    return *this;
}

template<typename T, typename... Options>
class class_
{
    std::shared_ptr<type_info> t;
    template<typename R, typename... A>
    void set_init(std::function<R(A...)> f)
    {
        t->init = [f](const args_t& a, const kwargs& k) -> object {
            if constexpr (sizeof...(A) == 1 && (std::is_same_v<std::decay_t<A>, kwargs> && ...)) {
                if (!a.empty())
                    throw type_error("only keyword arguments");
                return pybind11::cast(f(k));
            } else {
                if (!k.empty())
                    throw type_error("no keyword arguments");
                return detail::call(f, a, std::index_sequence_for<A...>{});
            }
        };
    }

  public:
    template<typename... Extra>
    class_(module_& m, const char* name, const Extra&...)
      : t(m.add(name, typeid(T)))
    {
    }
    template<typename F, typename... Extra>
    class_& def(detail::factory<F> f, const Extra&...)
    {
        set_init(std::function(f.f));
        return *this;
    }
    template<typename... A, typename... Extra>
    class_& def(detail::constructor<A...>, const Extra&...)
    {
        t->init = [](const args_t& a, const kwargs& k) {
            if (!k.empty())
                throw type_error("no keyword arguments");
            std::function<std::unique_ptr<T>(A...)> f = [](A... x) { return std::make_unique<T>(std::forward<A>(x)...); };
            return detail::call(f, a, std::index_sequence_for<A...>{});
        };
        return *this;
    }
    template<typename F, typename... Extra>
    class_& def(const char* name, F&& f, const Extra&...)
    {
        t->methods[name] = detail::make(std::decay_t<F>(f));
        return *this;
    }
    template<typename F, typename... Extra>
    class_& def_static(const char* name, F&& f, const Extra&...)
    {
        t->methods[name] = detail::make(std::decay_t<F>(f));
        return *this;
    }
    template<typename G, typename S, typename... Extra>
    class_& def_property(const char* name, G&& g, S&& s, const Extra&...)
    {
        t->getters[name] = detail::make(std::decay_t<G>(g));
        t->setters[name] = detail::make(std::decay_t<S>(s));
        return *this;
    }
    template<typename G, typename... Extra>
    class_& def_property_readonly(const char* name, G&& g, const Extra&...)
    {
        t->getters[name] = detail::make(std::decay_t<G>(g));
        return *this;
    }
    template<typename C, typename M, typename... Extra>
    class_& def_readwrite(const char* name, M C::*m, const Extra&... extra)
    {
        def_readonly(name, m, extra...);
        t->setters[name] = [m](const args_t& a) {
            detail::self<T>(a.at(0)).*m = a.at(1).template cast<M>();
            return object();
        };
        return *this;
    }
    template<typename C, typename M, typename... Extra>
    class_& def_readonly(const char* name, M C::*m, const Extra&...)
    {
        t->getters[name] = [m](const args_t& a) {
            M& x = detail::self<T>(a.at(0)).*m;
            if constexpr (std::is_arithmetic_v<M> || std::is_same_v<M, std::string> || detail::is_optional<M>::value)
                return pybind11::cast(x);
            else // a reference that keeps its parent alive
                return object(value(instance{ typeid(M), std::shared_ptr<void>(std::get<instance>(*a[0].v).p, &x) }));
        };
        return *this;
    }
};

template<typename E>
class enum_
{
    std::shared_ptr<type_info> t;

  public:
    template<typename... Extra>
    enum_(module_& m, const char* name, const Extra&...)
      : t(m.add(name, typeid(E)))
    {
    }
    enum_& value(const char* name, E e, const char* = nullptr)
    {
        if (t->values.count(name))
            throw value_error(std::string(name) + " is an enumerator already");
        t->values[name] = pybind11::cast(e);
        return *this;
    }
    enum_& export_values() { return *this; }
};
} // namespace pybind11

void pybind11_stand_in_init(pybind11::module_& m);
#define PYBIND11_MODULE(name, m)                                                                                       \
    static void pybind11_init_##name(pybind11::module_&);                                                              \
    void pybind11_stand_in_init(pybind11::module_& x) { pybind11_init_##name(x); }                                     \
    static void pybind11_init_##name(pybind11::module_& m)
