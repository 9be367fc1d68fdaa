#pragma once
#include "pybind11.h"

namespace pybind11 {
struct buffer_info
{
    void* ptr = nullptr;
    ssize_t itemsize = 0, size = 0, ndim = 0;
    std::string format;
    std::vector<ssize_t> shape, strides;
    bool readonly = false;
};
class array : public object
{
    ndarray& a() const { return *std::get<std::shared_ptr<ndarray>>(*v); }

  public:
    enum
    {
        c_style = 0x1,
        f_style = 0x2,
        forcecast = 0x10
    };
    array() = default;
    array(const object& o)
      : object(o)
    {
        if (!v)
            return;
        if (!std::holds_alternative<std::shared_ptr<ndarray>>(*v))
            throw cast_error("not an array");
    }
    static array ensure(const object& h, int flags = 0)
    {
        if (!h.v || !std::holds_alternative<std::shared_ptr<ndarray>>(*h.v))
            return array(null_object());
        array x(h);
        if (flags & f_style && !(flags & c_style))
            throw std::runtime_error("stand-in: f_style is not provided");
        if (flags & c_style && !x.a().row_major())
            return array(object(value(x.a().copy())));
        return x;
    }
    buffer_info request(bool = false) const
    {
        auto& x = a();
        return { x.data, x.itemsize, x.size(), (ssize_t)x.shape.size(), std::string(1, x.kind), x.shape, x.strides, false };
    }
    ssize_t size() const { return a().size(); }
    ssize_t itemsize() const { return a().itemsize; }
    ssize_t nbytes() const { return size() * itemsize(); }
    ssize_t ndim() const { return a().shape.size(); }
    const ssize_t* shape() const { return a().shape.data(); }
    ssize_t shape(ssize_t i) const { return a().shape.at(i); }
    const ssize_t* strides() const { return a().strides.data(); }
    ssize_t strides(ssize_t i) const { return a().strides.at(i); }
    const void* data() const { return a().data; }
    void* mutable_data() const { return a().data; }
    // as NumPy: C_CONTIGUOUS, F_CONTIGUOUS
    int flags() const { return (a().row_major() ? c_style : 0) | (a().column_major() ? f_style : 0) | 0x500; }
};
template<typename T, int Flags = array::forcecast>
class array_t : public array
{
  public:
    array_t() = default;
    array_t(const object& o)
      : array(array::ensure(o, Flags))
    {
    }
    const T* data() const { return static_cast<const T*>(array::data()); }
};
} // namespace pybind11
