// Stand-in for CxxWrap's jlcxx.hpp and the part of julia.h that the gateways use.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <functional>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
struct jl_value_t { int tag; };
typedef jl_value_t jl_datatype_t;
struct jl_array_t { void *data; size_t length; uint16_t elsize; size_t nrows, ncols; int nd; };
extern "C" {
extern jl_datatype_t *jl_float64_type, *jl_float32_type;
jl_value_t *jl_apply_array_type(jl_value_t *type, size_t dim);
jl_array_t *jl_alloc_array_2d(jl_value_t *atype, size_t nr, size_t nc);
jl_array_t *jl_alloc_array_1d(jl_value_t *atype, size_t nr);
}
#define jl_array_data(a) ((void *)((jl_array_t *)(a))->data)
#define jl_array_len(a) (((jl_array_t *)(a))->length)
#define jl_array_dim(a, i) ((i) == 0 ? ((jl_array_t *)(a))->nrows : ((jl_array_t *)(a))->ncols)
#define jl_array_nrows(a) (((jl_array_t *)(a))->nrows)
#define jl_array_ndims(a) (((jl_array_t *)(a))->nd)
#define JL_GC_PUSH1(a) ((void)(a))
#define JL_GC_PUSH2(a, b) ((void)(a), (void)(b))
#define JL_GC_POP() ((void)0)
#define JLCXX_MODULE extern "C" void
namespace jlcxx {
template <class T, int N = 1> class ArrayRef {
public:
  ArrayRef(jl_array_t *a) : a_(a) {}
  jl_array_t *wrapped() const { return a_; }
  T *data() { return (T *)a_->data; }
  const T *data() const { return (const T *)a_->data; }
  size_t size() const { return a_->length; }
  T &operator[](size_t i) { return data()[i]; }
  const T &operator[](size_t i) const { return data()[i]; }
  T *begin() { return data(); }
  T *end() { return data() + size(); }
private:
  jl_array_t *a_;
};
// a value of the simulated Julia session
struct Any { jl_array_t *a = nullptr; bool str = false, num = false; std::string s; double x = 0; };
struct MethodError : std::runtime_error { MethodError() : std::runtime_error("MethodError: no method matching") {} };
template <class T> struct From { static T get(const Any &v) { if (!v.num) throw MethodError(); return (T)v.x; } };
template <> struct From<std::string> { static std::string get(const Any &v) { if (!v.str) throw MethodError(); return v.s; } };
template <class T, int N> struct From<ArrayRef<T, N>> { static ArrayRef<T, N> get(const Any &v) { if (!v.a || v.a->nd != N || v.a->elsize != sizeof(T)) throw MethodError(); return ArrayRef<T, N>(v.a); } };
template <class T> struct From<const T &> : From<T> {};
template <class T> struct From<T &> : From<T> {};
template <class T, int N> Any result(const ArrayRef<T, N> &r) { Any v; v.a = r.wrapped(); return v; }
inline Any result(double x) { Any v; v.num = true; v.x = x; return v; }
typedef std::function<Any(const std::vector<Any> &)> Method;
struct Dims { std::vector<int> nd; };    // number of dimensions of each argument, 0: not an array
template <class T> struct DimOf { static int get() { return 0; } };
template <class T, int N> struct DimOf<ArrayRef<T, N>> { static int get() { return N; } };
template <class T> struct DimOf<const T &> : DimOf<T> {};
template <class T> struct DimOf<T &> : DimOf<T> {};
class Module {
public:
  std::vector<std::pair<std::string, std::pair<Dims, Method>>> methods;
  template <class R, class... A> Module &method(const std::string &name, R (*f)(A...)) {
    methods.push_back({name, {Dims{{DimOf<A>::get()...}}, [f](const std::vector<Any> &v) { if (v.size() != sizeof...(A)) throw MethodError(); return call(f, v, std::index_sequence_for<A...>()); }}});
    return *this;
  }
private:
  template <class R, class... A, size_t... I> static Any call(R (*f)(A...), const std::vector<Any> &v, std::index_sequence<I...>) { return result(f(From<A>::get(v[I])...)); }
};
}
