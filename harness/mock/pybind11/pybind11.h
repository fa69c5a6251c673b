// Stand-in for pybind11: just what macposts/_ext uses, so that the bindings' own code
// runs in the engine. Arrays are C-contiguous buffers, as numpy hands over.
#pragma once
#include <algorithm>
#include <cstddef>
#include <initializer_list>
#include <memory>
#include <string>
#include <vector>
namespace pybind11
{
typedef long ssize_t;
struct module {};
struct arg { arg (const char *) {} template <class T> arg &operator= (T &&) { return *this; } };
template <class... A> struct init {};
enum class return_value_policy { reference_internal, reference, copy };
template <class T> struct class_
{
  class_ (module &, const char *) {}
  template <class... A> class_ &def (A &&...) { return *this; }
  template <class... A> class_ &def_property_readonly (A &&...) { return *this; }
};
struct buffer_info { void *ptr; ssize_t itemsize, size, ndim; std::vector<ssize_t> shape, strides; };
template <class T> struct array_t
{
  struct Buf { T *p; Buf (size_t n) : p (new T[n ? n : 1]) {} ~Buf () { delete[] p; } };
  std::shared_ptr<Buf> b; std::vector<ssize_t> sh;
  void make () { size_t n = 1; for (ssize_t x : sh) n *= x; b = std::make_shared<Buf> (n); }
  array_t () { sh.push_back (0); make (); }
  array_t (size_t n) { sh.push_back (n); make (); }
  template <size_t N> array_t (const int (&s)[N]) { for (int x : s) sh.push_back (x); make (); }
  array_t (const std::vector<ssize_t> &s) : sh (s) { make (); }
  array_t (std::initializer_list<T> v) { sh.push_back (v.size ()); make (); size_t i = 0; for (T x : v) b->p[i++] = x; }
  buffer_info request () const
  {
    buffer_info r; r.ptr = b->p; r.itemsize = sizeof (T); r.ndim = sh.size (); r.shape = sh; r.size = 1; r.strides.assign (sh.size (), sizeof (T));
    for (int i = (int) sh.size () - 1; i >= 0; i--) { r.strides[i] = r.size * sizeof (T); r.size *= sh[i]; }
    return r;
  }
  T &operator[] (size_t i) { return b->p[i]; }
  size_t size () const { size_t n = 1; for (ssize_t x : sh) n *= x; return n; }
  struct Attr { array_t *a; void operator() () { std::sort (a->b->p, a->b->p + a->size ()); } };
  Attr attr (const char *) { return Attr{ this }; }
};
}
