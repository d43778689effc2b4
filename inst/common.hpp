// Helpers for the contract surface: conversions between native pointers and
// the library's iterators.  vp_* functions take and return native pointers
// only, so that the contracts do not depend on the layout of any class.
#ifndef VP_COMMON
#define VP_COMMON
#include <string>
#include <experimental/string_view>
#include <new>
#include <u5e/utf8_iterator.hpp>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#define C extern "C"
typedef std::experimental::string_view sv8;
typedef std::experimental::basic_string_view<int> sv32;
typedef std::basic_string<int> s32;
typedef u5e::utf8_string U8S;
typedef u5e::utf8_string_view U8V;
typedef u5e::utf32ne_string U32S;
typedef u5e::utf32ne_string_view U32V;
// native pointer of an iterator
template <typename P, typename S>
inline P* vp_base(__gnu_cxx::__normal_iterator<P*, S> it) { return it.base(); }
template <typename P> inline P* vp_base(P* p) { return p; }
template <typename R>
inline auto vp_base(const u5e::utf8_const_iterator<R>& it) -> decltype(vp_base(it.raw_iterator_)) { return vp_base(it.raw_iterator_); }
template <typename R>
inline auto vp_base(const u5e::utf8_iterator<R>& it) -> decltype(vp_base(it.raw_iterator_)) { return vp_base(it.raw_iterator_); }
// iterator from a native pointer
template <typename IT> struct vp_mk { template <typename P> static IT of(P p) { return IT(p); } };
template <typename R> struct vp_mk<u5e::utf8_const_iterator<R>> {
  template <typename P> static u5e::utf8_const_iterator<R> of(P p) { return u5e::utf8_const_iterator<R>(R(p)); } };
template <typename R> struct vp_mk<u5e::utf8_iterator<R>> {
  template <typename P> static u5e::utf8_iterator<R> of(P p) { return u5e::utf8_iterator<R>(R(p)); } };
#endif
