#include "props.cpp"
#include <u5e/basic_grapheme.hpp>
#include <u5e/basic_grapheme_iterator.hpp>
// the first grapheme of [b, e)
#define PAIR(SUF, ES, P)                                                              \
  C void vp_pair_##SUF(P b, P e, P* r) {                                              \
    basic_grapheme_iterator<ES> g(vp_mk<ES::const_iterator>::of(b), vp_mk<ES::const_iterator>::of(e)); \
    *r = vp_base((*g).codepoint_end()); }
PAIR(u8s, U8S, const char*)
PAIR(u8v, U8V, const char*)
PAIR(u32s, U32S, const int*)
PAIR(u32v, U32V, const int*)
