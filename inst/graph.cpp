#include "common.hpp"
#include <u5e/basic_grapheme.hpp>
#include <u5e/basic_grapheme_iterator.hpp>
using namespace u5e;
#include "gcbval.hpp"
// P: native pointer; CI: codepoint iterator; GI: grapheme iterator
#define GRAPH(SUF, ES, P)                                                             \
  typedef basic_grapheme_iterator<ES> GI_##SUF;                                         \
  typedef ES::const_iterator CI_##SUF;                                                  \
  static inline CI_##SUF mk_##SUF(P p) { return vp_mk<CI_##SUF>::of(p); }              \
  C int vp_gsize_##SUF() { return sizeof(GI_##SUF); }                                  \
  C void vp_g2_##SUF(GI_##SUF* o, P b, P e) { new (o) GI_##SUF(mk_##SUF(b), mk_##SUF(e)); } \
  C void vp_g3_##SUF(GI_##SUF* o, P b, P e, P w) { new (o) GI_##SUF(mk_##SUF(b), mk_##SUF(e), mk_##SUF(w)); } \
  C void vp_g4_##SUF(GI_##SUF* o, P b, P e, P w, P we) { new (o) GI_##SUF(mk_##SUF(b), mk_##SUF(e), mk_##SUF(w), mk_##SUF(we)); } \
  C void vp_gcopy_##SUF(GI_##SUF* o, GI_##SUF* in) { new (o) GI_##SUF(*in); }           \
  C void vp_gpre_##SUF(GI_##SUF* g, GI_##SUF* o) { new (o) GI_##SUF(++*g); }            \
  C void vp_gpost_##SUF(GI_##SUF* g, GI_##SUF* o) { new (o) GI_##SUF((*g)++); }         \
  C void vp_gget_##SUF(GI_##SUF* g, P* b, P* e) { basic_grapheme<ES> r(**g);            \
    *b = vp_base(r.codepoint_begin()); *e = vp_base(r.codepoint_end()); }               \
  C bool vp_geqc_##SUF(GI_##SUF* g, P p) { return *g == mk_##SUF(p); }                  \
  C bool vp_gnec_##SUF(GI_##SUF* g, P p) { return *g != mk_##SUF(p); }                  \
  C bool vp_geqg_##SUF(GI_##SUF* g, GI_##SUF* h) { return *g == *h; }                   \
  C bool vp_gneg_##SUF(GI_##SUF* g, GI_##SUF* h) { return *g != *h; }                   \
  C void vp_begin_##SUF(ES* s, GI_##SUF* o) { new (o) GI_##SUF(s->grapheme_begin()); }  \
  C void vp_end_##SUF(ES* s, GI_##SUF* o) { new (o) GI_##SUF(s->grapheme_end()); }      \
  C void vp_pair_##SUF(P b, P e, P* r) { GI_##SUF g(mk_##SUF(b), mk_##SUF(e));            \
    *r = vp_base((*g).codepoint_end()); }
GRAPH(u8s, U8S, const char*)
GRAPH(u8v, U8V, const char*)
GRAPH(u32s, U32S, const int*)
GRAPH(u32v, U32V, const int*)
C void vp_mk_u8s(U8S* o, std::string* s) { new (o) U8S(*s); }
C void vp_mk_u32s(U32S* o, s32* s) { new (o) U32S(*s); }
C void vp_mk_u8v(U8V* o, const char* p, size_t n) { new (o) U8V(sv8(p, n)); }
C void vp_mk_u32v(U32V* o, const int* p, size_t n) { new (o) U32V(sv32(p, n)); }
