#include "common.hpp"
#include <u5e/basic_grapheme.hpp>
#include <u5e/basic_grapheme_iterator.hpp>
using namespace u5e;
#define WRAP(SUF, ES, NS, P)                                                              \
  C NS* vp_nat_##SUF(ES* o) { return &o->native_string; }                                 \
  C void vp_from_##SUF(ES* o, NS* s) { new (o) ES(*s); }                                  \
  C void vp_dflt_##SUF(ES* o) { new (o) ES(); }                                           \
  C void vp_copy_##SUF(ES* o, ES* s) { new (o) ES(*const_cast<const ES*>(s)); }           \
  C ES* vp_assign_##SUF(ES* o, ES* s) { return &(*o = *const_cast<const ES*>(s)); }       \
  C P vp_nb_##SUF(ES* o) { return vp_base(o->native_begin()); }                           \
  C P vp_ne_##SUF(ES* o) { return vp_base(o->native_end()); }                             \
  C P vp_ncb_##SUF(ES* o) { return vp_base(o->native_cbegin()); }                         \
  C P vp_nce_##SUF(ES* o) { return vp_base(o->native_cend()); }                           \
  C P vp_cb_##SUF(ES* o) { return vp_base(o->codepoint_begin()); }                        \
  C P vp_ce_##SUF(ES* o) { return vp_base(o->codepoint_end()); }                          \
  C P vp_ccb_##SUF(ES* o) { return vp_base(o->codepoint_cbegin()); }                      \
  C P vp_cce_##SUF(ES* o) { return vp_base(o->codepoint_cend()); }                        \
  C void vp_gb_##SUF(ES* o, P* b) { auto g = o->grapheme_begin(); *b = vp_base((*g).codepoint_begin()); } \
  C void vp_ge_##SUF(ES* o, P* b, P* e) { auto g = o->grapheme_end(); *b = vp_base((*g).codepoint_begin()); *e = vp_base((*g).codepoint_end()); } \
  C void vp_gr_##SUF(P b, P e, P* x, P* y) {                                              \
    basic_grapheme<ES> g(vp_mk<ES::const_iterator>::of(b), vp_mk<ES::const_iterator>::of(e)); \
    *x = vp_base(g.codepoint_begin()); *y = vp_base(g.codepoint_end()); }
WRAP(u8s, U8S, std::string, const char*)
WRAP(u8v, U8V, sv8, const char*)
WRAP(u32s, U32S, s32, const int*)
WRAP(u32v, U32V, sv32, const int*)
#define VIEW(SUF, V, P)                                                                    \
  C void vp_view_##SUF(V* o, P p, size_t n) { new (o) V(p, n); }                            \
  C P vp_vdata_##SUF(V* v) { return v->data(); }                                            \
  C size_t vp_vsize_##SUF(V* v) { return v->size(); }
VIEW(u8v, sv8, const char*)
VIEW(u32v, sv32, const int*)
#include "gcbval.hpp"
