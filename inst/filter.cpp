#include "common.hpp"
#include <u5e/filter.hpp>
#include <u5e/basic_grapheme.hpp>
#include <u5e/basic_grapheme_iterator.hpp>
using namespace u5e;
#include "gcbval.hpp"
struct vp_out { long opaque[4]; };
// the operation: any function whatsoever (no body)
C int vp_op_c(int c, vp_out* out);
C int vp_op_g8(const char* b, const char* e, vp_out* out);
C int vp_op_g32(const int* b, const int* e, vp_out* out);
static int op_c(codepoint c, vp_out& o) { return vp_op_c(c.value, &o); }
static inline int vp_call(const char* b, const char* e, vp_out* o) { return vp_op_g8(b, e, o); }
static inline int vp_call(const int* b, const int* e, vp_out* o) { return vp_op_g32(b, e, o); }
struct fun_c { int operator()(codepoint c, vp_out& o) { return vp_op_c(c.value, &o); } };
#define FILT(SUF, ES, P)                                                                  \
  typedef basic_grapheme_iterator<ES> GI_##SUF;                                           \
  static inline ES::const_iterator mk_##SUF(P p) { return vp_mk<ES::const_iterator>::of(p); } \
  C int vp_fc_##SUF(P b, P e, vp_out* o) { return filter(mk_##SUF(b), mk_##SUF(e), *o, op_c); } \
  C int vp_fo_##SUF(P b, P e, vp_out* o) { return filter(mk_##SUF(b), mk_##SUF(e), *o, fun_c()); } \
  static int op_##SUF(basic_grapheme<ES> g, vp_out& o) {                                  \
    return vp_call(vp_base(g.codepoint_begin()), vp_base(g.codepoint_end()), &o); }       \
  C int vp_fg_##SUF(P b, P e, P w, P we, P w2, P we2, vp_out* o) {                        \
    return filter(GI_##SUF(mk_##SUF(b), mk_##SUF(e), mk_##SUF(w), mk_##SUF(we)),          \
                  GI_##SUF(mk_##SUF(b), mk_##SUF(e), mk_##SUF(w2), mk_##SUF(we2)), *o, op_##SUF); }
FILT(u8s, U8S, const char*)
FILT(u8v, U8V, const char*)
FILT(u32s, U32S, const int*)
FILT(u32v, U32V, const int*)
