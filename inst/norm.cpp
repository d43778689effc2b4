#include "common.hpp"
#include <u5e/filter.hpp>
#include <u5e/basic_grapheme.hpp>
#include <u5e/basic_grapheme_iterator.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/canonical_combining_order.hpp>
#include <u5e/canonical_composition.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
using namespace u5e;
C void vp_mk_u8s(U8S* o, std::string* s) { new (o) U8S(*s); }
C void vp_mk_u32s(U32S* o, s32* s) { new (o) U32S(*s); }
C std::string* vp_nat_u8s(U8S* o) { return &o->native_string; }
C s32* vp_nat_u32s(U32S* o) { return &o->native_string; }
C int vp_dec_c(int c, U32S* out) { return canonical_decomposition(codepoint(c), *out); }
C int vp_dec_k(int c, U32S* out) { return compatibility_and_canonical_decomposition(codepoint(c), *out); }
C void vp_ordering_s(int* b, int* e) { canonical_ordering(s32::iterator(b), s32::iterator(e)); }
C void vp_ordering_p(int* b, int* e) { canonical_ordering(b, e); }
C const int* vp_compose(U32S* d, int* count) { return vp_base(canonical_composition(*d, count)); }
#define FORM(F, SUF, ES, P, OUT, O)                                                       \
  C int vp_##F##_##SUF##_##OUT(P b, P e, O* out) {                                        \
    basic_grapheme<ES> g(vp_mk<ES::const_iterator>::of(b), vp_mk<ES::const_iterator>::of(e)); \
    return normalization_form_##F(g, *out); }
#define FORMS(SUF, ES, P)                                                                 \
  FORM(d, SUF, ES, P, u8, U8S) FORM(d, SUF, ES, P, u32, U32S)                             \
  FORM(kd, SUF, ES, P, u8, U8S) FORM(kd, SUF, ES, P, u32, U32S)                           \
  FORM(c, SUF, ES, P, u8, U8S) FORM(c, SUF, ES, P, u32, U32S)                             \
  FORM(kc, SUF, ES, P, u8, U8S) FORM(kc, SUF, ES, P, u32, U32S)
FORMS(u8s, U8S, const char*)
FORMS(u8v, U8V, const char*)
FORMS(u32s, U32S, const int*)
FORMS(u32v, U32V, const int*)
