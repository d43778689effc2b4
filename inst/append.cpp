#include "common.hpp"
#include <u5e/basic_grapheme.hpp>
#include <u5e/basic_grapheme_iterator.hpp>
using namespace u5e;
C void vp_mk_u8s(U8S* o, std::string* s) { new (o) U8S(*s); }
C void vp_mk_u32s(U32S* o, s32* s) { new (o) U32S(*s); }
C std::string* vp_nat_u8(U8S* o) { return &o->native_string; }
C s32* vp_nat_u32(U32S* o) { return &o->native_string; }
#define FROM32(OUT, O)                                                                    \
  C O* vp_from32_s_##OUT(O* o, const int* b, const int* e) {                              \
    return &o->append_from_utf32ne<s32>(s32::const_iterator(b), s32::const_iterator(e)); } \
  C O* vp_from32_e_##OUT(O* o, const int* b, const int* e) {                              \
    return &o->append_from_utf32ne<U32S>(s32::const_iterator(b), s32::const_iterator(e)); } \
  C O* vp_from32_v_##OUT(O* o, const int* b, const int* e) {                              \
    return &o->append_from_utf32ne<sv32>(b, e); }
FROM32(u8, U8S)
FROM32(u32, U32S)
#define APP(SUF, ES, NS, O, P)                                                            \
  typedef basic_grapheme_iterator<ES> GI_##SUF;                                           \
  static inline ES::const_iterator mk_##SUF(P p) { return vp_mk<ES::const_iterator>::of(p); } \
  C O* vp_app_##SUF(O* o, P b, P e) { return &o->append<NS>(mk_##SUF(b), mk_##SUF(e)); }    \
  C O* vp_appg_##SUF(O* o, P b, P e, P w, P we, P w2, P we2) {                            \
    GI_##SUF f(mk_##SUF(b), mk_##SUF(e), mk_##SUF(w), mk_##SUF(we));                      \
    GI_##SUF l(mk_##SUF(b), mk_##SUF(e), mk_##SUF(w2), mk_##SUF(we2));                    \
    return &o->append<NS>(f, l); }
APP(u8s, U8S, std::string, U8S, const char*)
APP(u8v, U8V, sv8, U8S, const char*)
APP(u32s, U32S, s32, U32S, const int*)
APP(u32v, U32V, sv32, U32S, const int*)
#define APPN(SUF, ES, P)                                                                  \
  C ES* vp_appn_##SUF(ES* o, P b, P e) { return &o->append(mk_##SUF(b), mk_##SUF(e)); }    \
  C ES* vp_appng_##SUF(ES* o, P b, P e, P w, P we, P w2, P we2) {                         \
    GI_##SUF f(mk_##SUF(b), mk_##SUF(e), mk_##SUF(w), mk_##SUF(we));                      \
    GI_##SUF l(mk_##SUF(b), mk_##SUF(e), mk_##SUF(w2), mk_##SUF(we2));                    \
    return &o->append(f, l); }
APPN(u8s, U8S, const char*)
APPN(u32s, U32S, const int*)
