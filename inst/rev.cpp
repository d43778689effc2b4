#include "common.hpp"
#include <iterator>
using namespace u5e;
// reverse iterators over the library's codepoint iterators; a position is the
// native pointer of the base iterator
#define RITER(SUF, RI, IT, P)                                                          \
  C int vp_rderef_##SUF(P p, P* after) { RI it(vp_mk<IT>::of(p)); codepoint c = *it; *after = vp_base(it.base()); return c.value; } \
  C P vp_rpreinc_##SUF(P p, P* after) { RI it(vp_mk<IT>::of(p)); RI& r = ++it; *after = vp_base(it.base()); return vp_base(r.base()); } \
  C P vp_rpostinc_##SUF(P p, P* after) { RI it(vp_mk<IT>::of(p)); RI r(it++); *after = vp_base(it.base()); return vp_base(r.base()); } \
  C P vp_rpredec_##SUF(P p, P* after) { RI it(vp_mk<IT>::of(p)); RI& r = --it; *after = vp_base(it.base()); return vp_base(r.base()); } \
  C P vp_rpostdec_##SUF(P p, P* after) { RI it(vp_mk<IT>::of(p)); RI r(it--); *after = vp_base(it.base()); return vp_base(r.base()); } \
  C bool vp_req_##SUF(P p, P q, P* pa, P* qa) { RI a(vp_mk<IT>::of(p)), b(vp_mk<IT>::of(q)); bool r = a == b; *pa = vp_base(a.base()); *qa = vp_base(b.base()); return r; } \
  C bool vp_rne_##SUF(P p, P q, P* pa, P* qa) { RI a(vp_mk<IT>::of(p)), b(vp_mk<IT>::of(q)); bool r = a != b; *pa = vp_base(a.base()); *qa = vp_base(b.base()); return r; } \
  C P vp_rcopy_##SUF(P p) { RI a(vp_mk<IT>::of(p)); RI b(a); return vp_base(b.base()); } \
  C P vp_rassign_##SUF(P p, P q) { RI a(vp_mk<IT>::of(p)), b(vp_mk<IT>::of(q)); a = b; return vp_base(a.base()); }
#define CONST(SUF, ES, P) typedef ES::const_reverse_iterator RC_##SUF; typedef ES::const_iterator BC_##SUF; RITER(c##SUF, RC_##SUF, BC_##SUF, P)
#define MUT(SUF, ES, P) typedef ES::reverse_iterator RM_##SUF; typedef ES::iterator BM_##SUF; RITER(m##SUF, RM_##SUF, BM_##SUF, P)
CONST(u8s, U8S, const char*)
CONST(u8v, U8V, const char*)
CONST(u32s, U32S, const int*)
CONST(u32v, U32V, const int*)
MUT(u8s, U8S, char*)
MUT(u8v, U8V, const char*)
MUT(u32s, U32S, int*)
MUT(u32v, U32V, const int*)
typedef utf8_const_iterator<const unsigned char*> CIu;
typedef utf8_iterator<unsigned char*> MIu;
RITER(CIu, std::reverse_iterator<CIu>, CIu, const unsigned char*)
RITER(MIu, std::reverse_iterator<MIu>, MIu, unsigned char*)
