#include "common.hpp"
using namespace u5e;
#define ITER(SUF, IT, P)                                                              \
  C int vp_deref_##SUF(P p, P* after) { IT it(vp_mk<IT>::of(p)); codepoint c = *it; *after = vp_base(it); return c.value; } \
  C P vp_preinc_##SUF(P p, P* after) { IT it(vp_mk<IT>::of(p)); IT& r = ++it; *after = vp_base(it); return vp_base(r); } \
  C P vp_postinc_##SUF(P p, P* after) { IT it(vp_mk<IT>::of(p)); IT r(it++); *after = vp_base(it); return vp_base(r); } \
  C P vp_predec_##SUF(P p, P* after) { IT it(vp_mk<IT>::of(p)); IT& r = --it; *after = vp_base(it); return vp_base(r); } \
  C P vp_postdec_##SUF(P p, P* after) { IT it(vp_mk<IT>::of(p)); IT r(it--); *after = vp_base(it); return vp_base(r); } \
  C bool vp_eq_##SUF(P p, P q, P* pa, P* qa) { IT a(vp_mk<IT>::of(p)), b(vp_mk<IT>::of(q)); bool r = a == b; *pa = vp_base(a); *qa = vp_base(b); return r; } \
  C bool vp_ne_##SUF(P p, P q, P* pa, P* qa) { IT a(vp_mk<IT>::of(p)), b(vp_mk<IT>::of(q)); bool r = a != b; *pa = vp_base(a); *qa = vp_base(b); return r; } \
  C P vp_copy_##SUF(P p) { IT a(vp_mk<IT>::of(p)); IT b(a); return vp_base(b); }           \
  C P vp_assign_##SUF(P p, P q) { IT a(vp_mk<IT>::of(p)), b(vp_mk<IT>::of(q)); a = b; return vp_base(a); }
typedef utf8_const_iterator<std::string::const_iterator> CIs;
typedef utf8_const_iterator<const char*> CIp;
typedef utf8_const_iterator<const unsigned char*> CIu;
typedef utf8_const_iterator<const signed char*> CIg;
typedef utf8_iterator<std::string::iterator> MIs;
typedef utf8_iterator<char*> MIp;
typedef utf8_iterator<unsigned char*> MIu;
ITER(CIs, CIs, const char*)
ITER(CIp, CIp, const char*)
ITER(CIu, CIu, const unsigned char*)
ITER(CIg, CIg, const signed char*)
ITER(MIs, MIs, char*)
ITER(MIp, MIp, char*)
ITER(MIu, MIu, unsigned char*)
#define WRITE(SUF, IT, P)                                                             \
  C void vp_write_##SUF(P p, int c, P* after) { IT it(vp_mk<IT>::of(p)); *it = codepoint(c); *after = vp_base(it); } \
  C P vp_writeinc_##SUF(P p, int c) { IT it(vp_mk<IT>::of(p)); *it = codepoint(c); ++it; return vp_base(it); } \
  C int vp_writeread_##SUF(P p, int c) { IT it(vp_mk<IT>::of(p)); *it = codepoint(c); codepoint r = *it; return r.value; }
WRITE(MIs, MIs, char*)
WRITE(MIp, MIp, char*)
WRITE(MIu, MIu, unsigned char*)
