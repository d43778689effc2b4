#include "common.hpp"
#include <u5e/utf8_bounds.hpp>
using namespace u5e;
C bool vp_check_p(const char* b, const char* e) { return utf8_bounds<const char*>::check(b, e); }
C bool vp_check_u(const unsigned char* b, const unsigned char* e) { return utf8_bounds<const unsigned char*>::check(b, e); }
C bool vp_check_s(const char* b, const char* e) { typedef std::string::const_iterator I;
  return utf8_bounds<I>::check(I(b), I(e)); }
C bool vp_enforce_p(char* b, char* e) { return utf8_bounds<char*>::enforce(b, e); }
C bool vp_enforce_u(unsigned char* b, unsigned char* e) { return utf8_bounds<unsigned char*>::enforce(b, e); }
C bool vp_enforce_s(char* b, char* e) { typedef std::string::iterator I;
  return utf8_bounds<I>::enforce(I(b), I(e)); }
typedef utf8_const_iterator<const char*> CIp;
C int vp_rderef(const char* p, const char** after) { CIp it(p); codepoint c = *it; *after = it.raw_iterator_; return c.value; }
C const char* vp_rinc(const char* p) { CIp it(p); ++it; return it.raw_iterator_; }
C const char* vp_rdec(const char* p) { CIp it(p); --it; return it.raw_iterator_; }
