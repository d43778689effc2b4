#include "common.hpp"
using namespace u5e;
C int vp_cdefault() { codepoint c; return c.value; }
C int vp_cvalueinit() { codepoint c{}; return c.value; }
C int vp_cfrom(int v) { codepoint c(v); return c.value; }
C int vp_cimplicit(int v) { codepoint c = v; return c.value; }
C int vp_cto(int v) { codepoint c; c.value = v; int r = c; return r; }
C int vp_ccopy(int v, int* src) { codepoint a(v); codepoint b(a); *src = a.value; return b.value; }
C bool vp_cassignself(int v, int w, int* src, int* dst) { codepoint a(v), b(w); codepoint& r = (b = a); *src = a.value; *dst = b.value; return &r == &b; }
C bool vp_cassignint(int v, int w, int* dst) { codepoint b(w); codepoint& r = (b = v); *dst = b.value; return &r == &b; }
C bool vp_ceq(int v, int w, int* a2, int* b2) { codepoint a(v), b(w); bool r = a == b; *a2 = a.value; *b2 = b.value; return r; }
C bool vp_ceqint(int v, int w, int* a2) { codepoint a(v); bool r = a == w; *a2 = a.value; return r; }
C bool vp_cinteq(int v, int w, int* b2) { codepoint b(w); bool r = v == b; *b2 = b.value; return r; }
C bool vp_cne(int v, int w) { codepoint a(v), b(w); return a != b; }
C bool vp_cneint(int v, int w) { codepoint a(v); return a != w; }
C bool vp_cless(int v, int w) { codepoint a(v), b(w); return a < b; }
C bool vp_clessint(int v, int w) { codepoint a(v); return a < w; }
C int vp_cself(int v) { codepoint a(v); a = a; return a.value; }
C int vp_csize() { return sizeof(codepoint); }
