// Test driver over the real library, for finding and replaying failing inputs.
// One case per line on stdin, one answer line per case on stdout.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <memory>
#include "../inst/common.hpp"
#include <u5e/utf8_bounds.hpp>
#include <u5e/basic_grapheme.hpp>
#include <u5e/basic_grapheme_iterator.hpp>
#include <u5e/filter.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/canonical_combining_order.hpp>
#include <u5e/canonical_composition.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/props/grapheme_cluster_break.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_decomposition_mapping.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
#include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>
using namespace u5e;
typedef std::vector<int> Cps;
typedef std::string Str;

static Str unhex(const Str& h) {
  Str r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)strtol(h.substr(i, 2).c_str(), 0, 16));
  return r;
}
static Str hex(const char* p, size_t n) {
  if (!n) return "-";
  Str r; char b[4];
  for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", (unsigned char)p[i]); r += b; }
  return r;
}
static Cps cps(const Str& s) {   // a,b,c or -
  Cps r;
  if (s == "-") return r;
  std::istringstream is(s); Str t;
  while (std::getline(is, t, ',')) r.push_back((int)strtoll(t.c_str(), 0, 10));
  return r;
}
template <typename It> static Str show(It b, It e) {
  Str r;
  for (; b != e; ++b) { if (!r.empty()) r += ","; r += std::to_string((int)*b); }
  return r.empty() ? "-" : r;
}
static Str enc(const Cps& v, std::vector<size_t>* off = 0) {
  Str r;
  for (int c : v) {
    if (off) off->push_back(r.size());
    if (c < 0x80) r.push_back((char)c);
    else if (c < 0x800) { r.push_back((char)(0xC0 | c >> 6)); r.push_back((char)(0x80 | (c & 63))); }
    else if (c < 0x10000) { r.push_back((char)(0xE0 | c >> 12)); r.push_back((char)(0x80 | (c >> 6 & 63))); r.push_back((char)(0x80 | (c & 63))); }
    else { r.push_back((char)(0xF0 | c >> 18)); r.push_back((char)(0x80 | (c >> 12 & 63))); r.push_back((char)(0x80 | (c >> 6 & 63))); r.push_back((char)(0x80 | (c & 63))); }
  }
  if (off) off->push_back(r.size());
  return r;
}
// exact-size heap copies
template <typename T> struct Buf {
  T* p; size_t n;
  template <typename S> Buf(const S& s) : p((T*)malloc(s.size() * sizeof(T) + (s.size() ? 0 : 1))), n(s.size()) {
    for (size_t i = 0; i < n; i++) p[i] = (T)s[i];
    if (!n) { free(p); p = (T*)malloc(1) ; zero = true; }
  }
  bool zero = false;
  ~Buf() { free(p); }
  T* end() { return p + n; }
};

template <typename IT, typename P> static Str iter(const Str& op, P base, P p, P q) {
  IT it(vp_mk<IT>::of(p));
  std::ostringstream o;
  if (op == "deref") { codepoint c = *it; o << c.value << " " << vp_base(it) - base; }
  else if (op == "preinc") { IT& r = ++it; o << vp_base(r) - base << " " << vp_base(it) - base; }
  else if (op == "postinc") { IT r(it++); o << vp_base(r) - base << " " << vp_base(it) - base; }
  else if (op == "predec") { IT& r = --it; o << vp_base(r) - base << " " << vp_base(it) - base; }
  else if (op == "postdec") { IT r(it--); o << vp_base(r) - base << " " << vp_base(it) - base; }
  else if (op == "eq" || op == "ne") {
    IT b(vp_mk<IT>::of(q));
    bool r = op == "eq" ? it == b : it != b;
    o << r << " " << vp_base(it) - base << " " << vp_base(b) - base;
  } else if (op == "copy") { IT b(it); IT c(vp_mk<IT>::of(q)); c = it; o << vp_base(b) - base << " " << vp_base(c) - base; }
  return o.str();
}
template <typename RI, typename IT, typename P> static Str riter(const Str& op, P base, P p, P q) {
  RI it(vp_mk<IT>::of(p));
  std::ostringstream o;
  auto at = [&](const RI& r) { return (long)(vp_base(r.base()) - base); };
  if (op == "deref") { codepoint c = *it; o << c.value << " " << at(it); }
  else if (op == "preinc") { RI& r = ++it; o << at(r) << " " << at(it); }
  else if (op == "postinc") { RI r(it++); o << at(r) << " " << at(it); }
  else if (op == "predec") { RI& r = --it; o << at(r) << " " << at(it); }
  else if (op == "postdec") { RI r(it--); o << at(r) << " " << at(it); }
  else if (op == "eq" || op == "ne") { RI b(vp_mk<IT>::of(q)); bool r = op == "eq" ? it == b : it != b; o << r << " " << at(it) << " " << at(b); }
  else if (op == "copy") { RI b(it); RI c(vp_mk<IT>::of(q)); c = it; o << at(b) << " " << at(c); }
  return o.str();
}
template <typename IT, typename P> static Str wr(P base, P p, int c, size_t n) {
  std::ostringstream o;
  { IT it(vp_mk<IT>::of(p)); *it = codepoint(c); o << vp_base(it) - base; }
  o << " " << hex((const char*)base, n);
  { IT it(vp_mk<IT>::of(p)); *it = codepoint(c); ++it; o << " " << vp_base(it) - base; }
  { IT it(vp_mk<IT>::of(p)); *it = codepoint(c); codepoint r = *it; o << " " << r.value; }
  return o.str();
}

// the four storage types
template <typename ES> struct Src;
template <> struct Src<U8S> {
  std::vector<size_t> off; U8S s; const char* b;
  Src(const Cps& v) : s(enc(v, &off)) { b = vp_base(s.native_cbegin()); }
};
template <> struct Src<U8V> {
  std::vector<size_t> off; Buf<char> buf; U8V s; const char* b;
  Src(const Cps& v) : buf(enc(v, &off)), s(sv8(buf.p, buf.n)), b(buf.p) {}
};
static std::vector<size_t> idx(const Cps& v) { std::vector<size_t> r; for (size_t i = 0; i <= v.size(); i++) r.push_back(i); return r; }
template <> struct Src<U32S> {
  std::vector<size_t> off; U32S s; const int* b;
  Src(const Cps& v) : off(idx(v)), s(s32(v.begin(), v.end())) { b = vp_base(s.native_cbegin()); }
};
template <> struct Src<U32V> {
  std::vector<size_t> off; Buf<int> buf; U32V s; const int* b;
  Src(const Cps& v) : off(idx(v)), buf(v), s(sv32(buf.p, buf.n)), b(buf.p) {}
};
template <typename ES> static typename ES::const_iterator mk(Src<ES>& x, size_t pos) {
  return vp_mk<typename ES::const_iterator>::of(x.b + pos);
}
template <typename ES> static Str graph(const Str& op, std::istringstream& is) {
  Str t; is >> t; Cps v = cps(t);
  Src<ES> x(v);
  typedef basic_grapheme_iterator<ES> G;
  std::ostringstream o;
  auto pos = [&](typename ES::const_iterator it) { return (long)(vp_base(it) - x.b); };
  if (op == "seg" || op == "segp") {
    G b(x.s.grapheme_begin()), e(x.s.grapheme_end());
    size_t k = 0;
    while (!(b == e) && k++ < v.size() + 3) {
      o << pos((*b).codepoint_begin()) << "-" << pos((*b).codepoint_end());
      if (op == "seg") { G r(++b); o << "/" << pos((*r).codepoint_begin()) << "-" << pos((*r).codepoint_end()); }
      else { G r(b++); o << "/" << pos((*r).codepoint_begin()) << "-" << pos((*r).codepoint_end()); }
      o << " ";
    }
    o << "end " << pos((*e).codepoint_begin()) << "-" << pos((*e).codepoint_end());
    return o.str();
  }
  if (op == "at") {
    size_t i; is >> i;
    G g(mk(x, 0), mk(x, x.off.back()), mk(x, x.off[i]));
    o << pos((*g).codepoint_begin()) << "-" << pos((*g).codepoint_end());
    G c(g); o << " " << pos((*c).codepoint_begin()) << "-" << pos((*c).codepoint_end());
    return o.str();
  }
  if (op == "at4") {
    size_t i, j; is >> i >> j;
    G g(mk(x, 0), mk(x, x.off.back()), mk(x, x.off[i]), mk(x, x.off[j]));
    o << pos((*g).codepoint_begin()) << "-" << pos((*g).codepoint_end());
    return o.str();
  }
  if (op == "geq") {
    size_t i, j; is >> i >> j;
    G g(mk(x, 0), mk(x, x.off.back()), mk(x, x.off[i])), h(mk(x, 0), mk(x, x.off.back()), mk(x, x.off[j]));
    G g2(g), h2(h);
    bool a = g == mk(x, x.off[j]); bool b = g != mk(x, x.off[j]); bool c = g == h; bool d = g != h; bool e = h == g;
    o << a << b << c << d << e;
    bool same = vp_base((*g).codepoint_begin()) == vp_base((*g2).codepoint_begin()) && vp_base((*g).codepoint_end()) == vp_base((*g2).codepoint_end()) &&
      vp_base((*h).codepoint_begin()) == vp_base((*h2).codepoint_begin()) && vp_base((*h).codepoint_end()) == vp_base((*h2).codepoint_end());
    o << same;
    return o.str();
  }
  return "?";
}
template <typename ES> static Str content8(ES& s) { return hex(s.native_string.data(), s.native_string.size()); }
static Str content(U8S& s) { return hex(s.native_string.data(), s.native_string.size()); }
static Str content(U32S& s) { return show(s.native_string.begin(), s.native_string.end()); }
static U8S out8(const Cps& v) { return U8S(enc(v)); }
static U32S out32(const Cps& v) { return U32S(s32(v.begin(), v.end())); }
template <typename O> struct Out;
template <> struct Out<U8S> { static U8S of(const Cps& v) { return out8(v); } };
template <> struct Out<U32S> { static U32S of(const Cps& v) { return out32(v); } };

template <typename ES, typename O> static Str nf(std::istringstream& is) {
  Str form, pt, vt; is >> form >> pt >> vt;
  Cps v = cps(vt);
  Src<ES> x(v);
  O out(Out<O>::of(cps(pt)));
  basic_grapheme<ES> g(mk(x, 0), mk(x, x.off.back()));
  int n = form == "d" ? normalization_form_d<ES, O>(g, out) : form == "c" ? normalization_form_c<ES, O>(g, out) :
    form == "kd" ? normalization_form_kd<ES, O>(g, out) : normalization_form_kc<ES, O>(g, out);
  return std::to_string(n) + " " + content(out);
}
// the whole text normalized, grapheme by grapheme, and normalized again
template <typename ES> static U32S form(const Str& f, basic_grapheme<ES> g) {
  U32S o;
  if (f == "d") normalization_form_d<ES, U32S>(g, o); else if (f == "c") normalization_form_c<ES, U32S>(g, o);
  else if (f == "kd") normalization_form_kd<ES, U32S>(g, o); else normalization_form_kc<ES, U32S>(g, o);
  return o;
}
template <typename ES> static Str nfs(const Str& op, std::istringstream& is) {
  Str f, vt; is >> f >> vt;
  Src<ES> x(cps(vt));
  U32S w = form<ES>(f, basic_grapheme<ES>(mk(x, 0), mk(x, x.off.back())));
  U32S o;
  if (op == "nftwice") o = form<U32S>(f, basic_grapheme<U32S>(w.codepoint_cbegin(), w.codepoint_cend()));
  else for (auto i = x.s.grapheme_begin(); i != x.s.grapheme_end(); ++i) o.native_string += form<ES>(f, *i).native_string;
  return o.native_string == w.native_string ? "same" : content(w) + " / " + content(o);
}
static std::ostringstream flog;
static std::vector<int> frets; static size_t fk; static const void* fout;
template <typename O> static int fop(codepoint c, O& o) { flog << c.value << (((const void*)&o) == fout ? " " : "! "); return frets[fk++ % frets.size()]; }
template <typename ES> struct GOp { static const typename std::remove_reference<decltype(*vp_base(std::declval<typename ES::const_iterator>()))>::type* b;
  template <typename O> static int op(basic_grapheme<ES> g, O& o) {
    flog << vp_base(g.codepoint_begin()) - b << "-" << vp_base(g.codepoint_end()) - b << (((const void*)&o) == fout ? " " : "! "); return frets[fk++ % frets.size()]; } };
template <typename ES> const typename std::remove_reference<decltype(*vp_base(std::declval<typename ES::const_iterator>()))>::type* GOp<ES>::b;
template <typename ES> static Str filt(const Str& op, std::istringstream& is) {
  Str t, r; is >> t >> r;
  Src<ES> x(cps(t)); frets = cps(r); fk = 0; flog.str("");
  U32S out; fout = &out; int n;
  if (op == "filter") n = u5e::filter(mk(x, 0), mk(x, x.off.back()), out, fop<U32S>);
  else { GOp<ES>::b = x.b; n = u5e::filter(x.s.grapheme_begin(), x.s.grapheme_end(), out, GOp<ES>::template op<U32S>); }
  return std::to_string(n) + " " + flog.str() + content(out);
}
template <typename ES, typename O> static Str app(const Str& op, std::istringstream& is) {
  Str pt, vt; size_t i, k, j, l; is >> pt >> vt >> i >> k >> j >> l;
  Src<ES> x(cps(vt));
  O out(Out<O>::of(cps(pt)));
  O* r;
  if (op == "app") r = &out.template append<decltype(x.s.native_string)>(mk(x, x.off[i] + k), mk(x, x.off[j] + l));
  else {
    basic_grapheme_iterator<ES> a(mk(x, 0), mk(x, x.off.back()), mk(x, x.off[i])), b(mk(x, 0), mk(x, x.off.back()), mk(x, x.off[j]));
    r = &out.template append<decltype(x.s.native_string)>(a, b);
  }
  return content(out) + (r == &out ? "" : " not-this");
}
template <typename O> static Str appown(const Str& op, std::istringstream& is) {
  Str vt; size_t i, k, j, l; is >> vt >> i >> k >> j >> l;
  Src<O> x(cps(vt));
  O* r;
  if (op == "appo") r = &x.s.template append<decltype(x.s.native_string)>(mk(x, x.off[i] + k), mk(x, x.off[j] + l));
  else if (op == "appos") r = &x.s.append(mk(x, x.off[i] + k), mk(x, x.off[j] + l));
  else {
    basic_grapheme_iterator<O> a(mk(x, 0), mk(x, x.off.back()), mk(x, x.off[i])), b(mk(x, 0), mk(x, x.off.back()), mk(x, x.off[j]));
    r = op == "appog" ? &x.s.template append<decltype(x.s.native_string)>(a, b) : &x.s.append(a, b);
  }
  return content(x.s) + (r == &x.s ? "" : " not-this");
}
template <typename O> static Str appsame(const Str& op, std::istringstream& is) {
  Str pt, vt; size_t i, k, j, l; is >> pt >> vt >> i >> k >> j >> l;
  Src<O> x(cps(vt));
  O out(Out<O>::of(cps(pt)));
  O* r;
  if (op == "apps") r = &out.append(mk(x, x.off[i] + k), mk(x, x.off[j] + l));
  else {
    basic_grapheme_iterator<O> a(mk(x, 0), mk(x, x.off.back()), mk(x, x.off[i])), b(mk(x, 0), mk(x, x.off.back()), mk(x, x.off[j]));
    r = &out.append(a, b);
  }
  return content(out) + (r == &out ? "" : " not-this");
}
template <typename S, typename O> static Str afu(std::istringstream& is) {
  Str pt, vt; is >> pt >> vt;
  Src<S> x(cps(vt));
  O out(Out<O>::of(cps(pt)));
  O& r = out.template append_from_utf32ne<decltype(x.s.native_string)>(mk(x, 0), mk(x, x.off.back()));
  return content(out) + (&r == &out ? "" : " not-this");
}
template <typename N> static Str nshow(const N& n) { return show(n.begin(), n.end()); }
static std::string raw(const Src<U8S>&, const Cps& v) { std::vector<size_t> off; return enc(v, &off); }
static sv8 raw(const Src<U8V>& x, const Cps&) { return sv8(x.buf.p, x.buf.n); }
static s32 raw(const Src<U32S>&, const Cps& v) { return s32(v.begin(), v.end()); }
static sv32 raw(const Src<U32V>& x, const Cps&) { return sv32(x.buf.p, x.buf.n); }
template <typename ES> static Str wrap(std::istringstream& is) {
  Str t, t2; is >> t >> t2;
  Src<ES> x(cps(t)), y(cps(t2));
  auto n0 = raw(x, cps(t));
  std::ostringstream o;
  if (!(n0 == x.s.native_string)) o << "constructed-with-another-content ";
  ES e; o << e.native_string.size() << " ";
  ES c(x.s); o << (c.native_string == n0) << (x.s.native_string == n0) << " ";
  ES f(n0); o << (f.native_string == n0) << " ";
  auto bb = vp_base(y.s.native_cbegin()); (void)bb;
  y.s = x.s; o << (y.s.native_string == n0) << (x.s.native_string == n0);
  ES* self = &(y.s = y.s); o << (self == &y.s) << (y.s.native_string == n0) << " ";
  auto b = vp_base(x.s.native_cbegin()); auto n = n0.size();
  o << (vp_base(x.s.native_begin()) == b) << (vp_base(x.s.native_end()) == b + n) << (vp_base(x.s.native_cend()) == b + n)
    << (vp_base(x.s.codepoint_begin()) == b) << (vp_base(x.s.codepoint_end()) == b + n)
    << (vp_base(x.s.codepoint_cbegin()) == b) << (vp_base(x.s.codepoint_cend()) == b + n);
  if (n) { auto g = x.s.grapheme_begin(); o << (vp_base((*g).codepoint_begin()) == b); }
  else o << 1;
  auto g = x.s.grapheme_end(); o << (vp_base((*g).codepoint_begin()) == b + n) << (vp_base((*g).codepoint_end()) == b + n);
  o << " " << (x.s.native_string == n0);
  return o.str();
}
#define BY4(S, F, ...) (S == "u8s" ? F<U8S> __VA_ARGS__ : S == "u8v" ? F<U8V> __VA_ARGS__ : S == "u32s" ? F<U32S> __VA_ARGS__ : F<U32V> __VA_ARGS__)
#define BY42(S, T, F, ...) (T == "u8s" ? (S == "u8s" ? F<U8S, U8S> __VA_ARGS__ : S == "u8v" ? F<U8V, U8S> __VA_ARGS__ : S == "u32s" ? F<U32S, U8S> __VA_ARGS__ : F<U32V, U8S> __VA_ARGS__) : \
  (S == "u8s" ? F<U8S, U32S> __VA_ARGS__ : S == "u8v" ? F<U8V, U32S> __VA_ARGS__ : S == "u32s" ? F<U32S, U32S> __VA_ARGS__ : F<U32V, U32S> __VA_ARGS__))

typedef utf8_const_iterator<std::string::const_iterator> CIs;
typedef utf8_const_iterator<const char*> CIp;
typedef utf8_const_iterator<const unsigned char*> CIu;
typedef utf8_const_iterator<const signed char*> CIg;
typedef utf8_iterator<std::string::iterator> MIs;
typedef utf8_iterator<char*> MIp;
typedef utf8_iterator<unsigned char*> MIu;

template <typename ES> static Str rgraph(std::istringstream& is) {
  Str o, m, t; size_t i, k, j, l; is >> o >> m >> t >> i >> k >> j >> l;
  Src<ES> x(cps(t));
  typedef typename ES::iterator MI; typedef typename ES::const_iterator CI;
  auto b = x.b; auto p = b + x.off[i] + k; auto q = b + x.off[j] + l;
  if (m == "c") return riter<typename ES::const_reverse_iterator, CI>(o, b, p, q);
  typedef decltype(vp_base(std::declval<MI>())) MP;
  return riter<typename ES::reverse_iterator, MI>(o, (MP)b, (MP)p, (MP)q);
}
static Str cpo(int v, int w) {
  std::ostringstream o;
  codepoint d; codepoint e{}; codepoint a(v), b = w; codepoint c(a); int t = a;
  o << d.value << " " << e.value << " " << a.value << " " << b.value << " " << c.value << " " << t << " ";
  o << (a == b) << (a == w) << (v == b) << (a != b) << (a != w) << (a < b) << (a < w) << " " << a.value << " " << b.value << " ";
  codepoint* r = &(b = a); o << (r == &b) << " " << b.value << " " << a.value << " ";
  codepoint f(w); r = &(f = v); o << (r == &f) << " " << f.value << " "; a = a; o << a.value;
  return o.str();
}
static Str octc(int c) {
  std::ostringstream o;
  o << utf8_util::is_7bit_character((char)c) << utf8_util::is_codepoint_continuation((char)c) << utf8_util::is_codepoint_start((char)c) << " " << utf8_util::codepoint_size((char)c);
  return o.str();
}
static Str mapping(int const* m) {
  if (!m) return "none";
  Str r;
  for (int k = 0; *m; m++, k++) { if (k) r += ","; r += std::to_string(*m); if (k > 40) { r += "..."; break; } }
  return r.empty() ? "-" : r;
}
static const char* gcbname(int v) {
  typedef props::grapheme_cluster_break G;
#define V(x) if (v == G::x) return #x;
  V(OTHER) V(CR) V(LF) V(CONTROL) V(EXTEND) V(ZWJ) V(REGIONAL_INDICATOR) V(PREPEND) V(SPACINGMARK) V(L) V(V) V(T) V(LV) V(LVT)
  V(E_BASE) V(E_MODIFIER) V(GLUE_AFTER_ZWJ) V(E_BASE_GAZ)
#undef V
  return "?";
}

static Str run(const Str& line) {
  std::istringstream is(line);
  Str op; is >> op;
  if (op == "it" || op == "ifok") {
    Str o, k, h; long p, q = 0; is >> o >> k >> h >> p >> q;
    Str s = unhex(h);
    if (op == "ifok") { Buf<char> b(s); if (!utf8_bounds<const char*>::check(b.p, b.p + s.size())) return "rejected"; }
    if (k == "CIs") return iter<CIs>(o, (const char*)s.data(), (const char*)s.data() + p, (const char*)s.data() + q);
    if (k == "MIs") return iter<MIs>(o, &s[0], &s[0] + p, &s[0] + q);
    if (k == "CIu") { Buf<unsigned char> b(s); return iter<CIu>(o, (const unsigned char*)b.p, (const unsigned char*)b.p + p, (const unsigned char*)b.p + q); }
    if (k == "MIu") { Buf<unsigned char> b(s); return iter<MIu>(o, b.p, b.p + p, b.p + q); }
    if (k == "CIg") { Buf<signed char> b(s); return iter<CIg>(o, (const signed char*)b.p, (const signed char*)b.p + p, (const signed char*)b.p + q); }
    if (k == "MIp") { Buf<char> b(s); return iter<MIp>(o, b.p, b.p + p, b.p + q); }
    Buf<char> b(s); return iter<CIp>(o, (const char*)b.p, (const char*)b.p + p, (const char*)b.p + q);
  }
  if (op == "rit") { Str s; is >> s; return BY4(s, rgraph, (is)); }
  if (op == "cpo") { long v, w; is >> v >> w; return cpo((int)v, (int)w); }
  if (op == "oct") { int c; is >> c; return octc(c); }
  if (op == "esz") { int c; is >> c; return std::to_string(utf8_util::encoded_size(c)); }
  if (op == "wr") {
    Str k, h; long p; int c; is >> k >> h >> p >> c;
    Str s = unhex(h);
    if (k == "MIs") return wr<MIs>(&s[0], &s[0] + p, c, s.size());
    if (k == "MIu") { Buf<unsigned char> b(s); return wr<MIu>(b.p, b.p + p, c, b.n); }
    Buf<char> b(s); return wr<MIp>(b.p, b.p + p, c, b.n);
  }
  if (op == "chk" || op == "enf") {
    Str k, h; is >> k >> h;
    Str s = unhex(h); bool r;
    if (k == "s") {
      if (op == "chk") r = utf8_bounds<std::string::const_iterator>::check(s.cbegin(), s.cend());
      else r = utf8_bounds<std::string::iterator>::enforce(s.begin(), s.end());
      return std::to_string(r) + " " + hex(s.data(), s.size());
    }
    if (k == "u") { Buf<unsigned char> b(s);
      r = op == "chk" ? utf8_bounds<unsigned char*>::check(b.p, b.end()) : utf8_bounds<unsigned char*>::enforce(b.p, b.end());
      return std::to_string(r) + " " + hex((char*)b.p, b.n); }
    Buf<char> b(s);
    r = op == "chk" ? utf8_bounds<char*>::check(b.p, b.end()) : utf8_bounds<char*>::enforce(b.p, b.end());
    return std::to_string(r) + " " + hex(b.p, b.n);
  }
  if (op == "gcb") { long c; is >> c; return gcbname(props::grapheme_cluster_break::resolve((int)c)); }
  if (op == "ccc") { long c; is >> c; return std::to_string(props::canonical_combining_class::resolve((int)c)); }
  if (op == "cdm") { long c; is >> c; return mapping(props::canonical_decomposition_mapping::resolve((int)c)); }
  if (op == "kdm") { long c; is >> c; return mapping(props::compatibility_and_canonical_decomposition_mapping::resolve((int)c)); }
  if (op == "comp") { long a, b; is >> a >> b; int r = -12345; bool ok = props::canonical_composition_mapping::resolve((int)a, (int)b, &r);
    return ok ? std::to_string(r) : r == -12345 ? "none" : "none-but-stored"; }
  if (op == "ord") { long a, b; is >> a >> b; return std::to_string(canonical_combining_order((int)a, (int)b)); }
  if (op == "seg" || op == "segp" || op == "at" || op == "at4" || op == "geq") { Str s; is >> s; return BY4(s, graph, (op, is)); }
  if (op == "cd" || op == "kd") {
    Str p; long c; is >> p >> c; U32S out(out32(cps(p)));
    int n = op == "cd" ? canonical_decomposition<U32S>((int)c, out) : compatibility_and_canonical_decomposition<U32S>((int)c, out);
    return std::to_string(n) + " " + content(out);
  }
  if (op == "cord") { Str t; is >> t; U32S s(out32(cps(t))); canonical_ordering(s.codepoint_begin(), s.codepoint_end()); return content(s); }
  if (op == "ccmp") { Str t; int n; is >> t >> n; U32S s(out32(cps(t))); auto e = canonical_composition(s, &n);
    return std::to_string(n) + " " + show(s.codepoint_begin(), e) + " " + std::to_string(s.native_string.size()); }
  if (op == "nf") { Str s, o; is >> s >> o; return BY42(s, o, nf, (is)); }
  if (op == "nftwice" || op == "nfparts") { Str s; is >> s; return BY4(s, nfs, (op, is)); }
  if (op == "filter" || op == "gfilter") { Str s; is >> s; return BY4(s, filt, (op, is)); }
  if (op == "afu") { Str s, o; is >> s >> o;
    if (s == "u32s") return o == "u8s" ? afu<U32S, U8S>(is) : afu<U32S, U32S>(is);
    return o == "u8s" ? afu<U32V, U8S>(is) : afu<U32V, U32S>(is); }
  if (op == "app" || op == "appg") { Str s; is >> s;
    return s == "u8s" ? app<U8S, U8S>(op, is) : s == "u8v" ? app<U8V, U8S>(op, is) : s == "u32s" ? app<U32S, U32S>(op, is) : app<U32V, U32S>(op, is); }
  if (op == "apps" || op == "appgs") { Str s; is >> s; return s == "u8s" ? appsame<U8S>(op, is) : appsame<U32S>(op, is); }
  if (op.substr(0, 4) == "appo") { Str s; is >> s; return s == "u8s" ? appown<U8S>(op, is) : appown<U32S>(op, is); }
  if (op == "wrap") { Str s; is >> s; return BY4(s, wrap, (is)); }
  if (op == "dump") {
    Str r;
    for (int c = 0; c < 0x110000; c++) {
      int k = props::canonical_combining_class::resolve(c);
      int const* m = props::canonical_decomposition_mapping::resolve(c);
      int const* n = props::compatibility_and_canonical_decomposition_mapping::resolve(c);
      int g = props::grapheme_cluster_break::resolve(c);
      if (k || m || n || g != props::grapheme_cluster_break::OTHER)
        r += std::to_string(c) + ":" + std::to_string(k) + ":" + mapping(m) + ":" + mapping(n) + ":" + gcbname(g) + ";";
    }
    return r;
  }
  return "?";
}
int main() {
  Str line;
  while (std::getline(std::cin, line)) {
    Str r = run(line);
    fputs(r.c_str(), stdout); fputc('\n', stdout); fflush(stdout);
  }
}
