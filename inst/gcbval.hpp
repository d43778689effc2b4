// enumerators in the order of the specification (engine/ucd.py)
#include <u5e/props/grapheme_cluster_break.hpp>
C int vp_gcbval(int i) {
  typedef u5e::props::grapheme_cluster_break G;
  switch (i) {
#define V(n, x) case n: return G::x;
  V(0, OTHER) V(1, CR) V(2, LF) V(3, CONTROL) V(4, EXTEND) V(5, ZWJ) V(6, REGIONAL_INDICATOR) V(7, PREPEND)
  V(8, SPACINGMARK) V(9, L) V(10, V) V(11, T) V(12, LV) V(13, LVT) V(14, E_BASE) V(15, E_MODIFIER)
  V(16, GLUE_AFTER_ZWJ) V(17, E_BASE_GAZ)
#undef V
  }
  return -1;
}
