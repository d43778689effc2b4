#include "common.hpp"
#include <u5e/props/grapheme_cluster_break.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_decomposition_mapping.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
#include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>
#include <u5e/canonical_combining_order.hpp>
using namespace u5e;
C int vp_gcb(int c) { return props::grapheme_cluster_break::resolve(c); }
C int vp_ccc(int c) { return props::canonical_combining_class::resolve(c); }
C int const* vp_cdm(int c) { return props::canonical_decomposition_mapping::resolve(c); }
C int const* vp_kdm(int c) { return props::compatibility_and_canonical_decomposition_mapping::resolve(c); }
C bool vp_comp(int a, int b, int* r) { return props::canonical_composition_mapping::resolve(a, b, r); }
C bool vp_order(int a, int b) { return canonical_combining_order(a, b); }
#include "gcbval.hpp"
