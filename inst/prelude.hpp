// Included before every translation unit.  The libstdc++ bodies of
// std::find_if and its relatives (find, find_if_not, all_of, any_of,
// none_of) on random access iterators are a loop unrolled by four; these
// overloads, more specialised in the predicate, are the loop libstdc++ has
// for input iterators.
#include <bits/stl_iterator_base_types.h>
#include <bits/predefined_ops.h>
namespace std {
#define VP_FIND(PRED)                                                     \
  template <typename It, typename P>                                      \
  inline It __find_if(It first, It last,                                  \
                      __gnu_cxx::__ops::PRED<P> pred,                     \
                      random_access_iterator_tag) {                       \
    while (first != last && !pred(first))                                 \
      ++first;                                                            \
    return first;                                                         \
  }
VP_FIND(_Iter_pred)
VP_FIND(_Iter_negate)
VP_FIND(_Iter_equals_val)
#undef VP_FIND
}
