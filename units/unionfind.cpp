#include "higra/graph.hpp"
#include "higra/structure/unionfind.hpp"
template struct hg::union_find_internal::union_find<hg::index_t>;
