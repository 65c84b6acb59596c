// optional data, packs in packs (see nets_b.cpp)
#define PART 2
#include "nets_b.cpp"
