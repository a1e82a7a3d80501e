#ifndef VERIF_CAMP_LIST_HPP
#define VERIF_CAMP_LIST_HPP
#include "camp/camp.hpp"
namespace camp {
template <typename... Ts>
struct list {
  using type = list;
};
} // namespace camp
#endif
