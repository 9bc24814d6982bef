// forced into a driver (-include): the library's headers as a compiler for C++98 sees them
#define OLD_CXX 1
#include <limits.h>
#include <stddef.h>
#include <new>
#include <type_traits>
#pragma push_macro("__cplusplus")
#undef __cplusplus
#define __cplusplus 199711L
#include "ttl/types.hpp"
#include "ttl/type_traits.hpp"
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/numeric.hpp"
#include "ttl/array.hpp"
#include "ttl/fixed_vector.hpp"
#include "ttl/vector.hpp"
#include "ttl/list.hpp"
#include "ttl/forward_list.hpp"
#include "ttl/backward_list.hpp"
#include "ttl/lazy_queue.hpp"
#include "ttl/rbtree.hpp"
#include "ttl/map.hpp"
#include "ttl/set.hpp"
#include "ttl/sorted_vector_map.hpp"
#include "ttl/vector_map.hpp"
#include "ttl/bitset.hpp"
#pragma pop_macro("__cplusplus")
