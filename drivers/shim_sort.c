#include <stdint.h>
#include "sort.h"
void (*const sort_api)(uint64_t *, uint32_t) = sort;
