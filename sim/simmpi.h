#pragma once
#include "mpi.h"
#include <functional>
int mpi_provided(int pe); bool mpi_is_init(int pe); bool mpi_is_final(int pe); int mpi_node(int pe);
extern std::function<bool(int, uintptr_t)> rma_exempt;
void huge_zero(void *d, size_t n); void huge_copy(void *d, const void *s, size_t n);
