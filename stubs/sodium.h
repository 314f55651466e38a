// Declarations only: used to parse /repo's sources.
#pragma once
#include <stddef.h>
extern "C" { int sodium_init(); void randombytes_buf(void* const buf, const size_t size); }
