// '#pragma clang fp' has to open its block; an edit that puts a statement in front of it still builds with gcc, so it must not stop the analysis
#pragma once
#include <muu/preprocessor.h>
#undef MUU_FMA_BLOCK
#define MUU_FMA_BLOCK static_assert(true)
