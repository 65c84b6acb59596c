#pragma once
#ifndef MAX_PATH
#define MAX_PATH 260
#endif
#include "mat.h"
#include <unistd.h>
namespace std { namespace experimental { namespace filesystem { inline bool exists(const char* f) { return ::access(f, F_OK) == 0; } } } }
