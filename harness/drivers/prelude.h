#pragma once
#define NNTL_FP_ROUND_TO_ZERO 0
#include <iostream>
#ifndef VH_STDCOUT
#define STDCOUT(args) ((void)0)
#define STDCOUTL(args) ((void)0)
#endif
#include "vh.h"
