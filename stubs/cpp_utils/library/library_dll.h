#pragma once
#include <cpp_utils/library/config.h>
#define CPP_UTILS_DllAPI
