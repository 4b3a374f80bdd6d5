// Included first in every unit compiled for the symbolic executor: template
// members that libstdc++ keeps in its shared object are instantiated into the IR.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
// no block cache inside boost.regex: each search uses memory of its own
#define BOOST_REGEX_MAX_CACHE_BLOCKS 0
