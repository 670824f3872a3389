// Included first: std::string is instantiated in the analysed program instead of being taken from libstdc++.so.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
