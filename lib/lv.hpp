/* Shared LvArray plumbing for the harnesses. */
#pragma once
#include "mc.hpp"
#include "LvArrayConfig.hpp"
#include "Macros.hpp"
#include "system.hpp"

namespace lv
{
inline void setup()
{ LvArray::system::setErrorHandler( [] { mc::onError(); } ); }
struct Install { Install() { mc::setupHook() = &setup; } };
inline Install install;
}

#ifndef LV_REAL_BACKTRACE
/* Every error report prints a stack trace, which costs milliseconds: make it empty. */
extern "C" int backtrace( void * *, int ) { return 0; }
#endif
