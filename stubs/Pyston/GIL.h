#pragma once
#include "AlexandriaKernel/memory_tools.h"
#include "ElementsKernel/Exception.h"
namespace Pyston { class GILLocker { public: GILLocker(); ~GILLocker(); static int getLockCount(); }; class GILReleaser { public: GILReleaser(); ~GILReleaser(); }; class SaveThread { public: SaveThread(); ~SaveThread(); }; }
