#pragma once
#include "ElementsKernel/Program.h"
#include "ElementsKernel/Main.h"
