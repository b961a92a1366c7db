#pragma once
#include "ElementsKernel/Program.h"
#define MAIN_FOR(X) int main(int argc, const char** argv) { X stub_prog; (void)argc; (void)argv; return 0; }
