#pragma once
#include "FilePool/FileManager.h"
