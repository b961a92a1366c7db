#pragma once
#define SOURCEXTRACTORPLUSPLUS_VERSION_STRING "0"
#define SOURCEXTRACTORPLUSPLUS_ORIGINAL_VERSION "0"
