// The tool with its entry point renamed, to be called by a check.
#define main tool_sampler_main
#include "tools/pcd_sampler.cc"
