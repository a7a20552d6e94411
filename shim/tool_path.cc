// The tool with its entry point renamed, to be called by a check.
#define main tool_path_main
#include "tools/path_statistic.cc"
