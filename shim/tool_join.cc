// The tool with its entry point renamed, to be called by a check.
#define main tool_join_main
#include "tools/join_pieces.cc"
