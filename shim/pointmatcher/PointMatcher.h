// Stand-in for libpointmatcher, which is not installed here.  The class that
// uses it is replaced as a whole by icp_pointmatcher_standin.cc.
#ifndef VERIF_SHIM_POINTMATCHER_H_
#define VERIF_SHIM_POINTMATCHER_H_
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#endif  // VERIF_SHIM_POINTMATCHER_H_
