#include "ros_standin.h"
