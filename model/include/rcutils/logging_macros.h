#pragma once
#include "vp_ros.h"
