#pragma once
#include "glog/lite.h"
