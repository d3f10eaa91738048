#pragma once
#include "arrow/lite.h"
