#pragma once
// older fmt releases have no base.h
#include <fmt/core.h>
