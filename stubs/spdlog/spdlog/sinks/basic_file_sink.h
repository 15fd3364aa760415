// File loggers: text reaches the file when the logger is flushed or the last reference to it goes away (the registry
// keeps one); registering a name twice is an error; the default pattern prefixes every line.
#pragma once
#define VX_SPDLOG_FILE 1
#include <fstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <spdlog/spdlog.h>
