// Logging is off, as by default (see X01 for the logger itself).
#include "maf/logging/Logger.h"
namespace maf { namespace logging {
bool allowed(LogLevel) { return false; }
void logImpl(LogLevel, const std::string &) {}
void init(LogLevels, LoggingFunctionType, LoggingFunctionType) {}
void stopLogging() {}
void changeLogLevels(LogLevels) {}
void enable(LogLevel) {}
void disable(LogLevel) {}
} }
