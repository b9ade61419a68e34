#include <stdexcept>
#include "bezman/src/utils/logger.hpp"
using bezman::utils::Logger;
void all() {
  Logger::TerminatingError("x"); Logger::TerminatingError<std::logic_error>("x"); Logger::TerminatingError<std::out_of_range>("x");
  Logger::Warning("x"); Logger::Error("x"); Logger::UserInfo("x"); Logger::Logging("x"); Logger::ExtendedInformation("x");
  Logger::SetOutputLevel(7u); Logger::SetOutputLevel({Logger::OutputLevel::errors, Logger::OutputLevel::all});
}
