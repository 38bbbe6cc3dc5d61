#pragma once
#include <umpire/strategy/strategies.hpp>
