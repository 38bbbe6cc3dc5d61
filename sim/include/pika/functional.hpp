#pragma once
#include <pika/execution.hpp>
