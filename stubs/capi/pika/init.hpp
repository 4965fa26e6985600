#pragma once
#include <pika/runtime.hpp>
#include_next <pika/init.hpp>
