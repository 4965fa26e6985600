#pragma once
#include <mutex>
namespace pika { using mutex = std::mutex; }
