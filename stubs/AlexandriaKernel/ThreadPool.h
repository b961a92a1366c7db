#pragma once
#include <functional>
#include "AlexandriaKernel/memory_tools.h"
#include "ElementsKernel/Exception.h"
#include <exception>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <deque>
#include <atomic>
#include <vector>
#include <memory>
namespace Euclid { class ThreadPool { public: using Task = std::function<void(void)>; explicit ThreadPool(unsigned n = std::thread::hardware_concurrency(), unsigned s = 50); virtual ~ThreadPool(); void submit(Task t); void block(bool throw_on_error = true); bool checkForException(bool rethrow = false); size_t running() const; size_t queued() const; bool activeThreads() const; }; }
