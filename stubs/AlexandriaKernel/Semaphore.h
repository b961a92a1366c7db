#pragma once
namespace Euclid { class Semaphore { public: explicit Semaphore(unsigned initial = 0); void acquire(); void release(); bool try_acquire(); template <class D> bool try_acquire_for(const D&); }; }
