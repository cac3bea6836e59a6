#ifndef SIM_BETTERTHREADS_TYPEDEFS_HPP
#define SIM_BETTERTHREADS_TYPEDEFS_HPP
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
namespace BetterThreads {
using VoidFunction = std::function<void()>;
using Mutex = std::mutex;
template<class T> using LockGuard = std::lock_guard<T>;
template<class T> using UniqueLock = std::unique_lock<T>;
template<class T> using SharedPointer = std::shared_ptr<T>;
}
#endif
