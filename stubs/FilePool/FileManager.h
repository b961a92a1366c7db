#pragma once
#include "AlexandriaKernel/memory_tools.h"
#include "ElementsKernel/Exception.h"
#include <chrono>
#include <functional>
#include <memory>
#include <mutex>
#include <map>
#include <boost/filesystem.hpp>
#include <boost/thread/shared_mutex.hpp>
namespace Euclid { namespace FilePool {
using timestamp_t = std::chrono::steady_clock::time_point;
class FileHandler; class FileManager;
struct OpaqueFd { std::size_t id; };
using FileId = std::intptr_t;
template <typename TFD> struct OpenCloseTrait;
class FileManager : public std::enable_shared_from_this<FileManager> { public: virtual ~FileManager(); static std::shared_ptr<FileManager> getDefault(); virtual std::shared_ptr<FileHandler> getFileHandler(const boost::filesystem::path&); template <typename TFD> std::pair<FileId, TFD> open(const boost::filesystem::path&, bool, std::function<bool(FileId)>); template <typename TFD> void close(FileId, TFD&); void closeAll(); bool hasHandler(const boost::filesystem::path&) const; };
class FileHandler : public std::enable_shared_from_this<FileHandler> { public: enum Mode { kRead = 1, kWrite = 2, kTry = 128, kTryRead = kTry | kRead, kTryWrite = kTry | kWrite };
  template <typename TFD> class FileAccessor { public: using FdWrapperPtr = int; virtual ~FileAccessor(); TFD m_fd; bool isReadOnly() const; virtual bool isReadLocked() const; };
  template <typename TFD> class FileReadAccessor : public FileAccessor<TFD> { }; template <typename TFD> class FileWriteAccessor : public FileAccessor<TFD> { };
  template <typename TFD> std::unique_ptr<FileAccessor<TFD>> getAccessor(Mode mode = kRead); bool isReadOnly() const; bool close(); };
} }
