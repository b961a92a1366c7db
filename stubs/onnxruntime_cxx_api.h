#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
#include <string>
enum ONNXTensorElementDataType { ONNX_TENSOR_ELEMENT_DATA_TYPE_UNDEFINED, ONNX_TENSOR_ELEMENT_DATA_TYPE_FLOAT, ONNX_TENSOR_ELEMENT_DATA_TYPE_UINT8, ONNX_TENSOR_ELEMENT_DATA_TYPE_INT8, ONNX_TENSOR_ELEMENT_DATA_TYPE_UINT16, ONNX_TENSOR_ELEMENT_DATA_TYPE_INT16, ONNX_TENSOR_ELEMENT_DATA_TYPE_INT32, ONNX_TENSOR_ELEMENT_DATA_TYPE_INT64, ONNX_TENSOR_ELEMENT_DATA_TYPE_STRING, ONNX_TENSOR_ELEMENT_DATA_TYPE_BOOL, ONNX_TENSOR_ELEMENT_DATA_TYPE_FLOAT16, ONNX_TENSOR_ELEMENT_DATA_TYPE_DOUBLE, ONNX_TENSOR_ELEMENT_DATA_TYPE_UINT32, ONNX_TENSOR_ELEMENT_DATA_TYPE_UINT64, ONNX_TENSOR_ELEMENT_DATA_TYPE_COMPLEX64, ONNX_TENSOR_ELEMENT_DATA_TYPE_COMPLEX128, ONNX_TENSOR_ELEMENT_DATA_TYPE_BFLOAT16 };
enum OrtAllocatorType { OrtInvalidAllocator = -1, OrtDeviceAllocator = 0, OrtArenaAllocator = 1 }; enum OrtMemType { OrtMemTypeCPUInput = -2, OrtMemTypeCPU = -1, OrtMemTypeDefault = 0 }; enum OrtLoggingLevel { ORT_LOGGING_LEVEL_VERBOSE, ORT_LOGGING_LEVEL_INFO, ORT_LOGGING_LEVEL_WARNING };
enum GraphOptimizationLevel { ORT_DISABLE_ALL, ORT_ENABLE_ALL = 99 };
namespace Ort {
struct Env { Env(); Env(OrtLoggingLevel, const char* = ""); }; struct SessionOptions { SessionOptions(); explicit SessionOptions(std::nullptr_t); SessionOptions& SetIntraOpNumThreads(int); SessionOptions& SetInterOpNumThreads(int); SessionOptions& SetGraphOptimizationLevel(GraphOptimizationLevel); };
struct AllocatorWithDefaultOptions { void Free(void*); };
struct AllocatedStringPtr { char* get() const; char* release(); };
struct TensorTypeAndShapeInfo { ONNXTensorElementDataType GetElementType() const; std::vector<int64_t> GetShape() const; std::size_t GetElementCount() const; };
struct TypeInfo { TensorTypeAndShapeInfo GetTensorTypeAndShapeInfo() const; };
struct MemoryInfo { static MemoryInfo CreateCpu(OrtAllocatorType, OrtMemType); };
struct Value { explicit Value(std::nullptr_t); Value(Value&&); template <typename T> static Value CreateTensor(const MemoryInfo&, T*, std::size_t, const int64_t*, std::size_t); template <typename T> static Value CreateTensor(const Value&); };
struct ModelMetadata { AllocatedStringPtr GetDomainAllocated(AllocatorWithDefaultOptions&) const; AllocatedStringPtr GetGraphNameAllocated(AllocatorWithDefaultOptions&) const; AllocatedStringPtr GetDescriptionAllocated(AllocatorWithDefaultOptions&) const; AllocatedStringPtr GetProducerNameAllocated(AllocatorWithDefaultOptions&) const; char* GetDomain(AllocatorWithDefaultOptions&) const; char* GetDescription(AllocatorWithDefaultOptions&) const; char* GetGraphName(AllocatorWithDefaultOptions&) const; char* GetProducerName(AllocatorWithDefaultOptions&) const; };
struct RunOptions { RunOptions(); explicit RunOptions(std::nullptr_t); };
struct Session { Session(Env&, const char*, const SessionOptions&); std::size_t GetInputCount() const; std::size_t GetOutputCount() const; char* GetInputName(std::size_t, AllocatorWithDefaultOptions&) const; char* GetOutputName(std::size_t, AllocatorWithDefaultOptions&) const; AllocatedStringPtr GetInputNameAllocated(std::size_t, AllocatorWithDefaultOptions&) const; AllocatedStringPtr GetOutputNameAllocated(std::size_t, AllocatorWithDefaultOptions&) const; TypeInfo GetInputTypeInfo(std::size_t) const; TypeInfo GetOutputTypeInfo(std::size_t) const; ModelMetadata GetModelMetadata() const; void Run(const RunOptions&, const char* const*, Value*, std::size_t, const char* const*, Value*, std::size_t); };
}
