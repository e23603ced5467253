// Stand-in for the ECSS-SMP C++ headers (ECSS-E-ST-40-07C), which /repo
// downloads at build time and which are not available offline.  The interfaces
// are those the code of /repo implements and calls: pure virtual declarations,
// enumerations and plain data.  Nothing here carries behaviour under
// verification except the collection iterator and the trivial constructors.
#ifndef VERIF_SMP_H
#define VERIF_SMP_H
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iosfwd>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <string>

namespace Smp {
using Char8 = char;
using String8 = const char *;
using Bool = bool;
using Int8 = int8_t;
using UInt8 = uint8_t;
using Int16 = int16_t;
using UInt16 = uint16_t;
using Int32 = int32_t;
using UInt32 = uint32_t;
using Int64 = int64_t;
using UInt64 = uint64_t;
using Float32 = float;
using Float64 = double;
using Duration = Int64;
using DateTime = Int64;

enum class PrimitiveTypeKind : Int32 {
  PTK_None, PTK_Char8, PTK_Bool, PTK_Int8, PTK_UInt8, PTK_Int16, PTK_UInt16,
  PTK_Int32, PTK_UInt32, PTK_Int64, PTK_UInt64, PTK_Float32, PTK_Float64,
  PTK_Duration, PTK_DateTime, PTK_String8
};
enum class ViewKind : Int32 { VK_None, VK_Debug, VK_Expert, VK_All };
enum class AccessKind : Int32 { AK_ReadWrite, AK_ReadOnly, AK_WriteOnly };
enum class ComponentStateKind : Int32 {
  CSK_Created, CSK_Publishing, CSK_Configured, CSK_Connected, CSK_Disconnected
};
enum class SimulatorStateKind : Int32 {
  SSK_Building, SSK_Connecting, SSK_Initialising, SSK_Standby, SSK_Executing,
  SSK_Storing, SSK_Restoring, SSK_Reconnecting, SSK_Exiting, SSK_Aborting
};
namespace Services {
using EventId = Int64;
using LogMessageKind = Int32;
enum class TimeKind : Int32 {
  TK_SimulationTime, TK_MissionTime, TK_EpochTime, TK_ZuluTime
};
std::ostream &operator<<(std::ostream &os, const TimeKind &obj);
}
namespace Publication {
enum class ParameterDirectionKind : Int32 { PDK_In, PDK_Out, PDK_InOut, PDK_Return };
std::ostream &operator<<(std::ostream &os, const ParameterDirectionKind &obj);
}
std::ostream &operator<<(std::ostream &os, const PrimitiveTypeKind &obj);
std::ostream &operator<<(std::ostream &os, const ViewKind &obj);
std::ostream &operator<<(std::ostream &os, const AccessKind &obj);
std::ostream &operator<<(std::ostream &os, const ComponentStateKind &obj);
std::ostream &operator<<(std::ostream &os, const SimulatorStateKind &obj);

struct Uuid {
  uint32_t Data1;
  std::array<uint16_t, 3> Data2;
  std::array<uint8_t, 6> Data3;
  constexpr Uuid() : Data1{0}, Data2{{0, 0, 0}}, Data3{{0, 0, 0, 0, 0, 0}} {}
  constexpr Uuid(uint32_t d1, uint16_t d21, uint16_t d22, uint16_t d23, uint64_t d3)
      : Data1{d1}, Data2{{d21, d22, d23}},
        Data3{{static_cast<uint8_t>(d3 >> 40), static_cast<uint8_t>(d3 >> 32),
               static_cast<uint8_t>(d3 >> 24), static_cast<uint8_t>(d3 >> 16),
               static_cast<uint8_t>(d3 >> 8), static_cast<uint8_t>(d3)}} {}
  constexpr Uuid(uint32_t d1, std::array<uint16_t, 3> d2, std::array<uint8_t, 6> d3)
      : Data1{d1}, Data2{d2}, Data3{d3} {}
  Uuid(const char *value);
  constexpr Uuid(const Uuid &) = default;
  Uuid &operator=(const Uuid &) = default;
  bool operator<(const Uuid &other) const;
  bool operator==(const Uuid &other) const;
  bool operator!=(const Uuid &other) const;
};
std::ostream &operator<<(std::ostream &os, const Uuid &uuid);
struct Uuids {
  static constexpr Uuid Uuid_AccessKind{0x56520000U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a000ULL};
  static constexpr Uuid Uuid_Bool{0x56520101U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a001ULL};
  static constexpr Uuid Uuid_Char8{0x56520202U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a002ULL};
  static constexpr Uuid Uuid_ComponentStateKind{0x56520303U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a003ULL};
  static constexpr Uuid Uuid_DateTime{0x56520404U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a004ULL};
  static constexpr Uuid Uuid_Duration{0x56520505U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a005ULL};
  static constexpr Uuid Uuid_EventId{0x56520606U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a006ULL};
  static constexpr Uuid Uuid_Float32{0x56520707U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a007ULL};
  static constexpr Uuid Uuid_Float64{0x56520808U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a008ULL};
  static constexpr Uuid Uuid_Int16{0x56520909U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a009ULL};
  static constexpr Uuid Uuid_Int32{0x56520a0aU, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a00aULL};
  static constexpr Uuid Uuid_Int64{0x56520b0bU, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a00bULL};
  static constexpr Uuid Uuid_Int8{0x56520c0cU, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a00cULL};
  static constexpr Uuid Uuid_LogMessageKind{0x56520d0dU, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a00dULL};
  static constexpr Uuid Uuid_ParameterDirectionKind{0x56520e0eU, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a00eULL};
  static constexpr Uuid Uuid_PrimitiveTypeKind{0x56520f0fU, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a00fULL};
  static constexpr Uuid Uuid_SimulatorStateKind{0x56521010U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a010ULL};
  static constexpr Uuid Uuid_String8{0x56521111U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a011ULL};
  static constexpr Uuid Uuid_TimeKind{0x56521212U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a012ULL};
  static constexpr Uuid Uuid_UInt16{0x56521313U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a013ULL};
  static constexpr Uuid Uuid_UInt32{0x56521414U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a014ULL};
  static constexpr Uuid Uuid_UInt64{0x56521515U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a015ULL};
  static constexpr Uuid Uuid_UInt8{0x56521616U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a016ULL};
  static constexpr Uuid Uuid_Uuid{0x56521717U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a017ULL};
  static constexpr Uuid Uuid_ViewKind{0x56521818U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a018ULL};
  static constexpr Uuid Uuid_Void{0x56521919U, 0x1111, 0x11e9, 0x9d4f, 0x10bf4820a019ULL};
};

class AnySimple {
public:
  AnySimple();
  explicit AnySimple(PrimitiveTypeKind kind);
  template <class T> AnySimple(PrimitiveTypeKind kind, T newValue) : AnySimple() {
    SetValue(kind, newValue);
  }
  AnySimple(const AnySimple &other);
  AnySimple(AnySimple &&other);
  AnySimple &operator=(const AnySimple &other);
  AnySimple &operator=(AnySimple &&other);
  ~AnySimple() noexcept;
  void SetValue(PrimitiveTypeKind kind, Bool newValue);
  void SetValue(PrimitiveTypeKind kind, Char8 newValue);
  void SetValue(PrimitiveTypeKind kind, String8 newValue);
  void SetValue(PrimitiveTypeKind kind, UInt8 newValue);
  void SetValue(PrimitiveTypeKind kind, UInt16 newValue);
  void SetValue(PrimitiveTypeKind kind, UInt32 newValue);
  void SetValue(PrimitiveTypeKind kind, UInt64 newValue);
  void SetValue(PrimitiveTypeKind kind, Int8 newValue);
  void SetValue(PrimitiveTypeKind kind, Int16 newValue);
  void SetValue(PrimitiveTypeKind kind, Int32 newValue);
  void SetValue(PrimitiveTypeKind kind, Int64 newValue);
  void SetValue(PrimitiveTypeKind kind, Float32 newValue);
  void SetValue(PrimitiveTypeKind kind, Float64 newValue);
  operator Bool() const;
  operator Char8() const;
  operator String8() const;
  operator UInt8() const;
  operator UInt16() const;
  operator UInt32() const;
  operator UInt64() const;
  operator Int8() const;
  operator Int16() const;
  operator Int32() const;
  operator Int64() const;
  operator Float32() const;
  operator Float64() const;
  String8 MoveString();
  PrimitiveTypeKind GetType() const noexcept;
  bool operator==(const AnySimple &other) const;
  bool operator!=(const AnySimple &other) const;
  PrimitiveTypeKind type;
  union {
    Char8 char8Value;
    Bool boolValue;
    Int8 int8Value;
    UInt8 uInt8Value;
    Int16 int16Value;
    UInt16 uInt16Value;
    Int32 int32Value;
    UInt32 uInt32Value;
    Int64 int64Value;
    UInt64 uInt64Value;
    Float32 float32Value;
    Float64 float64Value;
    Duration durationValue;
    DateTime dateTimeValue;
    String8 string8Value;
  } value;
};
using AnySimpleArray = AnySimple *;
std::ostream &operator<<(std::ostream &os, const AnySimple &obj);

class IObject {
public:
  virtual ~IObject() noexcept = default;
  virtual String8 GetName() const = 0;
  virtual String8 GetDescription() const = 0;
  virtual IObject *GetParent() const = 0;
};

template <typename T> class ICollection;
template <typename T> class CollectionIterator {
public:
  using iterator_category = std::forward_iterator_tag;
  using value_type = T *;
  using difference_type = std::ptrdiff_t;
  using pointer = T *const *;
  using reference = T *;
  CollectionIterator() : _collection{nullptr}, _index{0} {}
  CollectionIterator(const ICollection<T> &collection, size_t index)
      : _collection{&collection}, _index{index} {}
  T *operator*() const;
  T *operator->() const;
  CollectionIterator &operator++() {
    ++_index;
    return *this;
  }
  CollectionIterator operator++(int) {
    CollectionIterator it{*this};
    ++_index;
    return it;
  }
  bool operator==(const CollectionIterator &o) const {
    return _collection == o._collection && _index == o._index;
  }
  bool operator!=(const CollectionIterator &o) const { return !(*this == o); }

private:
  const ICollection<T> *_collection;
  size_t _index;
};
template <typename T> class ICollection : public virtual IObject {
public:
  using iterator = CollectionIterator<T>;
  using const_iterator = CollectionIterator<T>;
  ~ICollection() noexcept override = default;
  virtual T *at(String8 name) const = 0;
  virtual T *at(size_t index) const = 0;
  virtual size_t size() const = 0;
  virtual bool empty() const { return size() == 0; }
  virtual const_iterator begin() const = 0;
  virtual const_iterator end() const = 0;
};
template <typename T> T *CollectionIterator<T>::operator*() const {
  return _collection->at(_index);
}
template <typename T> T *CollectionIterator<T>::operator->() const {
  return _collection->at(_index);
}
class IPersist;
class IEntryPoint;
class IRequest;
class IField;
class ISimpleField;
class IForcibleField;
class IArrayField;
class ISimpleArrayField;
class IStructureField;
class IDataflowField;
class IFailure;
class IParameter;
class IOperation;
class IProperty;
class IPublication;
class IComponent;
class ILinkingComponent;
class IDynamicInvocation;
class IModel;
class IService;
class IReference;
class IAggregate;
class IContainer;
class IComposite;
class IEntryPointPublisher;
class IEventSink;
class IEventConsumer;
class IEventSource;
class IEventProvider;
class IFallibleModel;
class IFactory;
class ISimulator;
namespace Services {
class IEventManager;
class ILinkRegistry;
class ILogger;
class IResolver;
class IScheduler;
class ITimeKeeper;
}
namespace Publication {
class IType;
class IArrayType;
class IEnumerationType;
class IStructureType;
class IClassType;
class ITypeRegistry;
class IPublishOperation;
}

class IStorageReader {
public:
  virtual ~IStorageReader() noexcept = default;
  virtual void Restore(void *address, UInt64 size) = 0;
  virtual String8 GetStateVectorFileName() const = 0;
  virtual String8 GetStateVectorFilePath() const = 0;
};
class IStorageWriter {
public:
  virtual ~IStorageWriter() noexcept = default;
  virtual void Store(void *address, UInt64 size) = 0;
  virtual String8 GetStateVectorFileName() const = 0;
  virtual String8 GetStateVectorFilePath() const = 0;
};
class IPersist : public virtual IObject {
public:
  ~IPersist() noexcept override = default;
  virtual void Restore(IStorageReader *reader) = 0;
  virtual void Store(IStorageWriter *writer) = 0;
};
class IEntryPoint : public virtual IObject {
public:
  ~IEntryPoint() noexcept override = default;
  virtual void Execute() const = 0;
};
class IRequest {
public:
  virtual ~IRequest() noexcept = default;
  virtual String8 GetOperationName() const = 0;
  virtual Int32 GetParameterCount() const = 0;
  virtual Int32 GetParameterIndex(String8 parameterName) const = 0;
  virtual void SetParameterValue(Int32 index, AnySimple value) = 0;
  virtual AnySimple GetParameterValue(Int32 index) const = 0;
  virtual void SetReturnValue(AnySimple value) = 0;
  virtual AnySimple GetReturnValue() const = 0;
};
namespace Publication {
class IType : public virtual IObject {
public:
  ~IType() noexcept override = default;
  virtual PrimitiveTypeKind GetPrimitiveTypeKind() const = 0;
  virtual Uuid GetUuid() const = 0;
  virtual void Publish(IPublication *receiver, String8 name, String8 description, void *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
};
class IArrayType : public virtual IType {
public:
  ~IArrayType() noexcept override = default;
  virtual UInt64 GetSize() const = 0;
  virtual const IType *GetItemType() const = 0;
};
class IEnumerationType : public virtual IType {
public:
  ~IEnumerationType() noexcept override = default;
  virtual void AddLiteral(String8 name, String8 description, Int32 value) = 0;
};
class IStructureType : public virtual IType {
public:
  ~IStructureType() noexcept override = default;
  virtual void AddField(String8 name, String8 description, Uuid uuid, Int64 offset, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
};
class IClassType : public virtual IStructureType {
public:
  ~IClassType() noexcept override = default;
};
class ITypeRegistry {
public:
  virtual ~ITypeRegistry() noexcept = default;
  virtual IType *GetType(PrimitiveTypeKind type) const = 0;
  virtual IType *GetType(Uuid typeUuid) const = 0;
  virtual IType *AddFloatType(String8 name, String8 description, Uuid typeUuid, Float64 minimum, Float64 maximum, Bool minInclusive, Bool maxInclusive, String8 unit, PrimitiveTypeKind type = PrimitiveTypeKind::PTK_Float64) = 0;
  virtual IType *AddIntegerType(String8 name, String8 description, Uuid typeUuid, Int64 minimum, Int64 maximum, String8 unit, PrimitiveTypeKind type = PrimitiveTypeKind::PTK_Int32) = 0;
  virtual IEnumerationType *AddEnumerationType(String8 name, String8 description, Uuid typeUuid, Int16 memorySize) = 0;
  virtual IArrayType *AddArrayType(String8 name, String8 description, Uuid typeUuid, Uuid itemTypeUuid, Int64 itemSize, Int64 arrayCount, Bool simpleArray = false) = 0;
  virtual IType *AddStringType(String8 name, String8 description, Uuid typeUuid, Int64 length) = 0;
  virtual IStructureType *AddStructureType(String8 name, String8 description, Uuid typeUuid) = 0;
  virtual IClassType *AddClassType(String8 name, String8 description, Uuid typeUuid, Uuid baseClassUuid) = 0;
};
class IPublishOperation {
public:
  virtual ~IPublishOperation() noexcept = default;
  virtual void PublishParameter(String8 name, String8 description, Uuid typeUuid, ParameterDirectionKind direction = ParameterDirectionKind::PDK_In) = 0;
};
}
class IField : public virtual IPersist {
public:
  ~IField() noexcept override = default;
  virtual ViewKind GetView() const = 0;
  virtual Bool IsState() const = 0;
  virtual Bool IsInput() const = 0;
  virtual Bool IsOutput() const = 0;
  virtual const Publication::IType *GetType() const = 0;
};
class ISimpleField : public virtual IField {
public:
  ~ISimpleField() noexcept override = default;
  virtual PrimitiveTypeKind GetPrimitiveTypeKind() const = 0;
  virtual AnySimple GetValue() const = 0;
  virtual void SetValue(AnySimple value) = 0;
};
class IForcibleField : public virtual ISimpleField {
public:
  ~IForcibleField() noexcept override = default;
  virtual void Force(AnySimple value) = 0;
  virtual void Unforce() = 0;
  virtual Bool IsForced() = 0;
  virtual void Freeze() = 0;
};
class IArrayField : public virtual IField {
public:
  ~IArrayField() noexcept override = default;
  virtual UInt64 GetSize() const = 0;
  virtual IField *GetItem(UInt64 index) const = 0;
};
class ISimpleArrayField : public virtual IField {
public:
  ~ISimpleArrayField() noexcept override = default;
  virtual UInt64 GetSize() const = 0;
  virtual AnySimple GetValue(UInt64 index) const = 0;
  virtual void SetValue(UInt64 index, AnySimple value) = 0;
  virtual void GetValues(UInt64 length, AnySimpleArray values) const = 0;
  virtual void SetValues(UInt64 length, AnySimpleArray values) = 0;
};
using FieldCollection = ICollection<IField>;
class IStructureField : public virtual IField {
public:
  ~IStructureField() noexcept override = default;
  virtual const FieldCollection *GetFields() const = 0;
  virtual IField *GetField(String8 name) const = 0;
};
class IDataflowField : public virtual IField {
public:
  ~IDataflowField() noexcept override = default;
  virtual void Connect(IField *target) = 0;
  virtual void Push() = 0;
};
class IFailure : public virtual IPersist {
public:
  ~IFailure() noexcept override = default;
  virtual void Fail() = 0;
  virtual void Unfail() = 0;
  virtual Bool IsFailed() const = 0;
};
class IParameter : public virtual IObject {
public:
  ~IParameter() noexcept override = default;
  virtual Publication::IType *GetType() const = 0;
  virtual Publication::ParameterDirectionKind GetDirection() const = 0;
};
using ParameterCollection = ICollection<IParameter>;
class IOperation : public virtual IObject {
public:
  ~IOperation() noexcept override = default;
  virtual const ParameterCollection *GetParameters() const = 0;
  virtual IParameter *GetParameter(String8 name) const = 0;
  virtual IParameter *GetReturnParameter() const = 0;
  virtual ViewKind GetView() const = 0;
  virtual IRequest *CreateRequest() = 0;
  virtual void Invoke(IRequest *request) = 0;
  virtual void DeleteRequest(IRequest *request) = 0;
};
class IProperty : public virtual IObject {
public:
  ~IProperty() noexcept override = default;
  virtual Publication::IType *GetType() const = 0;
  virtual AccessKind GetAccess() const = 0;
  virtual ViewKind GetView() const = 0;
  virtual AnySimple GetValue() const = 0;
  virtual void SetValue(AnySimple value) = 0;
};
using PropertyCollection = ICollection<IProperty>;
using OperationCollection = ICollection<IOperation>;
class IPublication {
public:
  virtual ~IPublication() noexcept = default;
  virtual Publication::ITypeRegistry *GetTypeRegistry() const = 0;
  virtual void PublishField(String8 name, String8 description, Char8 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, Bool *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, Int8 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, Int16 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, Int32 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, Int64 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, UInt8 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, UInt16 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, UInt32 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, UInt64 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, Float32 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, Float64 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, void *address, Uuid typeUuid, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(IField *field) = 0;
  virtual void PublishArray(String8 name, String8 description, Int64 count, void *address, PrimitiveTypeKind type, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual IPublication *PublishArray(String8 name, String8 description, ViewKind view = ViewKind::VK_All, Bool state = true) = 0;
  virtual IPublication *PublishStructure(String8 name, String8 description, ViewKind view = ViewKind::VK_All, Bool state = true) = 0;
  virtual Publication::IPublishOperation *PublishOperation(String8 name, String8 description, ViewKind view = ViewKind::VK_None) = 0;
  virtual void PublishProperty(String8 name, String8 description, Uuid typeUuid, AccessKind accessKind, ViewKind view = ViewKind::VK_None) = 0;
  virtual IField *GetField(String8 fullName) const = 0;
  virtual const FieldCollection *GetFields() const = 0;
  virtual const PropertyCollection *GetProperties() const = 0;
  virtual const OperationCollection *GetOperations() const = 0;
  virtual IRequest *CreateRequest(String8 operationName) = 0;
  virtual void DeleteRequest(IRequest *request) = 0;
  virtual void Unpublish() = 0;
};
class IComponent : public virtual IObject {
public:
  ~IComponent() noexcept override = default;
  virtual ComponentStateKind GetState() const = 0;
  virtual void Publish(IPublication *receiver) = 0;
  virtual void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry) = 0;
  virtual void Connect(ISimulator *simulator) = 0;
  virtual void Disconnect() = 0;
  virtual IField *GetField(String8 fullName) const = 0;
  virtual const FieldCollection *GetFields() const = 0;
  virtual const Uuid &GetUuid() const = 0;
};
using ComponentCollection = ICollection<IComponent>;
class ILinkingComponent : public virtual IComponent {
public:
  ~ILinkingComponent() noexcept override = default;
  virtual void RemoveLinks(const IComponent *target) = 0;
};
class IDynamicInvocation : public virtual IComponent {
public:
  ~IDynamicInvocation() noexcept override = default;
  virtual IRequest *CreateRequest(String8 operationName) = 0;
  virtual void Invoke(IRequest *request) = 0;
  virtual void DeleteRequest(IRequest *request) = 0;
  virtual const PropertyCollection *GetProperties() const = 0;
  virtual const OperationCollection *GetOperations() const = 0;
};
class IModel : public virtual IComponent {
public:
  ~IModel() noexcept override = default;
};
using ModelCollection = ICollection<IModel>;
class IService : public virtual IComponent {
public:
  ~IService() noexcept override = default;
};
using ServiceCollection = ICollection<IService>;
class IReference : public virtual IObject {
public:
  ~IReference() noexcept override = default;
  virtual const ComponentCollection *GetComponents() const = 0;
  virtual IComponent *GetComponent(String8 name) const = 0;
  virtual void AddComponent(IComponent *component) = 0;
  virtual void RemoveComponent(IComponent *component) = 0;
  virtual Int64 GetCount() const = 0;
  virtual Int64 GetUpper() const = 0;
  virtual Int64 GetLower() const = 0;
};
using ReferenceCollection = ICollection<IReference>;
class IAggregate : public virtual IComponent {
public:
  ~IAggregate() noexcept override = default;
  virtual const ReferenceCollection *GetReferences() const = 0;
  virtual IReference *GetReference(String8 name) const = 0;
};
class IContainer : public virtual IObject {
public:
  ~IContainer() noexcept override = default;
  virtual const ComponentCollection *GetComponents() const = 0;
  virtual IComponent *GetComponent(String8 name) const = 0;
  virtual void AddComponent(IComponent *component) = 0;
  virtual void DeleteComponent(IComponent *component) = 0;
  virtual Int64 GetCount() const = 0;
  virtual Int64 GetUpper() const = 0;
  virtual Int64 GetLower() const = 0;
};
using ContainerCollection = ICollection<IContainer>;
class IComposite : public virtual IObject {
public:
  ~IComposite() noexcept override = default;
  virtual const ContainerCollection *GetContainers() const = 0;
  virtual IContainer *GetContainer(String8 name) const = 0;
};
using EntryPointCollection = ICollection<IEntryPoint>;
class IEntryPointPublisher : public virtual IObject {
public:
  ~IEntryPointPublisher() noexcept override = default;
  virtual const EntryPointCollection *GetEntryPoints() const = 0;
  virtual IEntryPoint *GetEntryPoint(String8 name) const = 0;
};
class IEventSink : public virtual IObject {
public:
  ~IEventSink() noexcept override = default;
  virtual PrimitiveTypeKind GetEventArgType() const = 0;
  virtual void Notify(IObject *sender, AnySimple arg) = 0;
};
using EventSinkCollection = ICollection<IEventSink>;
class IEventConsumer : public virtual IComponent {
public:
  ~IEventConsumer() noexcept override = default;
  virtual const EventSinkCollection *GetEventSinks() const = 0;
  virtual IEventSink *GetEventSink(String8 name) const = 0;
};
class IEventSource : public virtual IObject {
public:
  ~IEventSource() noexcept override = default;
  virtual void Subscribe(IEventSink *eventSink) = 0;
  virtual void Unsubscribe(IEventSink *eventSink) = 0;
};
using EventSourceCollection = ICollection<IEventSource>;
class IEventProvider : public virtual IComponent {
public:
  ~IEventProvider() noexcept override = default;
  virtual const EventSourceCollection *GetEventSources() const = 0;
  virtual IEventSource *GetEventSource(String8 name) const = 0;
};
using FailureCollection = ICollection<IFailure>;
class IFallibleModel : public virtual IModel {
public:
  ~IFallibleModel() noexcept override = default;
  virtual Bool IsFailed() const = 0;
  virtual const FailureCollection *GetFailures() const = 0;
  virtual IFailure *GetFailure(String8 name) const = 0;
};
class IFactory : public virtual IObject {
public:
  ~IFactory() noexcept override = default;
  virtual Uuid GetUuid() const = 0;
  virtual IComponent *CreateInstance(String8 name, String8 description, IComposite *parent) = 0;
  virtual void DeleteInstance(IComponent *instance) = 0;
  virtual String8 GetTypeName() const = 0;
};
using FactoryCollection = ICollection<IFactory>;
namespace Services {
class IEventManager : public virtual IService {
public:
  ~IEventManager() noexcept override = default;
  static constexpr EventId SMP_LeaveConnectingId = 1;
  static constexpr auto SMP_LeaveConnecting = "SMP_LeaveConnecting";
  static constexpr EventId SMP_EnterInitialisingId = 2;
  static constexpr auto SMP_EnterInitialising = "SMP_EnterInitialising";
  static constexpr EventId SMP_LeaveInitialisingId = 3;
  static constexpr auto SMP_LeaveInitialising = "SMP_LeaveInitialising";
  static constexpr EventId SMP_EnterStandbyId = 4;
  static constexpr auto SMP_EnterStandby = "SMP_EnterStandby";
  static constexpr EventId SMP_LeaveStandbyId = 5;
  static constexpr auto SMP_LeaveStandby = "SMP_LeaveStandby";
  static constexpr EventId SMP_EnterExecutingId = 6;
  static constexpr auto SMP_EnterExecuting = "SMP_EnterExecuting";
  static constexpr EventId SMP_LeaveExecutingId = 7;
  static constexpr auto SMP_LeaveExecuting = "SMP_LeaveExecuting";
  static constexpr EventId SMP_EnterStoringId = 8;
  static constexpr auto SMP_EnterStoring = "SMP_EnterStoring";
  static constexpr EventId SMP_LeaveStoringId = 9;
  static constexpr auto SMP_LeaveStoring = "SMP_LeaveStoring";
  static constexpr EventId SMP_EnterRestoringId = 10;
  static constexpr auto SMP_EnterRestoring = "SMP_EnterRestoring";
  static constexpr EventId SMP_LeaveRestoringId = 11;
  static constexpr auto SMP_LeaveRestoring = "SMP_LeaveRestoring";
  static constexpr EventId SMP_EnterExitingId = 12;
  static constexpr auto SMP_EnterExiting = "SMP_EnterExiting";
  static constexpr EventId SMP_EnterAbortingId = 13;
  static constexpr auto SMP_EnterAborting = "SMP_EnterAborting";
  static constexpr EventId SMP_EpochTimeChangedId = 14;
  static constexpr auto SMP_EpochTimeChanged = "SMP_EpochTimeChanged";
  static constexpr EventId SMP_MissionTimeChangedId = 15;
  static constexpr auto SMP_MissionTimeChanged = "SMP_MissionTimeChanged";
  static constexpr EventId SMP_EnterReconnectingId = 16;
  static constexpr auto SMP_EnterReconnecting = "SMP_EnterReconnecting";
  static constexpr EventId SMP_LeaveReconnectingId = 17;
  static constexpr auto SMP_LeaveReconnecting = "SMP_LeaveReconnecting";
  static constexpr EventId SMP_PreSimTimeChangeId = 18;
  static constexpr auto SMP_PreSimTimeChange = "SMP_PreSimTimeChange";
  static constexpr EventId SMP_PostSimTimeChangeId = 19;
  static constexpr auto SMP_PostSimTimeChange = "SMP_PostSimTimeChange";
  virtual EventId QueryEventId(String8 eventName) = 0;
  virtual void Subscribe(EventId event, const IEntryPoint *entryPoint) = 0;
  virtual void Unsubscribe(EventId event, const IEntryPoint *entryPoint) = 0;
  virtual void Emit(EventId event, Bool synchronous = true) = 0;
};
class ILinkRegistry : public virtual IService {
public:
  ~ILinkRegistry() noexcept override = default;
  virtual void AddLink(IComponent *source, const IComponent *target) = 0;
  virtual UInt32 GetLinkCount(const IComponent *source, const IComponent *target) const = 0;
  virtual Bool RemoveLink(IComponent *source, const IComponent *target) = 0;
  virtual const ComponentCollection *GetLinkSources(const IComponent *target) const = 0;
  virtual Bool CanRemove(const IComponent *target) = 0;
  virtual void RemoveLinks(const IComponent *target) = 0;
};
class ILogger : public virtual IService {
public:
  ~ILogger() noexcept override = default;
  static constexpr LogMessageKind LMK_Information = 0;
  static constexpr LogMessageKind LMK_Event = 1;
  static constexpr LogMessageKind LMK_Warning = 2;
  static constexpr LogMessageKind LMK_Error = 3;
  static constexpr LogMessageKind LMK_Debug = 4;
  static constexpr auto LMK_InformationName = "Information";
  static constexpr auto LMK_EventName = "Event";
  static constexpr auto LMK_WarningName = "Warning";
  static constexpr auto LMK_ErrorName = "Error";
  static constexpr auto LMK_DebugName = "Debug";
  virtual LogMessageKind QueryLogMessageKind(String8 messageKindName) = 0;
  virtual void Log(const IObject *sender, String8 message, LogMessageKind kind = 0) = 0;
};
class IResolver : public virtual IService {
public:
  ~IResolver() noexcept override = default;
  virtual IObject *ResolveAbsolute(String8 absolutePath) = 0;
  virtual IObject *ResolveRelative(String8 relativePath, const IComponent *sender) = 0;
};
class IScheduler : public virtual IService {
public:
  ~IScheduler() noexcept override = default;
  virtual EventId AddImmediateEvent(const IEntryPoint *entryPoint) = 0;
  virtual EventId AddSimulationTimeEvent(const IEntryPoint *entryPoint, Duration simulationTime, Duration cycleTime = 0, Int64 repeat = 0) = 0;
  virtual EventId AddMissionTimeEvent(const IEntryPoint *entryPoint, Duration missionTime, Duration cycleTime = 0, Int64 repeat = 0) = 0;
  virtual EventId AddEpochTimeEvent(const IEntryPoint *entryPoint, DateTime epochTime, Duration cycleTime = 0, Int64 repeat = 0) = 0;
  virtual EventId AddZuluTimeEvent(const IEntryPoint *entryPoint, DateTime zuluTime, Duration cycleTime = 0, Int64 repeat = 0) = 0;
  virtual void SetEventSimulationTime(EventId event, Duration simulationTime) = 0;
  virtual void SetEventMissionTime(EventId event, Duration missionTime) = 0;
  virtual void SetEventEpochTime(EventId event, DateTime epochTime) = 0;
  virtual void SetEventZuluTime(EventId event, DateTime zuluTime) = 0;
  virtual void SetEventCycleTime(EventId event, Duration cycleTime) = 0;
  virtual void SetEventRepeat(EventId event, Int64 repeat) = 0;
  virtual void RemoveEvent(EventId event) = 0;
  virtual EventId GetCurrentEventId() const = 0;
  virtual Duration GetNextScheduledEventTime() const = 0;
};
class ITimeKeeper : public virtual IService {
public:
  ~ITimeKeeper() noexcept override = default;
  virtual Duration GetSimulationTime() const = 0;
  virtual DateTime GetEpochTime() const = 0;
  virtual DateTime GetMissionStartTime() const = 0;
  virtual Duration GetMissionTime() const = 0;
  virtual DateTime GetZuluTime() const = 0;
  virtual void SetSimulationTime(Duration simulationTime) = 0;
  virtual void SetEpochTime(DateTime epochTime) = 0;
  virtual void SetMissionStartTime(DateTime missionStart) = 0;
  virtual void SetMissionTime(Duration missionTime) = 0;
};
}
class ISimulator : public virtual IComposite {
public:
  ~ISimulator() noexcept override = default;
  static constexpr auto SMP_SimulatorModels = "Models";
  static constexpr auto SMP_SimulatorServices = "Services";
  virtual void Initialise() = 0;
  virtual void Publish() = 0;
  virtual void Configure() = 0;
  virtual void Connect() = 0;
  virtual void Run() = 0;
  virtual void Hold(Bool immediate) = 0;
  virtual void Store(String8 filename) = 0;
  virtual void Restore(String8 filename) = 0;
  virtual void Reconnect(IComponent *root) = 0;
  virtual void Exit() = 0;
  virtual void Abort() = 0;
  virtual SimulatorStateKind GetState() const = 0;
  virtual void AddInitEntryPoint(IEntryPoint *entryPoint) = 0;
  virtual void AddModel(IModel *model) = 0;
  virtual void AddService(IService *service) = 0;
  virtual IService *GetService(String8 name) const = 0;
  virtual Services::ILogger *GetLogger() const = 0;
  virtual Services::ITimeKeeper *GetTimeKeeper() const = 0;
  virtual Services::IScheduler *GetScheduler() const = 0;
  virtual Services::IEventManager *GetEventManager() const = 0;
  virtual Services::IResolver *GetResolver() const = 0;
  virtual Services::ILinkRegistry *GetLinkRegistry() const = 0;
  virtual void RegisterFactory(IFactory *componentFactory) = 0;
  virtual IComponent *CreateInstance(Uuid uuid, String8 name, String8 description, IComposite *parent) = 0;
  virtual IFactory *GetFactory(Uuid uuid) const = 0;
  virtual const FactoryCollection *GetFactories() const = 0;
  virtual Publication::ITypeRegistry *GetTypeRegistry() const = 0;
  virtual void LoadLibrary(String8 libraryPath) = 0;
};

class Exception : public std::exception {
public:
  ~Exception() noexcept override = default;
  const Char8 *what() const noexcept override = 0;
  virtual String8 GetName() const noexcept = 0;
  virtual String8 GetDescription() const noexcept = 0;
  virtual String8 GetMessage() const noexcept = 0;
  virtual const IObject *GetSender() const noexcept = 0;
};
}
namespace Smp {
class FieldAlreadyConnected : public virtual ::Smp::Exception {
public:
  ~FieldAlreadyConnected() noexcept override = default;
  virtual const ::Smp::IDataflowField *GetSource() const noexcept = 0;
  virtual const ::Smp::IField *GetTarget() const noexcept = 0;
};
class InvalidTarget : public virtual ::Smp::Exception {
public:
  ~InvalidTarget() noexcept override = default;
  virtual const ::Smp::IDataflowField *GetSource() const noexcept = 0;
  virtual const ::Smp::IField *GetTarget() const noexcept = 0;
};
class CannotStore : public virtual ::Smp::Exception {
public:
  ~CannotStore() noexcept override = default;
};
class CannotRestore : public virtual ::Smp::Exception {
public:
  ~CannotRestore() noexcept override = default;
};
class InvalidObjectName : public virtual ::Smp::Exception {
public:
  ~InvalidObjectName() noexcept override = default;
  virtual ::Smp::String8 GetInvalidName() const noexcept = 0;
};
class ContainerFull : public virtual ::Smp::Exception {
public:
  ~ContainerFull() noexcept override = default;
  virtual ::Smp::String8 GetContainerName() const noexcept = 0;
  virtual ::Smp::Int64 GetContainerSize() const noexcept = 0;
};
class DuplicateName : public virtual ::Smp::Exception {
public:
  ~DuplicateName() noexcept override = default;
  virtual ::Smp::String8 GetDuplicateName() const noexcept = 0;
};
class NotContained : public virtual ::Smp::Exception {
public:
  ~NotContained() noexcept override = default;
  virtual ::Smp::String8 GetContainerName() const noexcept = 0;
  virtual ::Smp::IComponent *GetComponent() const noexcept = 0;
};
class CannotDelete : public virtual ::Smp::Exception {
public:
  ~CannotDelete() noexcept override = default;
  virtual ::Smp::String8 GetContainerName() const noexcept = 0;
  virtual ::Smp::IComponent *GetComponent() const noexcept = 0;
  virtual ::Smp::Int64 GetLowerLimit() const noexcept = 0;
};
class InvalidComponentState : public virtual ::Smp::Exception {
public:
  ~InvalidComponentState() noexcept override = default;
  virtual ::Smp::ComponentStateKind GetInvalidState() const noexcept = 0;
  virtual ::Smp::ComponentStateKind GetExpectedState() const noexcept = 0;
};
class InvalidObjectType : public virtual ::Smp::Exception {
public:
  ~InvalidObjectType() noexcept override = default;
  virtual ::Smp::IObject *GetInvalidObject() const noexcept = 0;
};
class NotReferenced : public virtual ::Smp::Exception {
public:
  ~NotReferenced() noexcept override = default;
  virtual ::Smp::String8 GetReferenceName() const noexcept = 0;
  virtual ::Smp::IComponent *GetComponent() const noexcept = 0;
};
class ReferenceFull : public virtual ::Smp::Exception {
public:
  ~ReferenceFull() noexcept override = default;
  virtual ::Smp::String8 GetReferenceName() const noexcept = 0;
  virtual ::Smp::Int64 GetReferenceSize() const noexcept = 0;
};
class CannotRemove : public virtual ::Smp::Exception {
public:
  ~CannotRemove() noexcept override = default;
  virtual ::Smp::String8 GetReferenceName() const noexcept = 0;
  virtual ::Smp::IComponent *GetComponent() const noexcept = 0;
  virtual ::Smp::Int64 GetLowerLimit() const noexcept = 0;
};
class InvalidEventSink : public virtual ::Smp::Exception {
public:
  ~InvalidEventSink() noexcept override = default;
  virtual const ::Smp::IEventSource *GetEventSource() const noexcept = 0;
  virtual const ::Smp::IEventSink *GetEventSink() const noexcept = 0;
};
class EventSinkAlreadySubscribed : public virtual ::Smp::Exception {
public:
  ~EventSinkAlreadySubscribed() noexcept override = default;
  virtual const ::Smp::IEventSource *GetEventSource() const noexcept = 0;
  virtual const ::Smp::IEventSink *GetEventSink() const noexcept = 0;
};
class EventSinkNotSubscribed : public virtual ::Smp::Exception {
public:
  ~EventSinkNotSubscribed() noexcept override = default;
  virtual const ::Smp::IEventSource *GetEventSource() const noexcept = 0;
  virtual const ::Smp::IEventSink *GetEventSink() const noexcept = 0;
};
class InvalidOperationName : public virtual ::Smp::Exception {
public:
  ~InvalidOperationName() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
};
class InvalidParameterCount : public virtual ::Smp::Exception {
public:
  ~InvalidParameterCount() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::Int32 GetOperationParameters() const noexcept = 0;
  virtual ::Smp::Int32 GetRequestParameters() const noexcept = 0;
};
class InvalidParameterType : public virtual ::Smp::Exception {
public:
  ~InvalidParameterType() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::String8 GetParameterName() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetInvalidType() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetExpectedType() const noexcept = 0;
};
class InvalidArrayIndex : public virtual ::Smp::Exception {
public:
  ~InvalidArrayIndex() noexcept override = default;
  virtual ::Smp::Int64 GetInvalidIndex() const noexcept = 0;
  virtual ::Smp::Int64 GetArraySize() const noexcept = 0;
};
class InvalidFieldValue : public virtual ::Smp::Exception {
public:
  ~InvalidFieldValue() noexcept override = default;
  virtual ::Smp::AnySimple GetInvalidFieldValue() const noexcept = 0;
};
class InvalidArrayValue : public virtual ::Smp::Exception {
public:
  ~InvalidArrayValue() noexcept override = default;
  virtual ::Smp::Int64 GetInvalidValueIndex() const noexcept = 0;
  virtual ::Smp::AnySimple GetInvalidValue() const noexcept = 0;
};
class InvalidArraySize : public virtual ::Smp::Exception {
public:
  ~InvalidArraySize() noexcept override = default;
  virtual ::Smp::Int64 GetArraySize() const noexcept = 0;
  virtual ::Smp::Int64 GetInvalidSize() const noexcept = 0;
};
class InvalidFieldName : public virtual ::Smp::Exception {
public:
  ~InvalidFieldName() noexcept override = default;
  virtual ::Smp::String8 GetFieldName() const noexcept = 0;
};
class InvalidParameterIndex : public virtual ::Smp::Exception {
public:
  ~InvalidParameterIndex() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::Int32 GetParameterIndex() const noexcept = 0;
  virtual ::Smp::Int32 GetParameterCount() const noexcept = 0;
};
class VoidOperation : public virtual ::Smp::Exception {
public:
  ~VoidOperation() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
};
class InvalidAnyType : public virtual ::Smp::Exception {
public:
  ~InvalidAnyType() noexcept override = default;
  virtual ::Smp::PrimitiveTypeKind GetInvalidType() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetExpectedType() const noexcept = 0;
};
class InvalidReturnValue : public virtual ::Smp::Exception {
public:
  ~InvalidReturnValue() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::AnySimple GetValue() const noexcept = 0;
};
class InvalidParameterValue : public virtual ::Smp::Exception {
public:
  ~InvalidParameterValue() noexcept override = default;
  virtual ::Smp::String8 GetParameterName() const noexcept = 0;
  virtual ::Smp::AnySimple GetValue() const noexcept = 0;
};
class InvalidFieldType : public virtual ::Smp::Exception {
public:
  ~InvalidFieldType() noexcept override = default;
};
class DuplicateUuid : public virtual ::Smp::Exception {
public:
  ~DuplicateUuid() noexcept override = default;
  virtual ::Smp::String8 GetOldName() const noexcept = 0;
  virtual ::Smp::String8 GetNewName() const noexcept = 0;
};
class LibraryNotFound : public virtual ::Smp::Exception {
public:
  ~LibraryNotFound() noexcept override = default;
  virtual ::Smp::String8 GetLibraryName() const noexcept = 0;
};
class InvalidLibrary : public virtual ::Smp::Exception {
public:
  ~InvalidLibrary() noexcept override = default;
  virtual ::Smp::String8 GetLibraryName() const noexcept = 0;
};
class InvalidSimulatorState : public virtual ::Smp::Exception {
public:
  ~InvalidSimulatorState() noexcept override = default;
  virtual ::Smp::SimulatorStateKind GetInvalidState() const noexcept = 0;
};
}
namespace Smp::Services {
class InvalidEventName : public virtual ::Smp::Exception {
public:
  ~InvalidEventName() noexcept override = default;
};
class InvalidEventId : public virtual ::Smp::Exception {
public:
  ~InvalidEventId() noexcept override = default;
  virtual ::Smp::Services::EventId GetInvalidEventId() const noexcept = 0;
};
class InvalidCycleTime : public virtual ::Smp::Exception {
public:
  ~InvalidCycleTime() noexcept override = default;
};
class InvalidEventTime : public virtual ::Smp::Exception {
public:
  ~InvalidEventTime() noexcept override = default;
};
class EntryPointNotSubscribed : public virtual ::Smp::Exception {
public:
  ~EntryPointNotSubscribed() noexcept override = default;
  virtual const ::Smp::IEntryPoint *GetEntryPoint() const noexcept = 0;
  virtual ::Smp::String8 GetEventName() const noexcept = 0;
};
class EntryPointAlreadySubscribed : public virtual ::Smp::Exception {
public:
  ~EntryPointAlreadySubscribed() noexcept override = default;
  virtual const ::Smp::IEntryPoint *GetEntryPoint() const noexcept = 0;
  virtual ::Smp::String8 GetEventName() const noexcept = 0;
};
class InvalidSimulationTime : public virtual ::Smp::Exception {
public:
  ~InvalidSimulationTime() noexcept override = default;
  virtual ::Smp::Duration GetCurrentTime() const noexcept = 0;
  virtual ::Smp::Duration GetProvidedTime() const noexcept = 0;
  virtual ::Smp::Duration GetMaximumTime() const noexcept = 0;
};
}
namespace Smp::Publication {
class TypeNotRegistered : public virtual ::Smp::Exception {
public:
  ~TypeNotRegistered() noexcept override = default;
  virtual ::Smp::Uuid GetUuid() const noexcept = 0;
};
class TypeAlreadyRegistered : public virtual ::Smp::Exception {
public:
  ~TypeAlreadyRegistered() noexcept override = default;
  virtual ::Smp::String8 GetTypeName() const noexcept = 0;
  virtual const ::Smp::Publication::IType *GetType() const noexcept = 0;
};
class DuplicateLiteral : public virtual ::Smp::Exception {
public:
  ~DuplicateLiteral() noexcept override = default;
  virtual ::Smp::String8 GetLiteralName() const noexcept = 0;
  virtual ::Smp::Int32 GetLiteralValue() const noexcept = 0;
};
class InvalidPrimitiveType : public virtual ::Smp::Exception {
public:
  ~InvalidPrimitiveType() noexcept override = default;
  virtual ::Smp::String8 GetTypeName() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetType() const noexcept = 0;
};
}

namespace std {
template <> struct hash<::Smp::Uuid> {
  size_t operator()(const ::Smp::Uuid &uuid) const;
};
}
#endif
