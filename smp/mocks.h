// Generated by tools/genmocks.py: the SMP interfaces with every function
// failing the contract when it is called.
#ifndef VERIF_MOCKS_H
#define VERIF_MOCKS_H
#include "spec.h"
#include <Smp/_smp.h>
[[noreturn]] inline void mock_unexpected(const char *what) {
  __spec_fail(what);
  __builtin_trap();
}
namespace Smp {
class MockIObject : public virtual IObject {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IObject::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IObject::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IObject::GetParent"); }
};
} // namespace Smp
namespace Smp {
class MockIStorageReader : public virtual IStorageReader {
public:
  void Restore(void *address, UInt64 size)   override { mock_unexpected("unexpected call of IStorageReader::Restore"); }
  String8 GetStateVectorFileName() const  override { mock_unexpected("unexpected call of IStorageReader::GetStateVectorFileName"); }
  String8 GetStateVectorFilePath() const  override { mock_unexpected("unexpected call of IStorageReader::GetStateVectorFilePath"); }
};
} // namespace Smp
namespace Smp {
class MockIStorageWriter : public virtual IStorageWriter {
public:
  void Store(void *address, UInt64 size)   override { mock_unexpected("unexpected call of IStorageWriter::Store"); }
  String8 GetStateVectorFileName() const  override { mock_unexpected("unexpected call of IStorageWriter::GetStateVectorFileName"); }
  String8 GetStateVectorFilePath() const  override { mock_unexpected("unexpected call of IStorageWriter::GetStateVectorFilePath"); }
};
} // namespace Smp
namespace Smp {
class MockIPersist : public virtual IPersist {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IPersist::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IPersist::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IPersist::GetParent"); }
  void Restore(IStorageReader *reader)   override { mock_unexpected("unexpected call of IPersist::Restore"); }
  void Store(IStorageWriter *writer)   override { mock_unexpected("unexpected call of IPersist::Store"); }
};
} // namespace Smp
namespace Smp {
class MockIEntryPoint : public virtual IEntryPoint {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IEntryPoint::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IEntryPoint::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IEntryPoint::GetParent"); }
  void Execute() const  override { mock_unexpected("unexpected call of IEntryPoint::Execute"); }
};
} // namespace Smp
namespace Smp {
class MockIRequest : public virtual IRequest {
public:
  String8 GetOperationName() const  override { mock_unexpected("unexpected call of IRequest::GetOperationName"); }
  Int32 GetParameterCount() const  override { mock_unexpected("unexpected call of IRequest::GetParameterCount"); }
  Int32 GetParameterIndex(String8 parameterName) const  override { mock_unexpected("unexpected call of IRequest::GetParameterIndex"); }
  void SetParameterValue(Int32 index, AnySimple value)   override { mock_unexpected("unexpected call of IRequest::SetParameterValue"); }
  AnySimple GetParameterValue(Int32 index) const  override { mock_unexpected("unexpected call of IRequest::GetParameterValue"); }
  void SetReturnValue(AnySimple value)   override { mock_unexpected("unexpected call of IRequest::SetReturnValue"); }
  AnySimple GetReturnValue() const  override { mock_unexpected("unexpected call of IRequest::GetReturnValue"); }
};
} // namespace Smp
namespace Smp::Publication {
class MockIType : public virtual IType {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IType::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IType::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IType::GetParent"); }
  PrimitiveTypeKind GetPrimitiveTypeKind() const  override { mock_unexpected("unexpected call of IType::GetPrimitiveTypeKind"); }
  Uuid GetUuid() const  override { mock_unexpected("unexpected call of IType::GetUuid"); }
  void Publish(IPublication *receiver, String8 name, String8 description, void *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IType::Publish"); }
};
} // namespace Smp::Publication
namespace Smp::Publication {
class MockIArrayType : public virtual IArrayType {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IArrayType::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IArrayType::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IArrayType::GetParent"); }
  PrimitiveTypeKind GetPrimitiveTypeKind() const  override { mock_unexpected("unexpected call of IArrayType::GetPrimitiveTypeKind"); }
  Uuid GetUuid() const  override { mock_unexpected("unexpected call of IArrayType::GetUuid"); }
  void Publish(IPublication *receiver, String8 name, String8 description, void *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IArrayType::Publish"); }
  UInt64 GetSize() const  override { mock_unexpected("unexpected call of IArrayType::GetSize"); }
  const IType * GetItemType() const  override { mock_unexpected("unexpected call of IArrayType::GetItemType"); }
};
} // namespace Smp::Publication
namespace Smp::Publication {
class MockIEnumerationType : public virtual IEnumerationType {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IEnumerationType::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IEnumerationType::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IEnumerationType::GetParent"); }
  PrimitiveTypeKind GetPrimitiveTypeKind() const  override { mock_unexpected("unexpected call of IEnumerationType::GetPrimitiveTypeKind"); }
  Uuid GetUuid() const  override { mock_unexpected("unexpected call of IEnumerationType::GetUuid"); }
  void Publish(IPublication *receiver, String8 name, String8 description, void *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IEnumerationType::Publish"); }
  void AddLiteral(String8 name, String8 description, Int32 value)   override { mock_unexpected("unexpected call of IEnumerationType::AddLiteral"); }
};
} // namespace Smp::Publication
namespace Smp::Publication {
class MockIStructureType : public virtual IStructureType {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IStructureType::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IStructureType::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IStructureType::GetParent"); }
  PrimitiveTypeKind GetPrimitiveTypeKind() const  override { mock_unexpected("unexpected call of IStructureType::GetPrimitiveTypeKind"); }
  Uuid GetUuid() const  override { mock_unexpected("unexpected call of IStructureType::GetUuid"); }
  void Publish(IPublication *receiver, String8 name, String8 description, void *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IStructureType::Publish"); }
  void AddField(String8 name, String8 description, Uuid uuid, Int64 offset, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IStructureType::AddField"); }
};
} // namespace Smp::Publication
namespace Smp::Publication {
class MockIClassType : public virtual IClassType {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IClassType::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IClassType::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IClassType::GetParent"); }
  PrimitiveTypeKind GetPrimitiveTypeKind() const  override { mock_unexpected("unexpected call of IClassType::GetPrimitiveTypeKind"); }
  Uuid GetUuid() const  override { mock_unexpected("unexpected call of IClassType::GetUuid"); }
  void Publish(IPublication *receiver, String8 name, String8 description, void *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IClassType::Publish"); }
  void AddField(String8 name, String8 description, Uuid uuid, Int64 offset, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IClassType::AddField"); }
};
} // namespace Smp::Publication
namespace Smp::Publication {
class MockITypeRegistry : public virtual ITypeRegistry {
public:
  IType * GetType(PrimitiveTypeKind type) const  override { mock_unexpected("unexpected call of ITypeRegistry::GetType"); }
  IType * GetType(Uuid typeUuid) const  override { mock_unexpected("unexpected call of ITypeRegistry::GetType"); }
  IType * AddFloatType(String8 name, String8 description, Uuid typeUuid, Float64 minimum, Float64 maximum, Bool minInclusive, Bool maxInclusive, String8 unit, PrimitiveTypeKind type )   override { mock_unexpected("unexpected call of ITypeRegistry::AddFloatType"); }
  IType * AddIntegerType(String8 name, String8 description, Uuid typeUuid, Int64 minimum, Int64 maximum, String8 unit, PrimitiveTypeKind type )   override { mock_unexpected("unexpected call of ITypeRegistry::AddIntegerType"); }
  IEnumerationType * AddEnumerationType(String8 name, String8 description, Uuid typeUuid, Int16 memorySize)   override { mock_unexpected("unexpected call of ITypeRegistry::AddEnumerationType"); }
  IArrayType * AddArrayType(String8 name, String8 description, Uuid typeUuid, Uuid itemTypeUuid, Int64 itemSize, Int64 arrayCount, Bool simpleArray )   override { mock_unexpected("unexpected call of ITypeRegistry::AddArrayType"); }
  IType * AddStringType(String8 name, String8 description, Uuid typeUuid, Int64 length)   override { mock_unexpected("unexpected call of ITypeRegistry::AddStringType"); }
  IStructureType * AddStructureType(String8 name, String8 description, Uuid typeUuid)   override { mock_unexpected("unexpected call of ITypeRegistry::AddStructureType"); }
  IClassType * AddClassType(String8 name, String8 description, Uuid typeUuid, Uuid baseClassUuid)   override { mock_unexpected("unexpected call of ITypeRegistry::AddClassType"); }
};
} // namespace Smp::Publication
namespace Smp::Publication {
class MockIPublishOperation : public virtual IPublishOperation {
public:
  void PublishParameter(String8 name, String8 description, Uuid typeUuid, ParameterDirectionKind direction )   override { mock_unexpected("unexpected call of IPublishOperation::PublishParameter"); }
};
} // namespace Smp::Publication
namespace Smp {
class MockIField : public virtual IField {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IField::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IField::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IField::GetParent"); }
  void Restore(IStorageReader *reader)   override { mock_unexpected("unexpected call of IField::Restore"); }
  void Store(IStorageWriter *writer)   override { mock_unexpected("unexpected call of IField::Store"); }
  ViewKind GetView() const  override { mock_unexpected("unexpected call of IField::GetView"); }
  Bool IsState() const  override { mock_unexpected("unexpected call of IField::IsState"); }
  Bool IsInput() const  override { mock_unexpected("unexpected call of IField::IsInput"); }
  Bool IsOutput() const  override { mock_unexpected("unexpected call of IField::IsOutput"); }
  const Publication::IType * GetType() const  override { mock_unexpected("unexpected call of IField::GetType"); }
};
} // namespace Smp
namespace Smp {
class MockISimpleField : public virtual ISimpleField {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of ISimpleField::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of ISimpleField::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of ISimpleField::GetParent"); }
  void Restore(IStorageReader *reader)   override { mock_unexpected("unexpected call of ISimpleField::Restore"); }
  void Store(IStorageWriter *writer)   override { mock_unexpected("unexpected call of ISimpleField::Store"); }
  ViewKind GetView() const  override { mock_unexpected("unexpected call of ISimpleField::GetView"); }
  Bool IsState() const  override { mock_unexpected("unexpected call of ISimpleField::IsState"); }
  Bool IsInput() const  override { mock_unexpected("unexpected call of ISimpleField::IsInput"); }
  Bool IsOutput() const  override { mock_unexpected("unexpected call of ISimpleField::IsOutput"); }
  const Publication::IType * GetType() const  override { mock_unexpected("unexpected call of ISimpleField::GetType"); }
  PrimitiveTypeKind GetPrimitiveTypeKind() const  override { mock_unexpected("unexpected call of ISimpleField::GetPrimitiveTypeKind"); }
  AnySimple GetValue() const  override { mock_unexpected("unexpected call of ISimpleField::GetValue"); }
  void SetValue(AnySimple value)   override { mock_unexpected("unexpected call of ISimpleField::SetValue"); }
};
} // namespace Smp
namespace Smp {
class MockIForcibleField : public virtual IForcibleField {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IForcibleField::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IForcibleField::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IForcibleField::GetParent"); }
  void Restore(IStorageReader *reader)   override { mock_unexpected("unexpected call of IForcibleField::Restore"); }
  void Store(IStorageWriter *writer)   override { mock_unexpected("unexpected call of IForcibleField::Store"); }
  ViewKind GetView() const  override { mock_unexpected("unexpected call of IForcibleField::GetView"); }
  Bool IsState() const  override { mock_unexpected("unexpected call of IForcibleField::IsState"); }
  Bool IsInput() const  override { mock_unexpected("unexpected call of IForcibleField::IsInput"); }
  Bool IsOutput() const  override { mock_unexpected("unexpected call of IForcibleField::IsOutput"); }
  const Publication::IType * GetType() const  override { mock_unexpected("unexpected call of IForcibleField::GetType"); }
  PrimitiveTypeKind GetPrimitiveTypeKind() const  override { mock_unexpected("unexpected call of IForcibleField::GetPrimitiveTypeKind"); }
  AnySimple GetValue() const  override { mock_unexpected("unexpected call of IForcibleField::GetValue"); }
  void SetValue(AnySimple value)   override { mock_unexpected("unexpected call of IForcibleField::SetValue"); }
  void Force(AnySimple value)   override { mock_unexpected("unexpected call of IForcibleField::Force"); }
  void Unforce()   override { mock_unexpected("unexpected call of IForcibleField::Unforce"); }
  Bool IsForced()   override { mock_unexpected("unexpected call of IForcibleField::IsForced"); }
  void Freeze()   override { mock_unexpected("unexpected call of IForcibleField::Freeze"); }
};
} // namespace Smp
namespace Smp {
class MockIArrayField : public virtual IArrayField {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IArrayField::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IArrayField::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IArrayField::GetParent"); }
  void Restore(IStorageReader *reader)   override { mock_unexpected("unexpected call of IArrayField::Restore"); }
  void Store(IStorageWriter *writer)   override { mock_unexpected("unexpected call of IArrayField::Store"); }
  ViewKind GetView() const  override { mock_unexpected("unexpected call of IArrayField::GetView"); }
  Bool IsState() const  override { mock_unexpected("unexpected call of IArrayField::IsState"); }
  Bool IsInput() const  override { mock_unexpected("unexpected call of IArrayField::IsInput"); }
  Bool IsOutput() const  override { mock_unexpected("unexpected call of IArrayField::IsOutput"); }
  const Publication::IType * GetType() const  override { mock_unexpected("unexpected call of IArrayField::GetType"); }
  UInt64 GetSize() const  override { mock_unexpected("unexpected call of IArrayField::GetSize"); }
  IField * GetItem(UInt64 index) const  override { mock_unexpected("unexpected call of IArrayField::GetItem"); }
};
} // namespace Smp
namespace Smp {
class MockISimpleArrayField : public virtual ISimpleArrayField {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of ISimpleArrayField::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of ISimpleArrayField::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of ISimpleArrayField::GetParent"); }
  void Restore(IStorageReader *reader)   override { mock_unexpected("unexpected call of ISimpleArrayField::Restore"); }
  void Store(IStorageWriter *writer)   override { mock_unexpected("unexpected call of ISimpleArrayField::Store"); }
  ViewKind GetView() const  override { mock_unexpected("unexpected call of ISimpleArrayField::GetView"); }
  Bool IsState() const  override { mock_unexpected("unexpected call of ISimpleArrayField::IsState"); }
  Bool IsInput() const  override { mock_unexpected("unexpected call of ISimpleArrayField::IsInput"); }
  Bool IsOutput() const  override { mock_unexpected("unexpected call of ISimpleArrayField::IsOutput"); }
  const Publication::IType * GetType() const  override { mock_unexpected("unexpected call of ISimpleArrayField::GetType"); }
  UInt64 GetSize() const  override { mock_unexpected("unexpected call of ISimpleArrayField::GetSize"); }
  AnySimple GetValue(UInt64 index) const  override { mock_unexpected("unexpected call of ISimpleArrayField::GetValue"); }
  void SetValue(UInt64 index, AnySimple value)   override { mock_unexpected("unexpected call of ISimpleArrayField::SetValue"); }
  void GetValues(UInt64 length, AnySimpleArray values) const  override { mock_unexpected("unexpected call of ISimpleArrayField::GetValues"); }
  void SetValues(UInt64 length, AnySimpleArray values)   override { mock_unexpected("unexpected call of ISimpleArrayField::SetValues"); }
};
} // namespace Smp
namespace Smp {
class MockIStructureField : public virtual IStructureField {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IStructureField::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IStructureField::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IStructureField::GetParent"); }
  void Restore(IStorageReader *reader)   override { mock_unexpected("unexpected call of IStructureField::Restore"); }
  void Store(IStorageWriter *writer)   override { mock_unexpected("unexpected call of IStructureField::Store"); }
  ViewKind GetView() const  override { mock_unexpected("unexpected call of IStructureField::GetView"); }
  Bool IsState() const  override { mock_unexpected("unexpected call of IStructureField::IsState"); }
  Bool IsInput() const  override { mock_unexpected("unexpected call of IStructureField::IsInput"); }
  Bool IsOutput() const  override { mock_unexpected("unexpected call of IStructureField::IsOutput"); }
  const Publication::IType * GetType() const  override { mock_unexpected("unexpected call of IStructureField::GetType"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of IStructureField::GetFields"); }
  IField * GetField(String8 name) const  override { mock_unexpected("unexpected call of IStructureField::GetField"); }
};
} // namespace Smp
namespace Smp {
class MockIDataflowField : public virtual IDataflowField {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IDataflowField::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IDataflowField::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IDataflowField::GetParent"); }
  void Restore(IStorageReader *reader)   override { mock_unexpected("unexpected call of IDataflowField::Restore"); }
  void Store(IStorageWriter *writer)   override { mock_unexpected("unexpected call of IDataflowField::Store"); }
  ViewKind GetView() const  override { mock_unexpected("unexpected call of IDataflowField::GetView"); }
  Bool IsState() const  override { mock_unexpected("unexpected call of IDataflowField::IsState"); }
  Bool IsInput() const  override { mock_unexpected("unexpected call of IDataflowField::IsInput"); }
  Bool IsOutput() const  override { mock_unexpected("unexpected call of IDataflowField::IsOutput"); }
  const Publication::IType * GetType() const  override { mock_unexpected("unexpected call of IDataflowField::GetType"); }
  void Connect(IField *target)   override { mock_unexpected("unexpected call of IDataflowField::Connect"); }
  void Push()   override { mock_unexpected("unexpected call of IDataflowField::Push"); }
};
} // namespace Smp
namespace Smp {
class MockIFailure : public virtual IFailure {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IFailure::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IFailure::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IFailure::GetParent"); }
  void Restore(IStorageReader *reader)   override { mock_unexpected("unexpected call of IFailure::Restore"); }
  void Store(IStorageWriter *writer)   override { mock_unexpected("unexpected call of IFailure::Store"); }
  void Fail()   override { mock_unexpected("unexpected call of IFailure::Fail"); }
  void Unfail()   override { mock_unexpected("unexpected call of IFailure::Unfail"); }
  Bool IsFailed() const  override { mock_unexpected("unexpected call of IFailure::IsFailed"); }
};
} // namespace Smp
namespace Smp {
class MockIParameter : public virtual IParameter {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IParameter::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IParameter::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IParameter::GetParent"); }
  Publication::IType * GetType() const  override { mock_unexpected("unexpected call of IParameter::GetType"); }
  Publication::ParameterDirectionKind GetDirection() const  override { mock_unexpected("unexpected call of IParameter::GetDirection"); }
};
} // namespace Smp
namespace Smp {
class MockIOperation : public virtual IOperation {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IOperation::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IOperation::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IOperation::GetParent"); }
  const ParameterCollection * GetParameters() const  override { mock_unexpected("unexpected call of IOperation::GetParameters"); }
  IParameter * GetParameter(String8 name) const  override { mock_unexpected("unexpected call of IOperation::GetParameter"); }
  IParameter * GetReturnParameter() const  override { mock_unexpected("unexpected call of IOperation::GetReturnParameter"); }
  ViewKind GetView() const  override { mock_unexpected("unexpected call of IOperation::GetView"); }
  IRequest * CreateRequest()   override { mock_unexpected("unexpected call of IOperation::CreateRequest"); }
  void Invoke(IRequest *request)   override { mock_unexpected("unexpected call of IOperation::Invoke"); }
  void DeleteRequest(IRequest *request)   override { mock_unexpected("unexpected call of IOperation::DeleteRequest"); }
};
} // namespace Smp
namespace Smp {
class MockIProperty : public virtual IProperty {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IProperty::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IProperty::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IProperty::GetParent"); }
  Publication::IType * GetType() const  override { mock_unexpected("unexpected call of IProperty::GetType"); }
  AccessKind GetAccess() const  override { mock_unexpected("unexpected call of IProperty::GetAccess"); }
  ViewKind GetView() const  override { mock_unexpected("unexpected call of IProperty::GetView"); }
  AnySimple GetValue() const  override { mock_unexpected("unexpected call of IProperty::GetValue"); }
  void SetValue(AnySimple value)   override { mock_unexpected("unexpected call of IProperty::SetValue"); }
};
} // namespace Smp
namespace Smp {
class MockIPublication : public virtual IPublication {
public:
  Publication::ITypeRegistry * GetTypeRegistry() const  override { mock_unexpected("unexpected call of IPublication::GetTypeRegistry"); }
  void PublishField(String8 name, String8 description, Char8 *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IPublication::PublishField"); }
  void PublishField(String8 name, String8 description, Bool *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IPublication::PublishField"); }
  void PublishField(String8 name, String8 description, Int8 *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IPublication::PublishField"); }
  void PublishField(String8 name, String8 description, Int16 *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IPublication::PublishField"); }
  void PublishField(String8 name, String8 description, Int32 *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IPublication::PublishField"); }
  void PublishField(String8 name, String8 description, Int64 *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IPublication::PublishField"); }
  void PublishField(String8 name, String8 description, UInt8 *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IPublication::PublishField"); }
  void PublishField(String8 name, String8 description, UInt16 *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IPublication::PublishField"); }
  void PublishField(String8 name, String8 description, UInt32 *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IPublication::PublishField"); }
  void PublishField(String8 name, String8 description, UInt64 *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IPublication::PublishField"); }
  void PublishField(String8 name, String8 description, Float32 *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IPublication::PublishField"); }
  void PublishField(String8 name, String8 description, Float64 *address, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IPublication::PublishField"); }
  void PublishField(String8 name, String8 description, void *address, Uuid typeUuid, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IPublication::PublishField"); }
  void PublishField(IField *field)   override { mock_unexpected("unexpected call of IPublication::PublishField"); }
  void PublishArray(String8 name, String8 description, Int64 count, void *address, PrimitiveTypeKind type, ViewKind view , Bool state , Bool input , Bool output )   override { mock_unexpected("unexpected call of IPublication::PublishArray"); }
  IPublication * PublishArray(String8 name, String8 description, ViewKind view , Bool state )   override { mock_unexpected("unexpected call of IPublication::PublishArray"); }
  IPublication * PublishStructure(String8 name, String8 description, ViewKind view , Bool state )   override { mock_unexpected("unexpected call of IPublication::PublishStructure"); }
  Publication::IPublishOperation * PublishOperation(String8 name, String8 description, ViewKind view )   override { mock_unexpected("unexpected call of IPublication::PublishOperation"); }
  void PublishProperty(String8 name, String8 description, Uuid typeUuid, AccessKind accessKind, ViewKind view )   override { mock_unexpected("unexpected call of IPublication::PublishProperty"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of IPublication::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of IPublication::GetFields"); }
  const PropertyCollection * GetProperties() const  override { mock_unexpected("unexpected call of IPublication::GetProperties"); }
  const OperationCollection * GetOperations() const  override { mock_unexpected("unexpected call of IPublication::GetOperations"); }
  IRequest * CreateRequest(String8 operationName)   override { mock_unexpected("unexpected call of IPublication::CreateRequest"); }
  void DeleteRequest(IRequest *request)   override { mock_unexpected("unexpected call of IPublication::DeleteRequest"); }
  void Unpublish()   override { mock_unexpected("unexpected call of IPublication::Unpublish"); }
};
} // namespace Smp
namespace Smp {
class MockIComponent : public virtual IComponent {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IComponent::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IComponent::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IComponent::GetParent"); }
  ComponentStateKind GetState() const  override { mock_unexpected("unexpected call of IComponent::GetState"); }
  void Publish(IPublication *receiver)   override { mock_unexpected("unexpected call of IComponent::Publish"); }
  void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry)   override { mock_unexpected("unexpected call of IComponent::Configure"); }
  void Connect(ISimulator *simulator)   override { mock_unexpected("unexpected call of IComponent::Connect"); }
  void Disconnect()   override { mock_unexpected("unexpected call of IComponent::Disconnect"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of IComponent::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of IComponent::GetFields"); }
  const Uuid & GetUuid() const  override { mock_unexpected("unexpected call of IComponent::GetUuid"); }
};
} // namespace Smp
namespace Smp {
class MockILinkingComponent : public virtual ILinkingComponent {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of ILinkingComponent::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of ILinkingComponent::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of ILinkingComponent::GetParent"); }
  ComponentStateKind GetState() const  override { mock_unexpected("unexpected call of ILinkingComponent::GetState"); }
  void Publish(IPublication *receiver)   override { mock_unexpected("unexpected call of ILinkingComponent::Publish"); }
  void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry)   override { mock_unexpected("unexpected call of ILinkingComponent::Configure"); }
  void Connect(ISimulator *simulator)   override { mock_unexpected("unexpected call of ILinkingComponent::Connect"); }
  void Disconnect()   override { mock_unexpected("unexpected call of ILinkingComponent::Disconnect"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of ILinkingComponent::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of ILinkingComponent::GetFields"); }
  const Uuid & GetUuid() const  override { mock_unexpected("unexpected call of ILinkingComponent::GetUuid"); }
  void RemoveLinks(const IComponent *target)   override { mock_unexpected("unexpected call of ILinkingComponent::RemoveLinks"); }
};
} // namespace Smp
namespace Smp {
class MockIDynamicInvocation : public virtual IDynamicInvocation {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IDynamicInvocation::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IDynamicInvocation::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IDynamicInvocation::GetParent"); }
  ComponentStateKind GetState() const  override { mock_unexpected("unexpected call of IDynamicInvocation::GetState"); }
  void Publish(IPublication *receiver)   override { mock_unexpected("unexpected call of IDynamicInvocation::Publish"); }
  void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry)   override { mock_unexpected("unexpected call of IDynamicInvocation::Configure"); }
  void Connect(ISimulator *simulator)   override { mock_unexpected("unexpected call of IDynamicInvocation::Connect"); }
  void Disconnect()   override { mock_unexpected("unexpected call of IDynamicInvocation::Disconnect"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of IDynamicInvocation::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of IDynamicInvocation::GetFields"); }
  const Uuid & GetUuid() const  override { mock_unexpected("unexpected call of IDynamicInvocation::GetUuid"); }
  IRequest * CreateRequest(String8 operationName)   override { mock_unexpected("unexpected call of IDynamicInvocation::CreateRequest"); }
  void Invoke(IRequest *request)   override { mock_unexpected("unexpected call of IDynamicInvocation::Invoke"); }
  void DeleteRequest(IRequest *request)   override { mock_unexpected("unexpected call of IDynamicInvocation::DeleteRequest"); }
  const PropertyCollection * GetProperties() const  override { mock_unexpected("unexpected call of IDynamicInvocation::GetProperties"); }
  const OperationCollection * GetOperations() const  override { mock_unexpected("unexpected call of IDynamicInvocation::GetOperations"); }
};
} // namespace Smp
namespace Smp {
class MockIModel : public virtual IModel {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IModel::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IModel::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IModel::GetParent"); }
  ComponentStateKind GetState() const  override { mock_unexpected("unexpected call of IModel::GetState"); }
  void Publish(IPublication *receiver)   override { mock_unexpected("unexpected call of IModel::Publish"); }
  void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry)   override { mock_unexpected("unexpected call of IModel::Configure"); }
  void Connect(ISimulator *simulator)   override { mock_unexpected("unexpected call of IModel::Connect"); }
  void Disconnect()   override { mock_unexpected("unexpected call of IModel::Disconnect"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of IModel::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of IModel::GetFields"); }
  const Uuid & GetUuid() const  override { mock_unexpected("unexpected call of IModel::GetUuid"); }
};
} // namespace Smp
namespace Smp {
class MockIService : public virtual IService {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IService::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IService::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IService::GetParent"); }
  ComponentStateKind GetState() const  override { mock_unexpected("unexpected call of IService::GetState"); }
  void Publish(IPublication *receiver)   override { mock_unexpected("unexpected call of IService::Publish"); }
  void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry)   override { mock_unexpected("unexpected call of IService::Configure"); }
  void Connect(ISimulator *simulator)   override { mock_unexpected("unexpected call of IService::Connect"); }
  void Disconnect()   override { mock_unexpected("unexpected call of IService::Disconnect"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of IService::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of IService::GetFields"); }
  const Uuid & GetUuid() const  override { mock_unexpected("unexpected call of IService::GetUuid"); }
};
} // namespace Smp
namespace Smp {
class MockIReference : public virtual IReference {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IReference::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IReference::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IReference::GetParent"); }
  const ComponentCollection * GetComponents() const  override { mock_unexpected("unexpected call of IReference::GetComponents"); }
  IComponent * GetComponent(String8 name) const  override { mock_unexpected("unexpected call of IReference::GetComponent"); }
  void AddComponent(IComponent *component)   override { mock_unexpected("unexpected call of IReference::AddComponent"); }
  void RemoveComponent(IComponent *component)   override { mock_unexpected("unexpected call of IReference::RemoveComponent"); }
  Int64 GetCount() const  override { mock_unexpected("unexpected call of IReference::GetCount"); }
  Int64 GetUpper() const  override { mock_unexpected("unexpected call of IReference::GetUpper"); }
  Int64 GetLower() const  override { mock_unexpected("unexpected call of IReference::GetLower"); }
};
} // namespace Smp
namespace Smp {
class MockIAggregate : public virtual IAggregate {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IAggregate::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IAggregate::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IAggregate::GetParent"); }
  ComponentStateKind GetState() const  override { mock_unexpected("unexpected call of IAggregate::GetState"); }
  void Publish(IPublication *receiver)   override { mock_unexpected("unexpected call of IAggregate::Publish"); }
  void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry)   override { mock_unexpected("unexpected call of IAggregate::Configure"); }
  void Connect(ISimulator *simulator)   override { mock_unexpected("unexpected call of IAggregate::Connect"); }
  void Disconnect()   override { mock_unexpected("unexpected call of IAggregate::Disconnect"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of IAggregate::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of IAggregate::GetFields"); }
  const Uuid & GetUuid() const  override { mock_unexpected("unexpected call of IAggregate::GetUuid"); }
  const ReferenceCollection * GetReferences() const  override { mock_unexpected("unexpected call of IAggregate::GetReferences"); }
  IReference * GetReference(String8 name) const  override { mock_unexpected("unexpected call of IAggregate::GetReference"); }
};
} // namespace Smp
namespace Smp {
class MockIContainer : public virtual IContainer {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IContainer::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IContainer::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IContainer::GetParent"); }
  const ComponentCollection * GetComponents() const  override { mock_unexpected("unexpected call of IContainer::GetComponents"); }
  IComponent * GetComponent(String8 name) const  override { mock_unexpected("unexpected call of IContainer::GetComponent"); }
  void AddComponent(IComponent *component)   override { mock_unexpected("unexpected call of IContainer::AddComponent"); }
  void DeleteComponent(IComponent *component)   override { mock_unexpected("unexpected call of IContainer::DeleteComponent"); }
  Int64 GetCount() const  override { mock_unexpected("unexpected call of IContainer::GetCount"); }
  Int64 GetUpper() const  override { mock_unexpected("unexpected call of IContainer::GetUpper"); }
  Int64 GetLower() const  override { mock_unexpected("unexpected call of IContainer::GetLower"); }
};
} // namespace Smp
namespace Smp {
class MockIComposite : public virtual IComposite {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IComposite::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IComposite::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IComposite::GetParent"); }
  const ContainerCollection * GetContainers() const  override { mock_unexpected("unexpected call of IComposite::GetContainers"); }
  IContainer * GetContainer(String8 name) const  override { mock_unexpected("unexpected call of IComposite::GetContainer"); }
};
} // namespace Smp
namespace Smp {
class MockIEntryPointPublisher : public virtual IEntryPointPublisher {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IEntryPointPublisher::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IEntryPointPublisher::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IEntryPointPublisher::GetParent"); }
  const EntryPointCollection * GetEntryPoints() const  override { mock_unexpected("unexpected call of IEntryPointPublisher::GetEntryPoints"); }
  IEntryPoint * GetEntryPoint(String8 name) const  override { mock_unexpected("unexpected call of IEntryPointPublisher::GetEntryPoint"); }
};
} // namespace Smp
namespace Smp {
class MockIEventSink : public virtual IEventSink {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IEventSink::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IEventSink::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IEventSink::GetParent"); }
  PrimitiveTypeKind GetEventArgType() const  override { mock_unexpected("unexpected call of IEventSink::GetEventArgType"); }
  void Notify(IObject *sender, AnySimple arg)   override { mock_unexpected("unexpected call of IEventSink::Notify"); }
};
} // namespace Smp
namespace Smp {
class MockIEventConsumer : public virtual IEventConsumer {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IEventConsumer::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IEventConsumer::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IEventConsumer::GetParent"); }
  ComponentStateKind GetState() const  override { mock_unexpected("unexpected call of IEventConsumer::GetState"); }
  void Publish(IPublication *receiver)   override { mock_unexpected("unexpected call of IEventConsumer::Publish"); }
  void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry)   override { mock_unexpected("unexpected call of IEventConsumer::Configure"); }
  void Connect(ISimulator *simulator)   override { mock_unexpected("unexpected call of IEventConsumer::Connect"); }
  void Disconnect()   override { mock_unexpected("unexpected call of IEventConsumer::Disconnect"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of IEventConsumer::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of IEventConsumer::GetFields"); }
  const Uuid & GetUuid() const  override { mock_unexpected("unexpected call of IEventConsumer::GetUuid"); }
  const EventSinkCollection * GetEventSinks() const  override { mock_unexpected("unexpected call of IEventConsumer::GetEventSinks"); }
  IEventSink * GetEventSink(String8 name) const  override { mock_unexpected("unexpected call of IEventConsumer::GetEventSink"); }
};
} // namespace Smp
namespace Smp {
class MockIEventSource : public virtual IEventSource {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IEventSource::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IEventSource::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IEventSource::GetParent"); }
  void Subscribe(IEventSink *eventSink)   override { mock_unexpected("unexpected call of IEventSource::Subscribe"); }
  void Unsubscribe(IEventSink *eventSink)   override { mock_unexpected("unexpected call of IEventSource::Unsubscribe"); }
};
} // namespace Smp
namespace Smp {
class MockIEventProvider : public virtual IEventProvider {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IEventProvider::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IEventProvider::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IEventProvider::GetParent"); }
  ComponentStateKind GetState() const  override { mock_unexpected("unexpected call of IEventProvider::GetState"); }
  void Publish(IPublication *receiver)   override { mock_unexpected("unexpected call of IEventProvider::Publish"); }
  void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry)   override { mock_unexpected("unexpected call of IEventProvider::Configure"); }
  void Connect(ISimulator *simulator)   override { mock_unexpected("unexpected call of IEventProvider::Connect"); }
  void Disconnect()   override { mock_unexpected("unexpected call of IEventProvider::Disconnect"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of IEventProvider::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of IEventProvider::GetFields"); }
  const Uuid & GetUuid() const  override { mock_unexpected("unexpected call of IEventProvider::GetUuid"); }
  const EventSourceCollection * GetEventSources() const  override { mock_unexpected("unexpected call of IEventProvider::GetEventSources"); }
  IEventSource * GetEventSource(String8 name) const  override { mock_unexpected("unexpected call of IEventProvider::GetEventSource"); }
};
} // namespace Smp
namespace Smp {
class MockIFallibleModel : public virtual IFallibleModel {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IFallibleModel::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IFallibleModel::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IFallibleModel::GetParent"); }
  ComponentStateKind GetState() const  override { mock_unexpected("unexpected call of IFallibleModel::GetState"); }
  void Publish(IPublication *receiver)   override { mock_unexpected("unexpected call of IFallibleModel::Publish"); }
  void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry)   override { mock_unexpected("unexpected call of IFallibleModel::Configure"); }
  void Connect(ISimulator *simulator)   override { mock_unexpected("unexpected call of IFallibleModel::Connect"); }
  void Disconnect()   override { mock_unexpected("unexpected call of IFallibleModel::Disconnect"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of IFallibleModel::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of IFallibleModel::GetFields"); }
  const Uuid & GetUuid() const  override { mock_unexpected("unexpected call of IFallibleModel::GetUuid"); }
  Bool IsFailed() const  override { mock_unexpected("unexpected call of IFallibleModel::IsFailed"); }
  const FailureCollection * GetFailures() const  override { mock_unexpected("unexpected call of IFallibleModel::GetFailures"); }
  IFailure * GetFailure(String8 name) const  override { mock_unexpected("unexpected call of IFallibleModel::GetFailure"); }
};
} // namespace Smp
namespace Smp {
class MockIFactory : public virtual IFactory {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IFactory::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IFactory::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IFactory::GetParent"); }
  Uuid GetUuid() const  override { mock_unexpected("unexpected call of IFactory::GetUuid"); }
  IComponent * CreateInstance(String8 name, String8 description, IComposite *parent)   override { mock_unexpected("unexpected call of IFactory::CreateInstance"); }
  void DeleteInstance(IComponent *instance)   override { mock_unexpected("unexpected call of IFactory::DeleteInstance"); }
  String8 GetTypeName() const  override { mock_unexpected("unexpected call of IFactory::GetTypeName"); }
};
} // namespace Smp
namespace Smp::Services {
class MockIEventManager : public virtual IEventManager {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IEventManager::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IEventManager::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IEventManager::GetParent"); }
  ComponentStateKind GetState() const  override { mock_unexpected("unexpected call of IEventManager::GetState"); }
  void Publish(IPublication *receiver)   override { mock_unexpected("unexpected call of IEventManager::Publish"); }
  void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry)   override { mock_unexpected("unexpected call of IEventManager::Configure"); }
  void Connect(ISimulator *simulator)   override { mock_unexpected("unexpected call of IEventManager::Connect"); }
  void Disconnect()   override { mock_unexpected("unexpected call of IEventManager::Disconnect"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of IEventManager::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of IEventManager::GetFields"); }
  const Uuid & GetUuid() const  override { mock_unexpected("unexpected call of IEventManager::GetUuid"); }
  EventId QueryEventId(String8 eventName)   override { mock_unexpected("unexpected call of IEventManager::QueryEventId"); }
  void Subscribe(EventId event, const IEntryPoint *entryPoint)   override { mock_unexpected("unexpected call of IEventManager::Subscribe"); }
  void Unsubscribe(EventId event, const IEntryPoint *entryPoint)   override { mock_unexpected("unexpected call of IEventManager::Unsubscribe"); }
  void Emit(EventId event, Bool synchronous )   override { mock_unexpected("unexpected call of IEventManager::Emit"); }
};
} // namespace Smp::Services
namespace Smp::Services {
class MockILinkRegistry : public virtual ILinkRegistry {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of ILinkRegistry::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of ILinkRegistry::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of ILinkRegistry::GetParent"); }
  ComponentStateKind GetState() const  override { mock_unexpected("unexpected call of ILinkRegistry::GetState"); }
  void Publish(IPublication *receiver)   override { mock_unexpected("unexpected call of ILinkRegistry::Publish"); }
  void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry)   override { mock_unexpected("unexpected call of ILinkRegistry::Configure"); }
  void Connect(ISimulator *simulator)   override { mock_unexpected("unexpected call of ILinkRegistry::Connect"); }
  void Disconnect()   override { mock_unexpected("unexpected call of ILinkRegistry::Disconnect"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of ILinkRegistry::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of ILinkRegistry::GetFields"); }
  const Uuid & GetUuid() const  override { mock_unexpected("unexpected call of ILinkRegistry::GetUuid"); }
  void AddLink(IComponent *source, const IComponent *target)   override { mock_unexpected("unexpected call of ILinkRegistry::AddLink"); }
  UInt32 GetLinkCount(const IComponent *source, const IComponent *target) const  override { mock_unexpected("unexpected call of ILinkRegistry::GetLinkCount"); }
  Bool RemoveLink(IComponent *source, const IComponent *target)   override { mock_unexpected("unexpected call of ILinkRegistry::RemoveLink"); }
  const ComponentCollection * GetLinkSources(const IComponent *target) const  override { mock_unexpected("unexpected call of ILinkRegistry::GetLinkSources"); }
  Bool CanRemove(const IComponent *target)   override { mock_unexpected("unexpected call of ILinkRegistry::CanRemove"); }
  void RemoveLinks(const IComponent *target)   override { mock_unexpected("unexpected call of ILinkRegistry::RemoveLinks"); }
};
} // namespace Smp::Services
namespace Smp::Services {
class MockILogger : public virtual ILogger {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of ILogger::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of ILogger::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of ILogger::GetParent"); }
  ComponentStateKind GetState() const  override { mock_unexpected("unexpected call of ILogger::GetState"); }
  void Publish(IPublication *receiver)   override { mock_unexpected("unexpected call of ILogger::Publish"); }
  void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry)   override { mock_unexpected("unexpected call of ILogger::Configure"); }
  void Connect(ISimulator *simulator)   override { mock_unexpected("unexpected call of ILogger::Connect"); }
  void Disconnect()   override { mock_unexpected("unexpected call of ILogger::Disconnect"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of ILogger::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of ILogger::GetFields"); }
  const Uuid & GetUuid() const  override { mock_unexpected("unexpected call of ILogger::GetUuid"); }
  LogMessageKind QueryLogMessageKind(String8 messageKindName)   override { mock_unexpected("unexpected call of ILogger::QueryLogMessageKind"); }
  void Log(const IObject *sender, String8 message, LogMessageKind kind )   override { mock_unexpected("unexpected call of ILogger::Log"); }
};
} // namespace Smp::Services
namespace Smp::Services {
class MockIResolver : public virtual IResolver {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IResolver::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IResolver::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IResolver::GetParent"); }
  ComponentStateKind GetState() const  override { mock_unexpected("unexpected call of IResolver::GetState"); }
  void Publish(IPublication *receiver)   override { mock_unexpected("unexpected call of IResolver::Publish"); }
  void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry)   override { mock_unexpected("unexpected call of IResolver::Configure"); }
  void Connect(ISimulator *simulator)   override { mock_unexpected("unexpected call of IResolver::Connect"); }
  void Disconnect()   override { mock_unexpected("unexpected call of IResolver::Disconnect"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of IResolver::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of IResolver::GetFields"); }
  const Uuid & GetUuid() const  override { mock_unexpected("unexpected call of IResolver::GetUuid"); }
  IObject * ResolveAbsolute(String8 absolutePath)   override { mock_unexpected("unexpected call of IResolver::ResolveAbsolute"); }
  IObject * ResolveRelative(String8 relativePath, const IComponent *sender)   override { mock_unexpected("unexpected call of IResolver::ResolveRelative"); }
};
} // namespace Smp::Services
namespace Smp::Services {
class MockIScheduler : public virtual IScheduler {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of IScheduler::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of IScheduler::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of IScheduler::GetParent"); }
  ComponentStateKind GetState() const  override { mock_unexpected("unexpected call of IScheduler::GetState"); }
  void Publish(IPublication *receiver)   override { mock_unexpected("unexpected call of IScheduler::Publish"); }
  void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry)   override { mock_unexpected("unexpected call of IScheduler::Configure"); }
  void Connect(ISimulator *simulator)   override { mock_unexpected("unexpected call of IScheduler::Connect"); }
  void Disconnect()   override { mock_unexpected("unexpected call of IScheduler::Disconnect"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of IScheduler::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of IScheduler::GetFields"); }
  const Uuid & GetUuid() const  override { mock_unexpected("unexpected call of IScheduler::GetUuid"); }
  EventId AddImmediateEvent(const IEntryPoint *entryPoint)   override { mock_unexpected("unexpected call of IScheduler::AddImmediateEvent"); }
  EventId AddSimulationTimeEvent(const IEntryPoint *entryPoint, Duration simulationTime, Duration cycleTime , Int64 repeat )   override { mock_unexpected("unexpected call of IScheduler::AddSimulationTimeEvent"); }
  EventId AddMissionTimeEvent(const IEntryPoint *entryPoint, Duration missionTime, Duration cycleTime , Int64 repeat )   override { mock_unexpected("unexpected call of IScheduler::AddMissionTimeEvent"); }
  EventId AddEpochTimeEvent(const IEntryPoint *entryPoint, DateTime epochTime, Duration cycleTime , Int64 repeat )   override { mock_unexpected("unexpected call of IScheduler::AddEpochTimeEvent"); }
  EventId AddZuluTimeEvent(const IEntryPoint *entryPoint, DateTime zuluTime, Duration cycleTime , Int64 repeat )   override { mock_unexpected("unexpected call of IScheduler::AddZuluTimeEvent"); }
  void SetEventSimulationTime(EventId event, Duration simulationTime)   override { mock_unexpected("unexpected call of IScheduler::SetEventSimulationTime"); }
  void SetEventMissionTime(EventId event, Duration missionTime)   override { mock_unexpected("unexpected call of IScheduler::SetEventMissionTime"); }
  void SetEventEpochTime(EventId event, DateTime epochTime)   override { mock_unexpected("unexpected call of IScheduler::SetEventEpochTime"); }
  void SetEventZuluTime(EventId event, DateTime zuluTime)   override { mock_unexpected("unexpected call of IScheduler::SetEventZuluTime"); }
  void SetEventCycleTime(EventId event, Duration cycleTime)   override { mock_unexpected("unexpected call of IScheduler::SetEventCycleTime"); }
  void SetEventRepeat(EventId event, Int64 repeat)   override { mock_unexpected("unexpected call of IScheduler::SetEventRepeat"); }
  void RemoveEvent(EventId event)   override { mock_unexpected("unexpected call of IScheduler::RemoveEvent"); }
  EventId GetCurrentEventId() const  override { mock_unexpected("unexpected call of IScheduler::GetCurrentEventId"); }
  Duration GetNextScheduledEventTime() const  override { mock_unexpected("unexpected call of IScheduler::GetNextScheduledEventTime"); }
};
} // namespace Smp::Services
namespace Smp::Services {
class MockITimeKeeper : public virtual ITimeKeeper {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of ITimeKeeper::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of ITimeKeeper::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of ITimeKeeper::GetParent"); }
  ComponentStateKind GetState() const  override { mock_unexpected("unexpected call of ITimeKeeper::GetState"); }
  void Publish(IPublication *receiver)   override { mock_unexpected("unexpected call of ITimeKeeper::Publish"); }
  void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry)   override { mock_unexpected("unexpected call of ITimeKeeper::Configure"); }
  void Connect(ISimulator *simulator)   override { mock_unexpected("unexpected call of ITimeKeeper::Connect"); }
  void Disconnect()   override { mock_unexpected("unexpected call of ITimeKeeper::Disconnect"); }
  IField * GetField(String8 fullName) const  override { mock_unexpected("unexpected call of ITimeKeeper::GetField"); }
  const FieldCollection * GetFields() const  override { mock_unexpected("unexpected call of ITimeKeeper::GetFields"); }
  const Uuid & GetUuid() const  override { mock_unexpected("unexpected call of ITimeKeeper::GetUuid"); }
  Duration GetSimulationTime() const  override { mock_unexpected("unexpected call of ITimeKeeper::GetSimulationTime"); }
  DateTime GetEpochTime() const  override { mock_unexpected("unexpected call of ITimeKeeper::GetEpochTime"); }
  DateTime GetMissionStartTime() const  override { mock_unexpected("unexpected call of ITimeKeeper::GetMissionStartTime"); }
  Duration GetMissionTime() const  override { mock_unexpected("unexpected call of ITimeKeeper::GetMissionTime"); }
  DateTime GetZuluTime() const  override { mock_unexpected("unexpected call of ITimeKeeper::GetZuluTime"); }
  void SetSimulationTime(Duration simulationTime)   override { mock_unexpected("unexpected call of ITimeKeeper::SetSimulationTime"); }
  void SetEpochTime(DateTime epochTime)   override { mock_unexpected("unexpected call of ITimeKeeper::SetEpochTime"); }
  void SetMissionStartTime(DateTime missionStart)   override { mock_unexpected("unexpected call of ITimeKeeper::SetMissionStartTime"); }
  void SetMissionTime(Duration missionTime)   override { mock_unexpected("unexpected call of ITimeKeeper::SetMissionTime"); }
};
} // namespace Smp::Services
namespace Smp {
class MockISimulator : public virtual ISimulator {
public:
  String8 GetName() const  override { mock_unexpected("unexpected call of ISimulator::GetName"); }
  String8 GetDescription() const  override { mock_unexpected("unexpected call of ISimulator::GetDescription"); }
  IObject * GetParent() const  override { mock_unexpected("unexpected call of ISimulator::GetParent"); }
  const ContainerCollection * GetContainers() const  override { mock_unexpected("unexpected call of ISimulator::GetContainers"); }
  IContainer * GetContainer(String8 name) const  override { mock_unexpected("unexpected call of ISimulator::GetContainer"); }
  void Initialise()   override { mock_unexpected("unexpected call of ISimulator::Initialise"); }
  void Publish()   override { mock_unexpected("unexpected call of ISimulator::Publish"); }
  void Configure()   override { mock_unexpected("unexpected call of ISimulator::Configure"); }
  void Connect()   override { mock_unexpected("unexpected call of ISimulator::Connect"); }
  void Run()   override { mock_unexpected("unexpected call of ISimulator::Run"); }
  void Hold(Bool immediate)   override { mock_unexpected("unexpected call of ISimulator::Hold"); }
  void Store(String8 filename)   override { mock_unexpected("unexpected call of ISimulator::Store"); }
  void Restore(String8 filename)   override { mock_unexpected("unexpected call of ISimulator::Restore"); }
  void Reconnect(IComponent *root)   override { mock_unexpected("unexpected call of ISimulator::Reconnect"); }
  void Exit()   override { mock_unexpected("unexpected call of ISimulator::Exit"); }
  void Abort()   override { mock_unexpected("unexpected call of ISimulator::Abort"); }
  SimulatorStateKind GetState() const  override { mock_unexpected("unexpected call of ISimulator::GetState"); }
  void AddInitEntryPoint(IEntryPoint *entryPoint)   override { mock_unexpected("unexpected call of ISimulator::AddInitEntryPoint"); }
  void AddModel(IModel *model)   override { mock_unexpected("unexpected call of ISimulator::AddModel"); }
  void AddService(IService *service)   override { mock_unexpected("unexpected call of ISimulator::AddService"); }
  IService * GetService(String8 name) const  override { mock_unexpected("unexpected call of ISimulator::GetService"); }
  Services::ILogger * GetLogger() const  override { mock_unexpected("unexpected call of ISimulator::GetLogger"); }
  Services::ITimeKeeper * GetTimeKeeper() const  override { mock_unexpected("unexpected call of ISimulator::GetTimeKeeper"); }
  Services::IScheduler * GetScheduler() const  override { mock_unexpected("unexpected call of ISimulator::GetScheduler"); }
  Services::IEventManager * GetEventManager() const  override { mock_unexpected("unexpected call of ISimulator::GetEventManager"); }
  Services::IResolver * GetResolver() const  override { mock_unexpected("unexpected call of ISimulator::GetResolver"); }
  Services::ILinkRegistry * GetLinkRegistry() const  override { mock_unexpected("unexpected call of ISimulator::GetLinkRegistry"); }
  void RegisterFactory(IFactory *componentFactory)   override { mock_unexpected("unexpected call of ISimulator::RegisterFactory"); }
  IComponent * CreateInstance(Uuid uuid, String8 name, String8 description, IComposite *parent)   override { mock_unexpected("unexpected call of ISimulator::CreateInstance"); }
  IFactory * GetFactory(Uuid uuid) const  override { mock_unexpected("unexpected call of ISimulator::GetFactory"); }
  const FactoryCollection * GetFactories() const  override { mock_unexpected("unexpected call of ISimulator::GetFactories"); }
  Publication::ITypeRegistry * GetTypeRegistry() const  override { mock_unexpected("unexpected call of ISimulator::GetTypeRegistry"); }
  void LoadLibrary(String8 libraryPath)   override { mock_unexpected("unexpected call of ISimulator::LoadLibrary"); }
};
} // namespace Smp
#endif
