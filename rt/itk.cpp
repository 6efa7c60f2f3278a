// The compiled part of ITK 5.3 for the symbolic build: the templates come from the installed headers,
// the library functions they call are written out here with the library's documented behaviour
// (object life time, time stamps, the demand-driven pipeline, exceptions, image IO base class, splitter,
// threader). The replay build links the real libraries.
#include "itkImage.h"
#include "itkImageFileReader.h"
#include "itkImageFileWriter.h"
#include "itkExtractImageFilter.h"
#include "itkMetaDataObject.h"
#include "itkMultiThreaderBase.h"
#include "itkImageIOFactory.h"
#include "itkImageSourceCommon.h"
#include "itkImageToImageFilterCommon.h"
#include "itkTotalProgressReporter.h"
#include "itkProgressReporter.h"
#include "itkOutputWindow.h"
#include "itkObjectFactoryBase.h"
#include "itksys/SystemTools.hxx"
#include "vnl/vnl_matrix.hxx"
#include "vnl/vnl_vector.hxx"
#include "vnl/vnl_c_vector.hxx"
#include "vnl/vnl_vector_ref.h"
#include "vnl/algo/vnl_determinant.h"
#include "vnl/algo/vnl_svd.h"
#include <sys/stat.h>
extern "C" [[noreturn]] void symx_unsupported(const char *);
extern "C" void symx_unit(int);
namespace vp_itk { itk::LightObject::Pointer (*make_image_io)()=nullptr; unsigned work_units=2; bool reverse=false; }
namespace itk {
// ---- LightObject
LightObject::LightObject():m_ReferenceCount(1){}
LightObject::~LightObject(){}
LightObject::Pointer LightObject::New(){ LightObject *p=new LightObject; Pointer s=p; p->UnRegister(); return s; }
LightObject::Pointer LightObject::CreateAnother() const { return LightObject::New(); }
LightObject::Pointer LightObject::InternalClone() const { return this->CreateAnother(); }
void LightObject::Delete(){ this->UnRegister(); }
const char *LightObject::GetNameOfClass() const { return "LightObject"; }
void LightObject::Print(std::ostream &os,Indent i) const { this->PrintHeader(os,i); this->PrintSelf(os,i.GetNextIndent()); this->PrintTrailer(os,i); }
void LightObject::PrintSelf(std::ostream &,Indent) const {}
void LightObject::PrintHeader(std::ostream &os,Indent) const { os<<this->GetNameOfClass()<<"\n"; }
void LightObject::PrintTrailer(std::ostream &,Indent) const {}
void LightObject::Register() const { ++m_ReferenceCount; }
void LightObject::UnRegister() const noexcept { if(--m_ReferenceCount<=0) delete this; }
void LightObject::SetReferenceCount(int n){ m_ReferenceCount=n; if(n<=0) delete this; }
// ---- TimeStamp, Indent
void TimeStamp::Modified(){ static ModifiedTimeType n=0; m_ModifiedTime=++n; }
Indent Indent::GetNextIndent() const { return Indent(m_Indent+2>40?40:m_Indent+2); }
std::ostream &operator<<(std::ostream &os,const Indent &i){ for(int k=0;k<i.m_Indent;k++) os<<" "; return os; }
RealTimeStamp::RealTimeStamp():m_Seconds(0),m_MicroSeconds(0){}
RealTimeStamp::~RealTimeStamp(){}
bool RealTimeStamp::operator==(const Self &o) const { return m_Seconds==o.m_Seconds&&m_MicroSeconds==o.m_MicroSeconds; }
std::ostream &operator<<(std::ostream &os,const RealTimeStamp &){ return os<<"time"; }
// ---- Object
class Object::SubjectImplementation {};
Object::Object(){ this->Modified(); }
Object::~Object(){}
LightObject::Pointer Object::CreateAnother() const { return Object::New(); }
Object::Pointer Object::New(){ Object *p=new Object; Pointer s=p; p->UnRegister(); return s; }
void Object::DebugOn() const { m_Debug=true; }
void Object::DebugOff() const { m_Debug=false; }
bool Object::GetDebug() const { return m_Debug; }
void Object::SetDebug(bool d) const { m_Debug=d; }
ModifiedTimeType Object::GetMTime() const { return m_MTime.GetMTime(); }
const TimeStamp &Object::GetTimeStamp() const { return m_MTime; }
void Object::SetTimeStamp(const TimeStamp &t){ m_MTime=t; }
void Object::Modified() const { m_MTime.Modified(); }
void Object::Register() const { LightObject::Register(); }
void Object::UnRegister() const noexcept { LightObject::UnRegister(); }
void Object::SetReferenceCount(int n){ LightObject::SetReferenceCount(n); }
bool Object::GetGlobalWarningDisplay(){ return false; }
void Object::InvokeEvent(const EventObject &){}
void Object::InvokeEvent(const EventObject &) const {}
MetaDataDictionary &Object::GetMetaDataDictionary(){ if(!m_MetaDataDictionary) m_MetaDataDictionary.reset(new MetaDataDictionary); return *m_MetaDataDictionary; }
const MetaDataDictionary &Object::GetMetaDataDictionary() const { if(!m_MetaDataDictionary) m_MetaDataDictionary.reset(new MetaDataDictionary); return *m_MetaDataDictionary; }
void Object::SetMetaDataDictionary(const MetaDataDictionary &d){ if(!m_MetaDataDictionary) m_MetaDataDictionary.reset(new MetaDataDictionary); *m_MetaDataDictionary=d; }
void Object::PrintSelf(std::ostream &,Indent) const {}
// ---- events
itkEventMacroDefinition(AnyEvent,EventObject);
itkEventMacroDefinition(StartEvent,AnyEvent);
itkEventMacroDefinition(EndEvent,AnyEvent);
void EventObject::Print(std::ostream &) const {}
void EventObject::PrintSelf(std::ostream &,Indent) const {}
void EventObject::PrintHeader(std::ostream &,Indent) const {}
void EventObject::PrintTrailer(std::ostream &,Indent) const {}
// ---- exceptions
class ExceptionObject::ExceptionData { public: std::string loc,desc,file,what; unsigned line=0;
  ExceptionData(std::string f,unsigned l,std::string d,std::string lo):loc(lo),desc(d),file(f),line(l){ what=file+":\n"+desc; } };
ExceptionObject::ExceptionObject(const char *f,unsigned l,const char *d,const char *lo):m_ExceptionData(std::make_shared<const ExceptionData>(f?f:"",l,d?d:"",lo?lo:"")){}
ExceptionObject::ExceptionObject(std::string f,unsigned l,std::string d,std::string lo):m_ExceptionData(std::make_shared<const ExceptionData>(f,l,d,lo)){}
ExceptionObject::~ExceptionObject(){}
bool ExceptionObject::operator==(const ExceptionObject &o) const { return m_ExceptionData==o.m_ExceptionData; }
void ExceptionObject::Print(std::ostream &os) const { os<<"exception"; }
void ExceptionObject::SetLocation(const std::string &s){ const ExceptionData *e=m_ExceptionData.get(); m_ExceptionData=std::make_shared<const ExceptionData>(e?e->file:"",e?e->line:0,e?e->desc:"",s); }
void ExceptionObject::SetDescription(const std::string &s){ const ExceptionData *e=m_ExceptionData.get(); m_ExceptionData=std::make_shared<const ExceptionData>(e?e->file:"",e?e->line:0,s,e?e->loc:""); }
void ExceptionObject::SetLocation(const char *s){ SetLocation(std::string(s?s:"")); }
void ExceptionObject::SetDescription(const char *s){ SetDescription(std::string(s?s:"")); }
const char *ExceptionObject::GetLocation() const { return m_ExceptionData?m_ExceptionData->loc.c_str():""; }
const char *ExceptionObject::GetDescription() const { return m_ExceptionData?m_ExceptionData->desc.c_str():""; }
const char *ExceptionObject::GetFile() const { return m_ExceptionData?m_ExceptionData->file.c_str():""; }
unsigned int ExceptionObject::GetLine() const { return m_ExceptionData?m_ExceptionData->line:0; }
const char *ExceptionObject::what() const noexcept { return m_ExceptionData?m_ExceptionData->what.c_str():"ExceptionObject"; }
DataObjectError::DataObjectError() noexcept {}
DataObjectError::DataObjectError(const char *f,unsigned l):ExceptionObject(f,l){}
DataObjectError::DataObjectError(const std::string &f,unsigned l):ExceptionObject(f,l){}
DataObjectError::DataObjectError(const DataObjectError &o) noexcept : ExceptionObject(o),m_DataObject(o.m_DataObject){}
void DataObjectError::SetDataObject(DataObject *d) noexcept { m_DataObject=d; }
void DataObjectError::PrintSelf(std::ostream &,Indent) const {}
InvalidRequestedRegionError::InvalidRequestedRegionError(const char *f,unsigned l):DataObjectError(f,l){}
InvalidRequestedRegionError::InvalidRequestedRegionError(const InvalidRequestedRegionError &o) noexcept : DataObjectError(o){}
void InvalidRequestedRegionError::PrintSelf(std::ostream &,Indent) const {}
ImageFileReaderException::~ImageFileReaderException() noexcept {}
ImageFileWriterException::~ImageFileWriterException() noexcept {}
// ---- regions
void Region::Print(std::ostream &os,Indent i) const { PrintHeader(os,i); PrintSelf(os,i.GetNextIndent()); PrintTrailer(os,i); }
void Region::PrintSelf(std::ostream &,Indent) const {}
void Region::PrintHeader(std::ostream &os,Indent) const { os<<this->GetNameOfClass()<<"\n"; }
void Region::PrintTrailer(std::ostream &,Indent) const {}
ImageIORegion::ImageIORegion(unsigned d):m_ImageDimension(d){ m_Index.assign(d,0); m_Size.assign(d,0); }
ImageIORegion::~ImageIORegion(){}
ImageIORegion &ImageIORegion::operator=(const Self &r){ m_ImageDimension=r.m_ImageDimension; m_Index=r.m_Index; m_Size=r.m_Size; return *this; }
Region::RegionEnum ImageIORegion::GetRegionType() const { return RegionEnum::ITK_STRUCTURED_REGION; }
unsigned ImageIORegion::GetImageDimension() const { return m_ImageDimension; }
unsigned ImageIORegion::GetRegionDimension() const { unsigned d=0; for(unsigned i=0;i<m_ImageDimension;i++) if(m_Size[i]>1) d++; return d; }
void ImageIORegion::SetIndex(const IndexType &i){ m_Index=i; }
const ImageIORegion::IndexType &ImageIORegion::GetIndex() const { return m_Index; }
ImageIORegion::IndexType &ImageIORegion::GetModifiableIndex(){ return m_Index; }
void ImageIORegion::SetSize(const SizeType &s){ m_Size=s; }
const ImageIORegion::SizeType &ImageIORegion::GetSize() const { return m_Size; }
ImageIORegion::SizeType &ImageIORegion::GetModifiableSize(){ return m_Size; }
SizeValueType ImageIORegion::GetSize(unsigned long i) const { return m_Size.at(i); }
IndexValueType ImageIORegion::GetIndex(unsigned long i) const { return m_Index.at(i); }
void ImageIORegion::SetSize(const unsigned long i,SizeValueType s){ m_Size.at(i)=s; }
void ImageIORegion::SetIndex(const unsigned long i,IndexValueType s){ m_Index.at(i)=s; }
bool ImageIORegion::operator==(const Self &r) const { return m_Index==r.m_Index&&m_Size==r.m_Size&&m_ImageDimension==r.m_ImageDimension; }
bool ImageIORegion::IsInside(const IndexType &x) const { if(m_ImageDimension!=x.size()) return false; for(unsigned i=0;i<m_ImageDimension;i++){ if(x[i]<m_Index[i]) return false; if(x[i]>=(IndexValueType)(m_Index[i]+m_Size[i])) return false; } return true; }
bool ImageIORegion::IsInside(const Self &r) const { IndexType b=r.m_Index; if(!IsInside(b)) return false; for(unsigned i=0;i<r.m_ImageDimension;i++) b[i]+=r.m_Size[i]-1; return IsInside(b); }
SizeValueType ImageIORegion::GetNumberOfPixels() const { SizeValueType n=1; for(unsigned i=0;i<m_ImageDimension;i++) n*=m_Size[i]; return n; }
void ImageIORegion::PrintSelf(std::ostream &,Indent) const {}
std::ostream &operator<<(std::ostream &os,const ImageIORegion &r){ r.Print(os); return os; }
std::ostream &operator<<(std::ostream &os,const ExtractImageFilterEnums::DirectionCollapseStrategy){ return os<<"strategy"; }
// ---- meta data
MetaDataObjectBase::MetaDataObjectBase(){}
MetaDataObjectBase::~MetaDataObjectBase(){}
const char *MetaDataObjectBase::GetMetaDataObjectTypeName() const { return typeid(MetaDataObjectBase).name(); }
const std::type_info &MetaDataObjectBase::GetMetaDataObjectTypeInfo() const { return typeid(MetaDataObjectBase); }
void MetaDataObjectBase::Print(std::ostream &) const {}
MetaDataDictionary::MetaDataDictionary():m_Dictionary(std::make_shared<MetaDataDictionaryMapType>()){}
MetaDataDictionary::MetaDataDictionary(const MetaDataDictionary &o):m_Dictionary(o.m_Dictionary){}
MetaDataDictionary &MetaDataDictionary::operator=(const MetaDataDictionary &o){ if(this!=&o) m_Dictionary=o.m_Dictionary; return *this; }
MetaDataDictionary::~MetaDataDictionary(){}
void MetaDataDictionary::Print(std::ostream &) const {}
bool MetaDataDictionary::MakeUnique(){ if(m_Dictionary.use_count()>1){ m_Dictionary=std::make_shared<MetaDataDictionaryMapType>(*m_Dictionary); return true; } return false; }
MetaDataObjectBase::Pointer &MetaDataDictionary::operator[](const std::string &k){ MakeUnique(); return (*m_Dictionary)[k]; }
template class MetaDataObject<std::vector<double>>;
template class MetaDataObject<Matrix<double>>;
// ---- data objects
DataObject::DataObject():m_ReleaseDataFlag(false),m_DataReleased(false),m_PipelineMTime(0){}
DataObject::~DataObject(){}
void DataObject::Initialize(){ m_DataReleased=false; }
void DataObject::ReleaseData(){ this->Initialize(); m_DataReleased=true; }
bool DataObject::ShouldIReleaseData() const { return m_ReleaseDataFlag; }
SmartPointer<ProcessObject> DataObject::GetSource() const { return m_Source.GetPointer(); }
bool DataObject::ConnectSource(ProcessObject *p,const DataObjectIdentifierType &n){ if(m_Source!=p||m_SourceOutputName!=n){ m_Source=p; m_SourceOutputName=n; this->Modified(); return true; } return false; }
bool DataObject::DisconnectSource(ProcessObject *p,const DataObjectIdentifierType &n){ if(m_Source==p&&m_SourceOutputName==n){ m_Source=nullptr; m_SourceOutputName=""; this->Modified(); return true; } return false; }
void DataObject::DisconnectPipeline(){ if(m_Source){ m_Source->SetOutput(m_SourceOutputName,nullptr); } this->Modified(); }
ModifiedTimeType DataObject::GetUpdateMTime() const { return m_UpdateMTime.GetMTime(); }
void DataObject::Update(){ this->UpdateOutputInformation(); this->PropagateRequestedRegion(); this->UpdateOutputData(); }
void DataObject::UpdateOutputInformation(){ if(this->GetSource()) this->GetSource()->UpdateOutputInformation(); }
void DataObject::PropagateRequestedRegion(){
  if(m_UpdateMTime.GetMTime()<m_PipelineMTime||m_DataReleased||this->RequestedRegionIsOutsideOfTheBufferedRegion()) if(m_Source) m_Source->PropagateRequestedRegion(this);
  if(!this->VerifyRequestedRegion()){ InvalidRequestedRegionError e(__FILE__,__LINE__); e.SetLocation("PropagateRequestedRegion"); e.SetDataObject(this); e.SetDescription("Requested region is (at least partially) outside the largest possible region."); throw e; } }
void DataObject::UpdateOutputData(){ if(m_UpdateMTime.GetMTime()<m_PipelineMTime||m_DataReleased||this->RequestedRegionIsOutsideOfTheBufferedRegion()) if(m_Source) m_Source->UpdateOutputData(this); }
void DataObject::DataHasBeenGenerated(){ m_DataReleased=false; this->Modified(); m_UpdateMTime.Modified(); }
void DataObject::ResetPipeline(){ this->PropagateResetPipeline(); }
void DataObject::PropagateResetPipeline(){ if(m_Source) m_Source->PropagateResetPipeline(); }
void DataObject::PrintSelf(std::ostream &,Indent) const {}
// ---- process objects
ProcessObject::ProcessObject():m_Updating(false),m_NumberOfRequiredInputs(0),m_NumberOfRequiredOutputs(0),m_AbortGenerateData(false),m_Progress(0){
  m_IndexedInputs.push_back(m_Inputs.insert(DataObjectPointerMap::value_type("Primary",DataObjectPointer())).first);
  m_IndexedOutputs.push_back(m_Outputs.insert(DataObjectPointerMap::value_type("Primary",DataObjectPointer())).first);
  m_MultiThreader=MultiThreaderBase::New(); m_NumberOfWorkUnits=m_MultiThreader->GetNumberOfWorkUnits(); m_ReleaseDataBeforeUpdateFlag=true; }
ProcessObject::~ProcessObject(){ for(auto &o:m_Outputs) if(o.second){ o.second->DisconnectSource(this,o.first); o.second=nullptr; } }
ProcessObject::DataObjectIdentifierType ProcessObject::MakeNameFromIndex(DataObjectPointerArraySizeType i) const { char b[24]; int n=0; if(!i) return "_0"; char t[24]; while(i){ t[n++]=(char)('0'+i%10); i/=10; } b[0]='_'; for(int k=0;k<n;k++) b[1+k]=t[n-1-k]; b[n+1]=0; return b; }
ProcessObject::DataObjectIdentifierType ProcessObject::MakeNameFromInputIndex(DataObjectPointerArraySizeType i) const { return i<m_IndexedInputs.size()?m_IndexedInputs[i]->first:MakeNameFromIndex(i); }
ProcessObject::DataObjectIdentifierType ProcessObject::MakeNameFromOutputIndex(DataObjectPointerArraySizeType i) const { return i<m_IndexedOutputs.size()?m_IndexedOutputs[i]->first:MakeNameFromIndex(i); }
ProcessObject::DataObjectPointer ProcessObject::MakeOutput(const DataObjectIdentifierType &n){ for(size_t i=0;i<m_IndexedOutputs.size();i++) if(m_IndexedOutputs[i]->first==n) return this->MakeOutput(i); return DataObject::New().GetPointer(); }
ProcessObject::DataObjectPointer ProcessObject::MakeOutput(DataObjectPointerArraySizeType){ return DataObject::New().GetPointer(); }
void ProcessObject::SetNumberOfIndexedInputs(DataObjectPointerArraySizeType n){ for(size_t i=m_IndexedInputs.size();i<n;i++) m_IndexedInputs.push_back(m_Inputs.insert(DataObjectPointerMap::value_type(MakeNameFromIndex(i),DataObjectPointer())).first); this->Modified(); }
void ProcessObject::SetNumberOfIndexedOutputs(DataObjectPointerArraySizeType n){ for(size_t i=m_IndexedOutputs.size();i<n;i++) m_IndexedOutputs.push_back(m_Outputs.insert(DataObjectPointerMap::value_type(MakeNameFromIndex(i),DataObjectPointer())).first); this->Modified(); }
ProcessObject::DataObjectPointerArraySizeType ProcessObject::GetNumberOfIndexedOutputs() const { if(m_IndexedOutputs.size()>1) return m_IndexedOutputs.size(); return m_IndexedOutputs[0]->second?1:0; }
ProcessObject::DataObjectPointerArraySizeType ProcessObject::GetNumberOfIndexedInputs() const { if(m_IndexedInputs.size()>1) return m_IndexedInputs.size(); return m_IndexedInputs[0]->second?1:0; }
ProcessObject::DataObjectPointerArraySizeType ProcessObject::GetNumberOfValidRequiredInputs() const { size_t n=0; for(size_t i=0;i<m_NumberOfRequiredInputs&&i<m_IndexedInputs.size();i++) if(m_IndexedInputs[i]->second) n++; return n; }
DataObject *ProcessObject::GetInput(const DataObjectIdentifierType &k){ auto i=m_Inputs.find(k); return i==m_Inputs.end()?nullptr:i->second.GetPointer(); }
const DataObject *ProcessObject::GetInput(const DataObjectIdentifierType &k) const { auto i=m_Inputs.find(k); return i==m_Inputs.end()?nullptr:i->second.GetPointer(); }
void ProcessObject::SetInput(const DataObjectIdentifierType &k,DataObject *d){ auto i=m_Inputs.find(k); if(i==m_Inputs.end()){ m_Inputs.insert(DataObjectPointerMap::value_type(k,d)); this->Modified(); } else if(i->second.GetPointer()!=d){ i->second=d; this->Modified(); } }
void ProcessObject::SetNthInput(DataObjectPointerArraySizeType n,DataObject *d){ if(n>=m_IndexedInputs.size()) this->SetNumberOfIndexedInputs(n+1); if(m_IndexedInputs[n]->second!=d){ m_IndexedInputs[n]->second=d; this->Modified(); } }
void ProcessObject::SetPrimaryInput(DataObject *d){ if(m_IndexedInputs[0]->second!=d){ m_IndexedInputs[0]->second=d; this->Modified(); } }
void ProcessObject::SetPrimaryInputName(const DataObjectIdentifierType &){ symx_unsupported("SetPrimaryInputName"); }
void ProcessObject::AddInput(DataObject *d){ for(size_t i=0;i<m_IndexedInputs.size();i++) if(!m_IndexedInputs[i]->second){ this->SetNthInput(i,d); return; } this->SetNthInput(m_IndexedInputs.size(),d); }
void ProcessObject::PushBackInput(const DataObject *d){ this->SetNthInput(GetNumberOfIndexedInputs(),const_cast<DataObject*>(d)); }
void ProcessObject::PopBackInput(){ symx_unsupported("PopBackInput"); }
void ProcessObject::PushFrontInput(const DataObject *){ symx_unsupported("PushFrontInput"); }
void ProcessObject::PopFrontInput(){ symx_unsupported("PopFrontInput"); }
void ProcessObject::RemoveInput(const DataObjectIdentifierType &k){ this->SetInput(k,nullptr); }
void ProcessObject::RemoveInput(DataObjectPointerArraySizeType i){ this->SetNthInput(i,nullptr); }
void ProcessObject::SetNumberOfRequiredInputs(DataObjectPointerArraySizeType n){ if(m_NumberOfRequiredInputs!=n){ m_NumberOfRequiredInputs=n; this->Modified(); } }
bool ProcessObject::AddRequiredInputName(const DataObjectIdentifierType &n){ if(!m_RequiredInputNames.insert(n).second) return false; if(m_Inputs.find(n)==m_Inputs.end()) m_Inputs[n]=nullptr; this->Modified(); return true; }
DataObject *ProcessObject::GetOutput(const DataObjectIdentifierType &k){ auto i=m_Outputs.find(k); return i==m_Outputs.end()?nullptr:i->second.GetPointer(); }
DataObject *ProcessObject::GetOutput(DataObjectPointerArraySizeType i){ return m_IndexedOutputs[i]->second; }
const DataObject *ProcessObject::GetOutput(DataObjectPointerArraySizeType i) const { return m_IndexedOutputs[i]->second; }
void ProcessObject::SetOutput(const DataObjectIdentifierType &n,DataObject *d){
  DataObjectIdentifierType k=n; if(k.empty()) k=this->MakeNameFromOutputIndex(0); auto it=m_Outputs.find(k); if(it!=m_Outputs.end()&&it->second.GetPointer()==d) return;
  DataObjectPointer old; if(it!=m_Outputs.end()&&it->second){ old=it->second; it->second->DisconnectSource(this,k); }
  if(d) d->ConnectSource(this,k);
  m_Outputs[k]=d;
  if(!m_Outputs[k]){ DataObjectPointer nd=this->MakeOutput(k); this->SetOutput(k,nd); if(old){ nd->SetRequestedRegion(old); nd->SetReleaseDataFlag(old->GetReleaseDataFlag()); } }
  this->Modified(); }
void ProcessObject::SetNthOutput(DataObjectPointerArraySizeType i,DataObject *d){ if(i>=m_IndexedOutputs.size()) this->SetNumberOfIndexedOutputs(i+1); this->SetOutput(m_IndexedOutputs[i]->first,d); }
void ProcessObject::SetPrimaryOutput(DataObject *d){ this->SetOutput(m_IndexedOutputs[0]->first,d); }
void ProcessObject::SetPrimaryOutputName(const DataObjectIdentifierType &){ symx_unsupported("SetPrimaryOutputName"); }
void ProcessObject::AddOutput(DataObject *d){ this->SetNthOutput(GetNumberOfIndexedOutputs(),d); }
void ProcessObject::RemoveOutput(const DataObjectIdentifierType &){ symx_unsupported("RemoveOutput"); }
void ProcessObject::RemoveOutput(DataObjectPointerArraySizeType){ symx_unsupported("RemoveOutput"); }
void ProcessObject::SetReleaseDataFlag(bool v){ for(auto &o:m_Outputs) if(o.second) o.second->SetReleaseDataFlag(v); }
bool ProcessObject::GetReleaseDataFlag() const { return m_IndexedOutputs[0]->second?m_IndexedOutputs[0]->second->GetReleaseDataFlag():false; }
void ProcessObject::SetThreaderUpdateProgress(bool v){ m_ThreaderUpdateProgress=v; }
void ProcessObject::SetMultiThreader(MultiThreaderType *t){ m_MultiThreader=t; this->Modified(); }
void ProcessObject::UpdateProgress(float f){ m_Progress=progressFloatToFixed(f); }
void ProcessObject::IncrementProgress(float){}
void ProcessObject::Update(){ if(this->GetPrimaryOutput()) this->GetPrimaryOutput()->Update(); }
void ProcessObject::UpdateLargestPossibleRegion(){ this->UpdateOutputInformation(); if(this->GetPrimaryOutput()){ this->GetPrimaryOutput()->SetRequestedRegionToLargestPossibleRegion(); this->GetPrimaryOutput()->Update(); } }
static void bad(const char *w){ throw ExceptionObject(__FILE__,__LINE__,w,"ProcessObject"); }
void ProcessObject::VerifyPreconditions() const { for(auto &n:m_RequiredInputNames) if(!this->GetInput(n)) bad("Input is required but not set."); if(m_NumberOfRequiredInputs>0&&this->GetNumberOfValidRequiredInputs()<m_NumberOfRequiredInputs) bad("At least the required number of inputs should be set."); }
void ProcessObject::VerifyInputInformation() const {}
void ProcessObject::UpdateOutputInformation(){
  this->VerifyPreconditions();
  if(m_Updating){ this->Modified(); return; }
  ModifiedTimeType t1=this->GetMTime(),t2; m_Updating=true;
  try { for(auto &i:m_Inputs) if(i.second){ DataObject *d=i.second; d->UpdateOutputInformation(); t2=d->GetPipelineMTime(); if(t2>t1) t1=t2; t2=d->GetMTime(); if(t2>t1) t1=t2; } } catch(...){ m_Updating=false; throw; }
  m_Updating=false;
  if(t1>m_OutputInformationMTime.GetMTime()){ for(auto &o:m_Outputs) if(o.second) o.second->SetPipelineMTime(t1); this->VerifyInputInformation(); this->GenerateOutputInformation(); m_OutputInformationMTime.Modified(); } }
void ProcessObject::PropagateRequestedRegion(DataObject *o){
  if(m_Updating) return;
  this->EnlargeOutputRequestedRegion(o); this->GenerateOutputRequestedRegion(o); this->GenerateInputRequestedRegion();
  m_Updating=true; try { for(auto &i:m_Inputs) if(i.second) i.second->PropagateRequestedRegion(); } catch(...){ m_Updating=false; throw; } m_Updating=false; }
void ProcessObject::GenerateInputRequestedRegion(){ for(auto &i:m_Inputs) if(i.second) i.second->SetRequestedRegionToLargestPossibleRegion(); }
void ProcessObject::GenerateOutputRequestedRegion(DataObject *d){ for(auto &o:m_Outputs) if(o.second&&o.second.GetPointer()!=d) o.second->SetRequestedRegion(d); }
void ProcessObject::GenerateOutputInformation(){ DataObject *in=this->GetPrimaryInput(); if(in) for(auto &o:m_Outputs) if(o.second) o.second->CopyInformation(in); }
void ProcessObject::PrepareOutputs(){ if(m_ReleaseDataBeforeUpdateFlag) for(auto &o:m_Outputs) if(o.second) o.second->PrepareForNewData(); }
void ProcessObject::CacheInputReleaseDataFlags(){ m_CachedInputReleaseDataFlags.clear(); for(auto &i:m_Inputs){ if(i.second){ m_CachedInputReleaseDataFlags[i.first]=i.second->GetReleaseDataFlag(); i.second->ReleaseDataFlagOff(); } else m_CachedInputReleaseDataFlags[i.first]=false; } }
void ProcessObject::RestoreInputReleaseDataFlags(){ for(auto &i:m_Inputs) if(i.second) i.second->SetReleaseDataFlag(m_CachedInputReleaseDataFlags[i.first]); }
void ProcessObject::ReleaseInputs(){ for(auto &i:m_Inputs) if(i.second&&i.second->ShouldIReleaseData()) i.second->ReleaseData(); }
void ProcessObject::UpdateOutputData(DataObject *){
  if(m_Updating) return;
  this->PrepareOutputs(); m_Updating=true;
  try { if(m_Inputs.size()==1){ if(m_Inputs.begin()->second) m_Inputs.begin()->second->UpdateOutputData(); } else for(auto &i:m_Inputs) if(i.second){ i.second->PropagateRequestedRegion(); i.second->UpdateOutputData(); } }
  catch(...){ this->PropagateResetPipeline(); throw; }
  this->CacheInputReleaseDataFlags(); this->InvokeEvent(StartEvent()); m_AbortGenerateData=false; m_Progress=0;
  try { this->GenerateData(); }
  catch(...){ this->ResetPipeline(); this->RestoreInputReleaseDataFlags(); throw; }
  if(!m_AbortGenerateData) this->UpdateProgress(1.0f);
  this->InvokeEvent(EndEvent());
  for(auto &o:m_Outputs) if(o.second) o.second->DataHasBeenGenerated();
  this->RestoreInputReleaseDataFlags(); this->ReleaseInputs(); m_Updating=false; }
void ProcessObject::ResetPipeline(){ bool any=false; for(auto &o:m_Outputs) if(o.second){ any=true; o.second->ResetPipeline(); } if(!any) this->PropagateResetPipeline(); }
void ProcessObject::PropagateResetPipeline(){ m_Updating=false; for(auto &i:m_Inputs) if(i.second) i.second->PropagateResetPipeline(); }
void ProcessObject::PrintSelf(std::ostream &,Indent) const {}
// ---- reporters: the counters are kept, no observer exists
ProgressReporter::ProgressReporter(ProcessObject *f,ThreadIdType t,SizeValueType n,SizeValueType,float,float):m_Filter(f),m_ThreadId(t),m_InverseNumberOfPixels(1),m_CurrentPixel(0),m_PixelsPerUpdate(1000000),m_PixelsBeforeUpdate(1000000),m_InitialProgress(0),m_ProgressWeight(1){ (void)n; }
ProgressReporter::~ProgressReporter(){}
TotalProgressReporter::TotalProgressReporter(ProcessObject *f,SizeValueType,SizeValueType,float):m_Filter(f),m_InverseNumberOfPixels(1),m_CurrentPixel(0),m_PixelsPerUpdate(1000000),m_PixelsBeforeUpdate(1000000),m_ProgressWeight(1){}
TotalProgressReporter::~TotalProgressReporter(){}
// ---- threads: the work units run one after another, in either order
struct VpThreader : MultiThreaderBase {
  VpThreader(){ m_NumberOfWorkUnits=vp_itk::work_units; m_MaximumNumberOfThreads=vp_itk::work_units; }
  void SingleMethodExecute() override { unsigned n=m_NumberOfWorkUnits; std::vector<WorkUnitInfo> all(n); for(unsigned k=0;k<n;k++){ WorkUnitInfo &w=all[k]; w.WorkUnitID=vp_itk::reverse?n-1-k:k; w.NumberOfWorkUnits=n; w.UserData=m_SingleData; w.ThreadFunction=m_SingleMethod; symx_unit((int)k); m_SingleMethod(&w); } symx_unit(-1); }
  void SetSingleMethod(ThreadFunctionType f,void *d) override { m_SingleMethod=f; m_SingleData=d; }
};
MultiThreaderBase::MultiThreaderBase(){}
MultiThreaderBase::~MultiThreaderBase(){}
MultiThreaderBase::Pointer MultiThreaderBase::New(){ MultiThreaderBase *p=new VpThreader; Pointer s=p; p->UnRegister(); return s; }
void MultiThreaderBase::SetMaximumNumberOfThreads(ThreadIdType n){ m_MaximumNumberOfThreads=n; }
void MultiThreaderBase::SetNumberOfWorkUnits(ThreadIdType n){ m_NumberOfWorkUnits=n; }
void MultiThreaderBase::SetUpdateProgress(bool b){ m_UpdateProgress=b; }
void MultiThreaderBase::ParallelizeArray(SizeValueType a,SizeValueType b,ArrayThreadingFunctorType f,ProcessObject *){ for(SizeValueType i=a;i<b;i++) f(i); }
void MultiThreaderBase::ParallelizeImageRegion(unsigned d,const IndexValueType x[],const SizeValueType s[],ThreadingFunctorType f,ProcessObject *){ (void)d; f(x,s); }
void MultiThreaderBase::PrintSelf(std::ostream &,Indent) const {}
ImageRegionSplitterBase::ImageRegionSplitterBase(){}
void ImageRegionSplitterBase::PrintSelf(std::ostream &,Indent) const {}
struct VpSplitter : ImageRegionSplitterBase { // along the slowest dimension with more than one pixel
  unsigned dim_of(unsigned dim,const SizeValueType s[]) const { int a=(int)dim-1; while(a>0&&s[a]==1) a--; return a; }
  unsigned GetNumberOfSplitsInternal(unsigned dim,const IndexValueType[],const SizeValueType s[],unsigned want) const override { SizeValueType r=s[dim_of(dim,s)]; if(!r) return 1; if(want<1) want=1; SizeValueType per=(r+want-1)/want; return (unsigned)((r+per-1)/per); }
  unsigned GetSplitInternal(unsigned dim,unsigned i,unsigned n,IndexValueType x[],SizeValueType s[]) const override { unsigned a=dim_of(dim,s); SizeValueType r=s[a]; if(!r) return 1; SizeValueType per=(r+n-1)/n,last=(r+per-1)/per-1; if(i<last){ x[a]+=i*per; s[a]=per; } else if(i==last){ x[a]+=i*per; s[a]=r-i*per; } return (unsigned)last+1; }
};
const ImageRegionSplitterBase *ImageSourceCommon::GetGlobalDefaultSplitter(){ static VpSplitter *p=new VpSplitter; return p; }
double ImageToImageFilterCommon::GetGlobalDefaultCoordinateTolerance(){ return 1e-6; }
double ImageToImageFilterCommon::GetGlobalDefaultDirectionTolerance(){ return 1e-6; }
LightObject::Pointer ObjectFactoryBase::CreateInstance(const char *){ return nullptr; }
std::list<LightObject::Pointer> ObjectFactoryBase::CreateAllInstance(const char *){ return std::list<LightObject::Pointer>(); }
void OutputWindowDisplayDebugText(const char *){}
void OutputWindowDisplayWarningText(const char *){}
void OutputWindowDisplayErrorText(const char *){}
void OutputWindowDisplayGenericOutputText(const char *){}
// ---- image IO base
LightProcessObject::LightProcessObject():m_AbortGenerateData(false),m_Progress(0){}
LightProcessObject::~LightProcessObject(){}
void LightProcessObject::UpdateProgress(float f){ m_Progress=f; }
void LightProcessObject::UpdateOutputData(){}
void LightProcessObject::PrintSelf(std::ostream &,Indent) const {}
ImageIOBase::ImageIOBase():m_IORegion(0){ Reset(false); }
ImageIOBase::~ImageIOBase(){}
void ImageIOBase::Reset(const bool){ m_Initialized=false; m_FileName=""; m_NumberOfComponents=1; for(unsigned i=0;i<m_NumberOfDimensions;i++){ m_Dimensions[i]=0; m_Strides[i]=0; } m_NumberOfDimensions=0; m_UseStreamedReading=false; m_UseStreamedWriting=false; m_ExpandRGBPalette=true; m_IsReadAsScalarPlusPalette=false; m_WritePalette=false; }
void ImageIOBase::SetNumberOfDimensions(unsigned d){ if(d==m_NumberOfDimensions) return; m_Dimensions.resize(d); m_Origin.resize(d); m_Spacing.resize(d); m_Direction.resize(d); m_Strides.resize(d+2); for(unsigned i=m_NumberOfDimensions;i<d;i++){ m_Dimensions[i]=1; m_Origin[i]=0; m_Spacing[i]=1; } m_NumberOfDimensions=d; for(unsigned i=0;i<d;i++) m_Direction[i]=GetDefaultDirection(i); this->Modified(); }
void ImageIOBase::SetDimensions(unsigned i,SizeValueType v){ if(i>=m_Dimensions.size()) throw ExceptionObject(__FILE__,__LINE__,"Index: out of bounds"); this->Modified(); m_Dimensions[i]=v; }
void ImageIOBase::SetOrigin(unsigned i,double v){ if(i>=m_Origin.size()) throw ExceptionObject(__FILE__,__LINE__,"Index: out of bounds"); this->Modified(); m_Origin[i]=v; }
void ImageIOBase::SetSpacing(unsigned i,double v){ if(i>=m_Spacing.size()) throw ExceptionObject(__FILE__,__LINE__,"Index: out of bounds"); this->Modified(); m_Spacing[i]=v; }
void ImageIOBase::SetDirection(unsigned i,const std::vector<double> &v){ this->Modified(); m_Direction[i]=v; }
void ImageIOBase::SetDirection(unsigned i,const vnl_vector<double> &v){ this->Modified(); std::vector<double> d; for(unsigned k=0;k<v.size();k++) d.push_back(v[k]); m_Direction[i]=d; }
std::vector<double> ImageIOBase::GetDefaultDirection(unsigned k) const { std::vector<double> d; for(unsigned i=0;i<m_NumberOfDimensions;i++) d.push_back(i==k?1.0:0.0); return d; }
const std::type_info &ImageIOBase::GetComponentTypeInfo() const { symx_unsupported("GetComponentTypeInfo"); }
void ImageIOBase::SetCompressor(std::string){}
void ImageIOBase::InternalSetCompressor(const std::string &){}
void ImageIOBase::SetMaximumCompressionLevel(int n){ m_MaximumCompressionLevel=n; }
unsigned ImageIOBase::GetComponentSize() const { switch(m_ComponentType){ case IOComponentEnum::UCHAR: case IOComponentEnum::CHAR: return 1; case IOComponentEnum::USHORT: case IOComponentEnum::SHORT: return 2; case IOComponentEnum::UINT: case IOComponentEnum::INT: case IOComponentEnum::FLOAT: return 4; case IOComponentEnum::UNKNOWNCOMPONENTTYPE: throw ExceptionObject(__FILE__,__LINE__,"Unknown component type"); default: return 8; } }
unsigned ImageIOBase::GetPixelSize() const { return GetComponentSize()*m_NumberOfComponents; }
ImageIOBase::SizeType ImageIOBase::GetPixelStride() const { return GetPixelSize(); }
static const char *const comp[]={"unknown","unsigned_char","char","unsigned_short","short","unsigned_int","int","unsigned_long","long","unsigned_long_long","long_long","float","double"};
std::string ImageIOBase::GetComponentTypeAsString(IOComponentEnum c){ return comp[(int)c]; }
std::string ImageIOBase::GetPixelTypeAsString(IOPixelEnum p){ switch(p){ case IOPixelEnum::SCALAR: return "scalar"; case IOPixelEnum::VECTOR: return "vector"; case IOPixelEnum::RGB: return "rgb"; case IOPixelEnum::RGBA: return "rgba"; default: symx_unsupported("pixel type name"); } }
ImageIORegion ImageIOBase::GenerateStreamableReadRegionFromRequestedRegion(const ImageIORegion &q) const { const unsigned dims=q.GetImageDimension(),n=m_NumberOfDimensions>dims?m_NumberOfDimensions:dims; ImageIORegion r(n); for(unsigned i=0;i<m_NumberOfDimensions;i++){ r.SetSize(i,m_Dimensions[i]); r.SetIndex(i,0); } for(unsigned j=m_NumberOfDimensions;j<n;j++){ r.SetSize(j,1); r.SetIndex(j,0); } return r; }
unsigned ImageIOBase::GetActualNumberOfSplitsForWriting(unsigned,const ImageIORegion &p,const ImageIORegion &l){ if(p!=l) throw ExceptionObject(__FILE__,__LINE__,"Pasting is not supported!"); return 1; }
ImageIORegion ImageIOBase::GetSplitRegionForWriting(unsigned,unsigned,const ImageIORegion &,const ImageIORegion &l){ return l; }
const ImageRegionSplitterBase *ImageIOBase::GetImageRegionSplitter() const { return ImageSourceCommon::GetGlobalDefaultSplitter(); }
bool ImageIOBase::HasSupportedReadExtension(const char *,bool){ return true; }
bool ImageIOBase::HasSupportedWriteExtension(const char *,bool){ return true; }
void ImageIOBase::PrintSelf(std::ostream &,Indent) const {}
void ImageIOBase::OpenFileForReading(std::ifstream &,const std::string &,bool){ symx_unsupported("OpenFileForReading"); }
void ImageIOBase::OpenFileForWriting(std::ofstream &,const std::string &,bool,bool){ symx_unsupported("OpenFileForWriting"); }
void ImageIOBase::WriteBufferAsASCII(std::ostream &,const void *,IOComponentEnum,SizeType){ symx_unsupported("WriteBufferAsASCII"); }
void ImageIOBase::ReadBufferAsASCII(std::istream &,void *,IOComponentEnum,SizeType){ symx_unsupported("ReadBufferAsASCII"); }
unsigned ImageIOBase::GetActualNumberOfSplitsForWritingCanStreamWrite(unsigned,const ImageIORegion &) const { return 1; }
ImageIORegion ImageIOBase::GetSplitRegionForWritingCanStreamWrite(unsigned,unsigned,const ImageIORegion &p) const { return p; }
ImageIOBase::Pointer ImageIOFactory::CreateImageIO(const char *path,IOFileModeEnum mode){ if(!vp_itk::make_image_io) return nullptr; LightObject::Pointer p=vp_itk::make_image_io(); ImageIOBase *io=dynamic_cast<ImageIOBase*>(p.GetPointer()); if(!io) return nullptr; if(mode==IOFileModeEnum::ReadMode?io->CanReadFile(path):io->CanWriteFile(path)) return io; return nullptr; }
}
namespace itksys {
SystemToolsManager::SystemToolsManager(){}
SystemToolsManager::~SystemToolsManager(){}
bool SystemTools::FileExists(const char *f){ struct stat st; return f&&stat(f,&st)==0; }
bool SystemTools::FileExists(const std::string &f){ return FileExists(f.c_str()); }
}
// ---- vnl
template class vnl_vector<double>;
template class vnl_matrix<double>;
template class vnl_c_vector<double>;
template<> double vnl_determinant(vnl_matrix<double> const &m,bool){ switch(m.rows()){ case 1: return m(0,0); case 2: return m(0,0)*m(1,1)-m(0,1)*m(1,0); case 3: return m(0,0)*(m(1,1)*m(2,2)-m(1,2)*m(2,1))-m(0,1)*(m(1,0)*m(2,2)-m(1,2)*m(2,0))+m(0,2)*(m(1,0)*m(2,1)-m(1,1)*m(2,0)); default: symx_unsupported("determinant"); } }
template<> vnl_svd<double>::vnl_svd(vnl_matrix<double> const &m,double):m_(m.rows()),n_(m.cols()),U_(m),W_(m.rows()),Winverse_(m.rows()),V_(m),rank_(m.rows()),have_max_(false),have_min_(false),last_tol_(0),valid_(true){}
template<> vnl_matrix<double> vnl_svd<double>::pinverse(unsigned) const { // by cofactors
  const vnl_matrix<double> &a=U_; unsigned n=a.rows(); vnl_matrix<double> r(n,n); double d=vnl_determinant(a,false);
  if(n==1) r(0,0)=1/d;
  else if(n==2){ r(0,0)=a(1,1)/d; r(0,1)=-a(0,1)/d; r(1,0)=-a(1,0)/d; r(1,1)=a(0,0)/d; }
  else for(unsigned i=0;i<3;i++) for(unsigned j=0;j<3;j++){ unsigned p=(j+1)%3,q=(j+2)%3,s=(i+1)%3,t=(i+2)%3; r(i,j)=(a(p,s)*a(q,t)-a(p,t)*a(q,s))/d; }
  return r; }
template<> vnl_vector_ref<double>::vnl_vector_ref(size_t n,double *p){ this->data=p; this->num_elmts=n; this->m_LetArrayManageMemory=false; }
