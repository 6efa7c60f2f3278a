// Images in files: an image reader and writer whose files hold what the test
// put there (or what the code wrote).
#ifndef HIMAGEIO_H
#define HIMAGEIO_H
#include "itkImageIOBase.h"
#include "itkObjectFactoryBase.h"
#include "itkVersion.h"
#include <map>
#include <string>
#include <vector>
#include <string.h>
// what goes wrong with a file: nothing, no reader for it, a broken header, broken data
enum { PIC_FINE, PIC_NOREADER, PIC_HEADER, PIC_DATA };
struct Pic { unsigned dims; long size[3]; double spacing[3],origin[3]; std::vector<double> px; int fault,reads,writes; itk::IOComponentEnum type; unsigned comps;
  Pic():dims(2),fault(0),reads(0),writes(0),type(itk::IOComponentEnum::DOUBLE),comps(1){ for(int i=0;i<3;i++){ size[i]=1; spacing[i]=1; origin[i]=0; } }
  unsigned long count()const{ return size[0]*size[1]*size[2]; } };
static std::map<std::string,Pic>&pics(){ static std::map<std::string,Pic> m; return m; }
static int pic_nowrite=0;
struct TestImageIO : itk::ImageIOBase { typedef TestImageIO Self; typedef itk::SmartPointer<Self> Pointer;
  static Pointer New(){ Pointer p=new Self; p->UnRegister(); return p; }
  itk::LightObject::Pointer CreateAnother() const override { itk::LightObject::Pointer p; p=New().GetPointer(); return p; }
  const char*GetNameOfClass() const override { return "TestImageIO"; }
  static Pic*find(const char*f){ std::map<std::string,Pic>::iterator i=pics().find(f); return i==pics().end()? 0: &i->second; }
  bool CanReadFile(const char*f) override { Pic*p=find(f); return p&&p->fault!=PIC_NOREADER; }
  void ReadImageInformation() override { Pic*p=find(GetFileName()); if(!p||p->fault==PIC_HEADER) throw itk::ExceptionObject(__FILE__,__LINE__,"broken header"); SetNumberOfDimensions(p->dims); for(unsigned i=0;i<p->dims;i++){ SetDimensions(i,p->size[i]); SetSpacing(i,p->spacing[i]); SetOrigin(i,p->origin[i]); } SetPixelType(p->comps==3?itk::IOPixelEnum::RGB:itk::IOPixelEnum::SCALAR); SetComponentType(p->type); SetNumberOfComponents(p->comps); }
  void Read(void*b) override { Pic*p=find(GetFileName()); if(!p||p->fault==PIC_DATA) throw itk::ExceptionObject(__FILE__,__LINE__,"broken data"); p->reads++;
    switch(p->type){ case itk::IOComponentEnum::UCHAR: give<unsigned char>(*p,b); break; case itk::IOComponentEnum::SHORT: give<short>(*p,b); break; case itk::IOComponentEnum::FLOAT: give<float>(*p,b); break; default: give<double>(*p,b); } }
  template<class T> static void give(const Pic&p,void*b){ T*t=(T*)b; for(size_t i=0;i<p.px.size();i++) for(unsigned c=0;c<p.comps;c++) *t++=(T)p.px[i]; }
  bool CanWriteFile(const char*) override { return !pic_nowrite; }
  void WriteImageInformation() override {}
  template<class T> static void take(Pic&p,const void*b){ const T*t=(const T*)b; p.px.clear(); for(size_t i=0;i<p.count();i++) p.px.push_back((double)t[i]); }
  void Write(const void*b) override { Pic&p=pics()[GetFileName()]; int w=p.writes; p=Pic(); p.writes=w+1; p.dims=GetNumberOfDimensions(); for(unsigned i=0;i<p.dims&&i<3;i++){ p.size[i]=GetDimensions(i); p.spacing[i]=GetSpacing(i); p.origin[i]=GetOrigin(i); } p.type=GetComponentType(); p.comps=GetNumberOfComponents();
    switch(p.type){ case itk::IOComponentEnum::UCHAR: take<unsigned char>(p,b); break; case itk::IOComponentEnum::SHORT: take<short>(p,b); break; case itk::IOComponentEnum::FLOAT: take<float>(p,b); break; default: take<double>(p,b); }
    fs_file(GetFileName(),"image",5); } };
#ifdef SYMX
namespace vp_itk { extern itk::LightObject::Pointer (*make_image_io)(); }
static itk::LightObject::Pointer make_test_io(){ itk::LightObject::Pointer p; p=TestImageIO::New().GetPointer(); return p; }
static void images(){ vp_itk::make_image_io=make_test_io; }
#else
struct TestIOFactory : itk::ObjectFactoryBase { typedef TestIOFactory Self; typedef itk::SmartPointer<Self> Pointer; static Pointer New(){ Pointer p=new Self; p->UnRegister(); return p; }
  const char*GetITKSourceVersion() const override { return ITK_SOURCE_VERSION; } const char*GetDescription() const override { return "test images"; }
  struct Create : itk::CreateObjectFunctionBase { typedef itk::SmartPointer<Create> Pointer; static Pointer New(){ Pointer p=new Create; p->UnRegister(); return p; } itk::LightObject::Pointer CreateObject() override { itk::LightObject::Pointer p; p=TestImageIO::New().GetPointer(); return p; } };
  TestIOFactory(){ RegisterOverride("itkImageIOBase","TestImageIO","test images",true,Create::New()); } };
static void images(){ static bool once=false; if(once) return; once=true; itk::ObjectFactoryBase::RegisterFactory(TestIOFactory::New(),itk::ObjectFactoryBase::InsertionPositionEnum::INSERT_AT_FRONT); }
#endif
// a file that holds this image
static void pic(const char*f,const Pic&p){ pics()[f]=p; fs_file(f,"image",5); }
#endif
