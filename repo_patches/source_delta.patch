From 1877ee62ab017e9c0543ed989ddfd66d3e5390c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 01/27] fix: Base64 padding, line breaks, byte counts and
 high-bit characters

Encode sized and placed line breaks wrongly, IsBase64 returned the number of
characters instead of bytes, Decode rejected all padded input and wrote one
byte too many, characters above 127 indexed before the table, and the white
space entries of the table were off (backspace instead of space).
---
 TestingFramework/tfBase64.cpp | 58 ++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index a608417..fe9fa76 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -83,8 +83,8 @@ namespace testutil {
 
   std::string Base64::Encode(const void *_input, size_t numBytes) {
     std::string::size_type numChars = ((numBytes+2)/3)*4;
-    if (this->addNewLines)	  
-      numChars += numChars/72;
+    if (this->addNewLines && numChars)
+      numChars += (numChars-1)/72;
     std::string output(numChars, '\0');
     const unsigned char *input = static_cast<const unsigned char *>(_input);
 	
@@ -106,10 +106,11 @@ namespace testutil {
       output[i++] = base64chars[(input[j+2] & 0x3f)];
       j += 3;
 	  
-      if (this->addNewLines && !(i%72))
-	output[i++] = '\n';
-	  
       numBytes -= 3;
+
+      // 54 input bytes make a full line of 72 characters
+      if (this->addNewLines && numBytes && !(j%54))
+	output[i++] = '\n';
     }
 	
     // pad the output
@@ -132,15 +133,18 @@ namespace testutil {
     size_t i = 0;     // index into encode input
     int byteNumber = 0;  // 0,1,3 indicates how to decode
     size_t bytesRead = 0;
-    char byte;    
+    unsigned char byte;
     bool padded = false;
 
     while (i < input.length()) {	  
 	  
       byte = input[i++];
-      if (base64bits[ptrdiff_t(byte)] <= 64) {
+      if (base64bits[byte] <= 64) {
 	    
-	if (base64bits[ptrdiff_t(byte)] == PaddingBits) {
+	if (base64bits[byte] == PaddingBits) {
+	  // at least two characters are needed before the padding
+	  if (!padded && byteNumber < 2)
+	    return 0;
 	  padded = true;	      
 	  byteNumber++;
 	} else if (padded) {
@@ -160,9 +164,9 @@ namespace testutil {
 	}
 	    
 
-      } else if (base64bits[ptrdiff_t(byte)] == WhiteSpaceBits) {
+      } else if (base64bits[byte] == WhiteSpaceBits) {
 	// white space, just ignore
-      } else if (base64bits[ptrdiff_t(byte)] == InvalidBase64Bits) {
+      } else if (base64bits[byte] == InvalidBase64Bits) {
 	if (!this->ignoreInvalids)
 	  return 0;
       } else {
@@ -173,7 +177,8 @@ namespace testutil {
     if (byteNumber != 0)
       return 0;
 
-    return bytesRead;
+    // every 4 characters are 3 bytes
+    return (bytesRead/4)*3 + ((bytesRead%4)*3)/4;
   }
       
   size_t Base64::Decode(const std::string &input, void *_output) {
@@ -182,37 +187,36 @@ namespace testutil {
     size_t i = 0; // index into encode input
     size_t j = 0; // index to output
     int byteNumber = 0; // 0,1,3 indicates how to decode
-    size_t bytesRead = 0;
-    char buffer[4];
-    char byte;
+    unsigned char buffer[4];
+    unsigned char byte;
     bool padded = false;
 	
 
     while (i < input.length()) {	  
 	  
       byte = input[i++];
-      if (base64bits[ptrdiff_t(byte)] <= 64) {
+      if (base64bits[byte] <= 64) {
 	    
-	if (base64bits[ptrdiff_t(byte)] == PaddingBits) {
+	if (base64bits[byte] == PaddingBits) {
 	  if (!padded) {
 	    // first pad decode what we have
 	    padded = true;	 
 	    if (byteNumber == 2) {
 	      output[j++] = buffer[0] << 2 | buffer[1] >> 4;
-	      output[j++] = buffer[1] << 4;
 	    } else if (byteNumber == 3) {
 	      output[j++] = buffer[0] << 2 | buffer[1] >> 4;
 	      output[j++] = buffer[1] << 4 | buffer[2] >> 2;
-	      output[j++] = buffer[2] << 6;
 	    } else {
-	      std::runtime_error("invalid base64 string, improper termination");
+	      throw std::runtime_error("invalid base64 string, improper termination");
 	    }
 	  }
 	  byteNumber++;
 	      
 	  // padding finishedm we are done
-	  if (byteNumber == 4)
+	  if (byteNumber == 4) {
+	    byteNumber = 0;
 	    break;
+	  }
 
 	} else if (padded) {
 	  // the input was improperly terminated
@@ -220,8 +224,7 @@ namespace testutil {
 	} else {	    
 	  // have a byte with data..
 	  // look up in inverse table to get the bits
-	  buffer[byteNumber++] = base64bits[ptrdiff_t(byte)];	      
-	  bytesRead++;
+	  buffer[byteNumber++] = base64bits[byte];	      
 
 	  if (byteNumber == 4){
 	    // The basic idea is that the four bytes will get reconstituted
@@ -233,14 +236,13 @@ namespace testutil {
 	    output[j++] = buffer[1] << 4 | buffer[2] >> 2;
 	    output[j++] = buffer[2] << 6 | buffer[3];
 	    byteNumber = 0;
-	    bytesRead--;
 	  }
 	      
 	}
 	     
-      } else if (base64bits[ptrdiff_t(byte)] == WhiteSpaceBits) {
+      } else if (base64bits[byte] == WhiteSpaceBits) {
 	// white space, just ignore
-      } else if (base64bits[ptrdiff_t(byte)] == InvalidBase64Bits) {
+      } else if (base64bits[byte] == InvalidBase64Bits) {
 	if (!this->ignoreInvalids)
 	  throw std::runtime_error("invalid base64 string, invalid char");
       } else {
@@ -253,7 +255,7 @@ namespace testutil {
       throw std::runtime_error("invalid base64 string, unexpected end");
 	  
 
-    return bytesRead;
+    return j;
   }
 
 
@@ -273,9 +275,9 @@ namespace testutil {
       
   // table to convert base64 to 6 bits
   const unsigned char Base64::base64bits[256] = {
-    255,255,255,255,255,255,255,255,254,254,254,254,254,254,255,255, // 16
+    255,255,255,255,255,255,255,255,255,254,254,254,254,254,255,255, // 16
     255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255, // 32     
-    255,255,255,255,255,255,255,255,255,255,255, 62,255,255,255, 63, // 48
+    254,255,255,255,255,255,255,255,255,255,255, 62,255,255,255, 63, // 48
      52, 53, 54, 55, 56, 57, 58, 59, 60, 61,255,255,255, 64,255,255, // 64
     255,  0,  1,  2,  3,  4,  5,  6,  7,  8,  9, 10, 11, 12, 13, 14, // 80
      15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25,255,255,255,255,255, // 96     
-- 
2.43.0


From 669c916359c35cd6ae47e7388f3863191169a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 02/27] fix: Diff reads only inside its line arrays and quotes
 whole lines

---
 TestingFramework/tfDiff.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 88bb8a7..94b66b5 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -218,8 +218,8 @@ namespace testutil {
       assert(xend - xbegin != 0 || yend - ybegin != 0); 
       
       // can't begin or end with a 'snake'
-      assert(xvec[xbegin] != yvec[ybegin] || xend - xbegin == 0 || yend - ybegin == 0);
-      assert(xvec[xend-1] != yvec[yend-1] || xend - xbegin == 0 || yend - ybegin == 0);
+      assert(xend - xbegin == 0 || yend - ybegin == 0 || xvec[xbegin] != yvec[ybegin]);
+      assert(xend - xbegin == 0 || yend - ybegin == 0 || xvec[xend-1] != yvec[yend-1]);
 
       
       if (xend - xbegin == 0) {
@@ -241,7 +241,7 @@ namespace testutil {
 
 	  // eat what 'snake we can in the middle
 	  // and get the operations for the two halves
-	  if (xvec[part.xmid-1] == yvec[part.ymid-1] && part.xmid != xbegin && part.ymid != ybegin) {
+	  if (part.xmid != xbegin && part.ymid != ybegin && xvec[part.xmid-1] == yvec[part.ymid-1]) {
 	    l2 = GenerateEditList(part.xmid, xend, part.ymid, yend, data);
 	    // eat it
 	    while(part.xmid != xbegin && part.ymid != ybegin && xvec[part.xmid - 1] == yvec[part.ymid-1])
@@ -302,7 +302,7 @@ namespace testutil {
 		for (; num > 0; ++lnum, --num) {
 			// some reason MSDEV needed conversion??
 	os << prefix.c_str() << data.str[source]->substr(data.lines[source][lnum].lindex, 
-						   data.lines[source][lnum].length).c_str()<< endl;
+						   data.lines[source][lnum].length)<< endl;
 		}
     }
 
@@ -433,7 +433,7 @@ namespace testutil {
 	  
 	for (size_t j = hindex; j < 2; ++j) {
 	  hash_table::iterator i = hash[j].begin();
-	  while(!hash[j].empty()  && i->first == v.first) {
+	  while(i != hash[j].end()  && i->first == v.first) {
 	    if (!str[hindex]->substr(data.lines[hindex][v.second].lindex, data.lines[hindex][v.second].length).compare(
 		str[j]->substr(data.lines[j][i->second].lindex, data.lines[j][i->second].length))) {	      
 	      data.vec[j][i->second] = id;	
-- 
2.43.0


From 93531db325d2086e3438e1568329ef618122af11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 03/27] fix: PathName handles the root directory and reports
 files not on the search path

---
 FileUtilities/PathName.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/FileUtilities/PathName.cpp b/FileUtilities/PathName.cpp
index 457db61..62287c0 100644
--- a/FileUtilities/PathName.cpp
+++ b/FileUtilities/PathName.cpp
@@ -142,10 +142,10 @@ namespace fileutil {
 #else /// POSIX UNIX
       // remove trailing '/'
       std::string path = this->GetNativePathName();
-      std::string::size_type i = path.length() - 1;
-      while (i && path[i] == '/')
+      std::string::size_type i = path.length();
+      while (i && path[i - 1] == '/')
 	--i;
-      path.erase(i + 1, path.length() - i - 1);
+      path.erase(i, path.length() - i);
       this->SetPathName(path + '/' + f.GetNativePathName());      
     
 #endif
@@ -195,6 +195,8 @@ namespace fileutil {
       i = std::string::npos;
 #else /// POSIX UNIX
     i = path.rfind('/');
+    if (i == 0)
+      return PathName("/");
 #endif
     if (i == 0 || i == std::string::npos)
       return PathName(".");
@@ -294,7 +296,7 @@ namespace fileutil {
       if (fullFileName.IsFile())
 	return fullFileName;
     }
-    return fullFileName;
+    return PathName("");
   }
 
 
-- 
2.43.0


From 779f00da4346ebc456a44ab1c163b8bb3cdb5f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 04/27] fix: integer measurements keep the full range of long

---
 TestingFramework/tfMeasurement.cpp |  6 +++---
 TestingFramework/tfMeasurement.h   | 17 ++++++++++-------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 0211c77..f598bd1 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -536,14 +536,14 @@ namespace testutil {
     visitor.Visit(*this);
   }
  
-  int IntegerNumeric::GetValue(void) const {
+  long IntegerNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    int v;
+    long v;
     iss >> v;
     return v;    
   }
 
-  void IntegerNumeric::SetValue(int v) {
+  void IntegerNumeric::SetValue(long v) {
     std::ostringstream oss;
     oss << v;
     this->SetContent(oss.str());
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 36fb2ec..60dcf35 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -442,11 +442,14 @@ namespace testutil {
     template <class T>
     static bool _IsEqualTolerant(const T &lm, const T &rm, double tol) {
       tol = std::abs(tol);
-      T temp = std::abs(lm - rm);     
-      return  temp <= tol*std::abs(lm) ||
-	temp <= tol*std::abs(rm) || 
-	(std::abs(lm) < std::numeric_limits<T>::epsilon() &&
-	 std::abs(rm) < std::numeric_limits<T>::epsilon());
+      // wide enough for the difference of any two values
+      const long double u = lm;
+      const long double v = rm;
+      const long double temp = std::abs(u - v);
+      return  temp <= tol*std::abs(u) ||
+	temp <= tol*std::abs(v) || 
+	(std::abs(u) < std::numeric_limits<T>::epsilon() &&
+	 std::abs(v) < std::numeric_limits<T>::epsilon());
     }
     
   private:
@@ -473,8 +476,8 @@ namespace testutil {
     // see Measurement
     virtual void AcceptVisitor(MeasurementVisitor &visitor);
     
-    int GetValue(void) const;
-    void SetValue(int v); 
+    long GetValue(void) const;
+    void SetValue(long v); 
 
      // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
-- 
2.43.0


From b862ea5b4af3f92a8b44883d53885bcd60772521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 05/27] fix: escape attribute values in printed measurements

---
 TestingFramework/tfMeasurement.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index f598bd1..595921f 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -62,6 +62,17 @@ namespace testutil {
   
   const std::string MeasurementFile::measurementElementTypeName("DartMeasurementFile");
 
+  namespace {
+    // the value of an attribute as it is written between double quotes
+    std::string AttributeValue(const Measurement &m, const std::string &str) {
+      std::string result = m.ApplyEscapeSequences(str);
+      std::string::size_type i = 0;
+      while ((i = result.find('"', i)) != std::string::npos)
+	result.replace(i, 1, "&quot;");
+      return result;
+    }
+  }
+
   DataMeasurement *CreateDataMeasurement(const std::string attributeType) {
     if (attributeType == "text/plain") 
       return new PlainText;
@@ -317,8 +328,8 @@ namespace testutil {
 
   void MeasurementFile::PrintStartTag(std::ostream &os) const {
       
-    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetAttributeName() 
-       << "\" type=\"" << this->GetAttributeType() << "\">";
+    os << "<" << this->GetElementTypeName() << " name=\"" << AttributeValue(*this, this->GetAttributeName())
+       << "\" type=\"" << AttributeValue(*this, this->GetAttributeType()) << "\">";
   }
   
   
@@ -485,13 +496,13 @@ namespace testutil {
 
      
   void DataMeasurement::PrintStartTag(std::ostream &os) const {
-    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetAttributeName() 
-       << "\" type=\"" << this->GetAttributeType() << "\"";
+    os << "<" << this->GetElementTypeName() << " name=\"" << AttributeValue(*this, this->GetAttributeName())
+       << "\" type=\"" << AttributeValue(*this, this->GetAttributeType()) << "\"";
 
     if (this->GetAttributeEncoding() != this->GetDefaultAttributeEncoding())
-      os << " encoding=\"" << this->GetAttributeEncoding() << "\"";
+      os << " encoding=\"" << AttributeValue(*this, this->GetAttributeEncoding()) << "\"";
     if (this->GetAttributeCompression() != this->GetDefaultAttributeCompression()) {
-      os << " compression=\"" << this->GetAttributeCompression() << "\"";
+      os << " compression=\"" << AttributeValue(*this, this->GetAttributeCompression()) << "\"";
     }
     os << ">";
   }
-- 
2.43.0


From abfb2b340495a2bcfd5d93fdef973d380a35790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 06/27] fix: content and data of a measurement stay in step

---
 TestingFramework/tfMeasurement.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 595921f..c6a69c6 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -339,19 +339,18 @@ namespace testutil {
     this->DeleteContentAsData();
   }
 
-  DataMeasurement::DataMeasurement(void) : data(0) {
+  DataMeasurement::DataMeasurement(void) : dataSize(0), data(0) {
     this->encoding = this->GetDefaultAttributeEncoding();
     this->compression = this->GetDefaultAttributeCompression();
   }
 
   DataMeasurement::DataMeasurement(const DataMeasurement &m) 
-    : Measurement(m), encoding(m.encoding), compression(m.compression), data(0){
+    : Measurement(m), encoding(m.encoding), compression(m.compression), dataSize(0), data(0){
   }
     
   DataMeasurement &DataMeasurement::operator=(const DataMeasurement &m) {
     this->Measurement::operator=(m);
-    this->data = 0;
-    this->dataSize = 0;
+    this->DeleteContentAsData();
     this->encoding = m.encoding;
     this->compression = m.compression;
     return *this;
@@ -364,6 +363,7 @@ namespace testutil {
 
   void DataMeasurement::SetAttributeEncoding(const std::string &_encoding) {
     this->encoding = _encoding;
+    this->DeleteContentAsData();
   }
      
   const std::string &DataMeasurement::GetAttributeEncoding(void) const {
@@ -376,6 +376,7 @@ namespace testutil {
   
   void DataMeasurement::SetAttributeCompression(const std::string &_compression) {
     this->compression = _compression;
+    this->DeleteContentAsData();
   }
      
   const std::string &DataMeasurement::GetAttributeCompression(void)const {
@@ -445,14 +446,17 @@ namespace testutil {
   }
 
   void DataMeasurement::SetContentAsData(const void *_data, size_t size) {
-    this->DeleteContentAsData();
-    this->data = malloc(size);
+    // _data may be the current data, so copy it before that is freed
+    void *copy = malloc(size);
 
-    if (!this->data) 
+    if (!copy) 
       throw std::bad_alloc();
-    this->dataSize = size;
 
-    memcpy(this->data, _data, size);
+    memcpy(copy, _data, size);
+
+    this->DeleteContentAsData();
+    this->data = copy;
+    this->dataSize = size;
     
     // encode the data to be moved into the content
     if (this->GetAttributeCompression() != "none") {
@@ -461,7 +465,7 @@ namespace testutil {
     }
 
     if (this->GetAttributeEncoding() == "none") {
-      
+      this->SetContent(std::string(static_cast<const char*>(this->data), this->dataSize));
     } else if (this->GetAttributeEncoding() == "base64") {
       Base64 encoder;
       
-- 
2.43.0


From 48ac919ba5d0e3a958c822b642a19b47811ab74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 07/27] fix: file measurements compare the bytes of both files

---
 TestingFramework/tfMeasurement.cpp | 15 +++++++++++++--
 TestingFramework/tfMeasurement.h   |  1 +
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index c6a69c6..4b60656 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -253,7 +253,7 @@ namespace testutil {
 
     if (!is) {
       std::cerr << "error opening file \"" << this->GetFileName() << "\"." << std::endl;
-      return new PlainText();
+      return 0;
     }
       
 
@@ -301,6 +301,8 @@ namespace testutil {
     if (state & ios_base::eofbit) cerr << "throws for eof";
 
     if (!is.eof() || is.bad()) {
+      free(buff);
+      delete dm;
       throw std::runtime_error("failure reading file");
     }
     
@@ -315,7 +317,16 @@ namespace testutil {
 	this->GetAttributeType() != m.GetAttributeType())
       return false;
     DataMeasurement *dm = Load();
-    bool v = (m == *dm); // switch so if the are both file we can do it again
+    if (!dm)
+      return false; // a file which can not be read is not equal to anything
+    bool v;
+    if (MeasurementFile *mf = dynamic_cast<MeasurementFile*>(&m)) {
+      DataMeasurement *mdm = mf->Load();
+      v = mdm && dm->GetContentAsDataSize() == mdm->GetContentAsDataSize() &&
+	!memcmp(dm->GetContentAsData(), mdm->GetContentAsData(), dm->GetContentAsDataSize());
+      delete mdm;
+    } else
+      v = (m == *dm);
     delete dm;
 
     // TODO
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 60dcf35..e1438c6 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -214,6 +214,7 @@ namespace testutil {
     /// into the DataMeasurement object. 
     ///
     /// \note the user must delete this object with delete to free the memory.
+    /// \return 0 if the file can not be opened
     DataMeasurement *Load(void);
 
     /// \brief comparison
-- 
2.43.0


From b53a660611461206fbca837ccf03549d632aae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:33 +0000
Subject: [PATCH 08/27] fix: an option without a value ends the option
 processing

---
 TestingFramework/tfRegressionTest.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 5e95254..241b4bc 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -221,6 +221,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	    std::swap(argv[j+2], argv[j]);
 	  argc -=2;
           }
+        else
+          break; // no value
         }    
       // input filename option
       else if (!strcmp("-I", argv[i])) 
@@ -240,6 +242,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	    std::swap(argv[j+2], argv[j]);
 	  argc -=2;
           }
+        else
+          break; // no value
         }
       // expected return value
       else if (!strcmp("-R", argv[i]))
@@ -255,6 +259,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	    std::swap(argv[j+2], argv[j]);
 	  argc -=2;
           }
+        else
+          break; // no value
         }
       // additional in file search path
       else if (!strcmp("-P", argv[i]))
@@ -275,6 +281,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	  argc -=2;
           this->PrependInFileSearchPath( pn );
           }
+        else
+          break; // no value
         }
       else
         {
-- 
2.43.0


From ef09cd4ea65c0e66bb2de8552e0f9bc95178187e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:33 +0000
Subject: [PATCH 09/27] fix: a run that throws never reports success

---
 TestingFramework/tfRegressionTest.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 241b4bc..ce6a19d 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -301,6 +301,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	  
 
     int ret = -1; 
+    bool completed = false;
 
     std::set_unexpected(&_UnexpectedHandler);
     std::set_terminate(&_TerminateHandler);
@@ -321,6 +322,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       this->EndMeasurement();
 
       this->inputUnmatched--;
+      completed = true;
     } 
     CATCH_STDEXCEPTION(std::length_error)
       CATCH_STDEXCEPTION(std::domain_error)
@@ -337,7 +339,11 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       catch(...) {
 	std::cerr << "unknow exception" << std::endl;
       }
-    if ( ret != this->GetExpectedReturn() )
+    if ( !completed )
+      {
+      return ret != 0 ? ret : EXIT_FAILURE;
+      }
+    else if ( ret != this->GetExpectedReturn() )
       {
       return ret;
       }
-- 
2.43.0


From 9aafbd4e9cc3c27f4d7ff0687ccb44aac090e6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:04 +0000
Subject: [PATCH 10/27] fix: mismatches count even if the baseline file is gone
 at the end

---
 TestingFramework/tfRegressionTest.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index ce6a19d..cf2d936 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -302,6 +302,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 
     int ret = -1; 
     bool completed = false;
+    bool compare = false;
 
     std::set_unexpected(&_UnexpectedHandler);
     std::set_terminate(&_TerminateHandler);
@@ -314,7 +315,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       
 
       this->BeginMeasurement();
-
+      compare = this->GetCompareMode();
       
       ret = this->Test(argc, argv);
 
@@ -347,7 +348,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       {
       return ret;
       }
-    else if ( this->GetCompareMode() )
+    else if ( compare )
       {
       return this->inputUnmatched;
       }
-- 
2.43.0


From 82ba3966686349561a44c40a283e03366fada7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:04 +0000
Subject: [PATCH 11/27] fix: a measurement element without a type is read as
 plain text

---
 TestingFramework/tfRegressionTest.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index cf2d936..115b8c4 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -660,6 +660,10 @@ namespace {
 	      }
 	    }
 	  }
+	  if (!dm) {
+	    std::cerr << "XML: dart measurement without a type" << std::endl;
+	    dm = new PlainText;
+	  }
 	  pd.m = dm;
 		
 	  // get what we know, but we can't really set any of these yet
-- 
2.43.0


From 71e87a93538d0f1e4ac032a45f4aed8e790ea850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:04 +0000
Subject: [PATCH 12/27] fix: elements nested in a measurement do not end it

---
 TestingFramework/tfRegressionTest.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 115b8c4..f7c32c2 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -636,8 +636,8 @@ namespace {
     void start(void *data, const char *el, const char **attr) {  
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data);
       
-      assert(!pd.m);
-      assert(pd.data.length() == 0);
+      assert(pd.depth > 1 || !pd.m);
+      assert(pd.depth > 1 || pd.data.length() == 0);
 
       if (pd.depth == 0) {
 	if (el && std::string(el) != "output" ) {
@@ -716,18 +716,18 @@ namespace {
     void end(void *data, const char *el) { 
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data); 
 
-      if (pd.m && pd.depth == 2) {
-	//	pd.data += '\0';
-	pd.m->SetContent(pd.data);	
-	pd.measurements.push_back(pd.m);
-      } else if (pd.m) {
-	// may not be posible, but let's make sure we keep things clean
-	delete pd.m;
-      }
+      // elements nested in a measurement are not part of it
+      if (pd.depth == 2) {
+	if (pd.m) {
+	  //	pd.data += '\0';
+	  pd.m->SetContent(pd.data);	
+	  pd.measurements.push_back(pd.m);
+	}
 
-      pd.m = 0;
+	pd.m = 0;
       
-      pd.data.resize(0);
+	pd.data.resize(0);
+      }
 
       --pd.depth;
     }
-- 
2.43.0


From 7f2cdd901229cf99bdc723f0c927895575775867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:04 +0000
Subject: [PATCH 13/27] fix: a parse error inside a measurement is an error of
 the run

---
 TestingFramework/tfRegressionTest.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index f7c32c2..298be5f 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -624,12 +624,20 @@ namespace {
     
 
     struct XMLParseData {
-      XMLParseData(void) : depth(0), m(0) {}
-      ~XMLParseData(void) { assert(!m);}
+      XMLParseData(void) : depth(0), m(0), parser(0) {}
+      ~XMLParseData(void) {
+	// what is left when the parsing ends early
+	delete m;
+	for (std::list<Measurement*>::iterator i = measurements.begin(); i != measurements.end(); ++i)
+	  delete *i;
+	if (parser)
+	  XML_ParserFree(parser);
+      }
       int depth;
       std::string data;
       Measurement *m;
       std::list<Measurement*> measurements;
+      XML_Parser parser;
     };
 
 
@@ -762,6 +770,7 @@ namespace {
 
     if (!parser)       
       throw std::bad_alloc();
+    pd.parser = parser;
     
     XML_SetElementHandler(parser, start, end);
 
@@ -798,7 +807,6 @@ namespace {
 	break;
     }
 
-    XML_ParserFree(parser);
     this->Input.swap(pd.measurements);
   }
   
-- 
2.43.0


From a607e68fdbce258c637b258f0b1bd43ac8e35051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 14/27] fix: the host name does not end the comment of the
 output file

---
 TestingFramework/tfRegressionTest.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 298be5f..aea1ea2 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -608,8 +608,14 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 #if defined(WIN32)
     strcpy(hostname, "unknow windows host");
 #else
-    gethostname(hostname, 256);
+    if (gethostname(hostname, sizeof(hostname)) != 0)
+      strcpy(hostname, "unknown host");
+    hostname[sizeof(hostname)-1] = '\0';
 #endif
+    // "--" is not allowed in a comment
+    for (char *c = hostname; *c; ++c)
+      if (c[0] == '-' && c[1] == '-')
+	c[0] = '_';
     this->GetOutStream() << "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>" << std::endl;
     this->GetOutStream() << "<!-- created on "  << hostname << " at " <<ctime(&t) << " -->" << std::endl;
     this->GetOutStream() << "<output>" << std::endl;
-- 
2.43.0


From 965dd56a72a51b276797cd24860780fb991ed231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:52 +0000
Subject: [PATCH 15/27] fix: the pipe wrapper records only the child's standard
 output

Data from the standard error was added to the "stdout" measurement.
---
 TestingFramework/tfPipeToXML.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfPipeToXML.cxx b/TestingFramework/tfPipeToXML.cxx
index 4e7a733..4469383 100644
--- a/TestingFramework/tfPipeToXML.cxx
+++ b/TestingFramework/tfPipeToXML.cxx
@@ -47,7 +47,15 @@ protected:
     int p;
     while((p = itksysProcess_WaitForData(kp, &data, &length, 0 )))
       {
-      outputString += std::string( data, length );
+      if ( p == itksysProcess_Pipe_STDOUT )
+        {
+        outputString += std::string( data, length );
+        }
+      else
+        {
+        // only the standard output is measured
+        std::cerr.write( data, length );
+        }
       }
   
     itksysProcess_WaitForExit(kp, 0);
-- 
2.43.0


From 5bd990591a80a1d68593d9b091d45bf6606d4990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 16/27] fix: the image difference filter runs with ITK 4 and 5

ThreadedGenerateData did not override the superclass' method, so the
filter threw whenever it was updated.
---
 itktf/itktfDifferenceImageFilter.h   | 11 +++++++++--
 itktf/itktfDifferenceImageFilter.txx |  9 +++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index f8f550c..2337bda 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -39,7 +39,9 @@ template<typename T>
 itk::VariableLengthVector<T>
 ZeroValue( const itk::VariableLengthVector<T> &v )
 {
-  return  itk::NumericTraits<itk::VariableLengthVector<T> >::Zero(v); 
+  itk::VariableLengthVector<T> zero( v.GetSize() );
+  zero.Fill( itk::NumericTraits<T>::Zero );
+  return zero;
 }
 
 template<typename TPixelType>
@@ -159,8 +161,13 @@ protected:
    *
    * \sa ImageToImageFilter::ThreadedGenerateData(),
    *     ImageToImageFilter::GenerateData()  */
+#if ITK_VERSION_MAJOR >= 4
+  typedef ThreadIdType ThreadIndexType;
+#else
+  typedef int ThreadIndexType;
+#endif
   void ThreadedGenerateData(const OutputImageRegionType& threadRegion,
-                            int threadId);
+                            ThreadIndexType threadId);
 
   void BeforeThreadedGenerateData();
   void AfterThreadedGenerateData();
diff --git a/itktf/itktfDifferenceImageFilter.txx b/itktf/itktfDifferenceImageFilter.txx
index 79ecd92..6d6be97 100644
--- a/itktf/itktfDifferenceImageFilter.txx
+++ b/itktf/itktfDifferenceImageFilter.txx
@@ -37,6 +37,11 @@ DifferenceImageFilter<TInputImage, TOutputImage>
 {
   // We require two inputs to execute.
   this->SetNumberOfRequiredInputs(2);
+
+#if ITK_VERSION_MAJOR >= 5
+  // The statistics are collected for each thread.
+  this->DynamicMultiThreadingOff();
+#endif
   
   // Set the default MagnitudeThreshold.
   m_MagnitudeThreshold = NumericTraits<ScalarRealType>::Zero;
@@ -111,7 +116,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
 template <class TInputImage, class TOutputImage>
 void
 DifferenceImageFilter<TInputImage, TOutputImage>
-::ThreadedGenerateData(const OutputImageRegionType &threadRegion, int threadId)
+::ThreadedGenerateData(const OutputImageRegionType &threadRegion, ThreadIndexType threadId)
 {
   typedef ConstNeighborhoodIterator<InputImageType>   SmartIterator;
   typedef ImageRegionConstIterator<InputImageType>    InputIterator;
@@ -197,7 +202,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
           // Store the minimum difference value in the output image.
           out.Set( static_cast<OutputPixelType>(minimumDifference) );
           // Update difference image statistics.
-          m_ThreadMagnitudeSum[threadId] += vcl_sqrt( minimumMagnitude2 );
+          m_ThreadMagnitudeSum[threadId] += std::sqrt( minimumMagnitude2 );
           m_ThreadNumberOfPixels[threadId]++;
           }
         else
-- 
2.43.0


From 43f4c1cb1602e2aa192619f9083219a9f99d3581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 17/27] fix: images of different geometry can be differenced

Since ITK 4 filters throw for such inputs, but the differences of images
with other spacings and origins are reported, not only equal ones.
---
 itktf/itktfDifferenceImageFilter.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index 2337bda..8b8cb2c 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -169,6 +169,16 @@ protected:
   void ThreadedGenerateData(const OutputImageRegionType& threadRegion,
                             ThreadIndexType threadId);
 
+#if ITK_VERSION_MAJOR >= 4
+  /** The images are compared pixel by pixel, wherever they are in
+   * space. */
+# if ITK_VERSION_MAJOR >= 5
+  void VerifyInputInformation() const {}
+# else
+  void VerifyInputInformation() {}
+# endif
+#endif
+
   void BeforeThreadedGenerateData();
   void AfterThreadedGenerateData();
  
-- 
2.43.0


From 515026853618a37ee857983a0f9a677014b79d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 18/27] fix: a pixel that is not a number is different

Comparisons with NaN are false, so such pixels passed as equal.
---
 itktf/itktfDifferenceImageFilter.txx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/itktf/itktfDifferenceImageFilter.txx b/itktf/itktfDifferenceImageFilter.txx
index 6d6be97..010eb00 100644
--- a/itktf/itktfDifferenceImageFilter.txx
+++ b/itktf/itktfDifferenceImageFilter.txx
@@ -170,7 +170,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
         ScalarRealType minimumMagnitude2 = Math::SquaredTwoNorm( minimumDifference );
 
         // If center pixel isn't good enough, then test the neighborhood
-        if( minimumMagnitude2 > m_MagnitudeThreshold * m_MagnitudeThreshold )
+        if( !( minimumMagnitude2 <= m_MagnitudeThreshold * m_MagnitudeThreshold ) )
           {
           unsigned int neighborhoodSize = test.Size();
           // Find the closest-valued pixel in the neighborhood of the test
@@ -183,7 +183,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
             ScalarRealType magnitude2 = Math::SquaredTwoNorm( difference );
             
             // update to the minimum values
-            if ( magnitude2 < minimumMagnitude2 )
+            if ( magnitude2 < minimumMagnitude2 || minimumMagnitude2 != minimumMagnitude2 )
               {
               minimumDifference = difference;
               minimumMagnitude2 = magnitude2;
@@ -197,7 +197,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
           }
           
         // Check if difference is above threshold.
-        if ( minimumMagnitude2 > m_MagnitudeThreshold * m_MagnitudeThreshold )
+        if ( !( minimumMagnitude2 <= m_MagnitudeThreshold * m_MagnitudeThreshold ) )
           {
           // Store the minimum difference value in the output image.
           out.Set( static_cast<OutputPixelType>(minimumDifference) );
-- 
2.43.0


From 75c3daf1b1558022aca74405ba163861744764ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 19/27] fix: images with different origins are different

The origin of the baseline was compared to itself.
---
 itktf/itktfCompareVisitor.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itktf/itktfCompareVisitor.cxx b/itktf/itktfCompareVisitor.cxx
index aca3b0d..6aae6f7 100644
--- a/itktf/itktfCompareVisitor.cxx
+++ b/itktf/itktfCompareVisitor.cxx
@@ -120,7 +120,7 @@ int CompareVisitor::RegressionTestImage (const char *testImageFilename,
   // todo change to some kind of fuzzy a test.
   ImageType::PointType baselineOrigin = baselineReader->GetOutput()->GetOrigin();
   ImageType::PointType testOrigin = testReader->GetOutput()->GetOrigin();
-  if ( baselineOrigin != baselineOrigin )
+  if ( baselineOrigin != testOrigin )
     {
     return 1;
     }
-- 
2.43.0


From 962c057a68e8528180aaa813ae9c623b26288bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 20/27] fix: the pixel tolerance of an image comparison applies
 once

CompareImage already subtracts it, so twice as many pixels were accepted.
---
 itktf/itktfCompareVisitor.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/itktf/itktfCompareVisitor.cxx b/itktf/itktfCompareVisitor.cxx
index 6aae6f7..2fa4dfb 100644
--- a/itktf/itktfCompareVisitor.cxx
+++ b/itktf/itktfCompareVisitor.cxx
@@ -128,6 +128,7 @@ int CompareVisitor::RegressionTestImage (const char *testImageFilename,
   // todo add orientation
 
   
+  // the number of different pixels beyond the tolerance
   unsigned long status =
     Regression::CompareImage< ImageType >( testReader->GetOutput(),
                                            baselineReader->GetOutput(),
@@ -136,7 +137,7 @@ int CompareVisitor::RegressionTestImage (const char *testImageFilename,
                                            radiusTolerance );
   
 
-  return (status > numberOfPixelsTolerance) ? 1 : 0;
+  return (status != 0) ? 1 : 0;
 }
 
 }
-- 
2.43.0


From d3b67cd8cd1c3e284ab3ec2bc83a38195f126d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 21/27] fix: CompareImage compares the given region

The region was ignored.
---
 itktf/itktfRegression.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itktf/itktfRegression.h b/itktf/itktfRegression.h
index 74d7739..fbb9848 100644
--- a/itktf/itktfRegression.h
+++ b/itktf/itktfRegression.h
@@ -262,7 +262,7 @@ public:
       // extract only the specified region
       typedef itk::ExtractImageFilter<ImageType, ImageType> ExtractImageFilter;
       typename ExtractImageFilter::Pointer extractor = ExtractImageFilter::New();
-      extractor->SetExtractionRegion( testImage->GetLargestPossibleRegion() );
+      extractor->SetExtractionRegion( region );
       extractor->SetInput( baselineImage );
     
 
-- 
2.43.0


From 611d96cd9e0352dac327675bd532b1350c46abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 22/27] fix: image differences are reported to the visitor's
 stream

They went to the standard output whatever the report's file was.
---
 itktf/itktfDifferenceVisitor.cxx | 41 +++++++++++++++++---------------
 itktf/itktfDifferenceVisitor.h   |  2 +-
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/itktf/itktfDifferenceVisitor.cxx b/itktf/itktfDifferenceVisitor.cxx
index 80d378a..a694328 100644
--- a/itktf/itktfDifferenceVisitor.cxx
+++ b/itktf/itktfDifferenceVisitor.cxx
@@ -73,7 +73,8 @@ void DifferenceVisitor::Visit(testutil::MeasurementFile &m)
 template< typename ImageType >
 int ImageThing( typename ImageType::ConstPointer image, 
                 const  fileutil::PathName &fileName, 
-                const std::string &attributeName) 
+                const std::string &attributeName,
+                std::ostream &os) 
 {
   
   typedef unsigned char                  OutputPixelType;
@@ -105,7 +106,6 @@ int ImageThing( typename ImageType::ConstPointer image,
 
   
   RegionType region( index, size );
-  std::cout << region;
 
   typename ExtractType::Pointer extract = ExtractType::New();
   extract->SetInput( image );
@@ -154,7 +154,7 @@ int ImageThing( typename ImageType::ConstPointer image,
     outputMeasurement.SetAttributeType("image/png");
     outputMeasurement.SetAttributeName("Difference " + attributeName );
     outputMeasurement.SetContent(  fileName.GetPathName() );
-    std::cout << outputMeasurement << std::endl;
+    os << outputMeasurement << std::endl;
 
     return 0;  
 }
@@ -201,13 +201,13 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     strstream << baselineSize;
     statusMeasurement.SetAttributeName("Baseline Size "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
 
     strstream.str( "" );
     strstream << testSize;
     statusMeasurement.SetAttributeName("Test ImageSize "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
     
     return 1;
     }
@@ -225,13 +225,13 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     strstream << baselineSpacing;
     statusMeasurement.SetAttributeName("Baseline Spacing "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
 
     strstream.str( "" );
     strstream << testSpacing;
     statusMeasurement.SetAttributeName("Test Spacing "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;    
+    this->GetOutStream() << statusMeasurement << std::endl;    
     }
 
   //////////////////////////////////////////////////////
@@ -247,13 +247,13 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     strstream << baselineOrigin;
     statusMeasurement.SetAttributeName("Baseline Origin "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
 
     strstream.str( "" );
     strstream << testOrigin;
     statusMeasurement.SetAttributeName("Test Origin "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;    
+    this->GetOutStream() << statusMeasurement << std::endl;    
     }
   
   //////////////////////////////////////////////////////
@@ -268,11 +268,11 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     testutil::StringText statusMeasurement;
     statusMeasurement.SetAttributeName("Baseline PixelType "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( baselineReader->GetImageIO()->GetPixelTypeAsString( baselinePixelType ) );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
     
     statusMeasurement.SetAttributeName("Test PixelType "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( testReader->GetImageIO()->GetPixelTypeAsString( testPixelType ) );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
     }
 
   itk::ImageIOBase::IOComponentType baselineComponentType = baselineReader->GetImageIO()->GetComponentType();
@@ -284,11 +284,11 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     testutil::StringText statusMeasurement;
     statusMeasurement.SetAttributeName("Baseline ComponentType "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( baselineReader->GetImageIO()->GetComponentTypeAsString( baselineComponentType ) );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
     
     statusMeasurement.SetAttributeName("Test ComponentType "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( testReader->GetImageIO()->GetComponentTypeAsString( testComponentType ) );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
     }
 
   unsigned int baselineNumberOfComponents = baselineReader->GetImageIO()->GetNumberOfComponents();
@@ -300,11 +300,11 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     testutil::IntegerNumeric statusMeasurement;
     statusMeasurement.SetAttributeName("Baseline Number Of Components "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetValue( baselineNumberOfComponents );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
     
     statusMeasurement.SetAttributeName("Test Number Of Components "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetValue( testNumberOfComponents );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
     }
 
   // todo Check the number of components and the type to determing the
@@ -328,22 +328,25 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
   testutil::DoubleNumeric statusMeasurement;
   statusMeasurement.SetValue( static_cast<double>(status) );
   statusMeasurement.SetAttributeName("ImageError "  + testMeasurement.GetAttributeName() );
-  std::cout << statusMeasurement << std::endl;
+  this->GetOutStream() << statusMeasurement << std::endl;
 
   fileutil::PathName diffName = fileutil::PathName(ITK_REGRESSION_OUTPUT).Append(testImageFilename.Tail().GetPathName()+".diff.png");
   ImageThing<ImageType>( diff->GetOutput(), 
                          diffName, 
-                         testMeasurement.GetAttributeName());
+                         testMeasurement.GetAttributeName(),
+                         this->GetOutStream());
     
   fileutil::PathName baselineName = fileutil::PathName(ITK_REGRESSION_OUTPUT).Append(testImageFilename.Tail().GetPathName()+".base.png");  
   ImageThing<ImageType>( baselineReader->GetOutput(), 
                          baselineName, 
-                         testMeasurement.GetAttributeName());
+                         testMeasurement.GetAttributeName(),
+                         this->GetOutStream());
   
   fileutil::PathName testName = fileutil::PathName(ITK_REGRESSION_OUTPUT).Append(testImageFilename.Tail().GetPathName()+".test.png"); 
   ImageThing<ImageType>( testReader->GetOutput(), 
                          testName, 
-                         testMeasurement.GetAttributeName());
+                         testMeasurement.GetAttributeName(),
+                         this->GetOutStream());
   
   return (status > numberOfPixelsTolerance) ? 1 : 0;
 }
diff --git a/itktf/itktfDifferenceVisitor.h b/itktf/itktfDifferenceVisitor.h
index 788ea5c..588fba5 100644
--- a/itktf/itktfDifferenceVisitor.h
+++ b/itktf/itktfDifferenceVisitor.h
@@ -41,7 +41,7 @@ public:
 protected:
   
 
-  static int DifferenceTestImage (testutil::MeasurementFile &testMeasurement,
+  int DifferenceTestImage (testutil::MeasurementFile &testMeasurement,
                                   testutil::MeasurementFile &baselineMeasurement,
                                   double intensityTolerance,
                                   unsigned int numberOfPixelsTolerance, 
-- 
2.43.0


From fd258b6a2da43c7fd3a3b8cfab91d18fe1bb04e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 23/27] fix: the slices of a reported image difference are
 written

Since ITK 4 extracting a slice needs a direction.
---
 itktf/itktfDifferenceVisitor.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/itktf/itktfDifferenceVisitor.cxx b/itktf/itktfDifferenceVisitor.cxx
index a694328..d035f82 100644
--- a/itktf/itktfDifferenceVisitor.cxx
+++ b/itktf/itktfDifferenceVisitor.cxx
@@ -110,6 +110,9 @@ int ImageThing( typename ImageType::ConstPointer image,
   typename ExtractType::Pointer extract = ExtractType::New();
   extract->SetInput( image );
   extract->SetExtractionRegion( region );
+#if ITK_VERSION_MAJOR >= 4
+  extract->SetDirectionCollapseToIdentity();
+#endif
 
   typename RescaleType::Pointer rescale = RescaleType::New();
   rescale->SetOutputMinimum( itk::NumericTraits<OutputPixelType>::NonpositiveMin() );
-- 
2.43.0


From 25717e99b151281cb257527da4d32d39604a8cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 24/27] fix: pixel differences are compared without squaring
 them

The square of a small difference is zero and that of a large one is infinite, so different pixels compared as equal; equal infinite pixels compared as different.
---
 itktf/itktfDifferenceImageFilter.h   | 29 ++++++++++++++++++++++++++++
 itktf/itktfDifferenceImageFilter.txx | 20 +++++++++----------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index 8b8cb2c..54fd12d 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -72,6 +72,35 @@ SquaredTwoNorm( const itk::VariableLengthVector<T> &v) {
   return v.GetSquaredNorm();
 }
 
+/** The difference of two pixels: nothing between equal infinite values
+ * or where neither is a number. */
+template<typename TPixelType>
+TPixelType
+PixelDifference( const TPixelType &a, const TPixelType &b )
+{
+  return a - b;
+}
+
+inline double
+PixelDifference( const double &a, const double &b )
+{
+  return ( a == b || ( a != a && b != b ) ) ? 0.0 : a - b;
+}
+
+/** The magnitude of a difference, without squaring where that may
+ * overflow or underflow. */
+template<typename TPixelType>
+typename NumericTraits<TPixelType>::ScalarRealType
+TwoNorm( const TPixelType &v )
+{
+  return std::sqrt( SquaredTwoNorm( v ) );
+}
+
+inline double
+TwoNorm( const double &v )
+{
+  return std::fabs( v );
+}
 
 }
 
diff --git a/itktf/itktfDifferenceImageFilter.txx b/itktf/itktfDifferenceImageFilter.txx
index 010eb00..3ecb0a3 100644
--- a/itktf/itktfDifferenceImageFilter.txx
+++ b/itktf/itktfDifferenceImageFilter.txx
@@ -165,12 +165,12 @@ DifferenceImageFilter<TInputImage, TOutputImage>
         InputPixelType c = valid.Get();
         
         //  Assume a good match - so test center pixel first, for speed
-        RealType minimumDifference = static_cast<RealType>(c) - test.GetCenterPixel();
+        RealType minimumDifference = Math::PixelDifference( static_cast<RealType>(c), static_cast<RealType>( test.GetCenterPixel() ) );
         
-        ScalarRealType minimumMagnitude2 = Math::SquaredTwoNorm( minimumDifference );
+        ScalarRealType minimumMagnitude = Math::TwoNorm( minimumDifference );
 
         // If center pixel isn't good enough, then test the neighborhood
-        if( !( minimumMagnitude2 <= m_MagnitudeThreshold * m_MagnitudeThreshold ) )
+        if( !( minimumMagnitude <= m_MagnitudeThreshold ) )
           {
           unsigned int neighborhoodSize = test.Size();
           // Find the closest-valued pixel in the neighborhood of the test
@@ -179,17 +179,17 @@ DifferenceImageFilter<TInputImage, TOutputImage>
             {
             // Use the RealType for the difference to make sure we get the
             // sign.
-            RealType difference = static_cast<RealType>(c) - test.GetPixel(i);
-            ScalarRealType magnitude2 = Math::SquaredTwoNorm( difference );
+            RealType difference = Math::PixelDifference( static_cast<RealType>(c), static_cast<RealType>( test.GetPixel(i) ) );
+            ScalarRealType magnitude = Math::TwoNorm( difference );
             
             // update to the minimum values
-            if ( magnitude2 < minimumMagnitude2 || minimumMagnitude2 != minimumMagnitude2 )
+            if ( magnitude < minimumMagnitude || minimumMagnitude != minimumMagnitude )
               {
               minimumDifference = difference;
-              minimumMagnitude2 = magnitude2;
+              minimumMagnitude = magnitude;
               }
 
-            if(minimumMagnitude2 <= m_MagnitudeThreshold * m_MagnitudeThreshold)
+            if(minimumMagnitude <= m_MagnitudeThreshold)
               {
               break;
               }
@@ -197,12 +197,12 @@ DifferenceImageFilter<TInputImage, TOutputImage>
           }
           
         // Check if difference is above threshold.
-        if ( !( minimumMagnitude2 <= m_MagnitudeThreshold * m_MagnitudeThreshold ) )
+        if ( !( minimumMagnitude <= m_MagnitudeThreshold ) )
           {
           // Store the minimum difference value in the output image.
           out.Set( static_cast<OutputPixelType>(minimumDifference) );
           // Update difference image statistics.
-          m_ThreadMagnitudeSum[threadId] += std::sqrt( minimumMagnitude2 );
+          m_ThreadMagnitudeSum[threadId] += minimumMagnitude;
           m_ThreadNumberOfPixels[threadId]++;
           }
         else
-- 
2.43.0


From d24ee041c8b41412e62688858f9b2205fe4df8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:53 +0000
Subject: [PATCH 25/27] fix: an empty boundary face is not read

---
 itktf/itktfDifferenceImageFilter.txx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/itktf/itktfDifferenceImageFilter.txx b/itktf/itktfDifferenceImageFilter.txx
index 3ecb0a3..4b93017 100644
--- a/itktf/itktfDifferenceImageFilter.txx
+++ b/itktf/itktfDifferenceImageFilter.txx
@@ -218,11 +218,9 @@ DifferenceImageFilter<TInputImage, TOutputImage>
     else
       {
 
-      valid.GoToBegin();
-      InputPixelType c = valid.Get();
-
-      for(out.GoToBegin(); !out.IsAtEnd(); ++out)
+      for(valid.GoToBegin(), out.GoToBegin(); !out.IsAtEnd(); ++valid, ++out)
         {
+        InputPixelType c = valid.Get();
         out.Set( Math::ZeroValue(c));
         progress.CompletedPixel();
         }
-- 
2.43.0


From 6ae327fab57cf8dc17909bf3ba081e4e28553ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:43 +0000
Subject: [PATCH 26/27] fix: the image comparison program rejects values with
 trailing text and negative counts

---
 itktf/itktfImageCompare.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/itktf/itktfImageCompare.cxx b/itktf/itktfImageCompare.cxx
index a74bfa8..34c0bc4 100644
--- a/itktf/itktfImageCompare.cxx
+++ b/itktf/itktfImageCompare.cxx
@@ -44,7 +44,7 @@ public:
           // try to convert argument to double
           std::istringstream iss( argv[i] );
           iss >> intensityTolerance;
-          if ( iss.fail() )
+          if ( iss.fail() || !iss.eof() )
             {
             std::cerr << "Expected double to follow " << argvi << " but got \"" << argv[i] << "\"" << std::endl;
             return EXIT_FAILURE;
@@ -62,7 +62,7 @@ public:
           // try to convert argument to double
           std::istringstream iss( argv[i] );
           iss >> numberOfPixelTolerance;
-          if ( iss.fail() )
+          if ( iss.fail() || !iss.eof() || iss.str().find( '-' ) != std::string::npos )
             {
             std::cerr << "Expected unsigned int to follow " << argvi << " but got \"" << argv[i] << "\"" << std::endl;
             return EXIT_FAILURE;
@@ -80,7 +80,7 @@ public:
           // try to convert argument to double
           std::istringstream iss( argv[i] );
           iss >> radiusTolerance;
-          if ( iss.fail() )
+          if ( iss.fail() || !iss.eof() || iss.str().find( '-' ) != std::string::npos )
             {
             std::cerr << "Expected unsigned int to follow " << argvi << " but got \"" << argv[i] << "\"" << std::endl;
             return EXIT_FAILURE;
-- 
2.43.0


From b445fde5242d5e60f2f1ee410a58ec9a47c0eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:37 +0000
Subject: [PATCH 27/27] fix: an image which can not be read is reported and the
 run goes on

---
 itktf/itktfDifferenceVisitor.cxx | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/itktf/itktfDifferenceVisitor.cxx b/itktf/itktfDifferenceVisitor.cxx
index d035f82..9135fd5 100644
--- a/itktf/itktfDifferenceVisitor.cxx
+++ b/itktf/itktfDifferenceVisitor.cxx
@@ -58,11 +58,20 @@ void DifferenceVisitor::Visit(testutil::MeasurementFile &m)
   if ( m.GetAttributeType() == "image/itk" &&
        (baseline = dynamic_cast<testutil::MeasurementFile*>(this->_baseline)) )
     {
-    DifferenceTestImage( m, 
-                         *baseline, 
-                         m_IntensityTolerance,
-                         m_NumberOfPixelsTolerance, 
-                         m_RadiusTolerance ) ;
+    try
+      {
+      DifferenceTestImage( m, 
+                           *baseline, 
+                           m_IntensityTolerance,
+                           m_NumberOfPixelsTolerance, 
+                           m_RadiusTolerance ) ;
+      }
+    catch (itk::ExceptionObject& e)
+      {
+      // an image which can not be read is reported like any other file
+      std::cerr << "Exception detected while reading images : "  << e.GetDescription() << std::endl;
+      testutil::DifferenceVisitor::Visit(m);
+      }
     }
   else 
     {
-- 
2.43.0

