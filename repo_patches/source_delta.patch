From 2c06d7476261f59acb7d46a3512647414d81ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:17 +0000
Subject: [PATCH 01/20] fix: skip all header lines when loading an old-style
 comparison

The deprecated comparison class writes five header lines but skipped only
two of them when it was constructed from a file. It loaded no records and
left its statistics uninitialised.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 8078e80..4650a41 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -307,7 +307,7 @@ public:
 			std::ifstream ifile ( input_filename );
 			std::string line;
 			//skip the 5 header lines but read the func name from resp		
-			for (uint16_t i=0;i<2;++i)
+			for (uint16_t i=0;i<5;++i)
 				std::getline(ifile,line);
 			//read data from file	
 			//read stats:
-- 
2.43.0


From 0cd57d1504bddb14bd0d10312155f949193b4c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:17 +0000
Subject: [PATCH 02/20] fix: load comparison records with infinite or NaN
 inputs

The decimal copy of the input at the end of a record was parsed as a
number. Parsing stops at "inf" and "nan", so such a record and all
following ones were dropped. Skip the rest of the line instead.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 4650a41..a847cae 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -66,8 +66,8 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T dummy;	//input value for Python, now useless
-			while(ifile >> in_val >> out1_val >> out2_val >> tmp_diff >> dummy) {
+			//the rest of the line is the input value for Python, now useless
+			while(ifile >> in_val >> out1_val >> out2_val >> tmp_diff && std::getline(ifile,line)) {
 				m_input.push_back(in_val.getValue());
 				IfcnComparison<T>::m_out1.push_back(out1_val.getValue());
 				IfcnComparison<T>::m_out2.push_back(out2_val.getValue());
@@ -182,8 +182,8 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val1, in_val2, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T dummy1, dummy2;	//input value for Python, now useless
-			while(ifile >> in_val1 >> in_val2 >> out1_val >> out2_val >> tmp_diff >> dummy1 >> dummy2) {
+			//the rest of the line are the input values for Python, now useless
+			while(ifile >> in_val1 >> in_val2 >> out1_val >> out2_val >> tmp_diff && std::getline(ifile,line)) {
 				m_input1.push_back(in_val1.getValue());
 				m_input2.push_back(in_val2.getValue());
 				IfcnComparison<T>::m_out1.push_back(out1_val.getValue());
@@ -318,8 +318,8 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T trash;	//input value for Python, now useless
-			while(ifile >> in_val >> out1_val >> out2_val >> tmp_diff >> trash) {
+			//the rest of the line is the input value for Python, now useless
+			while(ifile >> in_val >> out1_val >> out2_val >> tmp_diff && std::getline(ifile,line)) {
 				m_input.push_back(in_val.getValue());
 				m_out1.push_back(out1_val.getValue());
 				m_out2.push_back(out2_val.getValue());
-- 
2.43.0


From a421670156b932a90e2441b140b4180d97a8d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:17 +0000
Subject: [PATCH 03/20] fix: keep empty statistics if a comparison file has
 none

Loading a missing or truncated comparison file copied uninitialised
values into the mean and RMS, and accepted a partly read statistics
line. Take over the statistics only if all four values were read.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 30 +++++++++++++++-------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index a847cae..f791e2a 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -60,9 +60,13 @@ public:
 			//read data from file
 			//read stats:
 			fpFromHex<double> mean, rms;
-			ifile >> IfcnComparison<T>::m_max >> IfcnComparison<T>::m_min >> mean >> rms;
-			IfcnComparison<T>::m_mean = mean.getValue();
-			IfcnComparison<T>::m_RMS = rms.getValue();
+			uint16_t max, min;
+			if (ifile >> max >> min >> mean >> rms){
+				IfcnComparison<T>::m_max = max;
+				IfcnComparison<T>::m_min = min;
+				IfcnComparison<T>::m_mean = mean.getValue();
+				IfcnComparison<T>::m_RMS = rms.getValue();
+			}
 			//read rest of file
 			fpFromHex<T> in_val, out1_val, out2_val;
 			uint16_t tmp_diff;
@@ -176,9 +180,13 @@ public:
 			//read data from file
 			//read stats:
 			fpFromHex<double> mean, rms;
-			ifile >> IfcnComparison<T>::m_max >> IfcnComparison<T>::m_min >> mean >> rms;
-			IfcnComparison<T>::m_mean = mean.getValue();
-			IfcnComparison<T>::m_RMS = rms.getValue();
+			uint16_t max, min;
+			if (ifile >> max >> min >> mean >> rms){
+				IfcnComparison<T>::m_max = max;
+				IfcnComparison<T>::m_min = min;
+				IfcnComparison<T>::m_mean = mean.getValue();
+				IfcnComparison<T>::m_RMS = rms.getValue();
+			}
 			//read rest of file
 			fpFromHex<T> in_val1, in_val2, out1_val, out2_val;
 			uint16_t tmp_diff;
@@ -312,9 +320,13 @@ public:
 			//read data from file	
 			//read stats:
 			fpFromHex<double> mean, rms;
-			ifile >> m_max >> m_min >> mean >> rms;
-			m_mean = mean.getValue();
-			m_RMS = rms.getValue();
+			uint16_t max, min;
+			if (ifile >> max >> min >> mean >> rms){
+				m_max = max;
+				m_min = min;
+				m_mean = mean.getValue();
+				m_RMS = rms.getValue();
+			}
 			//read rest of file
 			fpFromHex<T> in_val, out1_val, out2_val;
 			uint16_t tmp_diff;
-- 
2.43.0


From 0f50e2047a4f4b4ea327721017536f281aed4231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:17 +0000
Subject: [PATCH 04/20] fix: do not read a cut-off hexadecimal number as a
 complete one

Every saved number is followed by a blank. If a save was interrupted in
the middle of a number, loading the file returned the digits that made
it to the disk as if they were the whole number.
---
 include/diagnostic/vdtdiag_filePersistence.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/diagnostic/vdtdiag_filePersistence.h b/include/diagnostic/vdtdiag_filePersistence.h
index 92be668..64f7738 100644
--- a/include/diagnostic/vdtdiag_filePersistence.h
+++ b/include/diagnostic/vdtdiag_filePersistence.h
@@ -26,6 +26,7 @@
 #ifndef _VDT_FILE_PERSISTENCE_
 #define _VDT_FILE_PERSISTENCE_
 
+#include<cctype>
 #include<string>
 #include<fstream>
 #include<iostream>
@@ -61,6 +62,9 @@ public:
 	/// Overloaded insertion operator, just reads int value
 	friend std::istream &operator>>(std::istream &stream, fpFromHex &obj){
 		stream >> std::setbase(16) >> obj.value >> std::setbase(10);
+		// a number that is not followed by its separator was cut off
+		if(stream && !std::isspace(stream.peek()))
+			stream.setstate(std::ios_base::failbit);
 		return stream;
 	}
 
-- 
2.43.0


From 03e750f04af66aa5eab92154f62610f628762d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:17 +0000
Subject: [PATCH 05/20] fix: load only complete pairs of a two-dimensional pool

A file cut off between an X and its Y value was loaded with one X value
more than Y values.
---
 include/diagnostic/vdtdiag_random.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/diagnostic/vdtdiag_random.h b/include/diagnostic/vdtdiag_random.h
index b8e4f94..77aa26a 100644
--- a/include/diagnostic/vdtdiag_random.h
+++ b/include/diagnostic/vdtdiag_random.h
@@ -158,14 +158,10 @@ public:
 		for (uint16_t i=0;i<5;++i)
 			std::getline(ifile,line);
 		// read from file
-		fpFromHex<T> input_val;
-		uint64_t counter=0;
-		while(ifile >> input_val) {
-			if(counter%2 == 0)
-			  m_numbersX.push_back(input_val.getValue());
-			else
-			  m_numbersY.push_back(input_val.getValue());
-			counter++;
+		fpFromHex<T> input_valX, input_valY;
+		while(ifile >> input_valX >> input_valY) {
+			m_numbersX.push_back(input_valX.getValue());
+			m_numbersY.push_back(input_valY.getValue());
 		}
 	}
 
-- 
2.43.0


From 9369bb1297eec45d86e066f702b1f8e9247cacf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:43 +0000
Subject: [PATCH 06/20] fix: read the source before overwriting it when a
 loaded object is saved

---
 include/diagnostic/vdtdiag_fcnComparison.h   | 27 +++++++++++---------
 include/diagnostic/vdtdiag_fcnResponse.h     | 27 +++++++++++---------
 include/diagnostic/vdtdiag_filePersistence.h | 14 ++++++++++
 include/diagnostic/vdtdiag_random.h          | 27 +++++++++++---------
 4 files changed, 59 insertions(+), 36 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index f791e2a..52e90c1 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -115,15 +115,16 @@ public:
   /// Dump on ascii file
 	void writeFile(const std::string& output_filename){
 		const std::string preamble("VDT function arithmetics performance comparison file (the first 5 lines are the header)\n");
+		std::string source;
+		// Read the input file first, it may be the output file
+		if (IfcnComparison<T>::m_from_file)
+			source = contentAfterFirstLine( IfcnComparison<T>::m_ifile_name );
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (IfcnComparison<T>::m_from_file){
-			std::string line;
-			std::ifstream ifile ( IfcnComparison<T>::m_ifile_name );
-			getline(ifile,line);
 			ofile << "Dumped by an object initialised by " << IfcnComparison<T>::m_ifile_name << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
@@ -236,15 +237,16 @@ public:
   /// Dump on ascii file
 	void writeFile(const std::string& output_filename){
 		const std::string preamble("VDT function arithmetics performance comparison file (the first 5 lines are the header)\n");
+		std::string source;
+		// Read the input file first, it may be the output file
+		if (IfcnComparison<T>::m_from_file)
+			source = contentAfterFirstLine( IfcnComparison<T>::m_ifile_name );
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (IfcnComparison<T>::m_from_file){
-			std::string line;
-			std::ifstream ifile ( IfcnComparison<T>::m_ifile_name );
-			getline(ifile,line);
 			ofile << "Dumped by an object initialised by " << IfcnComparison<T>::m_ifile_name << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
@@ -405,15 +407,16 @@ public:
   /// Dump on ascii file
 	void writeFile(const std::string& output_filename){
 		const std::string preamble("VDT function arithmetics performance comparison file (the first 5 lines are the header)\n");
+		std::string source;
+		// Read the input file first, it may be the output file
+		if (m_from_file)
+			source = contentAfterFirstLine( m_ifile_name );
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (m_from_file){
-			std::string line;
-			std::ifstream ifile ( m_ifile_name );
-			getline(ifile,line);
 			ofile << "Dumped by an object initialised by " << m_ifile_name << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
diff --git a/include/diagnostic/vdtdiag_fcnResponse.h b/include/diagnostic/vdtdiag_fcnResponse.h
index c3d2cf2..3a2fbfd 100644
--- a/include/diagnostic/vdtdiag_fcnResponse.h
+++ b/include/diagnostic/vdtdiag_fcnResponse.h
@@ -99,15 +99,16 @@ public:
 	/// Dump on ascii file
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT function arithmetics performance 1 input file (the first 5 lines are the header)\n");
+		std::string source;
+		// Read the input file first, it may be the output file
+		if (IfcnResponse<T>::isFromFile())
+			source = contentAfterFirstLine( IfcnResponse<T>::getIfileName() );
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (IfcnResponse<T>::isFromFile()){
-			std::string line;
-			std::ifstream ifile ( IfcnResponse<T>::getIfileName() );
-			getline(ifile,line);
 			ofile << "Dumped by an object initialised by " << IfcnResponse<T>::getIfileName() << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
@@ -217,15 +218,16 @@ public:
 	/// Dump on ascii file
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT function arithmetics performance 1 input file (the first 5 lines are the header)\n");
+		std::string source;
+		// Read the input file first, it may be the output file
+		if (IfcnResponse<T>::isFromFile())
+			source = contentAfterFirstLine( IfcnResponse<T>::getIfileName() );
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (IfcnResponse<T>::isFromFile()){
-			std::string line;
-			std::ifstream ifile ( IfcnResponse<T>::getIfileName() );
-			getline(ifile,line);
 			ofile << "Dumped by an object initialised by " << IfcnResponse<T>::getIfileName() << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
@@ -340,15 +342,16 @@ public:
 	/// Dump on ascii file
 	void writeFile(const std::string& output_filename){
 		const std::string preamble("VDT function arithmetics performance file (the first 5 lines are the header)\n");
+		std::string source;
+		// Read the input file first, it may be the output file
+		if (m_from_file)
+			source = contentAfterFirstLine( m_ifile_name );
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (m_from_file){
-			std::string line;
-			std::ifstream ifile ( m_ifile_name );
-			getline(ifile,line);
 			ofile << "Dumped by an object initialised by " << m_ifile_name << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
diff --git a/include/diagnostic/vdtdiag_filePersistence.h b/include/diagnostic/vdtdiag_filePersistence.h
index 64f7738..02b3860 100644
--- a/include/diagnostic/vdtdiag_filePersistence.h
+++ b/include/diagnostic/vdtdiag_filePersistence.h
@@ -31,8 +31,22 @@
 #include<fstream>
 #include<iostream>
 #include<iomanip>
+#include<limits>
 #include"vdtcore_common.h"
 
+/// Read a file without its first line
+inline std::string contentAfterFirstLine(const std::string& filename){
+	std::ifstream ifile ( filename );
+	ifile.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
+	std::string content;
+	char buffer[4096];
+	while(ifile){
+		ifile.read(buffer,sizeof(buffer));
+		content.append(buffer,ifile.gcount());
+	}
+	return content;
+}
+
 /// Useful manipulators
 
 /// Usage: stream << fpToHex<T>(0.0) << ...;
diff --git a/include/diagnostic/vdtdiag_random.h b/include/diagnostic/vdtdiag_random.h
index 77aa26a..184a28a 100644
--- a/include/diagnostic/vdtdiag_random.h
+++ b/include/diagnostic/vdtdiag_random.h
@@ -77,15 +77,16 @@ public:
 	/// Write numbers on disk in the form of an ascii file. The numbers are in HEX format.
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT Random numbers file (the first 5 lines are the header)\n");
+		std::string source;
+		// Read the input file first, it may be the output file
+		if (getSize()==0 )
+			source = contentAfterFirstLine( getFileName() );
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (getSize()==0 ){
-			std::string line;
-			std::ifstream ifile ( getFileName() );
-			getline(ifile,line);
 			ofile << "Dumped by an object initialised by " << getFileName() << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
@@ -172,15 +173,16 @@ public:
 	/// Write numbers on disk in the form of an ascii file. The numbers are in HEX format.
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT Random numbers file 2D (the first 5 lines are the header)\n");
+		std::string source;
+		// Read the input file first, it may be the output file
+		if (getSize()==0 )
+			source = contentAfterFirstLine( getFileName() );
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (getSize()==0 ){
-			std::string line;
-			std::ifstream ifile ( getFileName() );
-			getline(ifile,line);
 			ofile << "Dumped by an object initialised by " << getFileName() << " - "
 				  << preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
@@ -290,15 +292,16 @@ public:
 	/// Write numbers on disk in the form of an ascii file. The numbers are in HEX format.
 	void writeFile(const std::string output_filename) const{
 		const std::string preamble("VDT Random numbers file (the first 5 lines are the header)\n");
+		std::string source;
+		// Read the input file first, it may be the output file
+		if (m_size==0 )
+			source = contentAfterFirstLine( m_ifile_name );
 		std::ofstream ofile ( output_filename );
 		// Copy the input file if the object was created from file
 		if (m_size==0 ){
-			std::string line;
-			std::ifstream ifile ( m_ifile_name );
-			getline(ifile,line);
 			ofile << "Dumped by an object initialised by " << m_ifile_name << " - "
 					<< preamble;
-			ofile << ifile.rdbuf() ;
+			ofile << source;
 		}
 		else{ // Write an header and the numbers in the other case
 			ofile << preamble;
-- 
2.43.0


From aa10853d92ac07887db310e66bf695026cee438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:13 +0000
Subject: [PATCH 07/20] fix: free the result arrays of a measurement that runs
 out of memory

---
 include/diagnostic/vdtdiag_fcnPerformance.h | 22 ++++++++-------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 0787314..d5038d5 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -173,7 +173,7 @@ private:
   const uint32_t size=m_input.size();
 
   // Allocate the array of results. Necessary to circumvent compiler optimisations
-  double* results_arr = new double[size];
+  std::vector<double> results_arr(size);
   // Set up some warm-up iterations
   const uint32_t warm_up = m_repetitions;
   // Allocate once the delta outside the loop
@@ -199,10 +199,9 @@ private:
       }
       
     // To avoid optimisations, call a dummy function
-    std::vector<T> results(results_arr,results_arr+size);
+    std::vector<T> results(results_arr.begin(),results_arr.end());
     fool_optimisation(results);      
     }
-  delete [] results_arr;
   
   // Calculate mean and error on the mean
   const uint64_t iterations = size * m_repetitions;
@@ -220,7 +219,7 @@ private:
     const uint32_t size=m_input.size();
 
     // Allocate the array of results. Necessary to circumvent compiler optimisations
-    double* results_arr = new double[size];
+    std::vector<double> results_arr(size);
     // Set up some warm-up iterations
     const uint32_t warm_up = m_repetitions;
     // Allocate once the delta outside the loop
@@ -247,10 +246,9 @@ private:
         }
 
       // To avoid optimisations, call a dummy function
-      std::vector<T> results(results_arr,results_arr+size);
+      std::vector<T> results(results_arr.begin(),results_arr.end());
       fool_optimisation(results);
       }
-    delete [] results_arr;
 
     // Calculate mean and error on the mean
     const uint64_t iterations = size * m_repetitions;
@@ -272,10 +270,10 @@ private:
   for (uint32_t irep=0;irep<m_repetitions+warm_up;irep++){
     
       T* input_arr= const_cast<T*> (&m_input[0]);
-      T* results_arr=new T[size];
+      std::vector<T> results(size);
       
       fcntimer.start();
-      m_fcnv(size,input_arr,results_arr);
+      m_fcnv(size,input_arr,results.data());
       fcntimer.stop();      
 
       if (irep>=warm_up){
@@ -284,8 +282,6 @@ private:
         t2+=deltat*deltat;
         }
 
-     std::vector<T> results(results_arr,results_arr+size);
-     delete[] results_arr;
      fool_optimisation(results);
     }
     
@@ -310,10 +306,10 @@ void measureTime2Dv(){
 
 				T* input_arr1= const_cast<T*> (&m_input[0]);
 				T* input_arr2= const_cast<T*> (&m_input2[0]);
-				T* results_arr=new T[size];
+				std::vector<T> results(size);
 
 				fcntimer.start();
-				m_fcn2Dv(size,input_arr1,input_arr2,results_arr);
+				m_fcn2Dv(size,input_arr1,input_arr2,results.data());
 				fcntimer.stop();
 
 				if (irep>=warm_up){
@@ -322,8 +318,6 @@ void measureTime2Dv(){
 					t2+=deltat*deltat;
 					}
 
-			 std::vector<T> results(results_arr,results_arr+size);
-			 delete[] results_arr;
 			 fool_optimisation(results);
 			}
 
-- 
2.43.0


From 583da5056443e6ec779e188bd18271fefe51af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:37 +0000
Subject: [PATCH 08/20] fix: compute elapsed times in integers

A measurement that crossed a full second of CPU time has a negative
difference of nanoseconds. It was added in floating point as a huge
unsigned number, so that the elapsed time came out as 0 or was rounded.
---
 include/diagnostic/vdtdiag_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 6dcb6f5..9d863bf 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -380,8 +380,8 @@ private:
 		timespec temp;
 		temp.tv_sec = m_time2.tv_sec-m_time1.tv_sec;
 		temp.tv_nsec = m_time2.tv_nsec-m_time1.tv_nsec;
-		uint64_t elapsed_time = temp.tv_nsec;
-		elapsed_time += 1e9*temp.tv_sec;
+		// the difference of the nanoseconds can be negative
+		const int64_t elapsed_time = int64_t(1000000000)*temp.tv_sec + temp.tv_nsec;
 		return elapsed_time;
 	}
 
-- 
2.43.0


From 9ead23ec6806698d0e6b55239bb2dd426496d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:46 +0000
Subject: [PATCH 09/20] fix: count the calls of a measurement in 64 bits

The product of the input size and the number of repetitions was computed
in 32 bits, so that the mean of more than 2^32 calls was wrong or infinite.
---
 include/diagnostic/vdtdiag_fcnPerformance.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index d5038d5..8077856 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -204,7 +204,7 @@ private:
     }
   
   // Calculate mean and error on the mean
-  const uint64_t iterations = size * m_repetitions;
+  const uint64_t iterations = uint64_t(size) * m_repetitions;
   calculate_mean_and_err(t,t2,iterations);
   }
   //-----------------------------------------------------------------------------
@@ -251,7 +251,7 @@ private:
       }
 
     // Calculate mean and error on the mean
-    const uint64_t iterations = size * m_repetitions;
+    const uint64_t iterations = uint64_t(size) * m_repetitions;
     calculate_mean_and_err(t,t2,iterations);
     }
 //-----------------------------------------------------------------------------
@@ -285,7 +285,7 @@ private:
      fool_optimisation(results);
     }
     
-  const uint64_t iterations = size * m_repetitions;
+  const uint64_t iterations = uint64_t(size) * m_repetitions;
   calculate_mean_and_err(t,t2,iterations);
   }
 
@@ -321,7 +321,7 @@ void measureTime2Dv(){
 			 fool_optimisation(results);
 			}
 
-		const uint64_t iterations = size * m_repetitions;
+		const uint64_t iterations = uint64_t(size) * m_repetitions;
 		calculate_mean_and_err(t,t2,iterations);
 		}
 
-- 
2.43.0


From f3be04cc0198a17f55727f492202fb34244f77fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:46 +0000
Subject: [PATCH 10/20] fix: sum the squared times of a measurement in floating
 point

The square of a pass of more than 4.3 seconds does not fit in 64 bits, so
that the error on the mean was wrong or NaN.
---
 include/diagnostic/vdtdiag_fcnPerformance.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 8077856..2c7e7df 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -167,7 +167,7 @@ private:
   
   // momenta to calculate mean and rms, they will be filled later
   uint64_t t=0;
-  uint64_t t2=0;
+  double t2=0;
 
   // An useful quantity
   const uint32_t size=m_input.size();
@@ -195,7 +195,7 @@ private:
     if (irep>=warm_up){
       deltat=fcntimer.get_elapsed_time();      
       t+=deltat;
-      t2+=deltat*deltat;
+      t2+=double(deltat)*deltat;
       }
       
     // To avoid optimisations, call a dummy function
@@ -213,7 +213,7 @@ private:
 
     // momenta to calculate mean and rms, they will be filled later
     uint64_t t=0;
-    uint64_t t2=0;
+    double t2=0;
 
     // An useful quantity
     const uint32_t size=m_input.size();
@@ -242,7 +242,7 @@ private:
       if (irep>=warm_up){
         deltat=fcntimer.get_elapsed_time();
         t+=deltat;
-        t2+=deltat*deltat;
+        t2+=double(deltat)*deltat;
         }
 
       // To avoid optimisations, call a dummy function
@@ -259,7 +259,7 @@ private:
   void measureTimev(){
   // See explainations in the scalar method!
   uint64_t t=0.;
-  uint64_t t2=0.;
+  double t2=0.;
 
   const uint32_t size=m_input.size();
 
@@ -279,7 +279,7 @@ private:
       if (irep>=warm_up){
       	deltat = fcntimer.get_elapsed_time();
         t+=deltat;
-        t2+=deltat*deltat;
+        t2+=double(deltat)*deltat;
         }
 
      fool_optimisation(results);
@@ -294,7 +294,7 @@ private:
 void measureTime2Dv(){
 	// See explainations in the scalar method!
 		uint64_t t=0.;
-		uint64_t t2=0.;
+		double t2=0.;
 
 		const uint32_t size=m_input.size();
 
@@ -315,7 +315,7 @@ void measureTime2Dv(){
 				if (irep>=warm_up){
 					deltat = fcntimer.get_elapsed_time();
 					t+=deltat;
-					t2+=deltat*deltat;
+					t2+=double(deltat)*deltat;
 					}
 
 			 fool_optimisation(results);
-- 
2.43.0


From dbe9a4a278630c86a50c3a7662355aea2d056db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:09 +0000
Subject: [PATCH 11/20] fix: report no error instead of NaN if all passes took
 the same time

Rounding can make the difference of the two moments slightly negative.
---
 include/diagnostic/vdtdiag_fcnPerformance.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 2c7e7df..4f4df12 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -343,7 +343,8 @@ void calculate_mean_and_err(const double t, const double t2,const uint64_t itera
   // Calculate the error on the mean
   // RMS, one dof is gone for the mean, so iterations-1
   const double rms2=(double(t2) - iterations*m_avg_time*m_avg_time)/(iterations-1);
-  const double rms=sqrt(rms2);
+  // Rounding can make it slightly negative if all the passes took the same time
+  const double rms=rms2>0 ? sqrt(rms2) : 0.;
   m_avg_time_err = rms / sqrt(iterations); //2 sqrts, but we go for clarity here.
 
 }
-- 
2.43.0


From b5bc46b353a2464b04ab603f6b58bdea53e3fea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:57 +0000
Subject: [PATCH 12/20] fix: skip reference files with an incomplete header in
 the comparison tool

An empty reference file, or one that ends within its header, ended the
program with an exception or gave a comparison with a wrong name.
---
 progs/vdtArithmComparison.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/progs/vdtArithmComparison.cpp b/progs/vdtArithmComparison.cpp
index c250f2d..8ff1935 100644
--- a/progs/vdtArithmComparison.cpp
+++ b/progs/vdtArithmComparison.cpp
@@ -122,6 +122,14 @@ int main(int argc, char **argv){
 		//store function name (without Fast_prefix, if there is any)
 		tmp.clear();
 		std::getline(ifile,tmp);
+		//check that none of the 5 header lines is missing
+		std::string rest;
+		std::getline(ifile,rest);
+		std::getline(ifile,rest);
+		if(!ifile.good() || tmp.find('=') == std::string::npos || tmp.find('=')+2 > tmp.size()){
+			std::cout << "The header of the " << ref[i] << " file is not complete, skipping.\n";
+			continue;
+		}
 		tmp = tmp.substr(tmp.find('=')+2);		//get rid of the 'Function name = ' string
 		fcname = tmp.substr(tmp.find('_')+1);	//remove Fast_/VC_ prefix if present
 		ifile.close();
-- 
2.43.0


From f7e383cae0f9311775455f7569392623d57d0084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:57 +0000
Subject: [PATCH 13/20] fix: skip pairs of files with different sizes in the
 comparison tool

A file that lost some of its records ended the program with an assertion,
so that the remaining pairs were not compared.
---
 progs/vdtArithmComparison.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/progs/vdtArithmComparison.cpp b/progs/vdtArithmComparison.cpp
index 8ff1935..adba7a1 100644
--- a/progs/vdtArithmComparison.cpp
+++ b/progs/vdtArithmComparison.cpp
@@ -36,6 +36,15 @@ void list2vector(std::string csList, std::vector<std::string>* vect, char separa
 		vect->push_back(csList.substr(lastCommaPos+1));
 }
 
+//checks (and reports) whether two responses can be compared
+template<class R>
+bool sameSize(R& ref, R& test, const std::string& refName, const std::string& testName){
+	if(ref.getOutput().size() == test.getOutput().size())
+		return true;
+	std::cout << "The " << refName << " and " << testName << " files differ in size, skipping.\n";
+	return false;
+}
+
 /// Performs comparison of arithmetic precision
 
 int main(int argc, char **argv){
@@ -147,6 +156,8 @@ int main(int argc, char **argv){
 		if(!singlePrec){
 			if (is_atan2){
 				fcnResponse2D<double> rrefDP(ref[i]),rtestDP(test[i]);
+				if(!sameSize(rrefDP,rtestDP,ref[i],test[i]))
+					continue;
 				fcnComparison2D<double> cDP(fcname+" "+ref[i].substr(0,ref[i].find("__"))+" VS "+
 												   	test[i].substr(0,test[i].find("__")),
 										  rrefDP.getInput1(),
@@ -157,6 +168,8 @@ int main(int argc, char **argv){
 			}
 			else{
 				fcnResponse<double> rrefDP(ref[i]),rtestDP(test[i]);
+				if(!sameSize(rrefDP,rtestDP,ref[i],test[i]))
+					continue;
 				fcnComparison<double> cDP(fcname+" "+ref[i].substr(0,ref[i].find("__"))+" VS "+
 													test[i].substr(0,test[i].find("__")),
 										  rrefDP.getInput(),rrefDP.getOutput(),rtestDP.getOutput());
@@ -166,6 +179,8 @@ int main(int argc, char **argv){
 		}else{
 			if (is_atan2){
 				fcnResponse2D<float> rrefSP(ref[i]),rtestSP(test[i]);
+				if(!sameSize(rrefSP,rtestSP,ref[i],test[i]))
+					continue;
 				fcnComparison2D<float> cSP(fcname+" "+ref[i].substr(0,ref[i].find("__"))+" VS "+
 													test[i].substr(0,test[i].find("__")),
 													rrefSP.getInput1(),
@@ -176,6 +191,8 @@ int main(int argc, char **argv){
 			}
 			else{
 				fcnResponse<float> rrefSP(ref[i]),rtestSP(test[i]);
+				if(!sameSize(rrefSP,rtestSP,ref[i],test[i]))
+					continue;
 				fcnComparison<float> cSP(fcname+" "+ref[i].substr(0,ref[i].find("__"))+" VS "+
 													test[i].substr(0,test[i].find("__")),
 										 rrefSP.getInput(),rrefSP.getOutput(),rtestSP.getOutput());
-- 
2.43.0


From 614a5164f9b4a8b9940d88e33630d861e0a137f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:01 +0000
Subject: [PATCH 14/20] fix: restore the stream format after printing

Printing statistics, benchmarks, responses, pools and bit differences left
precision, alignment and fixed notation set on the stream, so that later
output looked different (a comparison even in hexadecimal notation).
---
 include/diagnostic/vdtdiag_fcnComparison.h  |  4 ++++
 include/diagnostic/vdtdiag_fcnPerformance.h |  1 +
 include/diagnostic/vdtdiag_fcnResponse.h    |  3 +++
 include/diagnostic/vdtdiag_helper.h         | 20 ++++++++++++++++++++
 include/diagnostic/vdtdiag_interfaces.h     |  1 +
 include/diagnostic/vdtdiag_random.h         |  3 +++
 6 files changed, 32 insertions(+)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 52e90c1..d8d562d 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -89,6 +89,7 @@ public:
 	uint32_t counter=0;
 	const uint32_t size=m_input.size();
 	std::cout << "Function Performance Comparison:\n";
+	const vdth::formatKeeper keeper(std::cout);
 	for (uint32_t i=0;i<size;++i){
 	  //DECIMAL
 	  const uint32_t width=std::numeric_limits<T>::digits10 +2;
@@ -211,6 +212,7 @@ public:
 	uint32_t counter=0;
 	const uint32_t size=m_input1.size();
 	std::cout << "Function Performance Comparison:\n";
+	const vdth::formatKeeper keeper(std::cout);
 	for (uint32_t i=0;i<size;++i){
 	  //DECIMAL
 	  const uint32_t width=std::numeric_limits<T>::digits10 +2;
@@ -361,6 +363,7 @@ public:
     uint32_t counter=0;
     const uint32_t size=m_input.size();
     std::cout << "Function Performance Comparison:\n";
+    const vdth::formatKeeper keeper(std::cout);
     for (uint32_t i=0;i<size;++i){
       //DECIMAL
       const uint32_t width=std::numeric_limits<T>::digits10 +2;
@@ -387,6 +390,7 @@ public:
   //------------------------------------------------------------------------------  
 
   void printStats(const bool tabular = false){
+	const vdth::formatKeeper keeper(std::cout);
 	if(!tabular){
 		std::cout << "Stats for " << m_name << ":\n"
               << std::setprecision(2)
diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 4f4df12..4c67658 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -116,6 +116,7 @@ fcnPerformance(const std::string& fcnName,
 //------------------------------------------------------------------------------
 /// Print the timing on screen. If a scale is povided, express the time in terms of a speedup factor.
   void print(std::ostream& stream = std::cout, const double scale=1.){
+    const vdth::formatKeeper keeper(stream);
     stream << std::setprecision(2)
               << std::fixed
               << "Function " << std::setw(15) << std::left << m_fcn_name << " : " 
diff --git a/include/diagnostic/vdtdiag_fcnResponse.h b/include/diagnostic/vdtdiag_fcnResponse.h
index 3a2fbfd..bd42eb9 100644
--- a/include/diagnostic/vdtdiag_fcnResponse.h
+++ b/include/diagnostic/vdtdiag_fcnResponse.h
@@ -130,6 +130,7 @@ public:
 	void print() {
 		const uint64_t size=getInput().size();
 		std::cout << "Function Performance (1 single input):\n";
+		const vdth::formatKeeper keeper(std::cout);
 		std::cout << std::setprecision(std::numeric_limits<T>::digits10);
 		for (uint64_t i=0;i<size;++i)
 			std::cout << i << "/" << size << " " << IfcnResponse<T>::getFcnName()
@@ -250,6 +251,7 @@ public:
 	void print() {
 		const uint64_t size=getInput1().size();
 		std::cout << "Function Performance (2 inputs):\n";
+		const vdth::formatKeeper keeper(std::cout);
 		std::cout << std::setprecision(std::numeric_limits<T>::digits10);
 		for (uint64_t i=0;i<size;++i)
 			std::cout << i << "/" << size << " " << IfcnResponse<T>::getFcnName()
@@ -375,6 +377,7 @@ public:
 		uint32_t counter=0;
 		const uint32_t size=m_input.size();
 		std::cout << "Function Performance:\n";
+		const vdth::formatKeeper keeper(std::cout);
 		for (uint32_t i=0;i<size;++i){
 			std::cout << std::setprecision(std::numeric_limits<T>::digits10);
 			std::cout <<  counter++ << "/" << size << " " << m_fcn_name 
diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 9d863bf..4571aea 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -103,6 +103,25 @@ union standard{
 	uint64_t li;
 };
 
+//------------------------------------------------------------------------------
+/// Gives a stream its number format back when a print function ends
+
+class formatKeeper{
+public:
+	explicit formatKeeper(std::ostream& stream):
+		m_stream(stream),m_flags(stream.flags()),m_precision(stream.precision()){}
+	formatKeeper(const formatKeeper&) = delete;
+	formatKeeper& operator=(const formatKeeper&) = delete;
+	~formatKeeper(){
+		m_stream.flags(m_flags);
+		m_stream.precision(m_precision);
+	}
+private:
+	std::ostream& m_stream;
+	const std::ios_base::fmtflags m_flags;
+	const std::streamsize m_precision;
+};
+
 //------------------------------------------------------------------------------
 
 template<class T>
@@ -222,6 +241,7 @@ void print_instructions_info(){
 template<class T>
 void print_different_bit(const T a, const T b, const bool show_identical=true){
 
+	const formatKeeper keeper(std::cout);
 	std::cout.precision(10);
 	std::cout << "Different bit between " << a << " and " << b
 			<< " is " << diffbit(a,b) << std::endl;
diff --git a/include/diagnostic/vdtdiag_interfaces.h b/include/diagnostic/vdtdiag_interfaces.h
index bdaec13..5e20a9d 100644
--- a/include/diagnostic/vdtdiag_interfaces.h
+++ b/include/diagnostic/vdtdiag_interfaces.h
@@ -78,6 +78,7 @@ public:
 //------------------------------------------------------------------------------
 
 	void printStats(const bool tabular = false){
+		const vdth::formatKeeper keeper(std::cout);
 		if(!tabular){
 			std::cout << "Stats for " << m_name << ":\n"
 	              << std::setprecision(2)
diff --git a/include/diagnostic/vdtdiag_random.h b/include/diagnostic/vdtdiag_random.h
index 184a28a..02809a4 100644
--- a/include/diagnostic/vdtdiag_random.h
+++ b/include/diagnostic/vdtdiag_random.h
@@ -115,6 +115,7 @@ public:
 	void print() {
 		std::cout << "Random Pool 1D:\n";
 		const uint64_t numbers_size = m_numbers.size();
+		const vdth::formatKeeper keeper(std::cout);
 		std::cout << std::setprecision(std::numeric_limits<T>::digits10);
 		for(uint64_t i=0;i<numbers_size;++i)
 			std::cout << i << "/" << numbers_size << " - " << m_numbers[i] << std::endl;
@@ -217,6 +218,7 @@ public:
 	void print() {
 		std::cout << "Random Pool 2D:\n";
 		const uint64_t numbers_size = m_numbersX.size();
+		const vdth::formatKeeper keeper(std::cout);
 		std::cout << std::setprecision(std::numeric_limits<T>::digits10);
 		for(uint64_t i=0;i<numbers_size;++i)
 			std::cout << i << "/" << numbers_size << " - "
@@ -331,6 +333,7 @@ public:
 		uint64_t counter=1;
 		std::cout << "Random Pool:\n";
 		const uint64_t numbers_size = m_numbers.size();
+		const vdth::formatKeeper keeper(std::cout);
 		std::cout << std::setprecision(std::numeric_limits<T>::digits10);
 		for(uint64_t i=0;i<numbers_size;++i)
 			std::cout << counter++ << "/" << numbers_size << " - " << m_numbers[i] << std::endl;
-- 
2.43.0


From 4717d9e66f3afade2d11a5ddb7d0d54e874c22b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:16 +0000
Subject: [PATCH 15/20] fix: free the result arrays when showing function
 differences fails

The two result arrays were lost if the second allocation, a function or the
conversion of a result to text threw an exception.
---
 include/diagnostic/vdtdiag_helper.h | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 4571aea..5aabf8b 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -28,6 +28,7 @@
 #include <sstream>
 #include <string>
 #include <functional>
+#include <vector>
 #include "inttypes.h"
 // #include "x86intrin.h"
 #include <cmath> //for log2
@@ -277,16 +278,14 @@ void printFuncDiff(const std::string& func_name,
 		T* x_arr,
 		const uint32_t size){
 	std::cout << "Function " << func_name << std::endl;
-	T* res_1 = new T[size];
-	f1(size,x_arr,res_1);
-	T* res_2 = new T[size];
-	f2(size,x_arr,res_2);
+	std::vector<T> res_1(size);
+	f1(size,x_arr,res_1.data());
+	std::vector<T> res_2(size);
+	f2(size,x_arr,res_2.data());
 	for (uint32_t i=0;i<size;i++){
 		std::cout << "Calculated in " << x_arr[i] << std::endl;
 		print_different_bit(res_1[i],res_2[i],true);
 	};
-	delete [] res_1;
-	delete [] res_2;
 }
 
 /// Invoke two functions and print on screen their argument and different bits
@@ -298,16 +297,14 @@ void printFuncDiff(const std::string& func_name,
 		T* y_arr,
 		const uint32_t size){
 	std::cout << "Function " << func_name << std::endl;
-	T* res_1 = new T[size];
-	f1(size,x_arr,y_arr,res_1);
-	T* res_2 = new T[size];
-	f2(size,x_arr,y_arr,res_2);
+	std::vector<T> res_1(size);
+	f1(size,x_arr,y_arr,res_1.data());
+	std::vector<T> res_2(size);
+	f2(size,x_arr,y_arr,res_2.data());
 	for (uint32_t i=0;i<size;i++){
 		std::cout << "Calculated in (" << x_arr[i] << ", " << y_arr[i] << ")" << std::endl;
 		print_different_bit(res_1[i],res_2[i],true);
 	};
-	delete [] res_1;
-	delete [] res_2;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 4b4b0103a3e2ff406141f3e92ca3f44b745fc4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:46 +0000
Subject: [PATCH 16/20] fix: count differing bits in integers

The floating point logarithm rounds up for distances just below a power of
two, so that such pairs were counted with one bit too many.
---
 include/diagnostic/vdtdiag_helper.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 5aabf8b..4bf37e9 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -198,8 +198,11 @@ uint16_t diffbit(const T a,const T b ){
 	uint64_t ib = fp2uint64(b);
 	uint64_t c = ia>ib? ia-ib : ib -ia;
 	//uint64_t c = ia^ib;
-	/// return the log2+1
-	return log2(c)+1;
+	/// return the log2+1, in integers: log2 rounds up just below a power of 2
+	uint16_t bits = 0;
+	for (; c != 0; c >>= 1)
+		++bits;
+	return bits;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 2409f9013946d7cd56a2e5195ed9f3923e3332d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:19 +0000
Subject: [PATCH 17/20] fix: tell two-argument responses by their function, not
 their file name

---
 progs/vdtArithmComparison.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/progs/vdtArithmComparison.cpp b/progs/vdtArithmComparison.cpp
index adba7a1..75419d2 100644
--- a/progs/vdtArithmComparison.cpp
+++ b/progs/vdtArithmComparison.cpp
@@ -152,7 +152,7 @@ int main(int argc, char **argv){
 		ifile.close();
 
 		//read responses, perform comparison
-		bool is_atan2 = ref[i].find("Atan2") != std::string::npos ? true:false;
+		bool is_atan2 = fcname.find("Atan2") != std::string::npos ? true:false;
 		if(!singlePrec){
 			if (is_atan2){
 				fcnResponse2D<double> rrefDP(ref[i]),rtestDP(test[i]);
-- 
2.43.0


From a034b8dd05c18b48f3f72ccc44fbe87d07f3d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:16:34 +0000
Subject: [PATCH 18/20] fix: count benchmark passes in 64 bits

---
 include/diagnostic/vdtdiag_fcnPerformance.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 4c67658..68acd42 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -182,7 +182,7 @@ private:
   // The timer which is used to mesure the time interval
   vdth::timer fcntimer;  
   // Start the loop on the repetitions
-  for (uint32_t irep=0;irep<m_repetitions+warm_up;irep++){
+  for (uint64_t irep=0;irep<uint64_t(m_repetitions)+warm_up;irep++){
     // Isolate the array inside the vector
     const T* input_arr=&m_input[0];
 
@@ -228,7 +228,7 @@ private:
     // The timer which is used to mesure the time interval
     vdth::timer fcntimer;
     // Start the loop on the repetitions
-    for (uint32_t irep=0;irep<m_repetitions+warm_up;irep++){
+    for (uint64_t irep=0;irep<uint64_t(m_repetitions)+warm_up;irep++){
       // Isolate the array inside the vector
       const T* input_arr1=&m_input[0];
       const T* input_arr2=&m_input2[0];
@@ -268,7 +268,7 @@ private:
   uint64_t deltat=0;
   vdth::timer fcntimer;
 
-  for (uint32_t irep=0;irep<m_repetitions+warm_up;irep++){
+  for (uint64_t irep=0;irep<uint64_t(m_repetitions)+warm_up;irep++){
     
       T* input_arr= const_cast<T*> (&m_input[0]);
       std::vector<T> results(size);
@@ -303,7 +303,7 @@ void measureTime2Dv(){
 		uint64_t deltat=0;
 		vdth::timer fcntimer;
 
-		for (uint32_t irep=0;irep<m_repetitions+warm_up;irep++){
+		for (uint64_t irep=0;irep<uint64_t(m_repetitions)+warm_up;irep++){
 
 				T* input_arr1= const_cast<T*> (&m_input[0]);
 				T* input_arr2= const_cast<T*> (&m_input2[0]);
-- 
2.43.0


From 395e0e900a62145ef76502bd436a40eff69bcc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:39:40 +0000
Subject: [PATCH 19/20] fix: free the result array of a response when its
 function runs out of memory

---
 include/diagnostic/vdtdiag_fcnResponse.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnResponse.h b/include/diagnostic/vdtdiag_fcnResponse.h
index bd42eb9..d46dae1 100644
--- a/include/diagnostic/vdtdiag_fcnResponse.h
+++ b/include/diagnostic/vdtdiag_fcnResponse.h
@@ -54,11 +54,11 @@ public:
 		//m_output.reserve(size);
 		const uint64_t size = this->getInput().size();
 		T* input_arr = const_cast<T*> (&this->getInput()[0]);
-        T* output_arr = new T[size];
+        std::vector<T> results(size);
+        T* output_arr = results.data();
 		fcnv(size,input_arr,output_arr);
 		for (uint32_t i=0;i<size;++i )
 		  pushOutputVal(output_arr[i]);
-		delete [] output_arr;
 	}
 	//-----------------------------------------------------------------------------
 
@@ -171,11 +171,11 @@ public:
 		const uint64_t size = this->getInput1().size();
 		T* input1_arr = const_cast<T*> (&this->getInput1()[0]);
 		T* input2_arr = const_cast<T*> (&this->getInput2()[0]);
-        T* output_arr = new T[size];
+        std::vector<T> results(size);
+        T* output_arr = results.data();
 		fcnv(size,input1_arr,input2_arr,output_arr);
 		for (uint32_t i=0;i<size;++i )
 		  pushOutputVal(output_arr[i]);
-		delete [] output_arr;
 	}
 	//-----------------------------------------------------------------------------
 
@@ -299,11 +299,11 @@ public:
 		const uint32_t size=m_input.size();
 		m_output.reserve(size);
                 T* input_arr = const_cast<T*> (&m_input[0]);
-		T* output_arr = new T[size];
+		std::vector<T> results(size);
+		T* output_arr = results.data();
 		fcnv(size,input_arr,output_arr);
 		for (uint32_t i=0;i<size;++i )
 			m_output.push_back(output_arr[i]);
-		delete [] output_arr;
 	}
 	//-----------------------------------------------------------------------------
 		
-- 
2.43.0


From 29890d43173069dfe032fa3f28ec2d2021959d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:20:00 +0000
Subject: [PATCH 20/20] fix: save and load files independently of the global
 locale

The numbers in saved files were written with the digit grouping of the
program's global locale, and files saved that way lost all records when
they were loaded under another locale.
---
 include/diagnostic/vdtdiag_fcnComparison.h   | 6 ++++++
 include/diagnostic/vdtdiag_fcnResponse.h     | 6 ++++++
 include/diagnostic/vdtdiag_filePersistence.h | 1 +
 include/diagnostic/vdtdiag_random.h          | 6 ++++++
 4 files changed, 19 insertions(+)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index d8d562d..0d8f10f 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -53,6 +53,7 @@ public:
 	fcnComparison1D(const std::string& input_filename):
 		IfcnComparison<T>(input_filename){
 		std::ifstream ifile ( input_filename );
+		ifile.imbue(std::locale::classic());
 			std::string line;
 			//skip the 2 header lines but read the func name from resp
 			for (uint16_t i=0;i<5;++i)
@@ -121,6 +122,7 @@ public:
 		if (IfcnComparison<T>::m_from_file)
 			source = contentAfterFirstLine( IfcnComparison<T>::m_ifile_name );
 		std::ofstream ofile ( output_filename );
+		ofile.imbue(std::locale::classic());
 		// Copy the input file if the object was created from file
 		if (IfcnComparison<T>::m_from_file){
 			ofile << "Dumped by an object initialised by " << IfcnComparison<T>::m_ifile_name << " - "
@@ -175,6 +177,7 @@ public:
 	fcnComparison2D(const std::string& input_filename):
 		IfcnComparison<T>(input_filename){
 		std::ifstream ifile ( input_filename );
+		ifile.imbue(std::locale::classic());
 			std::string line;
 			//skip the 2 header lines but read the func name from resp
 			for (uint16_t i=0;i<5;++i)
@@ -244,6 +247,7 @@ public:
 		if (IfcnComparison<T>::m_from_file)
 			source = contentAfterFirstLine( IfcnComparison<T>::m_ifile_name );
 		std::ofstream ofile ( output_filename );
+		ofile.imbue(std::locale::classic());
 		// Copy the input file if the object was created from file
 		if (IfcnComparison<T>::m_from_file){
 			ofile << "Dumped by an object initialised by " << IfcnComparison<T>::m_ifile_name << " - "
@@ -317,6 +321,7 @@ public:
 		m_name(std::string("From ")+input_filename){
 		
 			std::ifstream ifile ( input_filename );
+			ifile.imbue(std::locale::classic());
 			std::string line;
 			//skip the 5 header lines but read the func name from resp		
 			for (uint16_t i=0;i<5;++i)
@@ -416,6 +421,7 @@ public:
 		if (m_from_file)
 			source = contentAfterFirstLine( m_ifile_name );
 		std::ofstream ofile ( output_filename );
+		ofile.imbue(std::locale::classic());
 		// Copy the input file if the object was created from file
 		if (m_from_file){
 			ofile << "Dumped by an object initialised by " << m_ifile_name << " - "
diff --git a/include/diagnostic/vdtdiag_fcnResponse.h b/include/diagnostic/vdtdiag_fcnResponse.h
index d46dae1..aba581a 100644
--- a/include/diagnostic/vdtdiag_fcnResponse.h
+++ b/include/diagnostic/vdtdiag_fcnResponse.h
@@ -66,6 +66,7 @@ public:
 	fcnResponse1D(const std::string& input_filename):
 		IfcnResponse<T>(input_filename){
 		std::ifstream ifile ( input_filename );
+		ifile.imbue(std::locale::classic());
 		std::string line;
 		//skip the 5 header lines
 		for (uint16_t i=0;i<5;++i)
@@ -104,6 +105,7 @@ public:
 		if (IfcnResponse<T>::isFromFile())
 			source = contentAfterFirstLine( IfcnResponse<T>::getIfileName() );
 		std::ofstream ofile ( output_filename );
+		ofile.imbue(std::locale::classic());
 		// Copy the input file if the object was created from file
 		if (IfcnResponse<T>::isFromFile()){
 			ofile << "Dumped by an object initialised by " << IfcnResponse<T>::getIfileName() << " - "
@@ -183,6 +185,7 @@ public:
 	fcnResponse2D(const std::string& input_filename):
 		IfcnResponse<T>(input_filename){
 		std::ifstream ifile ( input_filename );
+		ifile.imbue(std::locale::classic());
 		std::string line;
 		//skip the 5 header lines
 		for (uint16_t i=0;i<5;++i)
@@ -224,6 +227,7 @@ public:
 		if (IfcnResponse<T>::isFromFile())
 			source = contentAfterFirstLine( IfcnResponse<T>::getIfileName() );
 		std::ofstream ofile ( output_filename );
+		ofile.imbue(std::locale::classic());
 		// Copy the input file if the object was created from file
 		if (IfcnResponse<T>::isFromFile()){
 			ofile << "Dumped by an object initialised by " << IfcnResponse<T>::getIfileName() << " - "
@@ -314,6 +318,7 @@ public:
 		m_ifile_name(input_filename){
 		
 			std::ifstream ifile ( input_filename );
+			ifile.imbue(std::locale::classic());
 			std::string line;
 			//skip the 5 header lines
 			for (uint16_t i=0;i<5;++i)
@@ -349,6 +354,7 @@ public:
 		if (m_from_file)
 			source = contentAfterFirstLine( m_ifile_name );
 		std::ofstream ofile ( output_filename );
+		ofile.imbue(std::locale::classic());
 		// Copy the input file if the object was created from file
 		if (m_from_file){
 			ofile << "Dumped by an object initialised by " << m_ifile_name << " - "
diff --git a/include/diagnostic/vdtdiag_filePersistence.h b/include/diagnostic/vdtdiag_filePersistence.h
index 02b3860..a25ea28 100644
--- a/include/diagnostic/vdtdiag_filePersistence.h
+++ b/include/diagnostic/vdtdiag_filePersistence.h
@@ -32,6 +32,7 @@
 #include<iostream>
 #include<iomanip>
 #include<limits>
+#include<locale>
 #include"vdtcore_common.h"
 
 /// Read a file without its first line
diff --git a/include/diagnostic/vdtdiag_random.h b/include/diagnostic/vdtdiag_random.h
index 02809a4..54be3f4 100644
--- a/include/diagnostic/vdtdiag_random.h
+++ b/include/diagnostic/vdtdiag_random.h
@@ -59,6 +59,7 @@ public:
 		m_min(0),
 		m_max(0){
 		std::ifstream ifile ( getFileName() );
+		ifile.imbue(std::locale::classic());
 		std::string line;
 		// skip the 5 header lines
 		for (uint16_t i=0;i<5;++i)
@@ -82,6 +83,7 @@ public:
 		if (getSize()==0 )
 			source = contentAfterFirstLine( getFileName() );
 		std::ofstream ofile ( output_filename );
+		ofile.imbue(std::locale::classic());
 		// Copy the input file if the object was created from file
 		if (getSize()==0 ){
 			ofile << "Dumped by an object initialised by " << getFileName() << " - "
@@ -155,6 +157,7 @@ public:
 		m_maxX(0),
 		m_maxY(0){
 		std::ifstream ifile ( getFileName() );
+		ifile.imbue(std::locale::classic());
 		std::string line;
 		// skip the 5 header lines
 		for (uint16_t i=0;i<5;++i)
@@ -179,6 +182,7 @@ public:
 		if (getSize()==0 )
 			source = contentAfterFirstLine( getFileName() );
 		std::ofstream ofile ( output_filename );
+		ofile.imbue(std::locale::classic());
 		// Copy the input file if the object was created from file
 		if (getSize()==0 ){
 			ofile << "Dumped by an object initialised by " << getFileName() << " - "
@@ -271,6 +275,7 @@ public:
 	randomPool_old(const std::string& input_filename){
 		m_ifile_name=input_filename;
 		std::ifstream ifile ( input_filename );
+		ifile.imbue(std::locale::classic());
 		std::string line;
 		// skip the 5 header lines
 		for (uint16_t i=0;i<5;++i)
@@ -299,6 +304,7 @@ public:
 		if (m_size==0 )
 			source = contentAfterFirstLine( m_ifile_name );
 		std::ofstream ofile ( output_filename );
+		ofile.imbue(std::locale::classic());
 		// Copy the input file if the object was created from file
 		if (m_size==0 ){
 			ofile << "Dumped by an object initialised by " << m_ifile_name << " - "
-- 
2.43.0

