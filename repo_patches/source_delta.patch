From fd230f9babfb150025a2db00308ee1f6fab356e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 01/58] fix: report truncated or unreadable tensor streams
 instead of using partial data

Tensor::Deserialize and CompressedTensor::Deserialize ignored short reads,
failed memory maps and impossible dimensions, so damaged streams were
silently used or crashed the process later.
---
 include/cn24/util/CompressedTensor.h |  3 +-
 include/cn24/util/Tensor.h           |  3 +-
 src/util/CompressedTensor.cpp        | 92 +++++++++++++++++++++++-----
 src/util/CompressedTensorStream.cpp  | 20 ++++--
 src/util/FloatTensorStream.cpp       | 20 ++++--
 src/util/Tensor.cpp                  | 78 +++++++++++++++++------
 6 files changed, 171 insertions(+), 45 deletions(-)

diff --git a/include/cn24/util/CompressedTensor.h b/include/cn24/util/CompressedTensor.h
index 45ff78b..3cc8c85 100644
--- a/include/cn24/util/CompressedTensor.h
+++ b/include/cn24/util/CompressedTensor.h
@@ -57,8 +57,9 @@ public:
    * @param head_only Set to true to only read the dimensions
    * @param try_mmap Set to true to attempt to memory map the file
    * @param fd File descriptor for the SAME file as input's underlying
+   * @returns True if the stream contained a complete CompressedTensor
    */
-  void Deserialize (std::istream& input, bool head_only = false, bool try_mmap = false, int fd = 0);
+  bool Deserialize (std::istream& input, bool head_only = false, bool try_mmap = false, int fd = 0);
   
 	/**
 	 * @brief Writes some tensor statistics to the debug output
diff --git a/include/cn24/util/Tensor.h b/include/cn24/util/Tensor.h
index 7e1797b..68bf5bf 100644
--- a/include/cn24/util/Tensor.h
+++ b/include/cn24/util/Tensor.h
@@ -156,8 +156,9 @@ public:
    * @param head_only Set to true to only read the dimensions
    * @param try_mmap Set to true to attempt to memory map the file
    * @param fd File descriptor for the SAME file as input's underlying
+   * @returns True if the stream contained a complete Tensor
    */
-  void Deserialize (std::istream& input, bool head_only = false, bool try_mmap = false, int fd = 0);
+  bool Deserialize (std::istream& input, bool head_only = false, bool try_mmap = false, int fd = 0);
   
   /**
    * @brief Loads a file and resizes the Tensor to match its contents
diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index b8a76a5..16007bd 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -20,6 +20,8 @@
 #include <unistd.h>
 #endif
 
+#include <limits>
+
 #include "PNGUtil.h"
 #include "JPGUtil.h"
 
@@ -61,7 +63,7 @@ void CompressedTensor::Compress(Tensor& tensor)
 void CompressedTensor::Decompress(Tensor& tensor, datum* preallocated_buffer)
 {
   std::size_t compressed_length = compressed_length_;
-  std::size_t uncompressed_elements = 0;
+  std::size_t uncompressed_elements = elements_;
   datum* uncompressed_buffer = preallocated_buffer;
   if(uncompressed_buffer == nullptr)
     uncompressed_buffer = new datum[elements_];
@@ -119,15 +121,17 @@ void CompressedTensor::Serialize ( std::ostream& output ) {
     output.write ( ( const char* ) compressed_data_ptr_, compressed_length_);
 }
 
-void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap, int fd) {
+bool CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap, int fd) {
   uint64_t samples = 0;
   uint64_t width = 0;
   uint64_t height = 0;
   uint64_t maps = 0;
   uint64_t compressed_length = 0;
 
-  if ( !input.good() )
+  if ( !input.good() ) {
     LOGERROR << "Cannot deserialize from this stream!";
+    return false;
+  }
 
   input.read ( ( char* ) &samples, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &width, sizeof ( uint64_t ) / sizeof ( char ) );
@@ -135,17 +139,47 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
   input.read ( ( char* ) &maps, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &compressed_length, sizeof ( uint64_t ) / sizeof ( char ) );
 
+  if ( !input.good() ) {
+    LOGERROR << "Cannot read CompressedTensor header!";
+    return false;
+  }
+
+  // Dimensions from damaged files may overflow
+  std::size_t elements = 1;
+  for ( uint64_t dimension : { samples, width, height, maps } ) {
+    if ( dimension != 0 && elements > ( std::numeric_limits<std::size_t>::max() / sizeof ( datum ) ) / dimension ) {
+      LOGERROR << "CompressedTensor dimensions are too large!";
+      return false;
+    }
+    elements *= dimension;
+  }
+
+  // Make sure that the stream actually contains the data before allocating
+  // memory for it (if the stream is seekable)
+  const std::streamoff current_position = input.tellg();
+  if ( current_position >= 0 ) {
+    input.seekg ( 0, std::ios::end );
+    const std::streamoff end_position = input.tellg();
+    input.seekg ( current_position, std::ios::beg );
+    if ( !input.good() || end_position < current_position
+         || ( uint64_t ) ( end_position - current_position ) < compressed_length ) {
+      LOGERROR << "Stream is too short for CompressedTensor data!";
+      return false;
+    }
+  } else {
+    input.clear ( input.rdstate() & ~std::ios::failbit );
+  }
+
 #ifdef BUILD_POSIX
-  if(!try_mmap || fd == 0)
+  if(!try_mmap || fd == 0 || current_position < 0)
 #endif
     Resize ( samples, width, height, maps, compressed_length );
     
   if ( compressed_length > 0 && !head_only ) {
 #ifdef BUILD_POSIX
-    if(try_mmap && fd != 0) {
+    if(try_mmap && fd != 0 && current_position >= 0) {
       // Get page size
       long int page_size = sysconf(_SC_PAGESIZE);
-      long int current_position = input.tellg();
       long int offset_in_page = current_position % page_size;
 #ifdef BUILD_LINUX
       void* target_mmap = mmap64(NULL, compressed_length + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
@@ -154,26 +188,35 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
       void* target_mmap = mmap(NULL, compressed_length + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
 #endif
       if(target_mmap == MAP_FAILED) {
-        LOGERROR << "Memory map failed: " << errno;
+        LOGWARN << "Memory map failed: " << errno << ", reading instead";
+        Resize ( samples, width, height, maps, compressed_length );
+        input.read ( ( char* ) compressed_data_ptr_, compressed_length);
+      } else {
+        void* target_data = (void*)(((long)target_mmap) + offset_in_page);
+        Resize(samples, width, height, maps, compressed_length, (char*)target_data, true);
+        original_mmap_ = target_mmap;
+        input.seekg(compressed_length, std::ios::cur);
       }
-      original_mmap_ = target_mmap;
-      
-      target_mmap = (void*)(((long)target_mmap) + offset_in_page);
-      Resize(samples, width, height, maps, compressed_length, (char*)target_mmap, true);
-      input.seekg(compressed_length, std::ios::cur);
     } else
 #endif
       input.read ( ( char* ) compressed_data_ptr_, compressed_length);
   }
   else if(head_only)
     input.seekg(compressed_length, std::ios::cur);
+
+  if ( !input.good() ) {
+    LOGERROR << "Cannot read CompressedTensor data!";
+    return false;
+  }
+
+  return true;
 }
 
 void CompressedTensor::DeleteIfPossible() {
   if ( compressed_data_ptr_ != nullptr ) {
 #ifdef BUILD_POSIX
     if(mmapped_) {
-      munmap((void*)original_mmap_, compressed_length_);
+      munmap((void*)original_mmap_, (std::size_t)(compressed_data_ptr_ - (char*)original_mmap_) + compressed_length_);
       original_mmap_ = nullptr;
       mmapped_ = false;
     } else {
@@ -298,21 +341,33 @@ void CompressedTensor::CompressData(void* uncompressed, const std::size_t& uncom
 
 void CompressedTensor::DecompressData(void* uncompressed, std::size_t& uncompressed_elements, void* compressed, const std::size_t& compressed_length)
 {
-  unsigned int bytes_out = 0;
+  // On entry, uncompressed_elements contains the capacity of the output buffer
+  const std::size_t max_bytes_out = uncompressed_elements * chars_per_datum;
+  std::size_t bytes_out = 0;
   unsigned char* output_ptr = (unsigned char*)uncompressed;
   const unsigned char* input_ptr = (const unsigned char*)compressed;
   
-  for(unsigned int pos = 0; pos < compressed_length; pos++) {
+  for(std::size_t pos = 0; pos < compressed_length; pos++) {
     unsigned char current_symbol = input_ptr[pos];
     if(current_symbol == rl_marker) {
+      if(compressed_length - pos < 2) {
+        FATAL("Incomplete encoding!");
+      }
       pos++; current_symbol = input_ptr[pos];
       if(current_symbol == rl_doublemarker) {
         // Emit single marker
+        if(bytes_out >= max_bytes_out) {
+          FATAL("Decompressed size mismatch!");
+        }
         *output_ptr = rl_marker;
         output_ptr++; bytes_out++;
       } else if(current_symbol == rl_rle) {
         unsigned int running_length = 0;
         
+        if(compressed_length - pos < 1 + rl_bytes + chars_per_datum) {
+          FATAL("Incomplete encoding!");
+        }
+        
         // Running length input
         for(unsigned int b = 0; b < rl_bytes; b++) {
           pos++; current_symbol = input_ptr[pos];
@@ -321,6 +376,10 @@ void CompressedTensor::DecompressData(void* uncompressed, std::size_t& uncompres
             running_length <<= 8;
         }
         
+        if((max_bytes_out - bytes_out) / chars_per_datum < running_length) {
+          FATAL("Decompressed size mismatch!");
+        }
+        
         for(unsigned int r = 0; r < running_length; r++) {
           for(unsigned int b = 0; b < chars_per_datum; b++) {
             pos++; current_symbol = input_ptr[pos];
@@ -335,6 +394,9 @@ void CompressedTensor::DecompressData(void* uncompressed, std::size_t& uncompres
       }
     } else {
       // Emit directly
+      if(bytes_out >= max_bytes_out) {
+        FATAL("Decompressed size mismatch!");
+      }
       *output_ptr = current_symbol;
       output_ptr++; bytes_out++;
     }
diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index 8f1d7f2..234ac04 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -10,6 +10,7 @@
 
 #ifdef BUILD_POSIX
 #include <fcntl.h>
+#include <unistd.h>
 #include <sys/types.h>
 #include <sys/stat.h>
 #endif
@@ -41,13 +42,16 @@ unsigned int CompressedTensorStream::LoadFile(std::string path)
   // Go through file
   std::cout << std::endl << std::flush;
   
-  while (!input_stream.eof()) {
+  while (input_stream.peek() != std::ifstream::traits_type::eof()) {
     CompressedTensor* tensor = new CompressedTensor();
 #ifdef BUILD_POSIX
-    tensor->Deserialize (input_stream, false, true, input_fd);
+    bool success = tensor->Deserialize (input_stream, false, true, input_fd);
 #else
-    tensor->Deserialize (input_stream, false);
+    bool success = tensor->Deserialize (input_stream, false);
 #endif
+    if (!success) {
+      FATAL("Damaged tensor stream: " << path);
+    }
 
     if (tensor->elements() == 0)
       break;
@@ -57,9 +61,17 @@ unsigned int CompressedTensorStream::LoadFile(std::string path)
 
     tensors_.push_back(tensor);
     std::cout << "." << std::flush;
-    input_stream.peek();
   }
   
+  if(input_stream.bad()) {
+    FATAL("Cannot read file: " << path);
+  }
+  
+#ifdef BUILD_POSIX
+  // Memory maps stay valid after closing the file
+  close(input_fd);
+#endif
+  
   temp_tensor_.Resize(1,max_elements_);
   return 0;
 }
diff --git a/src/util/FloatTensorStream.cpp b/src/util/FloatTensorStream.cpp
index 443fdcf..3d23385 100644
--- a/src/util/FloatTensorStream.cpp
+++ b/src/util/FloatTensorStream.cpp
@@ -10,6 +10,7 @@
 
 #ifdef BUILD_POSIX
 #include <fcntl.h>
+#include <unistd.h>
 #include <sys/types.h>
 #include <sys/stat.h>
 #endif
@@ -34,21 +35,32 @@ unsigned int FloatTensorStream::LoadFile(std::string path)
   // Go through file
   std::cout << std::endl << std::flush;
   
-  while (!input_stream.eof()) {
+  while (input_stream.peek() != std::ifstream::traits_type::eof()) {
     Tensor* tensor = new Tensor();
 #ifdef BUILD_POSIX
-    tensor->Deserialize (input_stream, false, true, input_fd);
+    bool success = tensor->Deserialize (input_stream, false, true, input_fd);
 #else
-    tensor->Deserialize (input_stream, false);
+    bool success = tensor->Deserialize (input_stream, false);
 #endif
+    if (!success) {
+      FATAL("Damaged tensor stream: " << path);
+    }
 
     if (tensor->elements() == 0)
       break;
 
     tensors_.push_back(tensor);
     std::cout << "." << std::flush;
-    input_stream.peek();
   }
+  
+  if(input_stream.bad()) {
+    FATAL("Cannot read file: " << path);
+  }
+  
+#ifdef BUILD_POSIX
+  // Memory maps stay valid after closing the file
+  close(input_fd);
+#endif
   return 0;
 }
 
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index d927f44..d891962 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -264,7 +264,7 @@ void Tensor::Serialize ( std::ostream& output, bool convert ) {
   }
 }
 
-void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap, int fd) {
+bool Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap, int fd) {
 #ifdef BUILD_OPENCL
   MoveToCPU ( true );
 #endif
@@ -273,50 +273,88 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
   uint64_t height = 0;
   uint64_t maps = 0;
 
-  if ( !input.good() )
+  if ( !input.good() ) {
     LOGERROR << "Cannot deserialize from this stream!";
+    return false;
+  }
 
   input.read ( ( char* ) &samples, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &width, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &height, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &maps, sizeof ( uint64_t ) / sizeof ( char ) );
 
+  if ( !input.good() ) {
+    LOGERROR << "Cannot read Tensor header!";
+    return false;
+  }
+
+  // Calculate the size, dimensions from damaged files may overflow
+  std::size_t elements = 1;
+  for ( uint64_t dimension : { samples, width, height, maps } ) {
+    if ( dimension != 0 && elements > ( std::numeric_limits<std::size_t>::max() / sizeof ( datum ) ) / dimension ) {
+      LOGERROR << "Tensor dimensions are too large!";
+      return false;
+    }
+    elements *= dimension;
+  }
+  const std::size_t bytes = ( elements * sizeof ( datum ) ) / sizeof ( char );
+
+  // Make sure that the stream actually contains the data before allocating
+  // memory for it (if the stream is seekable)
+  const std::streamoff current_position = input.tellg();
+  if ( current_position >= 0 ) {
+    input.seekg ( 0, std::ios::end );
+    const std::streamoff end_position = input.tellg();
+    input.seekg ( current_position, std::ios::beg );
+    if ( !input.good() || end_position < current_position
+         || ( uint64_t ) ( end_position - current_position ) < bytes ) {
+      LOGERROR << "Stream is too short for Tensor data!";
+      return false;
+    }
+  } else {
+    input.clear ( input.rdstate() & ~std::ios::failbit );
+  }
+
 #ifdef BUILD_POSIX
-  if(!try_mmap || fd == 0)
+  if(!try_mmap || fd == 0 || current_position < 0)
 #endif
     Resize ( samples, width, height, maps );
   
-  std::size_t elements = samples * maps * width * height;
-
   if ( elements > 0 && !head_only ) {
 #ifdef BUILD_POSIX
-    if(try_mmap && fd != 0) {
+    if(try_mmap && fd != 0 && current_position >= 0) {
       // Get page size
       long int page_size = sysconf(_SC_PAGESIZE);
-      long int current_position = input.tellg();
       long int offset_in_page = current_position % page_size;
 #ifdef BUILD_LINUX
-      void* target_mmap = mmap64(NULL,((elements* sizeof(datum)) / sizeof(char)) + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
+      void* target_mmap = mmap64(NULL,bytes + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
 #elif defined(BUILD_OSX)
       // OS X is 64-bit by default
-      void* target_mmap = mmap(NULL,((elements* sizeof(datum)) / sizeof(char)) + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
+      void* target_mmap = mmap(NULL,bytes + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
 #endif
       if(target_mmap == MAP_FAILED) {
-        LOGERROR << "Memory map failed: " << errno;
+        LOGWARN << "Memory map failed: " << errno << ", reading instead";
+        Resize ( samples, width, height, maps );
+        input.read ( ( char* ) data_ptr_, bytes );
+      } else {
+        void* target_data = (void*)(((long)target_mmap) + offset_in_page);
+        Resize(samples, width, height, maps, (datum*)target_data, true);
+        original_mmap_ = target_mmap;
+        input.seekg( bytes, std::ios::cur);
       }
-      original_mmap_ = target_mmap;
-      
-      target_mmap = (void*)(((long)target_mmap) + offset_in_page);
-      Resize(samples, width, height, maps, (datum*)target_mmap, true);
-      input.seekg(( elements * sizeof ( datum ) ) / sizeof ( char ) , std::ios::cur);
     } else
 #endif
-      input.read ( ( char* ) data_ptr_, ( elements * sizeof ( datum ) )
-                  / sizeof ( char ) );
+      input.read ( ( char* ) data_ptr_, bytes );
   }
   else if(head_only)
-    input.seekg(( elements * sizeof ( datum ) ) / sizeof ( char ) , std::ios::cur);
-      
+    input.seekg( bytes, std::ios::cur);
+
+  if ( !input.good() ) {
+    LOGERROR << "Cannot read Tensor data!";
+    return false;
+  }
+
+  return true;
 }
 
 
@@ -397,7 +435,7 @@ void Tensor::DeleteIfPossible() {
     if ( !is_shadow_ ) {
 #ifdef BUILD_POSIX
       if(mmapped_) {
-        munmap((void*)original_mmap_, (elements_ * sizeof(datum)) / sizeof(char));
+        munmap((void*)original_mmap_, (std::size_t)((char*)data_ptr_ - (char*)original_mmap_) + (elements_ * sizeof(datum)) / sizeof(char));
         original_mmap_ = nullptr;
         mmapped_ = false;
       } else {
-- 
2.43.0


From a2d86bee1a7a3695107b4573058c4a5f394b268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 02/58] fix: TensorStreamPatchDataset reports damaged tensor
 streams

---
 src/util/TensorStreamPatchDataset.cpp | 36 +++++++++++++++++++--------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 00dc53b..3b0bce9 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -57,16 +57,20 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 	// Count tensors
 	Tensor tensor;
 
-	while (!training_stream.eof()) {
-		tensor.Deserialize(training_stream, true);
+	while (training_stream.peek() != std::istream::traits_type::eof()) {
+		if (!tensor.Deserialize(training_stream, true)) {
+			FATAL("Damaged training tensor stream!");
+		}
 
 		if (tensor.elements() == 0)
 			break;
 
 		// LOGDEBUG << "Tensor " << tensor_count_training_ << ": " << tensor;
 		tensor_count_training_++;
+	}
 
-		training_stream.peek();
+	if (training_stream.bad()) {
+		FATAL("Cannot read training tensor stream!");
 	}
 
 	LOGDEBUG << tensor_count_training_ / 2 << " training tensors";
@@ -76,16 +80,20 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 		FATAL("Odd training tensor count!");
 	}
 
-	while (!testing_stream.eof()) {
-		tensor.Deserialize(testing_stream, true);
+	while (testing_stream.peek() != std::istream::traits_type::eof()) {
+		if (!tensor.Deserialize(testing_stream, true)) {
+			FATAL("Damaged testing tensor stream!");
+		}
 
 		if (tensor.elements() == 0)
 			break;
 
 		// LOGDEBUG << "Tensor " << tensor_count_testing_ << ": " << tensor;
 		tensor_count_testing_++;
+	}
 
-		testing_stream.peek();
+	if (testing_stream.bad()) {
+		FATAL("Cannot read testing tensor stream!");
 	}
 
 	LOGDEBUG << tensor_count_testing_ / 2 << " testing tensors";
@@ -120,7 +128,9 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
   }
 
 	for (unsigned int t = 0; t < (tensor_count_training_ / 2); t++) {
-		data_[t].Deserialize(training_stream, false, true, training_fd);
+		if (!data_[t].Deserialize(training_stream, false, true, training_fd)) {
+			FATAL("Damaged training tensor stream!");
+		}
 
 		unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
 		unsigned int inner_height = data_[t].height() - (patchsize_y_ - 1);
@@ -132,13 +142,17 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 
 		sample_count_training_ += inner_width * inner_height;
 
-		labels_[t].Deserialize(training_stream, false, true, training_fd);
+		if (!labels_[t].Deserialize(training_stream, false, true, training_fd)) {
+			FATAL("Damaged training tensor stream!");
+		}
     
     std::cout << "." << std::flush;
 	}
 
 	for (unsigned int t = (tensor_count_training_ / 2); t < tensors_; t++) {
-		data_[t].Deserialize(testing_stream, false, true, testing_fd);
+		if (!data_[t].Deserialize(testing_stream, false, true, testing_fd)) {
+			FATAL("Damaged testing tensor stream!");
+		}
 
 		unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
 		unsigned int inner_height = data_[t].height() - (patchsize_y_ - 1);
@@ -150,7 +164,9 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 
 		sample_count_testing_ += inner_width * inner_height;
 
-		labels_[t].Deserialize(testing_stream, false, true, testing_fd);
+		if (!labels_[t].Deserialize(testing_stream, false, true, testing_fd)) {
+			FATAL("Damaged testing tensor stream!");
+		}
     
     std::cout << "." << std::flush;
 	}
-- 
2.43.0


From 4df261f4e8a6336a8ba2bdee5345c2f3f307f50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 03/58] fix: map the testing stream, not the training stream,
 for testing patches

---
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 3b0bce9..cd4db38 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -458,7 +458,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
     }
 #ifdef BUILD_POSIX
     if(!no_mmap)
-      testing_fd = open(training_file.c_str(), O_RDONLY);
+      testing_fd = open(testing_file.c_str(), O_RDONLY);
     if(testing_fd < 0) {
       FATAL("Failed to load " << testing_file << "!");
     }
-- 
2.43.0


From c715e9b8ed36a87aa95eb1c6992a09a084d1908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 04/58] fix: testing patches start after the last training
 patch

---
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index cd4db38..c3c4abf 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -285,7 +285,7 @@ bool TensorStreamPatchDataset::GetTrainingSample (Tensor& data_tensor, Tensor& l
 
 bool TensorStreamPatchDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_tensor, Tensor& helper_tensor, Tensor& weight_tensor, unsigned int sample, unsigned int index) {
   if (index < sample_count_testing_) {
-		index += sample_count_testing_;
+		index += sample_count_training_;
     bool success = true;
 
     // Find patch
-- 
2.43.0


From 91257170c829a05e8edf55b0325fd062c3387684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 05/58] fix: loading damaged or mismatched parameters is
 reported and doesn't change the net

---
 include/cn24/net/NetGraph.h |  9 ++++++++-
 src/net/NetGraph.cpp        | 40 ++++++++++++++++++++++++++++---------
 tools/classifyImage.cpp     |  3 ++-
 tools/trainNetwork.cpp      | 10 +++++++---
 4 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/include/cn24/net/NetGraph.h b/include/cn24/net/NetGraph.h
index 606550b..7e2f624 100644
--- a/include/cn24/net/NetGraph.h
+++ b/include/cn24/net/NetGraph.h
@@ -75,7 +75,14 @@ public:
   void InitializeWeights();
   void GetParameters(std::vector<CombinedTensor*>& parameters);
   void SerializeParameters(std::ostream& output);
-  void DeserializeParameters(std::istream& input, unsigned int last_layer = 0);
+  /**
+   * @brief Loads the parameters of all layers up to last_layer (0 for all)
+   *
+   * The net is not changed if the stream is damaged or doesn't match the net.
+   *
+   * @returns true if the parameters were loaded
+   */
+  bool DeserializeParameters(std::istream& input, unsigned int last_layer = 0);
 
 	// Output
 	void PrintGraph(std::ostream& graph_output);
diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index c7471a4..9e35579 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -7,6 +7,8 @@
 
 #include <sstream>
 #include <algorithm>
+#include <cstring>
+#include <memory>
 
 #include "Log.h"
 #include "LossFunctionLayer.h"
@@ -399,25 +401,45 @@ void NetGraph::SerializeParameters(std::ostream& output) {
 	}
 }
 
-void NetGraph::DeserializeParameters(std::istream& input, unsigned int last_layer) {
+bool NetGraph::DeserializeParameters(std::istream& input, unsigned int last_layer) {
 	// TODO use unique layer ids
   if (last_layer == 0 || last_layer >= nodes_.size())
     last_layer = nodes_.size() - 1;
+
+  // Read everything before changing any parameters, so that a damaged or
+  // mismatched file leaves the net as it was
+  std::vector<std::unique_ptr<Tensor>> loaded;
+  std::vector<Tensor*> targets;
   for (unsigned int l = 0; l <= last_layer; l++) {
     Layer* layer = nodes_[l]->layer;
     for (unsigned int p = 0; p < layer->parameters().size(); p++) {
-      if (!input.good() || input.eof())
+      // The stream may contain less parameter sets than the net
+      if (loaded.size() > 0 && input.peek() == std::istream::traits_type::eof() && !input.bad())
         break;
-      unsigned int elements_before = layer->parameters() [p]->data.elements();
-      layer->parameters() [p]->data.Deserialize (input);
-      unsigned int elements_after = layer->parameters() [p]->data.elements();
-      LOGINFO << "Loaded parameters for layer " << l << " parameter set " << p << ": " << layer->parameters()[p]->data;
-      if(elements_before != elements_after) {
-        LOGERROR << "Deserialization changed layer parameter count!";
+      std::unique_ptr<Tensor> tensor(new Tensor());
+      if (!tensor->Deserialize (input)) {
+        LOGERROR << "Cannot read parameters for layer " << l << " parameter set " << p;
+        return false;
+      }
+      Tensor* target = &(layer->parameters() [p]->data);
+      if (tensor->elements() != target->elements()) {
+        LOGERROR << "Parameter count for layer " << l << " parameter set " << p << " doesn't match: " << *tensor << ", expected: " << *target;
+        return false;
       }
-      input.peek();
+      LOGINFO << "Loaded parameters for layer " << l << " parameter set " << p << ": " << *tensor;
+      loaded.push_back(std::move(tensor));
+      targets.push_back(target);
     }
   }
+
+  for (unsigned int t = 0; t < targets.size(); t++) {
+#ifdef BUILD_OPENCL
+    targets[t]->MoveToCPU(true);
+#endif
+    std::memcpy(targets[t]->data_ptr(), loaded[t]->data_ptr_const(), targets[t]->elements() * sizeof(datum) / sizeof(char));
+  }
+
+  return true;
 }
 
 void NetGraph::InitializeWeights() {
diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index cc05e4a..c0397f2 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -124,7 +124,8 @@ int main (int argc, char* argv[]) {
 
 
   // Load network parameters
-  graph.DeserializeParameters(param_tensor_file);
+  if (!graph.DeserializeParameters(param_tensor_file))
+    FATAL("Cannot load network parameters!");
   
   graph.SetIsTesting(true);
   LOGINFO << "Classifying..." << std::flush;
diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index 0f55e60..bbf15f9 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -338,10 +338,14 @@ bool parseCommand (Conv::NetGraph& graph, Conv::NetGraph& testing_graph, Conv::T
       std::ifstream param_file (param_file_name, std::ios::in | std::ios::binary);
 
       if (param_file.good()) {
-        graph.DeserializeParameters (param_file, last_layer);
-        LOGINFO << "Loaded parameters from " << param_file_name;
+        bool loaded = graph.DeserializeParameters (param_file, last_layer);
+        if (loaded) {
+          LOGINFO << "Loaded parameters from " << param_file_name;
+        } else {
+          LOGERROR << "Cannot load parameters from " << param_file_name << ", not changing!";
+        }
 
-        if (hybrid) {
+        if (loaded && hybrid) {
           LOGDEBUG << "Reshadowing tensors...";
           // Shadow training net weights
           std::vector<Conv::CombinedTensor*> training_params;
-- 
2.43.0


From fdcdfc0fa8ba006b3ff1ed41e1a4f32d47d058d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 06/58] fix: saving parameters reports write errors and
 replaces the file atomically

---
 tools/trainNetwork.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index bbf15f9..6ce90af 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -17,6 +17,7 @@
 #include <string>
 #include <vector>
 #include <iomanip>
+#include <cstdio>
 #include <ctime>
 #include <cstring>
 
@@ -373,16 +374,23 @@ bool parseCommand (Conv::NetGraph& graph, Conv::NetGraph& testing_graph, Conv::T
     if (param_file_name.length() == 0) {
       LOGERROR << "Filename needed!";
     } else {
-      std::ofstream param_file (param_file_name, std::ios::out | std::ios::binary);
+      // Write to a temporary file first so that a failure doesn't destroy an existing model
+      const std::string temp_file_name = param_file_name + ".part";
+      std::ofstream param_file (temp_file_name, std::ios::out | std::ios::binary);
 
       if (param_file.good()) {
         graph.SerializeParameters (param_file);
-        LOGINFO << "Written parameters to " << param_file_name;
+        param_file.close();
+
+        if (param_file.good() && std::rename (temp_file_name.c_str(), param_file_name.c_str()) == 0) {
+          LOGINFO << "Written parameters to " << param_file_name;
+        } else {
+          LOGERROR << "Cannot write parameters to " << param_file_name;
+          std::remove (temp_file_name.c_str());
+        }
       } else {
-        LOGERROR << "Cannot open " << param_file_name;
+        LOGERROR << "Cannot open " << temp_file_name;
       }
-
-      param_file.close();
     }
   } else if (command.compare (0, 14, "set experiment") == 0) {
     std::string experiment_name = "";
-- 
2.43.0


From e69f8971b855c96ebb7bff40991109e443fe7947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 07/58] fix: CSVStatSink doesn't use its stream if the file
 cannot be opened

---
 src/util/CSVStatSink.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/CSVStatSink.cpp b/src/util/CSVStatSink.cpp
index 4f7ac90..a76d49b 100644
--- a/src/util/CSVStatSink.cpp
+++ b/src/util/CSVStatSink.cpp
@@ -73,6 +73,7 @@ void CSVStatSink::SetCurrentExperiment(std::string current_experiment) {
     LOGERROR << "Cannot open " << csv_filename << " for writing!";
     delete csv_stream_;
     csv_stream_ = nullptr;
+    return;
   }
   // Write header for hardcoded stats
   (*csv_stream_) << "IsTraining,Epoch,Iterations,SecondsElapsed,";
-- 
2.43.0


From 09540e80b18ea2e04af4949dc43b274786af961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 08/58] fix: CSVStatSink reports write errors

---
 src/util/CSVStatSink.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/CSVStatSink.cpp b/src/util/CSVStatSink.cpp
index a76d49b..b7af934 100644
--- a/src/util/CSVStatSink.cpp
+++ b/src/util/CSVStatSink.cpp
@@ -47,6 +47,8 @@ void CSVStatSink::Process(Conv::HardcodedStats &hardcoded_stats, std::vector<Sta
   (*csv_stream_) << "\n";
   (*csv_stream_) << std::flush;
   
+  if(!csv_stream_->good())
+    LOGERROR << "Cannot write statistics to CSV file!";
 }
   
 bool isnalnum(char c) {
-- 
2.43.0


From 56da1389b5971b20b8f6e67eb163dab2dd8e4d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 09/58] fix: StatAggregator measures elapsed time using a
 monotonic clock

---
 include/cn24/util/StatAggregator.h | 2 +-
 src/util/StatAggregator.cpp        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cn24/util/StatAggregator.h b/include/cn24/util/StatAggregator.h
index 93248a8..83663e9 100644
--- a/include/cn24/util/StatAggregator.h
+++ b/include/cn24/util/StatAggregator.h
@@ -87,7 +87,7 @@ private:
   // State
   enum StatAggregatorState {
     STOPPED, RECORDING, INIT } state_ = INIT;
-  std::chrono::time_point<std::chrono::system_clock> start_time_;
+  std::chrono::time_point<std::chrono::steady_clock> start_time_;
   
   // Stats
   HardcodedStats hardcoded_stats_;
diff --git a/src/util/StatAggregator.cpp b/src/util/StatAggregator.cpp
index e2aed6e..efae8da 100644
--- a/src/util/StatAggregator.cpp
+++ b/src/util/StatAggregator.cpp
@@ -107,7 +107,7 @@ void StatAggregator::StartRecording()
     return;
   
   // Record start time
-  start_time_ = std::chrono::system_clock::now();
+  start_time_ = std::chrono::steady_clock::now();
   
   state_ = RECORDING;
 }
@@ -119,7 +119,7 @@ void StatAggregator::StopRecording()
     return;
   
   // Record stopping time
-  auto stop_time = std::chrono::system_clock::now();
+  auto stop_time = std::chrono::steady_clock::now();
   
   // Update elapsed time
   std::chrono::duration<double> t_diff = stop_time - start_time_;
-- 
2.43.0


From 53d9689c5c73a2fa320c7fbc06328338ddd85d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 10/58] fix: configuration parsers stop and report read errors
 instead of looping forever

---
 src/factory/ConfigurableFactory.cpp   | 9 +++++++++
 src/util/Init.cpp                     | 2 ++
 src/util/TensorStreamDataset.cpp      | 2 ++
 src/util/TensorStreamPatchDataset.cpp | 2 ++
 4 files changed, 15 insertions(+)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index 089101d..aeea4dd 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -48,6 +48,9 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
   while (! file_.eof()) {
     std::string line;
     std::getline (file_, line);
+    if (!file_.good() && !file_.eof())
+      FATAL("Cannot read net configuration!");
+
     if (line.compare (0, 1, "#") == 0) {
         continue;
     }    
@@ -177,6 +180,9 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
   while (! file_.eof()) {
     std::string line;
     std::getline (file_, line);
+    if (!file_.good() && !file_.eof())
+      FATAL("Cannot read net configuration!");
+
     if (line.compare (0, 1, "#") == 0) {
         continue;
     }    
@@ -508,6 +514,9 @@ void ConfigurableFactory::InitOptimalSettings() {
   while (!file_.eof()) {
     std::string line;
     std::getline (file_, line);
+    if (!file_.good() && !file_.eof())
+      FATAL("Cannot read net configuration!");
+
     if (line.compare (0, 1, "#") == 0) {
         continue;
     }    
diff --git a/src/util/Init.cpp b/src/util/Init.cpp
index 9042fd4..ce02360 100644
--- a/src/util/Init.cpp
+++ b/src/util/Init.cpp
@@ -113,6 +113,8 @@ void System::Init(int requested_log_level) {
     while (!config_file.eof()) {
       std::string line;
       std::getline (config_file, line);
+      if (!config_file.good() && !config_file.eof())
+        FATAL("Cannot read config file!");
       
       ParseUIntIfPossible(line, "opencl_platform", platform_number);
       ParseUIntIfPossible(line, "opencl_device", device_number);
diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 14109dd..ecbec9b 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -303,6 +303,8 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
   while (! file.eof()) {
     std::string line;
     std::getline (file, line);
+    if (!file.good() && !file.eof())
+      FATAL("Cannot read dataset configuration!");
     
     if (StartsWithIdentifier (line, "classes")) {
       ParseCountIfPossible (line, "classes", classes);
diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index c3c4abf..f010aa9 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -362,6 +362,8 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
   while (! file.eof()) {
     std::string line;
     std::getline (file, line);
+    if (!file.good() && !file.eof())
+      FATAL("Cannot read dataset configuration!");
     
     if (StartsWithIdentifier (line, "nommap")) {
       LOGDEBUG << "Dataset requested to not be memory mapped.";
-- 
2.43.0


From 9e4918f4871aa5ed45ae448595e16b2a09901b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 11/58] fix: trainNetwork stops at the end of its input or when
 it cannot be read

---
 tools/trainNetwork.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index 6ce90af..d70a814 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -247,9 +247,13 @@ int main (int argc, char* argv[]) {
 
       while (true) {
         std::string command;
-        std::getline (script_file, command);
+        if (!std::getline (script_file, command)) {
+          if (!script_file.eof())
+            FATAL("Cannot read " << script_fname);
+          break;
+        }
 
-        if (!parseCommand (graph, *testing_graph, trainer, *testing_trainer, patchwise_training, command) || script_file.eof())
+        if (!parseCommand (graph, *testing_graph, trainer, *testing_trainer, patchwise_training, command))
           break;
       }
     } else {
@@ -258,7 +262,8 @@ int main (int argc, char* argv[]) {
       while (true) {
         std::cout << "\n > " << std::flush;
         std::string command;
-        std::getline (std::cin, command);
+        if (!std::getline (std::cin, command))
+          break;
 
         if (!parseCommand (graph, *testing_graph, trainer, *testing_trainer, patchwise_training, command))
           break;
-- 
2.43.0


From d062c8c3c33e7494854122e7c075394d09c9190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 12/58] fix: PNGUtil reports damaged images and stream errors

---
 src/util/PNGUtil.cpp | 55 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/src/util/PNGUtil.cpp b/src/util/PNGUtil.cpp
index c0559e1..f8f104b 100644
--- a/src/util/PNGUtil.cpp
+++ b/src/util/PNGUtil.cpp
@@ -78,6 +78,23 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
     return false;
   }
 
+  // Row pointers and image memory for 8 bit and 16 bit images
+  png_bytep* volatile row_pointers_8 = NULL;
+  png_byte* volatile image_data_8 = NULL;
+  png_uint_16pp volatile row_pointers_16 = NULL;
+  png_uint_16* volatile image_data_16 = NULL;
+
+  // libpng jumps here if the image is damaged or cannot be read
+  if ( setjmp ( png_jmpbuf ( png_handle ) ) ) {
+    LOGERROR << "Could not read PNG image!";
+    delete[] row_pointers_8;
+    delete[] image_data_8;
+    delete[] row_pointers_16;
+    delete[] image_data_16;
+    png_destroy_read_struct ( &png_handle, &png_info_handle, 0 );
+    return false;
+  }
+
   // libpng cannot read streams, so we have to provide our own function
   png_set_read_fn ( png_handle, ( png_voidp ) &stream, PNGReadFromStream );
 
@@ -100,6 +117,7 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
 
   if ( image_colors & PNG_COLOR_MASK_PALETTE ) {
     LOGERROR << "Unsupported color type: " << image_colors;
+    png_destroy_read_struct ( &png_handle, &png_info_handle, 0 );
     return false;
   }
 
@@ -112,6 +130,9 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
     png_byte* image_data = new png_byte[image_height * image_width *
                                         image_channels];
 
+    row_pointers_8 = row_pointers;
+    image_data_8 = image_data;
+
     // Set row pointers
     const png_uint_32 row_stride = image_width * image_channels;
 
@@ -120,6 +141,7 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
     }
 
     png_read_image ( png_handle, row_pointers );
+    png_read_end ( png_handle, NULL );
 
     delete[] row_pointers;
     png_destroy_read_struct ( &png_handle, &png_info_handle, 0 );
@@ -154,6 +176,9 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
     png_uint_16* image_data = new png_uint_16[image_height * image_width *
                                         image_channels];
 
+    row_pointers_16 = row_pointers;
+    image_data_16 = image_data;
+
     // Set row pointers
     const png_uint_32 row_stride = image_width * image_channels;
 
@@ -162,6 +187,7 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
     }
 
     png_read_image ( png_handle, (png_bytepp)row_pointers );
+    png_read_end ( png_handle, NULL );
 
     delete[] row_pointers;
     png_destroy_read_struct ( &png_handle, &png_info_handle, 0 );
@@ -230,6 +256,19 @@ bool PNGUtil::WriteToStream ( std::ostream& stream, Tensor& tensor ) {
     return false;
   }
 
+  // Pixel memory and row pointers
+  png_byte* volatile pixel_data = NULL;
+  png_byte** volatile pixel_rows = NULL;
+
+  // libpng jumps here if the image cannot be written
+  if ( setjmp ( png_jmpbuf ( png_handle ) ) ) {
+    LOGERROR << "Could not write PNG image!";
+    delete[] pixel_data;
+    delete[] pixel_rows;
+    png_destroy_write_struct ( &png_handle, &png_info_handle );
+    return false;
+  }
+
   // libpng cannot write streams, so we have to provide our own function
   png_set_write_fn ( png_handle, ( png_voidp ) &stream, PNGWriteToStream, NULL );
 
@@ -246,6 +285,7 @@ bool PNGUtil::WriteToStream ( std::ostream& stream, Tensor& tensor ) {
 
   // Make rows
   png_byte* pixels = new png_byte[3 * tensor.width() * tensor.height()];
+  pixel_data = pixels;
 
   //...
   for(unsigned int y = 0; y < tensor.height(); y++) {
@@ -261,6 +301,7 @@ bool PNGUtil::WriteToStream ( std::ostream& stream, Tensor& tensor ) {
 
   // Make row pointers
   png_byte** row_pointers = new png_byte*[tensor.height()];
+  pixel_rows = row_pointers;
 
   for ( unsigned int y = 0; y < tensor.height(); y++ )
     row_pointers[y] = &pixels[3*tensor.width() * y];
@@ -268,7 +309,11 @@ bool PNGUtil::WriteToStream ( std::ostream& stream, Tensor& tensor ) {
   png_write_image(png_handle, row_pointers);
 
   png_write_end ( png_handle, NULL );
-  return true;
+  png_destroy_write_struct ( &png_handle, &png_info_handle );
+  delete[] row_pointers;
+  delete[] pixels;
+
+  return stream.flush().good();
 #endif
 }
 
@@ -301,8 +346,10 @@ void PNGReadFromStream ( png_structp png_handle, png_bytep data,
   // We need our stream back
   png_voidp stream_ptr = png_get_io_ptr ( png_handle );
 
-  // Error checking is useless here :(
   ( ( std::istream* ) stream_ptr ) -> read ( ( char* ) data, length );
+
+  if ( ( png_size_t ) ( ( std::istream* ) stream_ptr ) -> gcount() != length )
+    png_error ( png_handle, "Cannot read from the stream" );
 }
 
 void PNGWriteToStream ( png_structp png_handle, png_bytep data,
@@ -310,8 +357,10 @@ void PNGWriteToStream ( png_structp png_handle, png_bytep data,
   // We need our stream back
   png_voidp stream_ptr = png_get_io_ptr ( png_handle );
 
-  // Error checking is useless here :(
   ( ( std::ostream* ) stream_ptr ) -> write ( ( char* ) data, length );
+
+  if ( ! ( ( std::ostream* ) stream_ptr ) -> good() )
+    png_error ( png_handle, "Cannot write to the stream" );
 }
 
 
-- 
2.43.0


From f1fa9cbfd2a27569a6f1ed62e29851d0273a4ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 13/58] fix: JPGUtil reports damaged images and I/O errors
 instead of ending the process

---
 src/util/JPGUtil.cpp | 71 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 62 insertions(+), 9 deletions(-)

diff --git a/src/util/JPGUtil.cpp b/src/util/JPGUtil.cpp
index 9c4cd99..383c4fd 100644
--- a/src/util/JPGUtil.cpp
+++ b/src/util/JPGUtil.cpp
@@ -10,7 +10,9 @@
 #include <cstdio>
 
 #ifdef BUILD_JPG
+#include <csetjmp>
 #include <jpeglib.h>
+#include <jerror.h>
 #endif
 
 #include "Config.h"
@@ -20,21 +22,50 @@
 
 namespace Conv {
 
+#ifdef BUILD_JPG
+// The default error manager would end the process
+struct JPGErrorManager {
+  jpeg_error_mgr mgr;
+  jmp_buf jump_buffer;
+};
+
+static void JPGErrorExit (j_common_ptr cinfo) {
+  (*cinfo->err->output_message)(cinfo);
+  longjmp(((JPGErrorManager*)cinfo->err)->jump_buffer, 1);
+}
+
+static void JPGEmitMessage (j_common_ptr cinfo, int msg_level) {
+  // libjpeg would replace the missing part of the image
+  if(msg_level < 0 && cinfo->err->msg_code == JWRN_JPEG_EOF)
+    JPGErrorExit(cinfo);
+}
+#endif
+
 bool JPGUtil::LoadFromFile (const std::string& file, Tensor& tensor) {
 #ifndef BUILD_JPG
   LOGERROR << "JPG is not supported by this build!";
   return false;
 #else
   
+  FILE* in_file = fopen(file.c_str(), "rb");
+  if(in_file == NULL) {
+    LOGERROR << "Cannot open " << file;
+    return false;
+  }
+  
   // Create decompression object
   jpeg_decompress_struct cinfo;
-  jpeg_error_mgr jerr;
-  cinfo.err = jpeg_std_error(&jerr);
+  JPGErrorManager jerr;
+  cinfo.err = jpeg_std_error(&jerr.mgr);
+  jerr.mgr.error_exit = JPGErrorExit;
+  jerr.mgr.emit_message = JPGEmitMessage;
   jpeg_create_decompress(&cinfo);
   
-  FILE* in_file = fopen(file.c_str(), "rb");
-  if(in_file == NULL) {
-    LOGERROR << "Cannot open " << file;
+  // libjpeg jumps here if the image is damaged or cannot be read
+  if(setjmp(jerr.jump_buffer)) {
+    LOGERROR << "Cannot read " << file;
+    jpeg_destroy_decompress(&cinfo);
+    fclose(in_file);
     return false;
   }
   
@@ -79,6 +110,11 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   LOGERROR << "JPG is not supported by this build!";
   return false;
 #else
+  if(tensor.samples() != 1 || tensor.maps() != 3) {
+    LOGERROR << "Cannot write JPGs with more than 1 sample or channels != 3";
+    return false;
+  }
+  
   FILE* out_file = fopen(file.c_str(), "wb");
   if(out_file == NULL) {
     LOGERROR << "Cannot open " << file;
@@ -86,10 +122,22 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   }
   
   jpeg_compress_struct cinfo;
-  jpeg_error_mgr jerr;
+  JPGErrorManager jerr;
+  JSAMPROW row_pointer = new JSAMPLE[3*tensor.width()];
   
-  cinfo.err = jpeg_std_error(&jerr);
+  cinfo.err = jpeg_std_error(&jerr.mgr);
+  jerr.mgr.error_exit = JPGErrorExit;
   jpeg_create_compress(&cinfo);
+  
+  // libjpeg jumps here if the image cannot be written
+  if(setjmp(jerr.jump_buffer)) {
+    LOGERROR << "Cannot write " << file;
+    delete[] row_pointer;
+    jpeg_destroy_compress(&cinfo);
+    fclose(out_file);
+    return false;
+  }
+  
   jpeg_stdio_dest(&cinfo, out_file);
   
   cinfo.image_width = tensor.width();
@@ -102,7 +150,6 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   jpeg_start_compress(&cinfo, true);
   
   
-  JSAMPROW row_pointer = new JSAMPLE[3*tensor.width()];
   // Write scanlines
   while(cinfo.next_scanline < tensor.height()) {
     // Copy scanline
@@ -115,7 +162,13 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   }
   
   jpeg_finish_compress(&cinfo);
-  fclose(out_file);
+  jpeg_destroy_compress(&cinfo);
+  delete[] row_pointer;
+  
+  if(fclose(out_file) != 0) {
+    LOGERROR << "Cannot write " << file;
+    return false;
+  }
   return true;
 #endif
 }
-- 
2.43.0


From 8d9a743854b231091ebca3ab8975968f3b392dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 14/58] fix: Tensor file loading and writing reports failures
 and recognizes all its suffixes

---
 src/util/Tensor.cpp | 63 +++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index d891962..00b7e83 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -618,42 +618,53 @@ std::size_t Tensor::PixelMaximum ( std::size_t x, std::size_t y, std::size_t sam
 }
 
 
+static bool HasSuffix ( const std::string& filename, const std::string& suffix ) {
+  return filename.length() >= suffix.length() &&
+         filename.compare ( filename.length() - suffix.length(), suffix.length(), suffix ) == 0;
+}
+
 void Tensor::LoadFromFile ( const std::string& filename ) {
 #ifdef BUILD_PNG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "png" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "PNG" ) == 0 )
+  if ( ( HasSuffix ( filename, "png" ) )
+       || ( HasSuffix ( filename, "PNG" ) )
      ) {
     std::ifstream input_image_file ( filename, std::ios::in | std::ios::binary );
 
     if ( !input_image_file.good() )
       FATAL ( "Cannot load " << filename );
 
-    Conv::PNGUtil::LoadFromStream ( input_image_file, *this );
+    if ( !Conv::PNGUtil::LoadFromStream ( input_image_file, *this ) )
+      FATAL ( "Cannot load " << filename );
+
     return;
   }
 
 #endif
 #ifdef BUILD_JPG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "jpg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "jpeg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPG" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPEG" ) == 0 )
+  if ( ( HasSuffix ( filename, "jpg" ) )
+       || ( HasSuffix ( filename, "jpeg" ) )
+       || ( HasSuffix ( filename, "JPG" ) )
+       || ( HasSuffix ( filename, "JPEG" ) )
      ) {
-    Conv::JPGUtil::LoadFromFile ( filename, *this );
+    if ( !Conv::JPGUtil::LoadFromFile ( filename, *this ) )
+      FATAL ( "Cannot load " << filename );
+
     return;
   }
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( HasSuffix ( filename, "Tensor" ) ) {
     std::ifstream input_image_file ( filename, std::ios::in | std::ios::binary );
 
     if ( !input_image_file.good() )
       FATAL ( "Cannot load " << filename );
 
-    Deserialize ( input_image_file );
+    if ( !Deserialize ( input_image_file ) )
+      FATAL ( "Cannot load " << filename );
+
     return;
   }
 
@@ -663,8 +674,8 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 void Tensor::WriteToFile ( const std::string& filename ) {
 #ifdef BUILD_PNG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "png" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "PNG" ) == 0 )
+  if ( ( HasSuffix ( filename, "png" ) )
+       || ( HasSuffix ( filename, "PNG" ) )
      ) {
     std::ofstream output_image_file ( filename, std::ios::out | std::ios::binary );
 
@@ -672,31 +683,45 @@ void Tensor::WriteToFile ( const std::string& filename ) {
       FATAL ( "Cannot write " << filename );
 
     // Write png
-    Conv::PNGUtil::WriteToStream ( output_image_file, *this );
+    if ( !Conv::PNGUtil::WriteToStream ( output_image_file, *this ) )
+      FATAL ( "Cannot write " << filename );
+
+    output_image_file.close();
+
+    if ( !output_image_file.good() )
+      FATAL ( "Cannot write " << filename );
+
     return;
   }
 
 #endif
 #ifdef BUILD_JPG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "jpg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "jpeg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPG" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPEG" ) == 0 )
+  if ( ( HasSuffix ( filename, "jpg" ) )
+       || ( HasSuffix ( filename, "jpeg" ) )
+       || ( HasSuffix ( filename, "JPG" ) )
+       || ( HasSuffix ( filename, "JPEG" ) )
      ) {
-    Conv::JPGUtil::WriteToFile ( filename, *this );
+    if ( !Conv::JPGUtil::WriteToFile ( filename, *this ) )
+      FATAL ( "Cannot write " << filename );
+
     return;
   }
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( HasSuffix ( filename, "Tensor" ) ) {
     std::ofstream output_image_file ( filename, std::ios::out | std::ios::binary );
 
     if ( !output_image_file.good() )
       FATAL ( "Cannot write " << filename );
 
     Serialize ( output_image_file );
+    output_image_file.close();
+
+    if ( !output_image_file.good() )
+      FATAL ( "Cannot write " << filename );
+
     return;
   }
 
-- 
2.43.0


From 7755dbf1364316df615e1621e3115792089d30a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 15/58] fix: classifyImage pads the helper tensor using the
 width, not the height

---
 tools/classifyImage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index c0397f2..1c56547 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -101,7 +101,7 @@ int main (int argc, char* argv[]) {
     }
   }
   for (unsigned int y = original_height; y < height; y++) {
-    for (unsigned int x = 0; x < height; x++) {
+    for (unsigned int x = 0; x < width; x++) {
       *helper_tensor.data_ptr(x, y, 0, 0) = 0;
       *helper_tensor.data_ptr(x, y, 1, 0) = 0;
     }
-- 
2.43.0


From eb9ebee6e4e8c2e12ac36fb56c5ce2f0d7713d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 16/58] fix: ListTensorStream::CopySample returns its result

---
 src/util/ListTensorStream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util/ListTensorStream.cpp b/src/util/ListTensorStream.cpp
index 0832b12..27928ca 100644
--- a/src/util/ListTensorStream.cpp
+++ b/src/util/ListTensorStream.cpp
@@ -155,11 +155,14 @@ namespace Conv {
 						}
 					}
 				} // end if
-				Tensor::CopySample(label_tensor, source_sample, target, target_sample);
+				delete[] cr;
+				delete[] cg;
+				delete[] cb;
 				
+				return Tensor::CopySample(label_tensor, source_sample, target, target_sample);
 			} else {
 				// Tensor has an image in it, no transform needed
-				Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
+				return Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
 			}
 		} else {
 			return false;
-- 
2.43.0


From ab27e864463d89aa6c5d65d251ca1df1c0f5b464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 17/58] fix: ListTensorStream reports read errors of its lists
 instead of skipping images

---
 src/util/ListTensorStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/ListTensorStream.cpp b/src/util/ListTensorStream.cpp
index 27928ca..daae93e 100644
--- a/src/util/ListTensorStream.cpp
+++ b/src/util/ListTensorStream.cpp
@@ -200,6 +200,9 @@ namespace Conv {
 			std::getline ( image_list_file, image_fname );
 			std::getline ( label_list_file, label_fname );
 
+			if ( image_list_file.bad() || label_list_file.bad() )
+				FATAL ( "Cannot read image or label list!" );
+
 			if ( image_fname.length() < 5 || label_fname.length() < 5 )
 				break;
 
-- 
2.43.0


From c849249c87e1d4fff70bd2a65a271af19deea21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 18/58] fix: tensor stream tools report read and write errors

---
 tools/compressTensorStream.cpp       | 12 +++++++++++-
 tools/makeCompressedTensorStream.cpp | 10 ++++++++++
 tools/makeTensorStream.cpp           | 10 ++++++++++
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/tools/compressTensorStream.cpp b/tools/compressTensorStream.cpp
index fc02079..c51706f 100644
--- a/tools/compressTensorStream.cpp
+++ b/tools/compressTensorStream.cpp
@@ -15,6 +15,8 @@ int main(int argc, char** argv) {
   
   if(argc != 3) {
     LOGERROR << "USAGE: " << argv[0] << " <input (uncompressed) tensor stream> <output (compressed) tensor stream>";
+    LOGEND;
+    return -1;
   }
   
   std::string input_file_name(argv[1]);
@@ -38,7 +40,8 @@ int main(int argc, char** argv) {
   output_tensor_stream.write((char*)&magic, sizeof(uint64_t)/sizeof(char));
   
   while(!input_tensor_stream.eof()) {
-    tensor.Deserialize(input_tensor_stream);
+    if(!tensor.Deserialize(input_tensor_stream))
+      FATAL("Cannot read tensor from " << input_file_name);
     
     LOGDEBUG << "Input tensor: " << tensor;
     
@@ -64,7 +67,14 @@ int main(int argc, char** argv) {
     uncompressed_total += tensor.elements() * sizeof(Conv::datum)/sizeof(char);
     
     input_tensor_stream.peek();
+    if(input_tensor_stream.bad())
+      FATAL("Cannot read " << input_file_name);
   }
+  
+  output_tensor_stream.close();
+  if(!output_tensor_stream.good())
+    FATAL("Cannot write " << output_file_name);
+  
   LOGINFO << "Overall ratio: " << 100.0 * (double)compressed_total / (double)uncompressed_total << "%";
   LOGINFO << "Uncompressed: " << uncompressed_total;
   LOGINFO << "Compressed  : " << compressed_total;
diff --git a/tools/makeCompressedTensorStream.cpp b/tools/makeCompressedTensorStream.cpp
index 1f9d597..65f6804 100644
--- a/tools/makeCompressedTensorStream.cpp
+++ b/tools/makeCompressedTensorStream.cpp
@@ -95,6 +95,10 @@ int main ( int argc, char** argv ) {
     std::getline ( image_list_file, image_fname );
     std::getline ( label_list_file, label_fname );
 
+    if ( image_list_file.bad() || label_list_file.bad() ) {
+      FATAL ( "Cannot read image or label list file!" );
+    }
+
     if ( image_fname.length() < 5 || label_fname.length() < 5 )
       break;
 
@@ -191,5 +195,11 @@ int main ( int argc, char** argv ) {
     compressed_label_tensor.Serialize ( output_file );
   }
 
+  output_file.close();
+
+  if ( !output_file.good() ) {
+    FATAL ( "Cannot write output file!" );
+  }
+
   LOGEND;
 }
diff --git a/tools/makeTensorStream.cpp b/tools/makeTensorStream.cpp
index 2449178..7ad6fa7 100644
--- a/tools/makeTensorStream.cpp
+++ b/tools/makeTensorStream.cpp
@@ -91,6 +91,10 @@ int main ( int argc, char** argv ) {
     std::getline ( image_list_file, image_fname );
     std::getline ( label_list_file, label_fname );
 
+    if ( image_list_file.bad() || label_list_file.bad() ) {
+      FATAL ( "Cannot read image or label list file!" );
+    }
+
     if ( image_fname.length() < 5 || label_fname.length() < 5 )
       break;
 
@@ -182,5 +186,11 @@ int main ( int argc, char** argv ) {
     label_tensor.Serialize ( output_file );
   }
 
+  output_file.close();
+
+  if ( !output_file.good() ) {
+    FATAL ( "Cannot write output file!" );
+  }
+
   LOGEND;
 }
-- 
2.43.0


From 7cc3b4ffb2f206c256be28a1f9524630b3ffe0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 19/58] fix: tensorStreamTool doesn't destroy the stream if it
 cannot be read or written

---
 tools/tensorStreamTool.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/tools/tensorStreamTool.cpp b/tools/tensorStreamTool.cpp
index 1e1a685..dfbd222 100644
--- a/tools/tensorStreamTool.cpp
+++ b/tools/tensorStreamTool.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <fstream>
+#include <cstdio>
 
 #include <cn24.h>
 
@@ -25,12 +26,18 @@ int main(int argc, char* argv[]) {
   // Open tensor stream
   std::ifstream file_in(std::string(argv[1]), std::ios::in | std::ios::binary);
 
+  if (!file_in.good())
+    FATAL("Cannot open " << argv[1]);
+
   // Seek until eof to count tensors
   Conv::Tensor tensor;
   unsigned int tensors_in_file = 0;
   for (; !file_in.eof(); tensors_in_file++) {
-    tensor.Deserialize(file_in);
+    if (!tensor.Deserialize(file_in))
+      FATAL("Cannot read tensor " << tensors_in_file);
     file_in.peek();
+    if (file_in.bad())
+      FATAL("Cannot read " << argv[1]);
     LOGINFO << "Tensor loaded: " << tensor;
   }
 
@@ -50,13 +57,17 @@ int main(int argc, char* argv[]) {
 
     // Read in all tensors
     Conv::Tensor* tensors = new Conv::Tensor[t_count];
-    for (unsigned int t = 0; t < t_count; t++)
-      tensors[t].Deserialize(file_in);
+    for (unsigned int t = 0; t < t_count; t++) {
+      if (!tensors[t].Deserialize(file_in))
+        FATAL("Cannot read tensor " << t);
+    }
 
     // Close the istream, open an ostream
     file_in.close();
 
-    std::ofstream file_out(std::string(argv[1]), std::ios::out | std::ios::binary);
+    // Write to a temporary file first so that a failure doesn't destroy the stream
+    const std::string temp_file_name = std::string(argv[1]) + ".part";
+    std::ofstream file_out(temp_file_name, std::ios::out | std::ios::binary);
     for (unsigned int t = 0; t < t_count; t++)
     {
       tensors[t].Serialize(file_out);
@@ -65,6 +76,11 @@ int main(int argc, char* argv[]) {
 
     file_out.close();
 
+    if (!file_out.good() || std::rename(temp_file_name.c_str(), argv[1]) != 0) {
+      std::remove(temp_file_name.c_str());
+      FATAL("Cannot write " << argv[1]);
+    }
+
     LOGINFO << "DONE!";
   }
 
-- 
2.43.0


From 198eb04c0530008b7b850cb1ef17604c932855d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 20/58] fix: tensorTool reports read and write errors and stops
 at the end of its input

---
 tools/tensorTool.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tools/tensorTool.cpp b/tools/tensorTool.cpp
index 742bade..9a85907 100644
--- a/tools/tensorTool.cpp
+++ b/tools/tensorTool.cpp
@@ -48,7 +48,8 @@ int main ( int argc, char* argv[] ) {
   Conv::Tensor tensor;
 
   for ( unsigned int t = 0; t < ( tid + 1 ); t++ ) {
-    tensor.Deserialize ( file );
+    if ( !tensor.Deserialize ( file ) )
+      FATAL ( "Cannot read tensor " << t << " from " << argv[1] );
   }
 
   file.close();
@@ -70,7 +71,10 @@ int main ( int argc, char* argv[] ) {
 
 bool parseCommand ( Conv::Tensor& tensor, std::string filename ) {
   std::string entry;
-  std::cin >> entry;
+
+  // Stop at the end of the input
+  if ( !( std::cin >> entry ) )
+    return false;
 
   if ( entry.compare ( "q" ) == 0 || entry.compare ( "quit" ) == 0 )
     return false;
@@ -117,6 +121,9 @@ bool parseCommand ( Conv::Tensor& tensor, std::string filename ) {
     std::ofstream o ( filename, std::ios::out | std::ios::binary );
     tensor.Serialize ( o );
     o.close();
+
+    if ( !o.good() )
+      std::cout << "Did not work." << std::endl;
   }
 
   else if ( entry.compare ( "bin" ) == 0 ) {
@@ -129,6 +136,9 @@ bool parseCommand ( Conv::Tensor& tensor, std::string filename ) {
 
     tensor.Serialize ( o, true );
     o.close();
+
+    if ( !o.good() )
+      std::cout << "Did not work." << std::endl;
   }
 
 #ifdef BUILD_GUI
-- 
2.43.0


From 62fb16afa395522a02cb702fa1df7ed0768b092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 21/58] fix: SumLayer and ConcatenationLayer reject inputs of
 different sizes and don't use an unset output

---
 src/net/ConcatenationLayer.cpp | 3 ++-
 src/net/SumLayer.cpp           | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/net/ConcatenationLayer.cpp b/src/net/ConcatenationLayer.cpp
index 25b7609..1e3bb51 100644
--- a/src/net/ConcatenationLayer.cpp
+++ b/src/net/ConcatenationLayer.cpp
@@ -32,8 +32,9 @@ bool ConcatenationLayer::CreateOutputs (const std::vector< CombinedTensor* >& in
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
diff --git a/src/net/SumLayer.cpp b/src/net/SumLayer.cpp
index c599aa1..c80dc12 100644
--- a/src/net/SumLayer.cpp
+++ b/src/net/SumLayer.cpp
@@ -33,8 +33,9 @@ bool SumLayer::CreateOutputs (const std::vector< CombinedTensor* >& inputs,
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
@@ -87,7 +88,7 @@ bool SumLayer::Connect (const std::vector< CombinedTensor* >& inputs,
   }
   
   if((output->data.elements() != input_a->data.elements())
-    && (output_->data.elements() != input_b->data.elements())) {
+    || (output->data.elements() != input_b->data.elements())) {
     LOGERROR << "Wrong output dimensions!";
     return false;
   }
-- 
2.43.0


From b007ff236174d1f1365c0679ebd23e812ca19e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 22/58] fix: COL2IM checks the column, not the row, against the
 source width

---
 src/math/TensorMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index f1cbebe..767a1af 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -332,7 +332,7 @@ void TensorMath::COL2IM(Tensor& source, const int source_width, const int source
           if(iy >= 0 && iy < source_height) {
             for(int ox = 0; ox < target_width; ox++) {
               int ix = ox * stride_width - pad_width + kx;
-              if(ix >= 0 && iy < source_width) {
+              if(ix >= 0 && ix < source_width) {
                 source_ptr[(imap * source_height + iy) * source_width + ix] +=
                   target_ptr[(sample * target_height + oy) * target_width + ox];
               } 
-- 
2.43.0


From c924b4556e75b4f2065c753b283677e358d42329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 23/58] fix: TensorStreamDataset considers the size of every
 testing image

---
 src/util/TensorStreamDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index ecbec9b..9740ddf 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -87,7 +87,7 @@ TensorStreamDataset::TensorStreamDataset (
       max_height_ = training_stream_->GetHeight(2*t);
   }
 
-  for (unsigned int t = (tensor_count_training_ / 2) ; t < tensors_; t++) {
+  for (unsigned int t = 0; t < (tensor_count_testing_ / 2); t++) {
     if(testing_stream_->GetWidth(2*t) > max_width_)
       max_width_ = testing_stream_->GetWidth(2*t);
     
-- 
2.43.0


From 992856bf0c15759fd3c783405d77d7d77c28c80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 24/58] fix: TensorStreamPatchDataset rejects images that are
 smaller than a patch

---
 src/util/TensorStreamPatchDataset.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index f010aa9..cdd6318 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -132,6 +132,10 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 			FATAL("Damaged training tensor stream!");
 		}
 
+		if (data_[t].width() < patchsize_x_ || data_[t].height() < patchsize_y_) {
+			FATAL("Image is smaller than the patch size: " << data_[t]);
+		}
+
 		unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
 		unsigned int inner_height = data_[t].height() - (patchsize_y_ - 1);
 
@@ -154,6 +158,10 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 			FATAL("Damaged testing tensor stream!");
 		}
 
+		if (data_[t].width() < patchsize_x_ || data_[t].height() < patchsize_y_) {
+			FATAL("Image is smaller than the patch size: " << data_[t]);
+		}
+
 		unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
 		unsigned int inner_height = data_[t].height() - (patchsize_y_ - 1);
 
-- 
2.43.0


From 654e84df542ddb5083b69399c0f501f8484a9b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 25/58] fix: LocalResponseNormalizationLayer iterates over the
 width of the image

---
 src/net/LocalResponseNormalizationLayer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/net/LocalResponseNormalizationLayer.cpp b/src/net/LocalResponseNormalizationLayer.cpp
index efadf67..808d934 100644
--- a/src/net/LocalResponseNormalizationLayer.cpp
+++ b/src/net/LocalResponseNormalizationLayer.cpp
@@ -83,7 +83,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -103,7 +103,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
@@ -135,7 +135,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -163,7 +163,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
-- 
2.43.0


From 9fcff282e5c0607b1a76250779e49885b94c89bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 26/58] fix: QuickProp treats the first update of every weight,
 not only the first weight, as the first iteration

---
 src/net/Trainer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/net/Trainer.cpp b/src/net/Trainer.cpp
index a307c79..673c363 100644
--- a/src/net/Trainer.cpp
+++ b/src/net/Trainer.cpp
@@ -498,7 +498,6 @@ void Trainer::ApplyGradients (datum lr) {
 
             if(first_iteration) {
               current_step = - epsilon_zero * current_slope;
-              first_iteration=false;
             } else {
               // A0
               if(std::abs(current_slope) <= epsilon_flat) {
@@ -541,8 +540,11 @@ void Trainer::ApplyGradients (datum lr) {
     }
   }
   
-  // Update quickprop stats
   if(settings_.optimization_method == QUICKPROP) {
+    // The first iteration is over after every weight has been updated
+    first_iteration = false;
+
+    // Update quickprop stats
     System::stat_aggregator->Update(stat_qp_caseA_->stat_id, (double)qp_caseA);
     System::stat_aggregator->Update(stat_qp_caseB_->stat_id, (double)qp_caseB);
     System::stat_aggregator->Update(stat_qp_caseC_->stat_id, (double)qp_caseC);
-- 
2.43.0


From 3fa6d88363adc6ca58761c36f5d5e87d6a1b30cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 27/58] fix: testing and ending a train command don't reset the
 momentum of the trainer

---
 tools/trainNetwork.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index d70a814..58dcf2e 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -310,7 +310,9 @@ bool parseCommand (Conv::NetGraph& graph, Conv::NetGraph& testing_graph, Conv::T
     Conv::ParseCountIfPossible (command, "epochs", epochs);
     Conv::ParseCountIfPossible(command, "no_snapshots", no_snapshots);
     trainer.Train (epochs, no_snapshots != 1);
-    testing_trainer.SetEpoch (trainer.epoch());
+    // Without hybrid mode, this is the same trainer. Don't reset its state
+    if (hybrid)
+      testing_trainer.SetEpoch (trainer.epoch());
     graph.SetLayerViewEnabled (false);
     LOGINFO << "Training complete.";
     
@@ -324,7 +326,8 @@ bool parseCommand (Conv::NetGraph& graph, Conv::NetGraph& testing_graph, Conv::T
     unsigned int layerview = 0;
     Conv::ParseCountIfPossible (command, "view", layerview);
     testing_graph.SetLayerViewEnabled (layerview == 1);
-    testing_trainer.SetEpoch (trainer.epoch());
+    if (hybrid)
+      testing_trainer.SetEpoch (trainer.epoch());
     testing_trainer.Test();
     testing_graph.SetLayerViewEnabled (false);
     LOGINFO << "Testing complete.";
-- 
2.43.0


From 7c9d13f30d3f98a7772e3b772e1270e8ff3145c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 28/58] fix: BinaryStatLayer handles thresholds without true
 positives

---
 src/net/BinaryStatLayer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index 19a1877..1ecf0ee 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -117,7 +117,9 @@ void BinaryStatLayer::UpdateAll() {
                ( true_positives_[t] + false_negatives_[t] );
 
     if ( precision >= 0 && recall >= 0 ) {
-      f1 = 2 * precision * recall / ( precision + recall );
+      // Without true positives, both are zero
+      f1 = ( precision + recall ) > 0 ?
+           2 * precision * recall / ( precision + recall ) : 0;
     }
 
     if ( f1 > fmax ) {
@@ -150,7 +152,8 @@ void BinaryStatLayer::UpdateAll() {
           ( true_positives_[tfmax] + false_negatives_[tfmax] );
 
   if ( precision >= 0 && recall >= 0 )
-    f1 = 2 * precision * recall / ( precision + recall );
+    f1 = ( precision + recall ) > 0 ?
+         2 * precision * recall / ( precision + recall ) : 0;
   
   acc = ( true_positives_[tfmax] + true_negatives_[tfmax] ) /
           ( true_positives_[tfmax] + true_negatives_[tfmax] +
-- 
2.43.0


From 107e80fc658c83b0d378f0b722c65e8425808045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 29/58] fix: initializing a network again also initializes
 biases and H-Max parameters

---
 include/cn24/net/HMaxActivationFunction.h | 1 +
 src/net/ConvolutionLayer.cpp              | 2 ++
 src/net/HMaxActivationFunction.cpp        | 5 +++++
 3 files changed, 8 insertions(+)

diff --git a/include/cn24/net/HMaxActivationFunction.h b/include/cn24/net/HMaxActivationFunction.h
index 6e0973f..6fc10da 100644
--- a/include/cn24/net/HMaxActivationFunction.h
+++ b/include/cn24/net/HMaxActivationFunction.h
@@ -33,6 +33,7 @@ public:
   bool CreateOutputs (const std::vector< CombinedTensor* >& inputs,
                       std::vector< CombinedTensor* >& outputs);
   bool Connect (const CombinedTensor* input, CombinedTensor* output);
+  void OnLayerConnect (const std::vector<Layer*> next_layers);
   void FeedForward();
   void BackPropagate();
   
diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index 0b6e45c..cbdb941 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -343,6 +343,8 @@ void ConvolutionLayer::OnLayerConnect (const std::vector<Layer*> next_layers) {
     weights_->data[i] = dist_weights (rand_);
   }
 
+  bias_->data.Clear();
+
   LOGDEBUG << "Updating weights: " << this_layer_gain << " -> "
            << next_layer_gain;
 }
diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index 49c2684..ddc0554 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -113,6 +113,11 @@ bool HMaxActivationFunction::Connect (const CombinedTensor* input,
   return true;
 }
   
+void HMaxActivationFunction::OnLayerConnect (const std::vector<Layer*> next_layers) {
+  UNREFERENCED_PARAMETER(next_layers);
+  weights_->data.Clear(1.0);
+}
+
 void HMaxActivationFunction::FeedForward() {
   const datum a = *(weights_->data.data_ptr(0));
   const datum b = *(weights_->data.data_ptr(1));
-- 
2.43.0


From 248441d4cc4e7e12f72ba34ba5f020ea5093c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 30/58] fix: PNG images with more than 2^32 samples don't
 overflow the image buffer

---
 src/util/PNGUtil.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/PNGUtil.cpp b/src/util/PNGUtil.cpp
index f8f104b..67dbbca 100644
--- a/src/util/PNGUtil.cpp
+++ b/src/util/PNGUtil.cpp
@@ -127,14 +127,14 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
     png_bytep* row_pointers = new png_bytep[image_height];
 
     // Allocate memory for image
-    png_byte* image_data = new png_byte[image_height * image_width *
+    png_byte* image_data = new png_byte[( std::size_t ) image_height * image_width *
                                         image_channels];
 
     row_pointers_8 = row_pointers;
     image_data_8 = image_data;
 
     // Set row pointers
-    const png_uint_32 row_stride = image_width * image_channels;
+    const std::size_t row_stride = image_width * image_channels;
 
     for ( png_uint_32 row = 0; row < image_height; row++ ) {
       row_pointers[row] = &image_data[row * row_stride];
@@ -173,14 +173,14 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
     png_uint_16pp row_pointers = new png_uint_16*[image_height];
 
     // Allocate memory for image
-    png_uint_16* image_data = new png_uint_16[image_height * image_width *
+    png_uint_16* image_data = new png_uint_16[( std::size_t ) image_height * image_width *
                                         image_channels];
 
     row_pointers_16 = row_pointers;
     image_data_16 = image_data;
 
     // Set row pointers
-    const png_uint_32 row_stride = image_width * image_channels;
+    const std::size_t row_stride = image_width * image_channels;
 
     for ( png_uint_32 row = 0; row < image_height; row++ ) {
       row_pointers[row] = &image_data[row * row_stride];
-- 
2.43.0


From 98787be767adafed6cb84316ea7641769d8bc527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 31/58] fix: reject datasets whose tensors don't fit together

The patch dataset read labels and further images out of bounds when their
dimensions or map counts differed from the first pair's, and both datasets
indexed the class weights by label maps without checking their number.
---
 src/util/TensorStreamDataset.cpp      |  5 +++++
 src/util/TensorStreamPatchDataset.cpp | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 9740ddf..82ab971 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -133,6 +133,11 @@ TensorStreamDataset::TensorStreamDataset (
     label_maps_ = testing_stream_->GetMaps(1);
   }
 
+  // Every label map needs a class weight
+  if (label_maps_ > classes_) {
+    FATAL ("More label maps than classes!");
+  }
+
   // Prepare error cache
   error_cache.Resize (1, max_width_, max_height_, 1);
 
diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index cdd6318..b22bf7c 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -181,6 +181,21 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 
 	input_maps_ = data_[0].maps();
 	label_maps_ = labels_[0].maps();
+
+	// Patches are copied without further checks
+	for (unsigned int t = 0; t < tensors_; t++) {
+		if (labels_[t].width() != data_[t].width() || labels_[t].height() != data_[t].height()) {
+			FATAL("Image and label dimensions don't match: " << data_[t] << ", " << labels_[t]);
+		}
+
+		if (data_[t].maps() != input_maps_ || labels_[t].maps() != label_maps_) {
+			FATAL("Map counts differ between tensors: " << data_[t] << ", " << labels_[t]);
+		}
+	}
+
+	if (label_maps_ > classes_) {
+		FATAL("More label maps than classes!");
+	}
 }
 
 Task TensorStreamPatchDataset::GetTask() const {
-- 
2.43.0


From 7c27fbd57d526b12eff0fa67efbad2f0aa8fe03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 32/58] fix: gradients of nodes with multiple output buffers
 are accumulated per buffer

---
 src/net/NetGraph.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 9e35579..6d471eb 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -213,35 +213,45 @@ void NetGraph::Initialize() {
     no_multiple_connections = true;
 		std::vector<NetGraphNode*> nodes(nodes_);
     for (NetGraphNode* node : nodes) {
-      if(node->backprop_connections.size() > 1 && dynamic_cast<GradientAccumulationLayer*>(node->layer) == NULL) {
+      // Find a buffer with multiple backprop connections
+      unsigned int buffer = 0, connections = 0;
+      for(; buffer < node->output_buffers.size(); buffer++) {
+        connections = std::count_if(node->backprop_connections.begin(), node->backprop_connections.end(),
+          [&](const NetGraphBackpropConnection& backprop_connection){ return backprop_connection.buffer == buffer; });
+        if(connections > 1)
+          break;
+      }
+
+      if(connections > 1 && dynamic_cast<GradientAccumulationLayer*>(node->layer) == NULL) {
         no_multiple_connections = false;
         LOGINFO << "Node has multiple backprop connections: " << node->layer->GetLayerDescription();
         
         // Insert gradient accumulation layer
-        GradientAccumulationLayer* ga = new GradientAccumulationLayer(node->backprop_connections.size());
-        NetGraphNode* ga_node = new NetGraphNode(ga, NetGraphConnection(node));
+        GradientAccumulationLayer* ga = new GradientAccumulationLayer(connections);
+        NetGraphNode* ga_node = new NetGraphNode(ga, NetGraphConnection(node, buffer));
         AddNode(ga_node);
         
         // Redirect input connections using backprop connections
         int b = 0;
+        std::vector<NetGraphBackpropConnection> remaining_connections;
         for(NetGraphBackpropConnection& backprop_connection : node->backprop_connections) {
-          if(backprop_connection.node != ga_node) {
+          if(backprop_connection.node != ga_node && backprop_connection.buffer == buffer) {
             for(NetGraphConnection& target_connection : backprop_connection.node->input_connections) {
-              if(target_connection.node == node && target_connection.buffer == backprop_connection.buffer && target_connection.backprop) {
+              if(target_connection.node == node && target_connection.buffer == buffer && target_connection.backprop) {
                 target_connection.node = ga_node;
                 backprop_connection.buffer = b;
                 target_connection.buffer = b++;
+                break;
               }
             }
             ga_node->backprop_connections.push_back(backprop_connection);
+          } else {
+            remaining_connections.push_back(backprop_connection);
           }
         }
         
-        // Remove backprop connections from node
-        auto predicate = 
-          [&](NetGraphBackpropConnection backprop_connection){ return backprop_connection.node != ga_node; };
-        node->backprop_connections.erase(std::remove_if(node->backprop_connections.begin(), node->backprop_connections.end(),
-        predicate), node->backprop_connections.end());
+        // Remove redirected backprop connections from node
+        node->backprop_connections = remaining_connections;
       }
     }
   } while(!no_multiple_connections);
-- 
2.43.0


From 8e7e746babff481cc3dfa5dd518cfd4b2f55e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 33/58] fix: NetGraph::IsComplete notices connections to nodes
 outside of the network

---
 src/net/NetGraph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 6d471eb..0d3fbc1 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -87,8 +87,9 @@ bool NetGraph::IsComplete() const {
 			if (node->layer != nullptr) {
 				for (NetGraphConnection connection : node->input_connections) {
 					if (connection.node != nullptr) {
-						if (std::find(nodes_.begin(), nodes_.end(), node) == nodes_.end()) {
+						if (std::find(nodes_.begin(), nodes_.end(), connection.node) == nodes_.end()) {
 							LOGWARN << "Node has out-of-network connection: " << node->layer->GetLayerDescription();
+							node_okay = false;
 						}
 						else {
 							if (connection.buffer >= connection.node->output_buffers.size()) {
-- 
2.43.0


From 00a2b356fb8eb14b851ae7eea9c5fc5794df0b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 34/58] fix: the graph command reports when the graph cannot be
 written

---
 tools/trainNetwork.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index 58dcf2e..4d1dcc2 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -453,6 +453,9 @@ bool parseCommand (Conv::NetGraph& graph, Conv::NetGraph& testing_graph, Conv::T
 			}
 			graph_output << "}";
 			graph_output.close();
+
+			if (!graph_output.good())
+				LOGERROR << "Cannot write graph to " << param_file_name;
 		}
 	}
 	else if (command.compare(0, 5, "wstat") == 0) {
-- 
2.43.0


From 7d582bd0057ec39c8c6ea217c2cce2cfcafed65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 35/58] fix: net configurations can't overflow or underflow the
 connection stacks

---
 src/factory/ConfigurableFactory.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index aeea4dd..067c934 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -228,18 +228,26 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
      * STACK OPERATIONS
      */
     if (line.compare(0, 5, "pusha") == 0) {
+      if (stack_a_pos >= 63)
+        FATAL("Net configuration: stack a is full!");
       stack_a[++stack_a_pos] = last_connection;
     }
 
     if (line.compare(0, 5, "pushb") == 0) {
+      if (stack_b_pos >= 63)
+        FATAL("Net configuration: stack b is full!");
       stack_b[++stack_b_pos] = last_connection;
     }
     
     if (line.compare(0, 4, "popa") == 0) {
+      if (stack_a_pos < 0)
+        FATAL("Net configuration: stack a is empty!");
       last_connection = stack_a[stack_a_pos--];
     }
     
     if (line.compare(0, 4, "popb") == 0) {
+      if (stack_b_pos < 0)
+        FATAL("Net configuration: stack b is empty!");
       last_connection = stack_b[stack_b_pos--];
     }
     
-- 
2.43.0


From bebcaf8890561ec09db78237b6f5889a9cb9039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 36/58] fix: layers refuse zero sizes, strides and groups and
 inputs smaller than their kernels

---
 src/net/AdvancedMaxPoolingLayer.cpp | 11 +++++++++++
 src/net/ConvolutionLayer.cpp        | 19 +++++++++++++++----
 src/net/InputDownSamplingLayer.cpp  |  5 +++++
 src/net/MaxPoolingLayer.cpp         |  5 +++++
 4 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/net/AdvancedMaxPoolingLayer.cpp b/src/net/AdvancedMaxPoolingLayer.cpp
index e40d027..b27d9a9 100644
--- a/src/net/AdvancedMaxPoolingLayer.cpp
+++ b/src/net/AdvancedMaxPoolingLayer.cpp
@@ -59,6 +59,17 @@ bool AdvancedMaxPoolingLayer::CreateOutputs (
     return false;
   }
 
+  // Validate dimensions
+  if (region_width_ == 0 || region_height_ == 0 || stride_width_ == 0 || stride_height_ == 0) {
+    LOGERROR << "Regions and strides cannot have zero dimensions!";
+    return false;
+  }
+
+  if (input->data.width() < region_width_ || input->data.height() < region_height_) {
+    LOGERROR << "Unsupported input dimensions " << input->data;
+    return false;
+  }
+
   const int output_width = ((int)input->data.width() - (int)region_width_ ) / (int)stride_width_ + 1;
   const int output_height = ((int)input->data.height() - (int)region_height_) / (int)stride_height_ + 1;
 
diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index cbdb941..bc4a602 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -53,7 +53,7 @@ ConvolutionLayer::ConvolutionLayer (const unsigned int kwidth,
     FATAL("Stride needs to be at least 1!");
   }
   
-  if((output_maps_ % group) != 0) {
+  if(group == 0 || (output_maps_ % group) != 0) {
     FATAL("Output maps need to divide group count");
   }
   
@@ -121,14 +121,25 @@ bool ConvolutionLayer::CreateOutputs (
   // For MNIST recognition, LeCun says that 'same' convolutions perform better
   // as a first layer. He adds a border around the training and test sets to
   // achieve the same thing without changing the code.
-  const int output_width = ((int)pad_width_ + (int)pad_width_ + (int)input->data.width() - (int)kernel_width_) / (int)stride_width_ + 1;
-  const int output_height = ((int)pad_height_ + (int)pad_height_ + (int)input->data.height() - (int)kernel_height_) / (int)stride_height_ + 1;
+  const std::size_t padded_width = 2 * (std::size_t)pad_width_ + input->data.width();
+  const std::size_t padded_height = 2 * (std::size_t)pad_height_ + input->data.height();
   
-  if (output_width <= 0 || output_height <= 0) {
+  if (kernel_width_ == 0 || kernel_height_ == 0 || stride_width_ == 0 || stride_height_ == 0 || group_ == 0) {
+    FATAL("Kernels, strides and groups cannot be zero!");
+  }
+  
+  if (padded_width < kernel_width_ || padded_height < kernel_height_) {
     LOGERROR << "Unsupported input dimensions " << input->data;
     return false;
   }
   
+  const std::size_t output_width = (padded_width - kernel_width_) / stride_width_ + 1;
+  const std::size_t output_height = (padded_height - kernel_height_) / stride_height_ + 1;
+  
+  if (output_maps_ == 0 || (output_maps_ % group_) != 0) {
+    FATAL("Output maps need to divide group count!");
+  }
+  
   if ((input->data.maps() % group_) != 0) {
     FATAL("Input maps need to divide group count!");
   }
diff --git a/src/net/InputDownSamplingLayer.cpp b/src/net/InputDownSamplingLayer.cpp
index b2adf29..69d5d95 100644
--- a/src/net/InputDownSamplingLayer.cpp
+++ b/src/net/InputDownSamplingLayer.cpp
@@ -39,6 +39,11 @@ bool InputDownSamplingLayer::CreateOutputs (
   }
 
   // Validate dimensions
+  if (region_width_ == 0 || region_height_ == 0) {
+    LOGERROR << "Regions cannot have zero dimensions!";
+    return false;
+  }
+
   if ( (input->data.width() % region_width_) != 0 ||
        (input->data.height() % region_height_) != 0) {
     LOGERROR << "Input dimensions not divisible by region dimensions!";
diff --git a/src/net/MaxPoolingLayer.cpp b/src/net/MaxPoolingLayer.cpp
index 997e6e4..5c98f66 100644
--- a/src/net/MaxPoolingLayer.cpp
+++ b/src/net/MaxPoolingLayer.cpp
@@ -52,6 +52,11 @@ bool MaxPoolingLayer::CreateOutputs (
   }
 
   // Validate dimensions
+  if (region_width_ == 0 || region_height_ == 0) {
+    LOGERROR << "Regions cannot have zero dimensions!";
+    return false;
+  }
+
   if ( (input->data.width() % region_width_) != 0 ||
        (input->data.height() % region_height_) != 0) {
     LOGERROR << "Input dimensions not divisible by region dimensions!";
-- 
2.43.0


From 1b24d168ed2432fc44af6039b45f7a40c41aefaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 37/58] fix: training without training samples is refused

---
 src/net/DatasetInputLayer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/net/DatasetInputLayer.cpp b/src/net/DatasetInputLayer.cpp
index d3f4d70..083655c 100644
--- a/src/net/DatasetInputLayer.cpp
+++ b/src/net/DatasetInputLayer.cpp
@@ -160,6 +160,9 @@ void DatasetInputLayer::FeedForward() {
       }
 
     } else {
+      if (perm_.empty())
+        FATAL ("Dataset has no training samples!");
+
       // Select samples until one from the right subset is hit
       // Select a sample from the permutation
       selected_element = perm_[current_element_];
-- 
2.43.0


From e8c4e5156baa017a8ca4485ce476e52daf2edb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 38/58] fix: layers without inputs that create no outputs are
 reported

---
 src/net/NetGraph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 0d3fbc1..b4b239c 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -280,6 +280,9 @@ void NetGraph::InitializeNode(NetGraphNode* node) {
 
 		// Verify output buffer creation
 		if (!success_outputs) {
+			if (input_tensors.size() == 0)
+				FATAL("Layer will not create outputs: " << node->layer->GetLayerDescription() << ", no inputs");
+
 			FATAL("Layer will not create outputs: " << node->layer->GetLayerDescription() << ", input0: " << input_tensors[0]->data);
     }
 
-- 
2.43.0


From a56540d38670b845ea58fcc865044278165308c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 39/58] fix: layers without a size have a defined receptive
 field

---
 src/factory/ConfigurableFactory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index 067c934..92b625b 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -85,7 +85,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       line = line.substr (1);
 
       if (StartsWithIdentifier (line, "convolutional")) {
-        unsigned int kx, ky, stridex = 1, stridey = 1, padx = 0, pady = 0;
+        unsigned int kx = 1, ky = 1, stridex = 1, stridey = 1, padx = 0, pady = 0;
         
         ParseKernelSizeIfPossible (line, "stride", stridex, stridey);
         ParseKernelSizeIfPossible (line, "pad", padx, pady);
@@ -103,7 +103,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
       
       if (StartsWithIdentifier (line, "maxpooling")) {
-        unsigned int kx, ky;
+        unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding maxpooling layer to receptive field (" << kx << "," << ky << ")";
         factorx *= kx;
@@ -111,7 +111,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
 
       if (StartsWithIdentifier (line, "downsampling")) {
-        unsigned int kx, ky;
+        unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding down-sampling layer to receptive field (" << kx << "," << ky << ")";
         factorx *= kx;
@@ -119,7 +119,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
       
       if (StartsWithIdentifier (line, "amaxpooling")) {
-        unsigned int kx, ky, sx, sy;
+        unsigned int kx = 1, ky = 1, sx, sy;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         sx = kx; sy = ky;
         ParseKernelSizeIfPossible (line, "stride", sx, sy);
-- 
2.43.0


From 0622ae8fb7f0a4fddd5b4cd57b99e240c538b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 40/58] fix: gradients of outputs that nothing depends on are
 zero, not uninitialised

---
 src/net/NetGraph.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index b4b239c..4bd647f 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -261,6 +261,15 @@ void NetGraph::Initialize() {
 		InitializeNode(node);
 	}
 
+  // Nothing writes the gradients of buffers that nothing depends on
+  for (NetGraphNode* node : nodes_) {
+    for (unsigned int buffer = 0; buffer < node->output_buffers.size(); buffer++) {
+      bool used = std::any_of(node->backprop_connections.begin(), node->backprop_connections.end(),
+        [&](const NetGraphBackpropConnection& backprop_connection){ return backprop_connection.buffer == buffer; });
+      if (!used)
+        node->output_buffers[buffer].combined_tensor->delta.Clear();
+    }
+  }
 }
 
 void NetGraph::InitializeNode(NetGraphNode* node) {
-- 
2.43.0


From bd7c1085759e9a75df32f5ac9258066addb7d7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 41/58] fix: the square loss refuses inputs of different shapes

---
 src/net/ErrorLayer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/net/ErrorLayer.cpp b/src/net/ErrorLayer.cpp
index cbd0450..a19a911 100644
--- a/src/net/ErrorLayer.cpp
+++ b/src/net/ErrorLayer.cpp
@@ -55,6 +55,13 @@ bool ErrorLayer::CreateOutputs ( const std::vector< CombinedTensor* >& inputs,
     return false;
   }
 
+  // FeedForward accesses all inputs by the coordinates of the first
+  if ( first->data.width() != second->data.width() || first->data.height() != second->data.height() ||
+       first->data.width() > third->data.width() || first->data.height() > third->data.height() ) {
+    LOGERROR << "Inputs need the same dimensions!";
+    return false;
+  }
+
   // Needs no outputs
   return true;
 }
-- 
2.43.0


From 6f0a6c13eee6ec1402f76fa194608ebc9edd33e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 42/58] fix: empty numbers in descriptions are zero, not
 uninitialised

---
 src/util/ConfigParsing.cpp            | 4 ++--
 src/util/TensorStreamDataset.cpp      | 2 +-
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index 0a7da31..5ffc501 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -30,7 +30,7 @@ datum ParseDatum ( std::string line, std::string identifier ) {
   if ( line.compare ( 0, identifier.length(), identifier ) == 0 ) {
     std::stringstream ss;
     ss << line.substr ( identifier.length() +1 );
-    datum d;
+    datum d = 0;
     ss >> d;
 //    return std::strtof ( line.substr ( identifier.length() +1 ).c_str() ,nullptr);
     return d;
@@ -140,7 +140,7 @@ void ParseDatumParamIfPossible ( std::string line, std::string identifier, datum
 
   std::stringstream ss;
   ss << size;
-  datum d;
+  datum d = 0;
   ss >> d;
   
   k = d; //std::atof ( size.c_str() );
diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 82ab971..940bbe4 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -343,7 +343,7 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
 			if (classes != 0) {
 				for (int c = 0; c < classes; c++) {
 					std::string weight;
-					datum dweight;
+					datum dweight = 0;
 					std::getline(file, weight);
 					std::stringstream ss;
 					ss << weight;
diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index b22bf7c..3a170ed 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -425,7 +425,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
 			if (classes != 0) {
 				for (int c = 0; c < classes; c++) {
 					std::string weight;
-					datum dweight;
+					datum dweight = 0;
 					std::getline(file, weight);
 					std::stringstream ss;
 					ss << weight;
-- 
2.43.0


From 1176da2951db8804ddc0d54ee8eb255ad59476da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 43/58] fix: tensorStreamStats counted class weights twice

---
 tools/tensorStreamStats.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/tensorStreamStats.cpp b/tools/tensorStreamStats.cpp
index b19f515..8328701 100644
--- a/tools/tensorStreamStats.cpp
+++ b/tools/tensorStreamStats.cpp
@@ -54,8 +54,10 @@ int main(int argc, char* argv[]) {
         unsigned int pixel_class = label_tensor.PixelMaximum(x,y,0);
         Conv::datum weight = *weight_tensor.data_ptr_const(x,y);
         
-        pixel_counts[pixel_class] += (long double)weight;
-        pixel_counts_weighted[pixel_class] += (long double)(weight * class_weights[pixel_class]);
+        // The dataset already multiplies the class weight into the pixel's weight
+        if (class_weights[pixel_class] != 0)
+          pixel_counts[pixel_class] += (long double)(weight / class_weights[pixel_class]);
+        pixel_counts_weighted[pixel_class] += (long double)weight;
       }
     }
   }
-- 
2.43.0


From 79be0cb6ab1e439e50930e99fc8a6e6adca73cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 44/58] fix: direct RGB labels from grayscale images were read
 out of bounds

---
 tools/makeCompressedTensorStream.cpp | 10 ++++++++--
 tools/makeTensorStream.cpp           | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/tools/makeCompressedTensorStream.cpp b/tools/makeCompressedTensorStream.cpp
index 65f6804..99e5a55 100644
--- a/tools/makeCompressedTensorStream.cpp
+++ b/tools/makeCompressedTensorStream.cpp
@@ -121,11 +121,17 @@ int main ( int argc, char** argv ) {
 
     if(directRGB == "true") {
       // no classes - interpret the label tensor input as the output (no class/color mapping)
+      if ( label_rgb_tensor.maps() != 1 && label_rgb_tensor.maps() != 3 ) {
+        FATAL ( "Unsupported input channel count!" );
+      }
+
+      const bool gray = label_rgb_tensor.maps() == 1;
+
        for ( unsigned int y = 0; y < label_rgb_tensor.height(); y++ ) {
         for ( unsigned int x = 0; x < label_rgb_tensor.width(); x++ ) {     
           *label_tensor.data_ptr ( x,y,0,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,0,0 );
-          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,1,0 );
-          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,2,0 );
+          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,gray ? 0 : 1,0 );
+          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,gray ? 0 : 2,0 );
         }
       }
     } else if(number_of_classes == 1) {
diff --git a/tools/makeTensorStream.cpp b/tools/makeTensorStream.cpp
index 7ad6fa7..0f99bc5 100644
--- a/tools/makeTensorStream.cpp
+++ b/tools/makeTensorStream.cpp
@@ -117,11 +117,17 @@ int main ( int argc, char** argv ) {
 
     if(directRGB == "true") {
       // no classes - interpret the label tensor input as the output (no class/color mapping)
+      if ( label_rgb_tensor.maps() != 1 && label_rgb_tensor.maps() != 3 ) {
+        FATAL ( "Unsupported input channel count!" );
+      }
+
+      const bool gray = label_rgb_tensor.maps() == 1;
+
        for ( unsigned int y = 0; y < label_rgb_tensor.height(); y++ ) {
         for ( unsigned int x = 0; x < label_rgb_tensor.width(); x++ ) {     
           *label_tensor.data_ptr ( x,y,0,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,0,0 );
-          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,1,0 );
-          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,2,0 );
+          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,gray ? 0 : 1,0 );
+          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,gray ? 0 : 2,0 );
         }
       }
     } else if(number_of_classes == 1) {
-- 
2.43.0


From d10a72674eb305849c135e427c8a12078b5a4960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 45/58] fix: colorizing took class 0 wherever no output is
 positive

---
 src/util/Colorize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Colorize.cpp b/src/util/Colorize.cpp
index 758df1f..b28d423 100644
--- a/src/util/Colorize.cpp
+++ b/src/util/Colorize.cpp
@@ -49,7 +49,7 @@ void Dataset::Colorize(Tensor& net_output_tensor, Tensor& target_tensor) {
        for(unsigned int y = 0; y < net_output_tensor.height(); y++) {
 	for(unsigned int x = 0; x < net_output_tensor.width(); x++) {
 	  unsigned int maxclass = 0;
-	  datum maxvalue = std::numeric_limits<datum>::min();
+	  datum maxvalue = std::numeric_limits<datum>::lowest();
 	  for(unsigned int c = 0; c < GetClasses(); c++) {
 	    const datum value = *net_output_tensor.data_ptr_const(x,y,c,sample);
 	    if(value > maxvalue) {
-- 
2.43.0


From 62cfcbc94d17fb5330d960404f971e4138c1656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 46/58] fix: colors of single class outputs outside of their
 range wrapped around

---
 src/util/Colorize.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/Colorize.cpp b/src/util/Colorize.cpp
index b28d423..2a7ad4a 100644
--- a/src/util/Colorize.cpp
+++ b/src/util/Colorize.cpp
@@ -36,6 +36,12 @@ void Dataset::Colorize(Tensor& net_output_tensor, Tensor& target_tensor) {
 	  datum value = *net_output_tensor.data_ptr_const(x,y,0,sample);
 	  value += 1.0;
 	  value /= 2.0;
+
+	  // Outputs are not bounded, but colors are
+	  if(!(value > 0.0))
+	    value = 0.0;
+	  if(value > 1.0)
+	    value = 1.0;
 	  
 	  *target_tensor.data_ptr(x,y,0,sample) = r * value;
 	  *target_tensor.data_ptr(x,y,1,sample) = g * value;
-- 
2.43.0


From b44baeda2139c939d677e342014c6a33456feae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 47/58] fix: classifyImage pads images like the datasets and
 checks the output size

---
 tools/classifyImage.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index 1c56547..29d2d42 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -79,6 +79,21 @@ int main (int argc, char* argv[]) {
   if(height & 4)
     height+=4;
   
+  if(width & 8)
+    width+=8;
+  if(height & 8)
+    height+=8;
+  
+  if(width & 16)
+    width+=16;
+  if(height & 16)
+    height+=16;
+  
+  if(width & 32)
+    width+=32;
+  if(height & 32)
+    height+=32;
+  
   Conv::Tensor data_tensor(1, width, height, original_data_tensor.maps());
   Conv::Tensor helper_tensor(1, width, height, 2);
   data_tensor.Clear();
@@ -137,6 +152,9 @@ int main (int argc, char* argv[]) {
   LOGINFO << "Colorizing..." << std::flush;
   dataset->Colorize(*net_output_tensor, image_output_tensor);
   
+  if(image_output_tensor.width() < original_width || image_output_tensor.height() < original_height)
+    FATAL("Network output is smaller than the image!");
+
   // Recrop image down
   Conv::Tensor small(1, original_data_tensor.width(), original_data_tensor.height(), 3);
   for(unsigned int m = 0; m < 3; m++)
-- 
2.43.0


From 2251c826fd84ebb001b0347b40ab6473a8072dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 48/58] fix: classifyImage used uninitialised parameters if the
 model was incomplete

---
 include/cn24/net/NetGraph.h | 3 ++-
 src/net/NetGraph.cpp        | 4 ++--
 tools/classifyImage.cpp     | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/cn24/net/NetGraph.h b/include/cn24/net/NetGraph.h
index 7e2f624..434e904 100644
--- a/include/cn24/net/NetGraph.h
+++ b/include/cn24/net/NetGraph.h
@@ -79,10 +79,11 @@ public:
    * @brief Loads the parameters of all layers up to last_layer (0 for all)
    *
    * The net is not changed if the stream is damaged or doesn't match the net.
+   * Unless require_all is set, the stream may contain less parameters than the net.
    *
    * @returns true if the parameters were loaded
    */
-  bool DeserializeParameters(std::istream& input, unsigned int last_layer = 0);
+  bool DeserializeParameters(std::istream& input, unsigned int last_layer = 0, bool require_all = false);
 
 	// Output
 	void PrintGraph(std::ostream& graph_output);
diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 4bd647f..04addee 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -424,7 +424,7 @@ void NetGraph::SerializeParameters(std::ostream& output) {
 	}
 }
 
-bool NetGraph::DeserializeParameters(std::istream& input, unsigned int last_layer) {
+bool NetGraph::DeserializeParameters(std::istream& input, unsigned int last_layer, bool require_all) {
 	// TODO use unique layer ids
   if (last_layer == 0 || last_layer >= nodes_.size())
     last_layer = nodes_.size() - 1;
@@ -437,7 +437,7 @@ bool NetGraph::DeserializeParameters(std::istream& input, unsigned int last_laye
     Layer* layer = nodes_[l]->layer;
     for (unsigned int p = 0; p < layer->parameters().size(); p++) {
       // The stream may contain less parameter sets than the net
-      if (loaded.size() > 0 && input.peek() == std::istream::traits_type::eof() && !input.bad())
+      if (!require_all && loaded.size() > 0 && input.peek() == std::istream::traits_type::eof() && !input.bad())
         break;
       std::unique_ptr<Tensor> tensor(new Tensor());
       if (!tensor->Deserialize (input)) {
diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index 29d2d42..5f2d235 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -138,8 +138,8 @@ int main (int argc, char* argv[]) {
 	graph.Initialize();
 
 
-  // Load network parameters
-  if (!graph.DeserializeParameters(param_tensor_file))
+  // Load network parameters, there is nothing else to initialize them with
+  if (!graph.DeserializeParameters(param_tensor_file, 0, true))
     FATAL("Cannot load network parameters!");
   
   graph.SetIsTesting(true);
-- 
2.43.0


From 3f48e76f18708e2afc559ac4fd75d98ea7e2820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 49/58] fix: CSVStatSink kept a deleted stream if the next one
 could not be created

---
 src/util/CSVStatSink.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/CSVStatSink.cpp b/src/util/CSVStatSink.cpp
index b7af934..5e780fd 100644
--- a/src/util/CSVStatSink.cpp
+++ b/src/util/CSVStatSink.cpp
@@ -60,6 +60,7 @@ void CSVStatSink::SetCurrentExperiment(std::string current_experiment) {
   if(csv_stream_ != nullptr) {
     csv_stream_->close();
     delete csv_stream_;
+    csv_stream_ = nullptr;
   }
   
   // Generate filename
-- 
2.43.0


From f06fd35a877589538148e06a7dc26ac5ce79ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 50/58] fix: a failed allocation could cut off the name of the
 CSV file

---
 src/util/CSVStatSink.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/util/CSVStatSink.cpp b/src/util/CSVStatSink.cpp
index 5e780fd..aec0121 100644
--- a/src/util/CSVStatSink.cpp
+++ b/src/util/CSVStatSink.cpp
@@ -64,9 +64,7 @@ void CSVStatSink::SetCurrentExperiment(std::string current_experiment) {
   }
   
   // Generate filename
-  std::stringstream csv_filename_ss;
-  csv_filename_ss << "csv/" << current_experiment << ".csv";
-  std::string csv_filename=csv_filename_ss.str();
+  std::string csv_filename = "csv/" + current_experiment + ".csv";
   
   // Open new stream
   csv_stream_ = new std::ofstream(csv_filename, std::ios::out);
-- 
2.43.0


From 4391501cf044ed515bd58f40f4babdc7240a7d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 51/58] fix: sessions ended silently if a command could not be
 stored

---
 tools/trainNetwork.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index 4d1dcc2..8dbab75 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -262,8 +262,11 @@ int main (int argc, char* argv[]) {
       while (true) {
         std::cout << "\n > " << std::flush;
         std::string command;
-        if (!std::getline (std::cin, command))
+        if (!std::getline (std::cin, command)) {
+          if (std::cin.bad())
+            FATAL("Cannot read commands");
           break;
+        }
 
         if (!parseCommand (graph, *testing_graph, trainer, *testing_trainer, patchwise_training, command))
           break;
-- 
2.43.0


From 3eea6bf16eb73dcbe6a4a6040b71a6699688042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 52/58] fix: numbers in descriptions became zero if memory ran
 out while reading them

---
 src/util/ConfigParsing.cpp            | 2 ++
 src/util/TensorStreamDataset.cpp      | 1 +
 src/util/TensorStreamPatchDataset.cpp | 1 +
 3 files changed, 4 insertions(+)

diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index 5ffc501..cbf93cb 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -29,6 +29,7 @@ unsigned int ParseUInt ( std::string line, std::string identifier ) {
 datum ParseDatum ( std::string line, std::string identifier ) {
   if ( line.compare ( 0, identifier.length(), identifier ) == 0 ) {
     std::stringstream ss;
+    ss.exceptions ( std::ios::badbit );
     ss << line.substr ( identifier.length() +1 );
     datum d = 0;
     ss >> d;
@@ -139,6 +140,7 @@ void ParseDatumParamIfPossible ( std::string line, std::string identifier, datum
   std::string size = line.substr ( size_pos + ilen );
 
   std::stringstream ss;
+  ss.exceptions ( std::ios::badbit );
   ss << size;
   datum d = 0;
   ss >> d;
diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 940bbe4..f922779 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -346,6 +346,7 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
 					datum dweight = 0;
 					std::getline(file, weight);
 					std::stringstream ss;
+					ss.exceptions ( std::ios::badbit );
 					ss << weight;
 					ss >> dweight;
 					class_weights.push_back(dweight);
diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 3a170ed..a35a460 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -428,6 +428,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
 					datum dweight = 0;
 					std::getline(file, weight);
 					std::stringstream ss;
+					ss.exceptions ( std::ios::badbit );
 					ss << weight;
 					ss >> dweight;
 					class_weights.push_back(dweight);
-- 
2.43.0


From 8cba1d9be4a3d2447712866ea6e74c41d6a29826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 53/58] fix: OpenCL platforms and devices that do not exist
 were read out of bounds

---
 src/util/Init.cpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/util/Init.cpp b/src/util/Init.cpp
index ce02360..335b1be 100644
--- a/src/util/Init.cpp
+++ b/src/util/Init.cpp
@@ -207,8 +207,17 @@ void CLHelper::Init(unsigned int platform_number, unsigned int device_number) {
     FATAL ( "No OpenCL platforms detected!" );
   }
 
+  if ( platform_number >= platform_count ) {
+    FATAL ( "OpenCL platform " << platform_number << " does not exist, " << platform_count << " available!" );
+  }
+
+  cl_int error = 0;
   cl_platform_id* platform_ids = new cl_platform_id[platform_count];
-  clGetPlatformIDs ( platform_count, platform_ids, NULL );
+  error = clGetPlatformIDs ( platform_count, platform_ids, NULL );
+
+  if ( error != CL_SUCCESS ) {
+    FATAL ( "Error getting OpenCL platforms: " << error );
+  }
 
   cl_uint device_count = 0;
   clGetDeviceIDs ( platform_ids[platform_number], CL_DEVICE_TYPE_ALL, 0,
@@ -218,15 +227,24 @@ void CLHelper::Init(unsigned int platform_number, unsigned int device_number) {
     FATAL ( "No OpenCL devices detected!" );
   }
 
+  if ( device_number >= device_count ) {
+    FATAL ( "OpenCL device " << device_number << " does not exist, " << device_count << " available!" );
+  }
+
   cl_device_id* device_ids = new cl_device_id[device_count];
-  clGetDeviceIDs ( platform_ids[platform_number], CL_DEVICE_TYPE_ALL,
-                   device_count, device_ids, NULL );
+  error = clGetDeviceIDs ( platform_ids[platform_number], CL_DEVICE_TYPE_ALL,
+                           device_count, device_ids, NULL );
+
+  if ( error != CL_SUCCESS ) {
+    FATAL ( "Error getting OpenCL devices: " << error );
+  }
 
-  char device_name_buffer[256];
+  // These are only shown, so errors do not matter
+  char device_name_buffer[256] = "";
   clGetDeviceInfo ( device_ids[device_number], CL_DEVICE_NAME, 256,
                     device_name_buffer, 0 );
 
-  uint32_t support_buffer;
+  uint32_t support_buffer = 0;
   clGetDeviceInfo ( device_ids[device_number], CL_DEVICE_IMAGE_SUPPORT, 4,
                     &support_buffer, 0 );
 
@@ -244,7 +262,6 @@ void CLHelper::Init(unsigned int platform_number, unsigned int device_number) {
 
   LOGDEBUG << "Creating OpenCL context...";
 
-  cl_int error = 0;
   context = clCreateContext ( context_properties, 1,
                               &device_ids[device_number], 0, 0, &error );
 
@@ -472,7 +489,7 @@ cl_program CLHelper::CreateProgram ( const char* file_name ) {
   error = clBuildProgram ( program, 1, &device, NULL, NULL, NULL );
 
   if ( error != CL_SUCCESS ) {
-    char build_log[16384];
+    char build_log[16384] = "";
     clGetProgramBuildInfo ( program, device, CL_PROGRAM_BUILD_LOG, 16384, build_log, NULL );
     LOGERROR << "Error compiling kernel " << file_name << ":\n" << std::string ( build_log );
     FATAL ( "Compilation failed, exiting..." );
-- 
2.43.0


From f0b2ef87b940bac9eac0aa87e0a13bcc82949cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 54/58] fix: tensors on an OpenCL device were copied,
 transposed and searched with old values

---
 src/util/Tensor.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 00b7e83..5d5b541 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -44,6 +44,9 @@ Tensor::Tensor ( const std::string& filename ) {
 
 
 Tensor::Tensor ( const Tensor& tensor, bool intentional ) {
+#ifdef BUILD_OPENCL
+  ((Tensor&)tensor).MoveToCPU();
+#endif
   // Match size of source Tensor
   Resize ( tensor );
 
@@ -198,6 +201,10 @@ void Tensor::Transpose() {
   if ( data_ptr_ == nullptr )
     return;
 
+#ifdef BUILD_OPENCL
+  MoveToCPU();
+#endif
+
   // This copy _is_ intentional
   Tensor tmp ( *this, true );
 
@@ -387,6 +394,11 @@ bool Tensor::CopyMap ( const Tensor& source, const std::size_t source_sample,
   if ( source_sample >= source.samples() || target_sample >= target.samples() )
     return false;
 
+#ifdef BUILD_OPENCL
+  ((Tensor&)source).MoveToCPU();
+  target.MoveToCPU();
+#endif
+
   // Check if image dimensions match
   if ( source.width() != target.width() || source.height() != target.height() ) {
     if ( target.width() < source.width() || target.height() < source.height() )
@@ -571,6 +583,9 @@ void Tensor::MoveToCPU ( bool no_copy ) {
 #endif
 
 std::size_t Tensor::Maximum ( std::size_t sample ) {
+#ifdef BUILD_OPENCL
+  MoveToCPU();
+#endif
   datum max_y = std::numeric_limits<datum>::lowest();
   std::size_t max_x = 0;
 
@@ -585,6 +600,9 @@ std::size_t Tensor::Maximum ( std::size_t sample ) {
 }
 
 std::size_t Tensor::AbsMaximum () {
+#ifdef BUILD_OPENCL
+  MoveToCPU();
+#endif
   datum max_y = 0;
   std::size_t max_x = 0;
 
@@ -602,6 +620,9 @@ std::size_t Tensor::AbsMaximum () {
 }
 
 std::size_t Tensor::PixelMaximum ( std::size_t x, std::size_t y, std::size_t sample ) {
+#ifdef BUILD_OPENCL
+  MoveToCPU();
+#endif
   unsigned int maxclass = 0;
   datum maxvalue = std::numeric_limits<datum>::lowest();
 
-- 
2.43.0


From 68ca5b8c948630df72942f34148c078c2a36ae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 55/58] fix: tensors kept the OpenCL buffer of their previous
 size after they were moved or emptied

---
 src/util/Tensor.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 5d5b541..9012b04 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -459,20 +459,22 @@ void Tensor::DeleteIfPossible() {
 #endif
 #ifdef BUILD_POSIX
       }
-#endif
-#ifdef BUILD_OPENCL
-      if ( cl_data_ptr_ != 0 ) {
-        clReleaseMemObject ( (cl_mem)cl_data_ptr_ );
-        cl_data_ptr_ = 0;
-      }
-      
-      cl_gpu_ = false;
 #endif
     }
 
     data_ptr_ = nullptr;
   }
 
+#ifdef BUILD_OPENCL
+  // The buffer of a shadow belongs to its target
+  if ( cl_data_ptr_ != 0 && !is_shadow_ ) {
+    clReleaseMemObject ( (cl_mem)cl_data_ptr_ );
+  }
+
+  cl_data_ptr_ = 0;
+  cl_gpu_ = false;
+#endif
+
   samples_ = 0;
   width_ = 0;
   height_ = 0;
-- 
2.43.0


From 75406f48bd721a44d696f6da40e2e34e833d3d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 56/58] fix: moved tensors forgot that they are shadows or
 memory maps

---
 src/util/Tensor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 9012b04..293d36e 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -68,6 +68,8 @@ Tensor::Tensor ( const Tensor& tensor, bool intentional ) {
 Tensor::Tensor ( Tensor && tensor ) {
 #ifdef BUILD_OPENCL
   tensor.MoveToCPU();
+  if ( tensor.is_shadow_ )
+    cl_data_ptr_ = tensor.cl_data_ptr_;
 #endif
   
   data_ptr_ = tensor.data_ptr_;
@@ -76,8 +78,14 @@ Tensor::Tensor ( Tensor && tensor ) {
   width_ = tensor.width_;
   height_ = tensor.height_;
   elements_ = tensor.elements_;
+  is_shadow_ = tensor.is_shadow_;
+  shadow_target_ = tensor.shadow_target_;
+  mmapped_ = tensor.mmapped_;
+  original_mmap_ = tensor.original_mmap_;
 
   tensor.data_ptr_ = nullptr;
+  tensor.mmapped_ = false;
+  tensor.original_mmap_ = nullptr;
   tensor.DeleteIfPossible();
 }
 
-- 
2.43.0


From bd02ceb6953929fb02540c784cc0c64dbd14818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 57/58] fix: setting one sample of a tensor on an OpenCL device
 used the wrong number of elements

---
 src/math/TensorMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index 767a1af..3c574eb 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -363,7 +363,7 @@ void TensorMath::SETSAMPLE(Tensor& A, const int smA, const datum value)
       FATAL("Error setting kernel args: " << (signed int) error);
     }
 
-    size_t global_work_size[] = {(size_t)(smA == -1 ? A.elements() : A.width() * A.height() * A.samples())};
+    size_t global_work_size[] = {(size_t)(smA == -1 ? A.elements() : A.width() * A.height() * A.maps())};
 
     error = clEnqueueNDRangeKernel (CLHelper::queue, CLHelper::k_setValue, 1, NULL,
         global_work_size, NULL, 0, NULL, NULL);
-- 
2.43.0


From a494a7f62fc3735096bf6c56a1a43a5d6a40561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:35 +0000
Subject: [PATCH 58/58] fix: tensor operations on shadows of tensors on an
 OpenCL device used old values

---
 src/math/TensorMath.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index 3c574eb..1dfcc7d 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -378,6 +378,7 @@ void TensorMath::SETSAMPLE(Tensor& A, const int smA, const datum value)
     }
 #endif
   } else {
+    A.MoveToCPU();
 #endif
     datum* start = smA == -1 ? A.data_ptr() : A.data_ptr(0, 0, 0, smA);
     datum* end = smA == -1 ? A.data_ptr(0, 0, 0, A.samples()) : A.data_ptr(0, 0, 0, smA + 1);
@@ -429,6 +430,8 @@ void TensorMath::SMS(const Tensor& source, Tensor& target)
     }
 #endif
   } else {
+    ((Tensor&)source).MoveToCPU();
+    target.MoveToCPU(true);
 #endif
     const int width = target.width();
     const int height = target.height();
@@ -490,6 +493,8 @@ void TensorMath::DOWN(const Tensor& source, Tensor& target, const int region_wid
     }
 #endif
   } else {
+    ((Tensor&)source).MoveToCPU();
+    target.MoveToCPU(true);
 #endif
     const int target_width = target.width();
     const int target_height = target.height();
@@ -563,6 +568,8 @@ void TensorMath::UP(const Tensor& source, Tensor& target, const int region_width
     }
 #endif
   } else {
+    ((Tensor&)source).MoveToCPU();
+    target.MoveToCPU(true);
 #endif
     const int width = source.width();
     const int height = source.height();
-- 
2.43.0

