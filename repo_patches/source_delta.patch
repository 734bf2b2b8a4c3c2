From 21739596d232dada9eae0c70fdc2e3527f6738c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 01/85] fix: SplitString on blanks no longer invents a token
 for trailing blanks or an empty text

---
 src/utils_string.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index d612483..ce8f227 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -49,12 +49,9 @@ vector<string> SplitString(const string& item) {
     std::istringstream iss(item);
     vector<string> tokens;
     string field;
-    iss >> field;
-    while (!iss.eof()) {
+    while (iss >> field) {
         tokens.emplace_back(field);
-        iss >> field;
     }
-    tokens.emplace_back(field);
     return tokens;
 }
 
-- 
2.43.0


From 1ebfd0916347333476e6d71241d77a0c02783cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 02/85] fix: an empty text is not a number for IsDouble and
 IsNumber

---
 src/utils_string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index ce8f227..510f2b5 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -303,14 +303,14 @@ vuint64_t IsUInt64(const wstring& num_str, bool& success) {
 double IsDouble(const string& num_str, bool& success) {
     char* endptr = 0;
     double result = strtod(num_str.c_str(), &endptr);
-    success = endptr == num_str.c_str() + num_str.length();
+    success = !num_str.empty() && endptr == num_str.c_str() + num_str.length();
     return result;
 }
 
 double IsDouble(const wstring& num_str, bool& success) {
     wchar_t* endptr = 0;
     double result = wcstod(num_str.c_str(), &endptr);
-    success = endptr == num_str.c_str() + num_str.length();
+    success = !num_str.empty() && endptr == num_str.c_str() + num_str.length();
     return result;
 }
 } /* namespace: utils_string */
-- 
2.43.0


From fc97afd2d408e4c8a12f117ee184ccd46c0a5b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 03/85] fix: wtoa and atow overflowed an empty buffer when the
 text cannot be converted

---
 src/utils_string.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index 510f2b5..d76bb96 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -218,6 +218,7 @@ vint _wtoa(const wchar_t* w, char* a, vint chars) {
 
 string wtoa(const wstring& wstr) {
     vint len = _wtoa(wstr.c_str(), 0, 0);
+    if (len <= 0) return string(); // not convertible in the current locale
     char* buffer = new char[len];
     memset(buffer, 0, len * sizeof(*buffer));
     _wtoa(wstr.c_str(), buffer, int(len));
@@ -236,6 +237,7 @@ vint _atow(const char* a, wchar_t* w, vint chars) {
 
 wstring atow(const string& astr) {
     vint len = _atow(astr.c_str(), 0, 0);
+    if (len <= 0) return wstring(); // not convertible in the current locale
     wchar_t* buffer = new wchar_t[len];
     memset(buffer, 0, len * sizeof(*buffer));
     _atow(astr.c_str(), buffer, int(len));
-- 
2.43.0


From 8e8abe5c8c434c9daeaf3f3161cfc86177ca6b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 04/85] fix: IsIpAddress accepted further groups and
 overflowing numbers

---
 src/basic.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/basic.cpp b/src/basic.cpp
index e416444..c3ab54d 100644
--- a/src/basic.cpp
+++ b/src/basic.cpp
@@ -51,7 +51,7 @@ bool IsIpAddress(const char* ip) {
     bool rv = true;
     int tmp1, tmp2, tmp3, tmp4;
     while (true) {
-        int i = stringscanf(ip, "%d.%d.%d.%d", &tmp1, &tmp2, &tmp3, &tmp4);
+        int i = stringscanf(ip, "%9d.%9d.%9d.%9d", &tmp1, &tmp2, &tmp3, &tmp4);
         if (i != 4) {
             rv = false;
             //cout << "IP Address format is not correct!" << endl;
@@ -63,13 +63,16 @@ bool IsIpAddress(const char* ip) {
             //cout << "IP Address format is not correct!" << endl;
             break;
         }
+        int dots = 0;
         for (const char* p_char = ip; *p_char != 0; p_char++) {
+            if (*p_char == '.') dots++;
             if (*p_char != '.' && (*p_char < '0' || *p_char > '9')) {
                 rv = false;
                 //cout << "IP Address format is not correct!" << endl;
                 break;
             }
         }
+        if (dots != 3) rv = false;
         break;
     }
     return rv;
-- 
2.43.0


From 728cbce3ae19beee362e637017f58012d8cfac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 05/85] fix: DateTime::Forward and Backward ignored the amount
 to move by

---
 src/utils_time.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index bbc6692..26b349f 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -487,17 +487,17 @@ DateTime DateTime::ToUTCTime() {
 
 DateTime DateTime::Forward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime + milliseconds * 10000);
+    return FromFileTime(filetime + imilliseconds * 10000);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime + milliseconds);
+    return FromFileTime(filetime + imilliseconds);
 #endif
 }
 
 DateTime DateTime::Backward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime - milliseconds * 10000);
+    return FromFileTime(filetime - imilliseconds * 10000);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime - milliseconds);
+    return FromFileTime(filetime - imilliseconds);
 #endif
 }
 
-- 
2.43.0


From f6951a741b2a57fa477516650303b92a03dcc17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 06/85] fix: DateTime::ToLocalTime and ToUTCTime leaked their
 tm

---
 src/utils_time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index 26b349f..e6c7def 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -459,7 +459,7 @@ DateTime DateTime::ToLocalTime() {
     localtime_r(&timer, time_info);
 #endif
     DateTime dt = ConvertTMToDateTime(time_info, milliseconds);
-    //delete &time_info;
+    delete time_info;
     return dt;
 #endif
 }
@@ -480,7 +480,7 @@ DateTime DateTime::ToUTCTime() {
 #endif
 
     DateTime dt = ConvertTMToDateTime(time_info, milliseconds);
-    //delete &time_info;
+    delete time_info;
     return dt;
 #endif
 }
-- 
2.43.0


From 7d03e496f8f9fc54bf30062eac6c2599795f858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 07/85] fix: GetCoreFileName and GetSuffix took dots of
 directories for the file's suffix

---
 src/utils_filesystem.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index abb769a..cdcf6e7 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -302,19 +302,19 @@ string GetCoreFileName(string const& full_filename) {
         start += 1;
     }
     string::size_type end = abspath.find_last_of('.');
-    if (end == string::npos) {
-        end = abspath.length();
+    if (end == string::npos || end < start || end + 1 == abspath.length()) {
+        end = abspath.length(); // dots of the directories and trailing dots do not start a suffix
     }
     return abspath.substr(start, end - start);
 }
 
 string GetSuffix(string const& full_filename) {
     string abspath = GetAbsolutePath(full_filename);
-    vector<string> tokens = utils_string::SplitString(abspath, '.');
-    if (tokens.size() >= 2) {
-        return tokens[tokens.size() - 1];
-    }
-    return "";
+    string::size_type dot = abspath.find_last_of('.');
+    if (dot == string::npos) { return ""; }
+    string::size_type sep = abspath.find_last_of(SEP);
+    if (sep != string::npos && dot < sep) { return ""; } // the dot belongs to a directory
+    return abspath.substr(dot + 1);
 }
 
 string ReplaceSuffix(string const& full_filename, string const& new_suffix) {
-- 
2.43.0


From 33a1f62b9ee9d82f253167bedadf936b71c4ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 08/85] fix: FindFiles returned directories and files with
 parts of the extension asked for

---
 src/utils_filesystem.cpp | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index cdcf6e7..fe046cb 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -62,6 +62,25 @@ int DeleteExistedFile(const string& filepath) {
     return -1;
 }
 
+#ifndef WINDOWS
+/*!
+ * \brief Check whether a suffix is among the ones of an expression, e.g., "tif", ".tif", "*.tif", and "*.tif;*.asc"
+ */
+static bool SuffixRequested(string const& suffix, string const& expression) {
+    if (expression == ".*" || expression == "*.*") { return true; }
+    if (suffix.empty()) { return false; }
+    const char* separators = "*.;,| ";
+    string::size_type start = expression.find_first_not_of(separators);
+    while (start != string::npos) {
+        string::size_type end = expression.find_first_of(separators, start);
+        string requested = end == string::npos ? expression.substr(start) : expression.substr(start, end - start);
+        if (utils_string::StringMatch(suffix, requested)) { return true; }
+        start = end == string::npos ? end : expression.find_first_not_of(separators, end);
+    }
+    return false;
+}
+#endif /* not WINDOWS */
+
 int FindFiles(const char* lp_path, const char* expression, vector<string>& vec_files) {
     string abspath = GetAbsolutePath(lp_path);
     const char* newlp_path = abspath.c_str();
@@ -101,17 +120,13 @@ int FindFiles(const char* lp_path, const char* expression, vector<string>& vec_f
             if (h_file->d_name[0] == '.') continue;
 
             string filename(h_file->d_name);
-            // cout << filename<<endl;
-            string ext = GetSuffix(filename);
-            // cout << ext << "\t" << expression << endl;
-            string strexpression = string(expression);
-            if (utils_string::StringMatch(ext.c_str(), expression) || strexpression.find(ext) != string::npos
-                || utils_string::StringMatch(expression, ".*")
-                || utils_string::StringMatch(expression, "*.*")) {
-                std::ostringstream oss;
-                oss << newlp_path << SEP << filename;
-                cout << oss.str() << endl;
-                vec_files.emplace_back(oss.str());
+            string fullpath = string(newlp_path) + SEP + filename;
+            if (DirectoryExists(fullpath)) continue; // only files are searched
+            string::size_type dot = filename.find_last_of('.');
+            string ext = dot == string::npos ? "" : filename.substr(dot + 1);
+            if (SuffixRequested(ext, expression)) {
+                cout << fullpath << endl;
+                vec_files.emplace_back(fullpath);
             }
         }
         closedir(dir);
-- 
2.43.0


From 9f485efe64c5d9c8538628c2c73020d48dbac2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 09/85] fix: DeleteDirectory removed empty subdirectories
 although told to keep them

---
 src/utils_filesystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index fe046cb..e2ab96c 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -248,7 +248,8 @@ bool DeleteDirectory(const string& dirpath, bool del_subdirs/* = true */) {
     while ((entry = readdir(dir)) != nullptr) {
         if (strcmp(entry->d_name, ".") && strcmp(entry->d_name, "..")) {
             snprintf(path, (size_t) PATH_MAX, "%s/%s", abspath.c_str(), entry->d_name);
-            if (entry->d_type == DT_DIR && del_subdirs) {
+            if (entry->d_type == DT_DIR) {
+                if (!del_subdirs) { continue; }
                 DeleteDirectory(path, del_subdirs);
             }
             printf("Deleting: %s\n", path);
-- 
2.43.0


From f5c314aa2584d4f34d59bfce74bcd47a29b8cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 10/85] fix: LoadPlainTextFile looped forever on a directory

---
 src/utils_filesystem.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index e2ab96c..656d6b9 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -394,18 +394,14 @@ bool LoadPlainTextFile(const string& filepath, vector<string>& content_strs) {
         // open the file
         myfile.open(abspath.c_str(), std::ios::in);
         if (myfile.is_open()) {
-            while (!myfile.eof()) {
-                if (myfile.good()) {
-                    getline(myfile, line);
-                    line = utils_string::Trim(line);
-                    if (!line.empty() && line[0] != '#') {
-                        // ignore comments and empty lines
-                        content_strs.emplace_back(line);
-                        b_status = true; // consider this a success
-                    }
+            while (getline(myfile, line)) {
+                line = utils_string::Trim(line);
+                if (!line.empty() && line[0] != '#') {
+                    // ignore comments and empty lines
+                    content_strs.emplace_back(line);
                 }
             }
-            b_status = true;
+            b_status = !myfile.bad(); // e.g., a directory can be opened but not be read
             myfile.close();
             vector<string>(content_strs).swap(content_strs);
             // content_strs.shrink_to_fit();
-- 
2.43.0


From 9a6eb0ec66230958a29e210be95440c836096b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 11/85] fix: array initialisers left broken arrays behind for
 empty shapes, missing sources, and failed allocations

---
 src/utils_array.h | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index f0027af..0812302 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -360,16 +360,20 @@ bool Initialize1DArray(const int row, T*& data, INI_T* const init_data) {
         cout << "The input 1D array pointer is not nullptr. No initialization performed!" << endl;
         return false;
     }
-    data = new(nothrow) T[row];
-    if (nullptr == data) {
-        delete[] data;
-        cout << "Bad memory allocated during 1D array initialization!" << endl;
+    if (row <= 0) {
+        cout << "The data length MUST be greater than 0!" << endl;
         return false;
     }
     if (nullptr == init_data) {
         cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
         return false;
     }
+    data = new(nothrow) T[row];
+    if (nullptr == data) {
+        delete[] data;
+        cout << "Bad memory allocated during 1D array initialization!" << endl;
+        return false;
+    }
 #pragma omp parallel for
     for (int i = 0; i < row; i++) {
         data[i] = static_cast<T>(init_data[i]);
@@ -384,6 +388,10 @@ bool Initialize2DArray(const int row, const int col, T**& data,
         cout << "The input 2D array pointer is not nullptr. No initialization performed!" << endl;
         return false;
     }
+    if (row <= 0 || col <= 0) {
+        cout << "The rows and columns MUST be greater than 0!" << endl;
+        return false;
+    }
     data = new(nothrow) T*[row];
     if (nullptr == data) {
         delete[] data;
@@ -393,7 +401,8 @@ bool Initialize2DArray(const int row, const int col, T**& data,
     T* pool = nullptr;
     pool = new(nothrow) T[row * col];
     if (nullptr == pool) {
-        delete[] pool;
+        delete[] data;
+        data = nullptr;
         cout << "Bad memory allocated during initialize data pool of the 2D array!" << endl;
         return false;
     }
@@ -413,6 +422,14 @@ bool Initialize2DArray(const int row, const int col, T**& data,
 template <typename T, typename INI_T>
 bool Initialize2DArray(const int row, const int col, T**& data,
                        INI_T** const init_data) {
+    if (nullptr == init_data) {
+        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
+        return false;
+    }
+    if (row <= 0 || col <= 0) {
+        cout << "The rows and columns MUST be greater than 0!" << endl;
+        return false;
+    }
     bool flag = Initialize2DArray(row, col, data, init_data[0][0]);
     if (!flag) { return false; }
 #pragma omp parallel for
@@ -428,6 +445,11 @@ template <typename T1, typename T2>
 bool Initialize2DArray(T1* init_data, int& rows, int& max_cols, T2**& data) {
     int idx = 0;
     rows = CVT_INT(init_data[idx++]);
+    if (rows <= 0) {
+        cout << "The rows MUST be greater than 0!" << endl;
+        data = nullptr;
+        return false;
+    }
     data = new(nothrow) T2* [rows];
     if (nullptr == data) {
         delete[] data;
@@ -445,7 +467,12 @@ bool Initialize2DArray(T1* init_data, int& rows, int& max_cols, T2**& data) {
     }
     int length = idx - 1;
     // New a 1d array to store data
-    Initialize1DArray(length, pool, init_data + 1);
+    if (!Initialize1DArray(length, pool, init_data + 1)) {
+        delete[] cols;
+        delete[] data;
+        data = nullptr;
+        return false;
+    }
     // Now point the row pointers to the appropriate positions in the data pool
     int pos = 0;
     for (int i = 0; i < rows; ++i) {
-- 
2.43.0


From c2ee3662b2f86799214f0fa0b55244d35cef49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 12/85] fix: BatchRelease2DArray could not be instantiated

---
 src/utils_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 0812302..e59d634 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -518,10 +518,10 @@ template <typename T>
 void BatchRelease2DArray(const int nrows, T**& data, ...) {
     va_list arg_ptr;
     va_start(arg_ptr, data);
-    Release2DArray(nrows, data);
+    Release2DArray(data);
     T** arg_value = va_arg(arg_ptr, T**);
     while (nullptr != arg_value) {
-        Release2DArray(nrows, arg_value);
+        Release2DArray(arg_value);
         arg_value = va_arg(arg_ptr, T**);
     }
     va_end(arg_ptr);
-- 
2.43.0


From 0733600d6717807cb1b3386da3f78db6b1d5ee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 13/85] fix: Array2D dereferenced empty and moved-from sources
 and mishandled failed allocations

---
 src/utils_array.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index e59d634..2c8d761 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -237,6 +237,7 @@ class Array2D {
         try {
             ptr = new(nothrow) T*[nrows];  // allocate pointers (Do not throw here)
             pool = new(nothrow) T[nrows*ncols];  // allocate pool (Do not throw here)
+            if (nullptr == ptr || nullptr == pool) { throw std::bad_alloc(); }
             for (vuint32_t i = 0; i < nrows * ncols; i++) {
                 pool[i] = val;
             }
@@ -245,9 +246,10 @@ class Array2D {
                 ptr[i] = pool;
             }
             return ptr;
-        } catch (std::bad_alloc& ex) {
+        } catch (std::bad_alloc&) {
             delete[] ptr; // either this is nullptr or it was allocated
-            // throw ex;  // memory allocation error
+            delete[] pool;
+            throw;
         }
     }
 
@@ -279,7 +281,8 @@ public:
         }
     }
 
-    Array2D(const Array2D& rhs) : m_rows(rhs.m_rows), m_cols(rhs.m_cols) {
+    Array2D(const Array2D& rhs) : data_ptr(nullptr), m_rows(rhs.m_rows), m_cols(rhs.m_cols) {
+        if (nullptr == rhs.data_ptr) { return; } // nothing to copy
         data_ptr = create2DArray(m_rows, m_cols);
         std::copy(&rhs.data_ptr[0][0], &rhs.data_ptr[m_rows - 1][m_cols], &data_ptr[0][0]);
     }
@@ -289,6 +292,8 @@ public:
         m_rows = rhs.m_rows;
         m_cols = rhs.m_cols;
         rhs.data_ptr = nullptr;
+        rhs.m_rows = 0;
+        rhs.m_cols = 0;
     }
 
     Array2D& operator=(Array2D&& rhs) NOEXCEPT {
-- 
2.43.0


From ab1cd8002f66c89a4549d3800977842fd9f8e3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 14/85] fix: raster constructors taking the spatial reference
 as text left the raster uninitialised

---
 src/data_raster.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6d9218c..b84c146 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2078,10 +2078,9 @@ clsRasterData<T, MASK_T>::clsRasterData(bool is_2d /* = false */) {
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T* data, int cols, int rows, T nodata,
                                         double dx, double xll, double yll,
-                                        const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data, cols, rows, nodata, dx, xll, yll, opts);
+                                        const string& srs) :
+    clsRasterData(data, cols, rows, nodata, dx, xll, yll, InitialStrHeader()) {
+    UpdateStrHeader(options_, HEADER_RS_SRS, srs);
 }
 
 template <typename T, typename MASK_T>
@@ -2108,10 +2107,9 @@ clsRasterData<T, MASK_T>::clsRasterData(T* data, const int cols, const int rows,
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T** data2d, const int cols, const int rows, const int nlayers,
                                         T nodata, const double dx, const double xll, const double yll,
-                                        const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data2d, cols, rows, nlayers, nodata, dx, xll, yll, opts);
+                                        const string& srs) :
+    clsRasterData(data2d, cols, rows, nlayers, nodata, dx, xll, yll, InitialStrHeader()) {
+    UpdateStrHeader(options_, HEADER_RS_SRS, srs);
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 35ba950418c27669c652fdcb3c37164a1f7564aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 15/85] fix: rasters built on a mask were read as if they
 stored all cells

---
 src/data_raster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index b84c146..7aac3e9 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2209,7 +2209,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T* const va
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(false);
     rs_type_out_ = RasterDataTypeInOptionals(opts);
-    calc_pos_ = false;
+    calc_pos_ = true; // only the valid cells of the mask are stored
     mask_ = mask;
     use_mask_ext_ = true;
     n_lyrs_ = 1;
@@ -2232,7 +2232,7 @@ template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const values, const int len,
                                         const int lyrs, const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(true);
-    calc_pos_ = false;
+    calc_pos_ = true; // only the valid cells of the mask are stored
     mask_ = mask;
     use_mask_ext_ = true;
     n_lyrs_ = lyrs;
-- 
2.43.0


From 6060a851789954f26f3d5523fcb8fb27bb617f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 16/85] fix: Reclassify kept values missing in the table

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 7aac3e9..3c34029 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3750,7 +3750,7 @@ void clsRasterData<T, MASK_T>::Reclassify(const map<int, T> reclass_map) {
             T curv = is_2draster && nullptr != raster_2d_
                          ? CVT_INT(raster_2d_[i][lyr])
                          : CVT_INT(raster_[i]);
-            if (recls.count(curv) < 0) {
+            if (recls.count(curv) < 1) {
 #ifdef HAS_VARIADIC_TEMPLATES
                 recls.emplace(curv, no_data_value_);
 #else
-- 
2.43.0


From 9480183bd8d1f7197015281ef0d9e1d00825aba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 17/85] fix: statistics of all layers were never returned

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 3c34029..46598c4 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2513,7 +2513,7 @@ double clsRasterData<T, MASK_T>::GetStatistics(string sindex, const int lyr /* =
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::GetStatistics(string sindex, int* lyrnum, double** values) {
-    if (!is_2draster || nullptr != raster_2d_) {
+    if (!is_2draster || nullptr == raster_2d_) {
         StatusMessage("Please initialize the raster object first.");
         *values = nullptr;
         return;
-- 
2.43.0


From dc2af2a796cd2c6713411302611ff147f66653bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 18/85] fix: statistics could not be asked for once they had
 been released

---
 src/data_raster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 46598c4..74dc732 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2467,9 +2467,10 @@ void clsRasterData<T, MASK_T>::ReleaseStatsMap2D() {
     for (auto it = stats_2d_.begin(); it != stats_2d_.end(); ++it) {
         if (nullptr != it->second) {
             Release1DArray(it->second);
+            it->second = nullptr;
         }
     }
-    stats_2d_.clear();
+    stats_calculated_ = false;
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From a49427349a3934bb3418777c31d2d6d3da9a4f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 19/85] fix: maximum and minimum of values beyond the range of
 float

---
 src/utils_math.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils_math.h b/src/utils_math.h
index b6885ba..5c4d97b 100644
--- a/src/utils_math.h
+++ b/src/utils_math.h
@@ -389,8 +389,8 @@ void BasicStatistics(const T* values, const int num, double** derivedvalues,
     double std = 0.;
     for (int i = 0; i < num; i++) {
         if (FloatEqual(values[i], exclude)) continue;
-        if (maxv < values[i]) maxv = values[i];
-        if (minv > values[i]) minv = values[i];
+        if (validnum == 0 || maxv < values[i]) maxv = values[i];
+        if (validnum == 0 || minv > values[i]) minv = values[i];
         validnum += 1;
         sumv += values[i];
     }
@@ -431,8 +431,9 @@ void BasicStatistics(const T*const * values, const int num, const int lyrs,
     for (int i = 0; i < num; i++) {
         for (int j = 0; j < lyrs; j++) {
             if (FloatEqual(values[i][j], exclude)) continue;
-            if (tmpstats[2][j] < values[i][j]) tmpstats[2][j] = values[i][j];
-            if (tmpstats[3][j] > values[i][j]) tmpstats[3][j] = values[i][j];
+            bool first = tmpstats[0][j] < 1.;
+            if (first || tmpstats[2][j] < values[i][j]) tmpstats[2][j] = values[i][j];
+            if (first || tmpstats[3][j] > values[i][j]) tmpstats[3][j] = values[i][j];
             tmpstats[0][j] += 1;
             sumv[j] += values[i][j];
         }
-- 
2.43.0


From f67665bb9f14253585ee0395da68eca5484a3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 20/85] fix: points in the western and southern half cells, or
 on the edges, had no or a wrong position

---
 src/data_raster.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 74dc732..3932a7a 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2606,6 +2606,9 @@ int clsRasterData<T, MASK_T>::GetPosition(const double x, const double y) {
 
     int n_row = CVT_INT((y_max - y) / dy); //calculate from ymax
     int n_col = CVT_INT((x - x_min) / dx); //calculate from xmin
+    // the southern and eastern edges belong to the last row and column
+    if (n_row >= n_rows) { n_row = n_rows - 1; }
+    if (n_col >= n_cols) { n_col = n_cols - 1; }
 
     return GetPosition(n_row, n_col);
 }
@@ -3791,10 +3794,13 @@ ROW_COL clsRasterData<T, MASK_T>::GetPositionByCoordinate(const double x, const
 
     double y_min = yll_center - dy / 2.;
     double y_max = y_min + dy * n_rows;
-    if ((x > x_max || x < xll_center) || (y > y_max || y < yll_center)) {
+    if ((x > x_max || x < x_min) || (y > y_max || y < y_min)) {
         return ROW_COL(-1, -1);
     }
-    return ROW_COL(CVT_INT((y_max - y) / dy), CVT_INT((x - x_min) / dx));
+    int row = CVT_INT((y_max - y) / dy);
+    int col = CVT_INT((x - x_min) / dx);
+    // the southern and eastern edges belong to the last row and column
+    return ROW_COL(row < n_rows ? row : n_rows - 1, col < n_cols ? col : n_cols - 1);
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 4e509ca15ec75b2ec602e85d615dc4d3b4e4029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 21/85] fix: copying over a raster freed the positions of its
 mask and kept its former kind and options

---
 src/data_raster.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 3932a7a..1edece7 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3647,6 +3647,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<T, MASK_T>* another) {
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
+    if (orgraster == this) { return; }
     // Release current data
     if (is_2draster && nullptr != raster_2d_ && n_cells_ > 0) {
         Release2DArray(raster_2d_);
@@ -3654,12 +3655,16 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     if (!is_2draster && nullptr != raster_) {
         Release1DArray(raster_);
     }
-    if (nullptr != pos_data_) {
+    if (nullptr != pos_data_ && store_pos_) {
         Release2DArray(pos_data_);
     }
-    if (nullptr != pos_idx_) {
+    if (nullptr != pos_idx_ && store_pos_) {
         Release1DArray(pos_idx_);
     }
+    pos_data_ = nullptr; // may belong to the mask
+    pos_idx_ = nullptr;
+    store_pos_ = false;
+    options_.clear();
     if (stats_calculated_) {
         ReleaseStatsMap2D();
         stats_calculated_ = false;
@@ -3676,8 +3681,8 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     rs_type_ = orgraster->GetDataType();
     rs_type_out_ = orgraster->GetOutDataType();
     no_data_value_ = orgraster->GetNoDataValue();
-    if (orgraster->Is2DRaster()) {
-        is_2draster = true;
+    is_2draster = orgraster->Is2DRaster();
+    if (is_2draster) {
         Initialize2DArray(n_cells_, n_lyrs_, raster_2d_,
                           orgraster->Get2DRasterDataPointer());
     } else {
-- 
2.43.0


From 595307d6d638048e63c02e4e7e422c96032c77e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 22/85] fix: values of a shallow copied subset were freed twice

---
 src/data_raster.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index d9b6bb0..4a2cc05 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -262,8 +262,9 @@ SubsetPositions::SubsetPositions(SubsetPositions*& src, const bool deep_copy) {
         global_ = src->global_;
         local_pos_ = src->local_pos_;
         local_posidx_ = src->local_posidx_;
-        if (nullptr != src->data_) { data_ = src->data_; }
-        if (nullptr != src->data2d_) { data2d_ = src->data2d_; }
+        // values are always owned, see the destructor
+        if (nullptr != src->data_) { Initialize1DArray(n_cells, data_, src->data_); }
+        if (nullptr != src->data2d_) { Initialize2DArray(n_cells, n_lyrs, data2d_, src->data2d_); }
     }
 }
 
-- 
2.43.0


From c6462f613c68597ff8ca96e6eaae0b46553cecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 23/85] fix: GetSrs returned the text of a destroyed string

---
 src/data_raster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 1edece7..210d697 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2677,7 +2677,8 @@ void clsRasterData<T, MASK_T>::GetRasterPositionData(int* datalength, int** posi
 
 template <typename T, typename MASK_T>
 const char* clsRasterData<T, MASK_T>::GetSrs() {
-    return GetSrsString().c_str();
+    auto it = options_.find(HEADER_RS_SRS);
+    return it != options_.end() ? it->second.c_str() : "";
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 41cbd6b4746e78ec41f8433186f334d096eed5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 24/85] fix: reading malformed ASC grids wrote outside the
 array, accepted too few values or leaked them

---
 src/data_raster.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 210d697..77445fe 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -228,7 +228,7 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
     bool yllcorner = false;
     int rows = -1;
     int cols = -1;
-    int vidx = 0;
+    vector<T> cell_values;
     for (auto iter = content_strs.begin(); iter != content_strs.end(); ++iter) {
         vector<string> tokens = SplitString(*iter);
         if (tokens.empty()) { continue; }
@@ -271,20 +271,13 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
             if (rows < 0 || cols < 0) {
                 StatusMessage("Warning: NCOLS and NROWS should be defined first!");
             }
-            if (nullptr == values) { Initialize1DArray(rows * cols, values, nodata); }
             for (auto it_value = tokens.begin(); it_value != tokens.end(); ++it_value) {
                 double tmpv = IsDouble(*it_value, str2value);
                 if (!str2value) {
                     StatusMessage("Error: No value occurred in Raster data matrix!");
-                    if (nullptr != values) { Release1DArray(values); }
                     return false;
                 }
-                if (vidx == rows * cols) {
-                    StatusMessage("Error: Count of values MUST equal to rows * cols!");
-                    if (nullptr != values) { Release1DArray(values); }
-                    return false;
-                }
-                values[vidx++] = static_cast<T>(tmpv);
+                cell_values.emplace_back(static_cast<T>(tmpv));
             }
         }
     }
@@ -293,6 +286,13 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
         StatusMessage("Error: Header information incomplete!");
         return false;
     }
+    if (cell_values.empty() || CVT_DBL(rows) * cols != CVT_DBL(cell_values.size())) {
+        StatusMessage("Error: Count of values MUST equal to rows * cols!");
+        return false;
+    }
+    if (nullptr != values) { Release1DArray(values); }
+    Initialize1DArray(rows * cols, values, &cell_values[0]);
+    if (nullptr == values) { return false; }
     // default is center, if corner, then:
     if (xllcorner) { xll += 0.5 * cellsize; }
     if (yllcorner) { yll += 0.5 * cellsize; }
-- 
2.43.0


From b099fc421ad9bd5a5adb572f6f0e68a4ff077d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 25/85] fix: nodata cells of compact layered rasters got
 another value than the nodata of the ASC header

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 77445fe..d75c5b7 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3176,7 +3176,7 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
                     if (index < n_cells_ && (position[index][0] == i && position[index][1] == j)) {
                         raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
                         index++;
-                    } else { raster_file << setprecision(6) << NODATA_VALUE << " "; }
+                    } else { raster_file << setprecision(6) << no_data_value_ << " "; }
                 }
                 raster_file << endl;
             }
-- 
2.43.0


From 2e1880e495ee340f0246f278c85425ef813afced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 26/85] fix: coordinates in ASC headers were rounded to six
 digits

---
 src/data_raster.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 4a2cc05..0779d2e 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -196,6 +196,7 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     }
     int rows = CVT_INT(header.at(HEADER_RS_NROWS));
     int cols = CVT_INT(header.at(HEADER_RS_NCOLS));
+    raster_file << setprecision(15); // six digits are not enough for projected coordinates
     raster_file << HEADER_RS_NCOLS << " " << cols << endl;
     raster_file << HEADER_RS_NROWS << " " << rows << endl;
     raster_file << HEADER_RS_XLL << " " << header.at(HEADER_RS_XLL) << endl;
-- 
2.43.0


From b383c4fcc3ceb11265c9fd0b8d6d1c9f90cd3331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 27/85] fix: ASC export wrote byte values as characters and
 lost nodata cells when nodata needs more than six digits

---
 src/data_raster.cpp |  2 +-
 src/data_raster.hpp | 27 +++++++++++++++++++--------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 0779d2e..1947ddc 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -202,7 +202,7 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     raster_file << HEADER_RS_XLL << " " << header.at(HEADER_RS_XLL) << endl;
     raster_file << HEADER_RS_YLL << " " << header.at(HEADER_RS_YLL) << endl;
     raster_file << HEADER_RS_CELLSIZE << " " << header.at(HEADER_RS_CELLSIZE) << endl;
-    raster_file << HEADER_RS_NODATA << " " << setprecision(6) << header.at(HEADER_RS_NODATA) << endl;
+    raster_file << HEADER_RS_NODATA << " " << setprecision(17) << header.at(HEADER_RS_NODATA) << endl;
     raster_file.close();
     return true;
 }
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d75c5b7..6c93c0e 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -315,6 +315,15 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
  */
 bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header);
 
+/*!
+ * \brief Write one cell value into an ASC file, NoData exactly as in the header. Characters are written as numbers.
+ */
+template <typename T>
+void WriteAscValue(std::ofstream& raster_file, const T value, const double nodata) {
+    if (FloatEqual(CVT_DBL(value), nodata)) { raster_file << setprecision(17) << nodata << " "; }
+    else { raster_file << setprecision(6) << +value << " "; }
+}
+
 /*!
  * \brief Write raster data as a single ASC file. If the file exists, delete it first.
  * \param[in] filename ASC full file path
@@ -334,9 +343,10 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     }
     int rows = CVT_INT(header.at(HEADER_RS_NROWS));
     int cols = CVT_INT(header.at(HEADER_RS_NCOLS));
+    double nodata = header.at(HEADER_RS_NODATA);
     for (int i = 0; i < rows; i++) {
         for (int j = 0; j < cols; j++) {
-            raster_file << setprecision(6) << values[i * cols + j] << " ";
+            WriteAscValue(raster_file, values[i * cols + j], nodata);
         }
         raster_file << endl;
     }
@@ -3154,6 +3164,7 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
     // Begin to write raster data
     int rows = CVT_INT(headers_.at(HEADER_RS_NROWS));
     int cols = CVT_INT(headers_.at(HEADER_RS_NCOLS));
+    double nodata = headers_.at(HEADER_RS_NODATA);
     if (is_2draster) { // 3.1 2D raster data
         string pre_path = GetPathFromFullName(abs_filename);
         if (StringMatch(pre_path, "")) { return false; }
@@ -3170,13 +3181,13 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
                 for (int j = 0; j < cols; ++j) {
                     if (outputdirectly) {
                         index = i * cols + j;
-                        raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
+                        WriteAscValue(raster_file, raster_2d_[index][lyr], nodata);
                         continue;
                     }
                     if (index < n_cells_ && (position[index][0] == i && position[index][1] == j)) {
-                        raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
+                        WriteAscValue(raster_file, raster_2d_[index][lyr], nodata);
                         index++;
-                    } else { raster_file << setprecision(6) << no_data_value_ << " "; }
+                    } else { WriteAscValue(raster_file, no_data_value_, nodata); }
                 }
                 raster_file << endl;
             }
@@ -3194,15 +3205,15 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
             for (int j = 0; j < cols; ++j) {
                 if (outputdirectly) {
                     index = i * cols + j;
-                    raster_file << setprecision(6) << raster_[index] << " ";
+                    WriteAscValue(raster_file, raster_[index], nodata);
                     continue;
                 }
                 if (index < n_cells_) {
                     if (position[index][0] == i && position[index][1] == j) {
-                        raster_file << setprecision(6) << raster_[index] << " ";
+                        WriteAscValue(raster_file, raster_[index], nodata);
                         index++;
-                    } else { raster_file << setprecision(6) << no_data_value_ << " "; }
-                } else { raster_file << setprecision(6) << no_data_value_ << " "; }
+                    } else { WriteAscValue(raster_file, no_data_value_, nodata); }
+                } else { WriteAscValue(raster_file, no_data_value_, nodata); }
             }
             raster_file << endl;
         }
-- 
2.43.0


From 1e28f290cddf566592f08ac55e1008722421c36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 28/85] fix: two-dimensional arrays of more than 2^31 (2^32)
 elements got a too small data pool

---
 src/utils_array.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 2c8d761..07a123c 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -236,9 +236,10 @@ class Array2D {
         T* pool = nullptr;
         try {
             ptr = new(nothrow) T*[nrows];  // allocate pointers (Do not throw here)
-            pool = new(nothrow) T[nrows*ncols];  // allocate pool (Do not throw here)
+            const size_t n = static_cast<size_t>(nrows) * ncols; // the product may exceed 32 bits
+            pool = new(nothrow) T[n];  // allocate pool (Do not throw here)
             if (nullptr == ptr || nullptr == pool) { throw std::bad_alloc(); }
-            for (vuint32_t i = 0; i < nrows * ncols; i++) {
+            for (size_t i = 0; i < n; i++) {
                 pool[i] = val;
             }
             // now point the row pointers to the appropriate positions in the memory pool
@@ -404,7 +405,8 @@ bool Initialize2DArray(const int row, const int col, T**& data,
         return false;
     }
     T* pool = nullptr;
-    pool = new(nothrow) T[row * col];
+    const vint64_t n = static_cast<vint64_t>(row) * col; // the product may exceed the range of int
+    pool = new(nothrow) T[n];
     if (nullptr == pool) {
         delete[] data;
         data = nullptr;
@@ -414,7 +416,7 @@ bool Initialize2DArray(const int row, const int col, T**& data,
     // Initialize the data pool
     T init = static_cast<T>(init_value);
 #pragma omp parallel for
-    for (int i = 0; i < row * col; i++) {
+    for (vint64_t i = 0; i < n; i++) {
         pool[i] = init;
     }
     // Now point the row pointers to the appropriate positions in the data pool
-- 
2.43.0


From 765bddc91c1e2cfb055d2f5754641b8c2c4ded52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 29/85] fix: irregular arrays with a negative column count were
 created with overlapping rows

---
 src/utils_array.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils_array.h b/src/utils_array.h
index 07a123c..31c505a 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -469,6 +469,13 @@ bool Initialize2DArray(T1* init_data, int& rows, int& max_cols, T2**& data) {
     max_cols = -1;
     for (int i = 0; i < rows; i++) {
         cols[i] = CVT_INT(init_data[idx]);
+        if (cols[i] < 0) {
+            cout << "The columns MUST NOT be less than 0!" << endl;
+            delete[] cols;
+            delete[] data;
+            data = nullptr;
+            return false;
+        }
         idx += cols[i] + 1;
         if (cols[i] > max_cols) { max_cols = cols[i]; }
     }
-- 
2.43.0


From 46aab9ba9f05c79381a85a8040abf960bd3010fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 30/85] fix: ApprExp returned negative or much too small values
 beyond e^43

---
 src/utils_math.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/utils_math.h b/src/utils_math.h
index 5c4d97b..455599f 100644
--- a/src/utils_math.h
+++ b/src/utils_math.h
@@ -265,13 +265,11 @@ static inline T __p_exp_ln2(const T x) {
  */
 template <typename T>
 static inline T __p_exp_pos(const T x) {
-    long int k, twok;
     static const T ln2 = static_cast<T>(M_LN2);
-    T x_;
-    k = x / ln2;
-    twok = 1ULL << k;
-    x_ = x - static_cast<T>(k) * ln2;
-    return static_cast<T>(twok) * __p_exp_ln2(x_);
+    if (!(x < static_cast<T>(10000.))) return std::exp(x); // beyond any range, or not a number
+    int k = static_cast<int>(x / ln2);
+    T x_ = x - static_cast<T>(k) * ln2;
+    return std::ldexp(__p_exp_ln2(x_), k); // 2^k does not fit an integer when k exceeds 62
 }
 
 template <typename T>
-- 
2.43.0


From bd11874ab0320825ba4ecc38fa8a6d3b0ca16fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 31/85] fix: masking a masked raster again freed the positions
 of the mask

---
 src/data_raster.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6c93c0e..fc35dcd 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4126,10 +4126,12 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         vector<int>(pos_rows).swap(pos_rows);
         vector<int>(pos_cols).swap(pos_cols);
 
+        if (nullptr != pos_data_ && store_pos_) { Release2DArray(pos_data_); }
+        if (nullptr != pos_idx_ && store_pos_) { Release1DArray(pos_idx_); }
+        pos_data_ = nullptr; // may belong to the mask
+        pos_idx_ = nullptr;
         store_pos_ = true;
         n_cells_ = CVT_INT(values.size());
-        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
-        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
         Initialize2DArray(n_cells_, 2, pos_data_, 0);
         Initialize1DArray(n_cells_, pos_idx_, 0);
         for (size_t k = 0; k < pos_rows.size(); ++k) {
@@ -4142,8 +4144,10 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             }
         }
     } else {
-        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
-        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
+        if (nullptr != pos_data_ && store_pos_) { Release2DArray(pos_data_); }
+        if (nullptr != pos_idx_ && store_pos_) { Release1DArray(pos_idx_); }
+        pos_data_ = nullptr; // may belong to the mask
+        pos_idx_ = nullptr;
         if (calc_pos_) {
             mask_->GetRasterPositionData(&n_cells_, &pos_data_);
             mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
-- 
2.43.0


From ddd01e2ee3de0afec61e3b8ca9379d10fba97c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 32/85] fix: valid cells moved when the extent of the mask was
 requested and its first rows or columns had no value

---
 src/data_raster.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index fc35dcd..880c950 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4094,6 +4094,12 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
 
     // ReCalculate valid position
     if (recalc_pos) {
+        if (!upd_header_rowcol) { // keep the extent of mask
+            min_row = 0;
+            min_col = 0;
+            max_row = mask_rows - 1;
+            max_col = mask_cols - 1;
+        }
         // clean redundant values (i.e., NODATA)
         auto rit = pos_rows.begin();
         auto cit = pos_cols.begin();
-- 
2.43.0


From f929503124583db1e486fa770f232ef5a13dbec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 33/85] fix: masking wrote default values to the source, which
 counted as valid later and went to a wrong layer

---
 src/data_raster.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 880c950..06d422c 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3950,7 +3950,6 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         if (FloatEqual(tmp_value, no_data_value_)) {
             if (!FloatEqual(default_value_, no_data_value_)) {
                 tmp_value = static_cast<T>(default_value_);
-                SetValue(tmp_pos.first, tmp_pos.second, tmp_value);
             }
         } else { // the intersect extents dependent on the valid raster values
             matched_count++;
@@ -3966,7 +3965,6 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                 if (FloatEqual(tmp_values[lyr - 1], no_data_value_)
                     && !FloatEqual(default_value_, no_data_value_)) {
                     tmp_values[lyr - 1] = static_cast<T>(default_value_);
-                    SetValue(tmp_pos.first, tmp_pos.second, tmp_values[lyr - 1], lyr - 1);
                 }
             }
             values_2d[i] = tmp_values;
-- 
2.43.0


From 5355c048d12eef0beea8e9e6d7c42727e428fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 34/85] fix: rasters whose valid extent has the size of the
 source were not masked

---
 src/data_raster.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 06d422c..99750e5 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3892,7 +3892,6 @@ void clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
 
 template <typename T, typename MASK_T>
 int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
-    int old_fullsize = GetRows() * GetCols();
     if (nullptr == mask_) {
         if (calc_pos_) {
             if (nullptr == pos_data_ || nullptr == pos_idx_) {
@@ -3901,7 +3900,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             }
             return 0;
         }
-        n_cells_ = old_fullsize;
+        n_cells_ = GetRows() * GetCols();
         UpdateHeader(headers_, HEADER_RS_CELLSNUM, n_cells_);
         // do nothing
         return 0;
@@ -4167,11 +4166,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     if (store_fullsize) {
         n_cells_ = ncols * nrows;
     }
-    bool release_origin = true;
-    if (store_fullsize && old_fullsize == n_cells_) {
-        release_origin = false;
-    }
-    if (release_origin) {
+    {
         if (is_2draster && nullptr != raster_2d_) { // multiple layers
             Release2DArray(raster_2d_);
             Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
-- 
2.43.0


From fa3cdbc1557c02cd33ad62032ffa8faaf0b28654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 35/85] fix: cells of the mask outside the raster did not get
 the given default value

---
 src/data_raster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 99750e5..93258bb 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3935,9 +3935,10 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         T tmp_value;
         if (tmp_pos.first == -1 || tmp_pos.second == -1) {
             tmp_value = no_data_value_; // location exceeds the extent of raster data
+            if (!FloatEqual(default_value_, no_data_value_)) { tmp_value = static_cast<T>(default_value_); }
             if (is_2draster && n_lyrs_ > 1) {
                 vector<T> tmp_values(n_lyrs_ - 1);
-                for (int lyr = 1; lyr < n_lyrs_; lyr++) { tmp_values[lyr - 1] = no_data_value_; }
+                for (int lyr = 1; lyr < n_lyrs_; lyr++) { tmp_values[lyr - 1] = tmp_value; }
                 values_2d[i] = tmp_values;
             }
             values[i] = tmp_value;
-- 
2.43.0


From 425318bd6a290e50138c5d29a5f34fd69fb3697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 36/85] fix: masks without any valid cell of the raster gave
 rasters of negative size or without data

---
 src/data_raster.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 93258bb..2329ebb 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3975,6 +3975,9 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         masked_count++;
     }
     if (masked_count == 0) { return -1; }
+    if (matched_count == 0 && (!use_mask_ext_ || (calc_pos_ && FloatEqual(default_value_, no_data_value_)))) {
+        return -1; // there is neither a valid extent nor any valid cell to store
+    }
     n_cells_ = masked_count;
 
     // Priority Copy header of mask data, and update NoData, SRS, and Layers' count
-- 
2.43.0


From d792d0b88957776c72324de302462e41b78809d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 37/85] fix: rasters constructed from a list of files were not
 initialised and read a single file twice

---
 src/data_raster.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 2329ebb..6956f44 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2178,14 +2178,11 @@ clsRasterData<T, MASK_T>::clsRasterData(vector<string>& filenames,
                                         const bool use_mask_ext /* = true */,
                                         double default_value /* = NODATA_VALUE */,
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
+    InitializeRasterClass();
     if (!FilesExist(filenames)) {
         StatusMessage("Please make sure all file path existed!");
         return;
     }
-    if (filenames.size() == 1) {
-        ReadFromFile(filenames[0], calc_pos, mask,
-                     use_mask_ext, default_value, opts);
-    }
     ReadFromFiles(filenames, calc_pos, mask,
                   use_mask_ext, default_value, opts);
 }
@@ -3448,9 +3445,9 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
                                              double default_value /* NODATA_VALUE */,
                                              const STRING_MAP& opts /* = STRING_MAP() */) {
     if (!FilesExist(filenames)) { return false; }
+    if (!initialized_) { InitializeRasterClass(true); }
     n_lyrs_ = CVT_INT(filenames.size());
     if (n_lyrs_ == 1) { return ReadFromFile(filenames[0], calc_pos, mask, use_mask_ext, default_value, opts); }
-    if (!initialized_) { InitializeRasterClass(true); }
     rs_type_out_ = RasterDataTypeInOptionals(opts);
     // 1. firstly, take the first layer as the main input, to calculate position index or extract by mask.
     if (!ConstructFromSingleFile(filenames[0], calc_pos, mask, use_mask_ext, default_value, opts)) {
-- 
2.43.0


From 862c6c5447a68cc1c52335173d0078ac1b3a15c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 38/85] fix: stacking files ignored layers that could not be
 read and used their missing data

---
 src/data_raster.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6956f44..fb393ab 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3464,6 +3464,7 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
     // 3. initialize raster_2d_ and read the other layers according to position data if stated,
     //     or just read by row and col
     Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
+    is_2draster = true; // also released when one of the following layers cannot be read
 #pragma omp parallel for
     for (int i = 0; i < n_cells_; i++) {
         raster_2d_[i][0] = raster_[i];
@@ -3476,19 +3477,23 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
         STRDBL_MAP tmpheader;
         T* tmplyrdata = nullptr;
         string curfilename = filenames[fileidx];
+        bool readflag = false;
         if (StringMatch(GetUpper(GetSuffix(curfilename)), string(ASCIIExtension))) {
-            ReadAscFile(curfilename, tmpheader, tmplyrdata);
+            readflag = ReadAscFile(curfilename, tmpheader, tmplyrdata);
         }
         else {
 #ifdef USE_GDAL
             RasterDataType tmpintype;
             string tmpsrs;
-            ReadRasterFileByGdal(curfilename, tmpheader, tmplyrdata, tmpintype, tmpsrs);
+            readflag = ReadRasterFileByGdal(curfilename, tmpheader, tmplyrdata, tmpintype, tmpsrs);
 #else
             StatusMessage("Warning: Only ASC format is supported without GDAL!");
-            return false;
 #endif
         }
+        if (!readflag) {
+            if (nullptr != tmplyrdata) { Release1DArray(tmplyrdata); }
+            return false;
+        }
         if (nullptr != pos_data_ || nullptr != pos_idx_) {
 #pragma omp parallel for
             for (int i = 0; i < n_cells_; ++i) {
@@ -3514,7 +3519,6 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
         }
         Release1DArray(tmplyrdata);
     }
-    if(!is_2draster) is_2draster = true;
     UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_); // repair layers count in headers
     return true;
 }
-- 
2.43.0


From 245355ca979f6d8c1db3a3989a18689d00710c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 39/85] fix: stacking files crashed when only valid cells are
 stored and the first file has none

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index fb393ab..6094d72 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3494,7 +3494,7 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
             if (nullptr != tmplyrdata) { Release1DArray(tmplyrdata); }
             return false;
         }
-        if (nullptr != pos_data_ || nullptr != pos_idx_) {
+        if (calc_pos_) { // only valid cells are stored, which may be none
 #pragma omp parallel for
             for (int i = 0; i < n_cells_; ++i) {
                 //int tmp_row = pos_data_[i][0]; // row * ncols + col,
-- 
2.43.0


From fd10e327a3de8f585293a777352d9394ab7a2a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 40/85] fix: mask_rasterio crashed when -configfile is the last
 argument

---
 apps/mask_rasterio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index efb32d0..f777062 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -206,7 +206,7 @@ int main(const int argc, const char** argv) {
     vector<int> arg_sep;
     for (int idx = 1; idx < argc; idx++) {
         if (argv[idx] == nullptr || argv[idx][0] != '-') { continue; }
-        if (StringMatch(argv[idx], "-configfile") && argc > idx && argv[idx + 1][0] != '-') {
+        if (StringMatch(argv[idx], "-configfile") && argc > idx + 1 && argv[idx + 1][0] != '-') {
             config_path = argv[idx + 1];
         }
         bool tmp_dbl_flag = false;
-- 
2.43.0


From 61d08271bb41ef328c02e6e7fd1f083af13e15a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 41/85] fix: mask_rasterio ignored the configuration file of
 its simple usage

---
 apps/mask_rasterio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index f777062..5e792f1 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -217,7 +217,7 @@ int main(const int argc, const char** argv) {
     arg_sep.push_back(argc);
 
     map<string, vector<string> > key_args;
-    if (arg_sep.empty()) {
+    if (arg_sep.size() == 1) { // no flags at all, i.e., only the configuration file
         if (config_path.empty()) {
             if (argc >= 2 && argv[1][0] != '-') {
                 config_path = argv[1];
-- 
2.43.0


From f2cf5c9fd2d2026061d09e613609b7578c91e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 42/85] fix: mask_rasterio crashed on empty paths

---
 apps/mask_rasterio.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 5e792f1..8107aa3 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -85,6 +85,10 @@ bool parse_fmt_paths(const string& tag, const vector<string>& strs, DATAFMT& fmt
     int path_idx = tmpcount > 1 ? 1 : 0;
     DATAFMT tmpfmt = StringToDataFormat(strs[0]);
     vector<string> file_paths = SplitString(strs[path_idx], ',');
+    if (file_paths.empty()) {
+        cout << "Error: Empty path for " << tag << "\n";
+        return false;
+    }
     if (!StringMatch(tag, "OUT") && FilesExist(file_paths)) {
         // 1: {"/path/to/single_file.tif"},
         // 3: {"file", "/path/to/single_file.tif"}
-- 
2.43.0


From d679f422fe4c1e79cc8fda9d12eace34704aa685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 43/85] fix: reclassification lists of mask_rasterio accepted
 keys without any new value

---
 apps/mask_rasterio.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 8107aa3..da91541 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -139,6 +139,7 @@ bool parse_key_values(string& kvstrs, map<vint, vector<double> >& kv) {
         vint tmp_key = IsInt(tmpkv.at(0), str2num_flag);
         if (!str2num_flag) { continue; }
         vector<string> tmpvalues = SplitString(tmpkv.at(1), '|');
+        if (tmpvalues.empty()) { continue; }
         vector<double> v;
         for (auto it = tmpvalues.begin(); it != tmpvalues.end(); ++it) {
             double tmp_value = IsDouble(*it, str2num_flag);
-- 
2.43.0


From 06808c25ee30599e6bcc7bb883463fe1c0ce458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 44/85] fix: mask_rasterio crashed when an input raster cannot
 be read or masked

---
 apps/mask_rasterio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index da91541..f0e9aa1 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -535,7 +535,7 @@ int main(const int argc, const char** argv) {
                                      false,            // No need to calculate valid positions
                                      mask_layer, true, // Use entire extent of Mask
                                      default_values.at(in_idx));
-                if (out_types.at(in_idx) != RDT_Unknown) { rs->SetOutDataType(out_types.at(in_idx)); }
+                if (nullptr != rs && out_types.at(in_idx) != RDT_Unknown) { rs->SetOutDataType(out_types.at(in_idx)); }
             }
             else if (in_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
-- 
2.43.0


From 9a3a0d40f89944d6918e7453877102fc2915d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 45/85] fix: subset values with a new layer count overflowed
 the old array, single-layer 2D values were not output

---
 src/data_raster.hpp | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6094d72..b2a28e7 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1105,16 +1105,21 @@ public:
 
     bool Initialization();
 
+    //! Release data_ and data2d_
+    void ReleaseData() {
+        if (nullptr != data_) { Release1DArray(data_); }
+        if (nullptr != data2d_) { Release2DArray(data2d_); }
+    }
+
     template <typename T>
     bool SetData(const int n, T* data) {
         if (n != n_cells) { return false; }
         if (nullptr == data) { return false; }
-        if (1 != n_lyrs) { n_lyrs = 1; }
-        if (nullptr != data_) {
-            for (int i = 0; i < n_cells; i++) { data_[i] = CVT_DBL(data[i]); }
-        } else {
-            Initialize1DArray(n_cells, data_, data);
-        }
+        double* newdata = nullptr;
+        Initialize1DArray(n_cells, newdata, data);
+        ReleaseData(); // former values may have other layer count
+        data_ = newdata;
+        n_lyrs = 1;
         usable = true;
         return true;
     }
@@ -1123,16 +1128,12 @@ public:
     bool Set2DData(const int n, const int lyr, T** data2d) {
         if (n != n_cells) { return false; }
         if (nullptr == data2d) { return false; }
-        if (lyr != n_lyrs) { n_lyrs = lyr; }
-        if (nullptr != data2d_) {
-            for (int i = 0; i < n_cells; i++) {
-                for (int j = 0; j < n_lyrs; j++) {
-                    data2d_[i][j] = CVT_DBL(data2d[i][j]);
-                }
-            }
-        } else {
-            Initialize2DArray(n_cells, n_lyrs, data2d_, data2d);
-        }
+        if (lyr < 1) { return false; }
+        double** newdata = nullptr;
+        Initialize2DArray(n_cells, lyr, newdata, data2d);
+        ReleaseData(); // former values may have other layer count
+        data2d_ = newdata;
+        n_lyrs = lyr;
         usable = true;
         return true;
     }
@@ -1154,7 +1155,7 @@ public:
             for (int vi = 0; vi < n_cells; vi++) {
                 //int j = local_pos_[vi][0] * ncols + local_pos_[vi][1];
                 int j = local_posidx_[vi];
-                if (n_lyrs > 1 && nullptr != data2d_) {
+                if (nullptr != data2d_) {
                     tmpdata[j] = static_cast<T>(data2d_[vi][ilyr]);
                 }
                 else if (n_lyrs == 1 && nullptr != data_) {
@@ -3018,7 +3019,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 else if (use_defaultv_directly) {
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(default_value);
                 }
-                else if (!out_origin && lyrs > 1 && nullptr != it->second->data2d_) { // raster 2D
+                else if (!out_origin && nullptr != it->second->data2d_) { // raster 2D
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(it->second->data2d_[vi][ilyr]);
                 }
                 else if (!out_origin && lyrs == 1 && nullptr != it->second->data_) { // raster 1D
@@ -3101,7 +3102,7 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
             else if (out_origin && lyrs == 1 && nullptr != raster_) {
                 data1d[j * lyrs + ilyr] = raster_[gidx];
             }
-            else if (!out_origin && lyrs > 1 && nullptr != sub->data2d_) { // raster 2D
+            else if (!out_origin && nullptr != sub->data2d_) { // raster 2D
                 data1d[j * lyrs + ilyr] = static_cast<T>(sub->data2d_[vi][ilyr]);
             }
             else if (!out_origin && lyrs == 1 && nullptr != sub->data_) { // raster 1D
-- 
2.43.0


From 868b960ae74708cf159bcea672e6d2c18628d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:20 +0000
Subject: [PATCH 46/85] fix: subsets without values were output as -9999
 instead of the raster's own nodata value

---
 src/data_raster.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index b2a28e7..f681266 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2982,6 +2982,9 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
     if (FloatEqual(default_value, NODATA_VALUE)) {
         default_value = default_value_;
     }
+    if (FloatEqual(default_value, NODATA_VALUE)) { // no default value specified
+        default_value = CVT_DBL(no_data_value_);
+    }
     int gncells = include_nodata ? gnrows * gncols : n_cells_;
     int data_length = gncells * lyrs;
     Initialize1DArray(data_length, data1d, no_data_value_);
@@ -3073,6 +3076,9 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
     if (FloatEqual(default_value, NODATA_VALUE)) {
         default_value = default_value_;
     }
+    if (FloatEqual(default_value, NODATA_VALUE)) { // no default value specified
+        default_value = CVT_DBL(no_data_value_);
+    }
     int ncells = include_nodata ? nrows * ncols : sub->n_cells;
     int data_length = ncells * lyrs;
     Initialize1DArray(data_length, data1d, no_data_value_);
-- 
2.43.0


From 48c33aa6b6226b4fab96c9f6187de84a66b8c173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:20 +0000
Subject: [PATCH 47/85] fix: original values of subsets could not be combined,
 more reclassification layers than raster layers read out of bounds

---
 src/data_raster.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index f681266..931cbfb 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2951,6 +2951,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
     int lyrs_subset = -1;
     for (auto it = subset_.begin(); it != subset_.end(); ++it) {
         if (!it->second->usable) { continue; }
+        if (out_origin) { continue; }         // subset's data is not needed
         if (!(nullptr != it->second->data_    // Only if all subset have data_
             || nullptr != it->second->data2d_ // or data2d_,
             || !recls.empty())) {             // or reclassification map specified
@@ -3011,7 +3012,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                     if (out_origin) {
                         if (nullptr != raster_) { recls_key = CVT_INT(raster_[gidx]); }
                         else if (nullptr != raster_2d_) {
-                            recls_key = CVT_INT(raster_2d_[gidx][ilyr]);
+                            recls_key = CVT_INT(raster_2d_[gidx][ilyr < n_lyrs_ ? ilyr : 0]);
                         }
                     }
                     if (recls.count(recls_key) > 0 && recls.at(recls_key).size() > ilyr) {
@@ -3022,6 +3023,12 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 else if (use_defaultv_directly) {
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(default_value);
                 }
+                else if (out_origin && nullptr != raster_2d_) {
+                    data1d[tmprc * lyrs + ilyr] = raster_2d_[gidx][ilyr];
+                }
+                else if (out_origin && nullptr != raster_) {
+                    data1d[tmprc * lyrs + ilyr] = raster_[gidx];
+                }
                 else if (!out_origin && nullptr != it->second->data2d_) { // raster 2D
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(it->second->data2d_[vi][ilyr]);
                 }
@@ -3094,7 +3101,7 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
                 if (out_origin) {
                     if (nullptr != raster_) { recls_key = CVT_INT(raster_[gidx]); }
                     else if (nullptr != raster_2d_) {
-                        recls_key = CVT_INT(raster_2d_[gidx][ilyr]);
+                        recls_key = CVT_INT(raster_2d_[gidx][ilyr < n_lyrs_ ? ilyr : 0]);
                     }
                 }
                 if (recls.count(recls_key) > 0 && recls.at(recls_key).size() > ilyr) {
@@ -3102,10 +3109,10 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
                 }
                 data1d[j * lyrs + ilyr] = static_cast<T>(uniqe_value);
             }
-            else if (out_origin && lyrs > 1 && nullptr != raster_2d_) {
+            else if (out_origin && nullptr != raster_2d_) {
                 data1d[j * lyrs + ilyr] = raster_2d_[gidx][ilyr];
             }
-            else if (out_origin && lyrs == 1 && nullptr != raster_) {
+            else if (out_origin && nullptr != raster_) {
                 data1d[j * lyrs + ilyr] = raster_[gidx];
             }
             else if (!out_origin && nullptr != sub->data2d_) { // raster 2D
-- 
2.43.0


From 7c036a5a31aab934b6595c3bfae1e0cecc2934bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:20 +0000
Subject: [PATCH 48/85] fix: single subsets were not reclassified without
 values of their own, and failures were reported as success

---
 src/data_raster.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 931cbfb..f129a7b 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2919,6 +2919,7 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToFile(const bool out_origin /* = fal
         int tmplyrs;
         if (!PrepareSubsetData(it->first, it->second, &tmpdata1d, &tmpdatalen, &tmplyrs,
                                out_origin, true, recls, default_value)) {
+            flag = false;
             continue;
         }
         UpdateHeader(subheader, HEADER_RS_LAYERS, tmplyrs);
@@ -3073,6 +3074,7 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
         if (lyr_recls > 0) { lyrs = lyr_recls; }
     } else {
         lyrs = sub->n_lyrs;
+        if (lyrs < 0 && lyr_recls > 0) { lyrs = lyr_recls; }
     }
     if (lyrs < 0) {
         StatusMessage("Error: Cannot determine valid layer count!");
-- 
2.43.0


From d83e44f397915d2fe38dd42294bae2c6c6081893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 49/85] fix: unusable subsets were reclassified instead of
 taking the default value

---
 src/data_raster.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index f129a7b..2f52441 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3007,7 +3007,10 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 //int tmprc = tmpr * gncols + tmpc;
                 int tmprc = pos_idx_[gidx];
                 if (!include_nodata) { tmprc = gidx; }
-                if (!recls.empty()) { // first priority
+                if (use_defaultv_directly) { // not usable
+                    data1d[tmprc * lyrs + ilyr] = static_cast<T>(default_value);
+                }
+                else if (!recls.empty()) { // first priority
                     double uniqe_value = default_value;
                     int recls_key = it->first; // default reclassification key is subset's ID
                     if (out_origin) {
@@ -3021,9 +3024,6 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                     }
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(uniqe_value);
                 }
-                else if (use_defaultv_directly) {
-                    data1d[tmprc * lyrs + ilyr] = static_cast<T>(default_value);
-                }
                 else if (out_origin && nullptr != raster_2d_) {
                     data1d[tmprc * lyrs + ilyr] = raster_2d_[gidx][ilyr];
                 }
-- 
2.43.0


From 7711f3cd126e9f1b385f7a406c20253c629bd8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:23 +0000
Subject: [PATCH 50/85] fix: subsets taken over from a mask kept the mask's
 positions when the raster stores others, and leaked or kept the mask's values

---
 src/data_raster.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 2f52441..bb54a57 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3598,6 +3598,7 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
             map<int, SubsetPositions*>& mask_subset = mask_->GetSubset();
             for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
                 SubsetPositions* tmp = new SubsetPositions(it->second, true);
+                tmp->ReleaseData(); // values of mask's subset are not those of this raster
                 tmp->n_lyrs = n_lyrs_;
 #ifdef HAS_VARIADIC_TEMPLATES
                 subset_.emplace(it->first, tmp);
@@ -4010,6 +4011,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         ReleaseSubset();
         for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
             SubsetPositions* tmp = new SubsetPositions(it->second, true);
+            tmp->ReleaseData(); // values of mask's subset are not those of this raster
             tmp->n_lyrs = n_lyrs_;
 #ifdef HAS_VARIADIC_TEMPLATES
             subset_.emplace(it->first, tmp);
@@ -4098,8 +4100,8 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             }
         }
     }
-    if (mask_has_subset && !match_exactly && upd_header_rowcol) {
-        recalc_subset = true;
+    if (mask_has_subset && (recalc_pos || upd_header_rowcol)) {
+        recalc_subset = true; // positions or the extent differ from mask's
     }
     // Update row and col counts in header information firstly.
     if (upd_header_rowcol) {
@@ -4292,8 +4294,6 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                     it->second->local_pos_[ii][1] = local_col;
                     it->second->local_posidx_[ii] = local_row * local_ncols + local_col;
                 }
-                it->second->data_ = nullptr;
-                it->second->data2d_ = nullptr;
                 it->second->alloc_ = true;
             }
             ++it;
-- 
2.43.0


From f44b68670fe30cb92169bb7576dc0f3fff03a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 51/85] fix: combining subsets of a full size raster without
 positions crashed

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index bb54a57..f4e86c2 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3005,7 +3005,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 //int tmpr = pos_data_[gidx][0];
                 //int tmpc = pos_data_[gidx][1];
                 //int tmprc = tmpr * gncols + tmpc;
-                int tmprc = pos_idx_[gidx];
+                int tmprc = nullptr == pos_idx_ ? gidx : pos_idx_[gidx]; // full size raster without positions
                 if (!include_nodata) { tmprc = gidx; }
                 if (use_defaultv_directly) { // not usable
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(default_value);
-- 
2.43.0


From 2bb88e7a07821caa6fd14e2dd496e8f053489ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 52/85] fix: subsets of a full size raster kept full size
 positions after calculating valid positions

---
 src/data_raster.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index f4e86c2..5a25cb2 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3906,6 +3906,25 @@ void clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
         pos_idx_[i] = pos_rows.at(i) * ncols + pos_cols.at(i);
     }
     calc_pos_ = true;
+    // Subsets (if exist) refer to the full size data until now
+    for (auto it = subset_.begin(); it != subset_.end(); ++it) {
+        SubsetPositions* sub = it->second;
+        int count = 0;
+        for (int i = 0; i < sub->n_cells; i++) {
+            int newidx = GetPosition(sub->global_[i] / ncols, sub->global_[i] % ncols);
+            if (newidx < 0) { continue; } // not valid any more
+            sub->global_[count] = newidx;
+            sub->local_pos_[count][0] = sub->local_pos_[i][0];
+            sub->local_pos_[count][1] = sub->local_pos_[i][1];
+            sub->local_posidx_[count] = sub->local_posidx_[i];
+            if (nullptr != sub->data_) { sub->data_[count] = sub->data_[i]; }
+            if (nullptr != sub->data2d_) {
+                for (int j = 0; j < sub->n_lyrs; j++) { sub->data2d_[count][j] = sub->data2d_[i][j]; }
+            }
+            count++;
+        }
+        sub->n_cells = count;
+    }
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 1aaea476eae63ea6c31e3f723303fff70ad63039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:48 +0000
Subject: [PATCH 53/85] fix: mask_rasterio wrote no file in the decompose mode
 without reclassification

---
 apps/mask_rasterio.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index f0e9aa1..fca4414 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -569,7 +569,10 @@ int main(const int argc, const char** argv) {
                                                default_values.at(in_idx));
                     }
                 } else {
-                    if (output_subset) { rs->OutputToFile(out_paths.at(in_idx), false); }
+                    if (output_subset) { // same as the output to MongoDB
+                        if (nullptr == mask_layer) { rs->BuildSubSet(); }
+                        rs->OutputSubsetToFile(true, false, out_paths.at(in_idx));
+                    }
                     if (output_all) { rs->OutputToFile(out_paths.at(in_idx), true); }
                 }
             } else if (out_fmts.at(in_idx) == GFS && use_mongo) {
-- 
2.43.0


From d63381ecebaf2f43711812516373e3e474c4bf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:48 +0000
Subject: [PATCH 54/85] fix: mask_rasterio dropped a whole subset when
 combining if one of its cells has no value

---
 apps/mask_rasterio.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index fca4414..558339a 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -628,12 +628,26 @@ int main(const int argc, const char** argv) {
 
                 if (in_fmts.at(in_idx) == SFILE && FileExists(*inf_it)) {
                     DblRaster* tmpsubrs = nullptr;
-                    tmpsubrs = DblRaster::Init(*inf_it, true);
+                    tmpsubrs = DblRaster::Init(*inf_it, false);
                     if (nullptr == tmpsubrs) { continue; }
-                    int tmpsublen;
-                    double* tmpsubdata = nullptr;
-                    tmpsubrs->GetRasterData(&tmpsublen, &tmpsubdata);
-                    subset.at(subid)->SetData(tmpsublen, tmpsubdata);
+                    SubsetPositions* cursub = subset.at(subid);
+                    if (tmpsubrs->GetRows() == cursub->g_erow - cursub->g_srow + 1 &&
+                        tmpsubrs->GetCols() == cursub->g_ecol - cursub->g_scol + 1) {
+                        // cells without value are allowed in the rectangle of the subset
+                        vector<double> subvalues(cursub->n_cells);
+                        for (int i = 0; i < cursub->n_cells; i++) {
+                            int tmprow = cursub->local_pos_[i][0];
+                            int tmpcol = cursub->local_pos_[i][1];
+                            subvalues[i] = tmpsubrs->IsNoData(tmprow, tmpcol) ? mask_layer->GetNoDataValue()
+                                                                              : tmpsubrs->GetValue(tmprow, tmpcol);
+                        }
+                        cursub->SetData(cursub->n_cells, subvalues.data());
+                    } else if (tmpsubrs->SetCalcPositions()) {
+                        int tmpsublen;
+                        double* tmpsubdata = nullptr;
+                        tmpsubrs->GetRasterData(&tmpsublen, &tmpsubdata);
+                        cursub->SetData(tmpsublen, tmpsubdata);
+                    }
                     delete tmpsubrs;
                 }
                 else if (in_fmts.at(in_idx) == GFS && use_mongo) {
-- 
2.43.0


From 73007c5c4855d48d73566b6d7eab9076859451e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 55/85] fix: GeoTIFF export compared the values with the limits
 of the output type inexactly

---
 src/data_raster.hpp | 50 ++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 5a25cb2..4a59f1a 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -38,6 +38,7 @@
 #include <fstream>
 #include <iomanip>
 #include <typeinfo>
+#include <limits>
 #include <cassert>
 // include openmp if supported
 #ifdef SUPPORT_OMP
@@ -583,6 +584,23 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
     return true;
 }
 
+/*!
+ * \brief Check if a value is within the range of an integer type
+ *        Note that the upper limits of 32-bit and 64-bit integers may not be exactly represented by floating types.
+ */
+template <typename INTEGER, typename T>
+bool InIntegerRange(const T value) {
+    typedef std::numeric_limits<INTEGER> limits;
+    if (!std::numeric_limits<T>::is_integer) {
+        return value >= static_cast<T>((limits::min)())
+               && static_cast<double>(value) < 2. * static_cast<double>(static_cast<INTEGER>(1) << (limits::digits - 1));
+    }
+    if (value < static_cast<T>(0)) {
+        return limits::is_signed && static_cast<vint64_t>(value) >= static_cast<vint64_t>((limits::min)());
+    }
+    return static_cast<vuint64_t>(value) <= static_cast<vuint64_t>((limits::max)());
+}
+
 /*!
  * \brief Write single geotiff file
  * If the file exists, delete it first.
@@ -616,7 +634,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         if (outtype == RDT_UInt8) { // [0, 255] --> GDT_Byte in GDAL, use unsigned char
             new_values = static_cast<unsigned char*>(CPLMalloc(sizeof(unsigned char) * n_cols * n_rows));
             unsigned char* values_uchar = static_cast<unsigned char*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT8_MAX) {
+            if (!InIntegerRange<unsigned char>(old_nodata)) {
                 new_nodata = UINT8_MAX;
                 change_nodata = true;
             }
@@ -627,7 +645,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uchar[i] = UINT8_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT8_MAX) illegal_count += 1;
+                if (!InIntegerRange<unsigned char>(values[i])) illegal_count += 1;
                 values_uchar[i] = static_cast<unsigned char>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -639,7 +657,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
 #endif
             new_values = static_cast<signed char*>(CPLMalloc(sizeof(signed char) * n_cols * n_rows));
             signed char* values_char = static_cast<signed char*>(new_values);
-            if (old_nodata < INT8_MIN || old_nodata > INT8_MAX) {
+            if (!InIntegerRange<signed char>(old_nodata)) {
                 new_nodata = INT8_MIN;
                 change_nodata = true;
             }
@@ -650,7 +668,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_char[i] = INT8_MIN;
                     continue;
                 }
-                if (values[i] < INT8_MIN || values[i] > INT8_MAX) { illegal_count += 1; }
+                if (!InIntegerRange<signed char>(values[i])) { illegal_count += 1; }
                 values_char[i] = static_cast<signed char>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -658,7 +676,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt16) { // [0, 65535]
             new_values = static_cast<vuint16_t*>(CPLMalloc(sizeof(vuint16_t) * n_cols * n_rows));
             vuint16_t* values_uint16 = static_cast<vuint16_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT16_MAX) {
+            if (!InIntegerRange<vuint16_t>(old_nodata)) {
                 new_nodata = UINT16_MAX;
                 change_nodata = true;
             }
@@ -669,7 +687,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint16[i] = UINT16_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT16_MAX) illegal_count += 1;
+                if (!InIntegerRange<vuint16_t>(values[i])) illegal_count += 1;
                 values_uint16[i] = static_cast<vuint16_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -677,7 +695,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int16) { // [-32768, 32767]
             new_values = static_cast<vint16_t*>(CPLMalloc(sizeof(vint16_t) * n_cols * n_rows));
             vint16_t* values_int16 = static_cast<vint16_t*>(new_values);
-            if (old_nodata < INT16_MIN || old_nodata > INT16_MAX) {
+            if (!InIntegerRange<vint16_t>(old_nodata)) {
                 new_nodata = INT16_MIN;
                 change_nodata = true;
             }
@@ -688,7 +706,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int16[i] = INT16_MIN;
                     continue;
                 }
-                if (values[i] < INT16_MIN || values[i] > INT16_MAX) illegal_count += 1;
+                if (!InIntegerRange<vint16_t>(values[i])) illegal_count += 1;
                 values_int16[i] = static_cast<vint16_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -696,7 +714,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt32) { // [0, 4294967295]
             new_values = static_cast<vuint32_t*>(CPLMalloc(sizeof(vuint32_t) * n_cols * n_rows));
             vuint32_t* values_uint32 = static_cast<vuint32_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT32_MAX) {
+            if (!InIntegerRange<vuint32_t>(old_nodata)) {
                 new_nodata = UINT32_MAX;
                 change_nodata = true;
             }
@@ -707,7 +725,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint32[i] = UINT32_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT32_MAX) illegal_count += 1;
+                if (!InIntegerRange<vuint32_t>(values[i])) illegal_count += 1;
                 values_uint32[i] = static_cast<vuint32_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -715,7 +733,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int32) { // [-2147483648, 2147483647]
             new_values = static_cast<vint32_t*>(CPLMalloc(sizeof(vint32_t) * n_cols * n_rows));
             vint32_t* values_int32 = static_cast<vint32_t*>(new_values);
-            if (old_nodata < INT32_MIN || old_nodata > INT32_MAX) {
+            if (!InIntegerRange<vint32_t>(old_nodata)) {
                 new_nodata = INT32_MIN;
                 change_nodata = true;
             }
@@ -726,7 +744,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int32[i] = INT32_MIN;
                     continue;
                 }
-                if (values[i] < INT32_MIN || values[i] > INT32_MAX) illegal_count += 1;
+                if (!InIntegerRange<vint32_t>(values[i])) illegal_count += 1;
                 values_int32[i] = static_cast<vint32_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -735,7 +753,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt64) { // [0, 18446744073709551615]
             new_values = static_cast<vuint64_t*>(CPLMalloc(sizeof(vuint64_t) * n_cols * n_rows));
             vuint64_t* values_uint64 = static_cast<vuint64_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT64_MAX) {
+            if (!InIntegerRange<vuint64_t>(old_nodata)) {
                 new_nodata = UINT64_MAX;
                 change_nodata = true;
             }
@@ -746,7 +764,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint64[i] = UINT64_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT64_MAX) illegal_count += 1;
+                if (!InIntegerRange<vuint64_t>(values[i])) illegal_count += 1;
                 values_uint64[i] = static_cast<vuint64_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -754,7 +772,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int64) { // [-18446744073709551615, 18446744073709551615]
             new_values = static_cast<vint64_t*>(CPLMalloc(sizeof(vint64_t) * n_cols * n_rows));
             vint64_t* values_int64 = static_cast<vint64_t*>(new_values);
-            if (old_nodata < INT64_MIN || old_nodata > INT64_MAX) {
+            if (!InIntegerRange<vint64_t>(old_nodata)) {
                 new_nodata = INT64_MIN;
                 change_nodata = true;
             }
@@ -765,7 +783,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int64[i] = INT64_MIN;
                     continue;
                 }
-                if (values[i] < INT64_MIN || values[i] > INT64_MAX) illegal_count += 1;
+                if (!InIntegerRange<vint64_t>(values[i])) illegal_count += 1;
                 values_int64[i] = static_cast<vint64_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
-- 
2.43.0


From e31f58bf75727c688210c488f3692053b0a93f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 56/85] fix: GeoTIFF export turned valid values into nodata if
 they equal the new nodata value

---
 src/data_raster.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 4a59f1a..21cee52 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -645,7 +645,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uchar[i] = UINT8_MAX;
                     continue;
                 }
-                if (!InIntegerRange<unsigned char>(values[i])) illegal_count += 1;
+                if (!InIntegerRange<unsigned char>(values[i]) || (change_nodata && static_cast<unsigned char>(values[i]) == UINT8_MAX)) illegal_count += 1;
                 values_uchar[i] = static_cast<unsigned char>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -668,7 +668,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_char[i] = INT8_MIN;
                     continue;
                 }
-                if (!InIntegerRange<signed char>(values[i])) { illegal_count += 1; }
+                if (!InIntegerRange<signed char>(values[i]) || (change_nodata && static_cast<signed char>(values[i]) == INT8_MIN)) { illegal_count += 1; }
                 values_char[i] = static_cast<signed char>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -687,7 +687,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint16[i] = UINT16_MAX;
                     continue;
                 }
-                if (!InIntegerRange<vuint16_t>(values[i])) illegal_count += 1;
+                if (!InIntegerRange<vuint16_t>(values[i]) || (change_nodata && static_cast<vuint16_t>(values[i]) == UINT16_MAX)) illegal_count += 1;
                 values_uint16[i] = static_cast<vuint16_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -706,7 +706,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int16[i] = INT16_MIN;
                     continue;
                 }
-                if (!InIntegerRange<vint16_t>(values[i])) illegal_count += 1;
+                if (!InIntegerRange<vint16_t>(values[i]) || (change_nodata && static_cast<vint16_t>(values[i]) == INT16_MIN)) illegal_count += 1;
                 values_int16[i] = static_cast<vint16_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -725,7 +725,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint32[i] = UINT32_MAX;
                     continue;
                 }
-                if (!InIntegerRange<vuint32_t>(values[i])) illegal_count += 1;
+                if (!InIntegerRange<vuint32_t>(values[i]) || (change_nodata && static_cast<vuint32_t>(values[i]) == UINT32_MAX)) illegal_count += 1;
                 values_uint32[i] = static_cast<vuint32_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -744,7 +744,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int32[i] = INT32_MIN;
                     continue;
                 }
-                if (!InIntegerRange<vint32_t>(values[i])) illegal_count += 1;
+                if (!InIntegerRange<vint32_t>(values[i]) || (change_nodata && static_cast<vint32_t>(values[i]) == INT32_MIN)) illegal_count += 1;
                 values_int32[i] = static_cast<vint32_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -764,7 +764,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint64[i] = UINT64_MAX;
                     continue;
                 }
-                if (!InIntegerRange<vuint64_t>(values[i])) illegal_count += 1;
+                if (!InIntegerRange<vuint64_t>(values[i]) || (change_nodata && static_cast<vuint64_t>(values[i]) == UINT64_MAX)) illegal_count += 1;
                 values_uint64[i] = static_cast<vuint64_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -783,7 +783,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int64[i] = INT64_MIN;
                     continue;
                 }
-                if (!InIntegerRange<vint64_t>(values[i])) illegal_count += 1;
+                if (!InIntegerRange<vint64_t>(values[i]) || (change_nodata && static_cast<vint64_t>(values[i]) == INT64_MIN)) illegal_count += 1;
                 values_int64[i] = static_cast<vint64_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
-- 
2.43.0


From 26797adfe9fbae70f60aa2ddb8f1f402355844dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 57/85] fix: GeoTIFF export wrote wrong nodata values of 64-bit
 integers

---
 src/data_raster.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 21cee52..8ad0f24 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -833,6 +833,13 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         GDALClose(po_dst_ds);
         return false;
     }
+#if GDAL_VERSION_MAJOR > 3 || (GDAL_VERSION_MAJOR == 3 && GDAL_VERSION_MINOR >= 5)
+    if (outtype == RDT_Int64) {
+        po_dst_band->SetNoDataValueAsInt64(InIntegerRange<vint64_t>(new_nodata) ? static_cast<vint64_t>(new_nodata) : INT64_MAX);
+    } else if (outtype == RDT_UInt64) {
+        po_dst_band->SetNoDataValueAsUInt64(InIntegerRange<vuint64_t>(new_nodata) ? static_cast<vuint64_t>(new_nodata) : UINT64_MAX);
+    } else
+#endif
     po_dst_band->SetNoDataValue(new_nodata);
 
     double geo_trans[6]; // Write header information
-- 
2.43.0


From 850ff9835f0c0ee3ca84612d8fae3143f909c1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 58/85] fix: GeoTIFF export wrote infinity for doubles beyond
 the range of float

---
 src/data_raster.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 8ad0f24..9650434 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -792,8 +792,22 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Float) {
             new_values = static_cast<float*>(CPLMalloc(sizeof(float) * n_cols * n_rows));
             float* values_float = static_cast<float*>(new_values);
-#pragma omp parallel for
-            for (int i = 0; i < n_cols * n_rows; i++) values_float[i] = static_cast<float>(values[i]);
+            if (old_nodata < -FLT_MAX || old_nodata > FLT_MAX) {
+                new_nodata = MISSINGFLOAT;
+                change_nodata = true;
+            }
+            int illegal_count = 0;
+#pragma omp parallel for reduction(+:illegal_count)
+            for (int i = 0; i < n_cols * n_rows; i++) {
+                if (change_nodata && FloatEqual(values[i], old_nodata)) {
+                    values_float[i] = MISSINGFLOAT;
+                    continue;
+                }
+                if (static_cast<double>(values[i]) < -FLT_MAX || static_cast<double>(values[i]) > FLT_MAX
+                    || (change_nodata && static_cast<float>(values[i]) == MISSINGFLOAT)) illegal_count += 1;
+                values_float[i] = static_cast<float>(values[i]);
+            }
+            if (illegal_count > 0) convert_permit = false;
         }
         else if (outtype == RDT_Double) {
             new_values = static_cast<double*>(CPLMalloc(sizeof(double) * n_cols * n_rows));
-- 
2.43.0


From c4c3881eee176f87676265e77917a728b65a377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 59/85] fix: GeoTIFF import decided on uninitialised limits if
 a byte raster has no valid value

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 9650434..95abed0 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -382,7 +382,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
     int get_value_flag = false;
     double nodata = po_band->GetNoDataValue(&get_value_flag);
     int approx_minmax = false;
-    double minmax[2];
+    double minmax[2] = {0., 0.}; // unchanged if there is no valid value
     T* tmprasterdata = nullptr;
     bool read_as_signedbyte = false;
     unsigned char* uchar_data = nullptr;
-- 
2.43.0


From c885de2a8c484b3ab19a57a588bc708f2242f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 60/85] fix: GeoTIFF export leaked the converted values if the
 file can not be created

---
 src/data_raster.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 95abed0..9ccec77 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -824,12 +824,20 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         return false;
     }
     GDALDriver* po_driver = GetGDALDriverManager()->GetDriverByName("GTiff");
-    if (nullptr == po_driver) { return false; }
+    if (nullptr == po_driver) {
+        if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
+        if (new_values != nullptr) { CPLFree(new_values); }
+        return false;
+    }
     string dirname = GetPathFromFullName(filename);
     if (!PathExists(dirname)) { MakeDirectory(dirname); }
     GDALDataset* po_dst_ds = po_driver->Create(filename.c_str(), n_cols, n_rows, 1,
                                                CvtToGDALDataType(outtype), papsz_options);
-    if (nullptr == po_dst_ds) { return false; }
+    if (nullptr == po_dst_ds) {
+        if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
+        if (new_values != nullptr) { CPLFree(new_values); }
+        return false;
+    }
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
     CPLErr result = CE_None;
     if (!recreate_flag) {
-- 
2.43.0


From 0a6cecf423efff2680da25c361fc0db1cab31843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:15 +0000
Subject: [PATCH 61/85] fix: the default nodata value of unsigned 64-bit
 rasters became 0

---
 src/data_raster.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 9ccec77..a1589f8 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -356,6 +356,19 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     return true;
 }
 
+/*!
+ * \brief Convert NoData value to the raster's type
+ *        Note that the maximums of 64-bit integers are rounded as double and hence out of range.
+ */
+template <typename T>
+T CvtNoDataValue(const double nodata) {
+    if (std::numeric_limits<T>::is_integer && std::numeric_limits<T>::digits > 53
+        && nodata >= static_cast<double>((std::numeric_limits<T>::max)())) {
+        return (std::numeric_limits<T>::max)();
+    }
+    return static_cast<T>(nodata);
+}
+
 #ifdef USE_GDAL
 /*!
  * \brief Read single raster file by GDAL
@@ -2089,7 +2102,7 @@ void clsRasterData<T, MASK_T>::InitializeRasterClass(bool is_2d /* = false */) {
     n_cells_ = -1;
     rs_type_ = RDT_Unknown;
     rs_type_out_ = RDT_Unknown;
-    no_data_value_ = DefaultNoDataByType(TypeToRasterDataType(typeid(T)));
+    no_data_value_ = CvtNoDataValue<T>(DefaultNoDataByType(TypeToRasterDataType(typeid(T))));
     //no_data_value_ = static_cast<T>(NODATA_VALUE); // Be careful of unsigned data type!
     default_value_ = NODATA_VALUE;
     raster_ = nullptr;
@@ -2360,7 +2373,7 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
 #endif /* USE_GDAL */
     }
     // After read raster data from ASCII file or GeoTiff.
-    no_data_value_ = static_cast<T>(headers_.at(HEADER_RS_NODATA));
+    no_data_value_ = CvtNoDataValue<T>(headers_.at(HEADER_RS_NODATA));
     UpdateStrHeader(options_, HEADER_RS_SRS, srs);
     // if not specified, set output data type the same as input
     if (rs_type_out_ == 0) {
@@ -2836,7 +2849,7 @@ void clsRasterData<T, MASK_T>::SetHeader(const STRDBL_MAP& refers) {
     it = headers_.find(HEADER_RS_LAYERS);
     if (it != headers_.end()) { n_lyrs_ = CVT_INT(it->second); }
     it = headers_.find(HEADER_RS_NODATA);
-    if (it != headers_.end()) { no_data_value_ = static_cast<T>(it->second); }
+    if (it != headers_.end()) { no_data_value_ = CvtNoDataValue<T>(it->second); }
 }
 
 
@@ -3629,7 +3642,7 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
     n_lyrs_ = CVT_INT(headers_.at(HEADER_RS_LAYERS));
     // if (n_rows < 0 || n_cols < 0 || n_lyrs_ < 0) { return false; } // Needless
     int fullsize = n_rows * n_cols;
-    no_data_value_ = static_cast<T>(headers_.at(HEADER_RS_NODATA));
+    no_data_value_ = CvtNoDataValue<T>(headers_.at(HEADER_RS_NODATA));
     n_cells_ = CVT_INT(headers_.at(HEADER_RS_CELLSNUM));
 
     if (include_nodata && n_cells_ != fullsize) { return false; }
-- 
2.43.0


From 7eb6f0f8a737a9cc2cd715bc4fe8cf2aef52913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 62/85] fix: texts with a digit somewhere were read as the
 number 0 from database documents

---
 src/db_mongoc.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.h b/src/db_mongoc.h
index 1f8134b..51f6f83 100644
--- a/src/db_mongoc.h
+++ b/src/db_mongoc.h
@@ -203,7 +203,12 @@ bool GetNumericFromBsonIterator(bson_iter_t* iter, T& numericvalue) {
             return false;
         }
         char* end = nullptr;
-        numericvalue = static_cast<T>(strtod(tmp.c_str(), &end));
+        double dblvalue = strtod(tmp.c_str(), &end);
+        if (end == tmp.c_str()) { // digits somewhere behind other text
+            cout << "bson iterator isn't or not contains a numeric value." << endl;
+            return false;
+        }
+        numericvalue = static_cast<T>(dblvalue);
     } else {
         cout << "bson iterator isn't or not contains a numeric value." << endl;
         return false;
-- 
2.43.0


From 26e71f1716e4a6163076d9e9a9e84815db1cf687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 63/85] fix: floating point numbers of database documents lost
 all but six digits as texts

---
 src/db_mongoc.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index b4d71b3..bd92f37 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -13,6 +13,8 @@
 #include "db_mongoc.h"
 
 #include <cassert>
+#include <cstdio>
+#include <cstdlib>
 #include <utility>
 #include "basic.h"
 #include "utils_string.h"
@@ -512,7 +514,13 @@ string GetStringFromBsonIterator(bson_iter_t* iter) {
         return ValueToString(vv->value.v_int64);
     }
     if (vv->value_type == BSON_TYPE_DOUBLE) {
-        return ValueToString(vv->value.v_double);
+        // The shortest of 15 to 17 digits that gives the same number
+        char buf[32];
+        for (int prec = 15; prec <= 17; prec++) {
+            snprintf(buf, sizeof(buf), "%.*g", prec, vv->value.v_double);
+            if (strtod(buf, nullptr) == vv->value.v_double) { break; }
+        }
+        return buf;
     }
     StatusMessage("bson iterator did not contain or can not convert to string.");
     return "";
-- 
2.43.0


From 291206ee119a926b2a7a64fd94f3374006606a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 64/85] fix: flags stored as numbers in database documents were
 read inverted, real flags not at all

---
 src/db_mongoc.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index bd92f37..fec04a0 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -537,21 +537,24 @@ string GetStringFromBson(bson_t* bmeta, const char* key) {
 
 bool GetBoolFromBsonIterator(bson_iter_t* iter) {
     const bson_value_t* vv = bson_iter_value(iter);
-    float fltvalue;
+    if (vv->value_type == BSON_TYPE_BOOL) {
+        return vv->value.v_bool;
+    }
     if (vv->value_type == BSON_TYPE_INT32) {
-        fltvalue = CVT_FLT(vv->value.v_int32);
-    } else if (vv->value_type == BSON_TYPE_INT64) {
-        fltvalue = CVT_FLT(vv->value.v_int64);
-    } else if (vv->value_type == BSON_TYPE_DOUBLE) {
-        fltvalue = CVT_FLT(vv->value.v_double);
-    } else if (vv->value_type == BSON_TYPE_UTF8) {
+        return vv->value.v_int32 != 0;
+    }
+    if (vv->value_type == BSON_TYPE_INT64) {
+        return vv->value.v_int64 != 0;
+    }
+    if (vv->value_type == BSON_TYPE_DOUBLE) {
+        return vv->value.v_double != 0.;
+    }
+    if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp = vv->value.v_utf8.str;
         return StringMatch(tmp.c_str(), "TRUE");
-    } else {
-        StatusMessage("Failed in get Boolean value.");
-        return false;
     }
-    return utils_math::FloatEqual(fltvalue, 0.f);
+    StatusMessage("Failed in get Boolean value.");
+    return false;
 }
 
 bool GetBoolFromBson(bson_t* bmeta, const char* key) {
-- 
2.43.0


From 21de837602bde984796d202b8a474b41f099e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 65/85] fix: times of database documents were wrong within the
 first second of 1970 and after 2038

---
 src/db_mongoc.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index fec04a0..c6af322 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -569,10 +569,7 @@ bool GetBoolFromBson(bson_t* bmeta, const char* key) {
 time_t GetDatetimeFromBsonIterator(bson_iter_t* iter) {
     const bson_value_t* vv = bson_iter_value(iter);
     if (vv->value_type == BSON_TYPE_DATE_TIME) {
-		string str_milisec = std::to_string(vv->value.v_datetime);
-		string str_second = str_milisec.substr(0, str_milisec.length() - 3);
-		int intStr = atoi(str_second.c_str());
-        return CVT_TIMET(intStr);
+        return CVT_TIMET(vv->value.v_datetime / 1000); // from milliseconds
     }
     if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp_time_str = vv->value.v_utf8.str;
-- 
2.43.0


From e1286bb52291862c0a2aa82aa79053c4a1ac2ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 66/85] fix: texts without a date were converted to an
 arbitrary time

---
 src/utils_time.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index e6c7def..8a43a0b 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -124,10 +124,15 @@ time_t ConvertToTime(const string& str_date, string const& format, const bool in
     int sec = 0;
 
     try {
+        int count;
         if (include_hour) {
-            stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy, &hr, &min, &sec);
+            count = stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy, &hr, &min, &sec);
         } else {
-            stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy);
+            count = stringscanf(str_date.c_str(), format.c_str(), &yr, &mn, &dy);
+        }
+        if (count < 3) { // not even a date
+            cout << "Error occurred when convert " + str_date + " to time_t!" << endl;
+            return t;
         }
         struct tm* time_info = new tm();
         time_info->tm_year = yr - 1900;
-- 
2.43.0


From c1baf3508eb334b96886da0c98faccd22ce70df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 67/85] fix: whole numbers beyond 32 bits in the options of a
 stored file became other numbers

---
 src/db_mongoc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index c6af322..0974c04 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -493,7 +493,8 @@ void AppendStringOptionsToBson(bson_t* bson_opts, const STRING_MAP& opts,
             BSON_APPEND_UTF8(bson_opts, meta_field.c_str(), iter->second.c_str());
         } else {
             double intpart; // https://stackoverflow.com/a/1521682/4837280
-            if (std::modf(dbl_value, &intpart) == 0.0) {
+            if (dbl_value >= -2147483648. && dbl_value <= 2147483647. &&
+                std::modf(dbl_value, &intpart) == 0.0) {
                 BSON_APPEND_INT32(bson_opts, meta_field.c_str(), CVT_INT(dbl_value));
             } else {
                 BSON_APPEND_DOUBLE(bson_opts, meta_field.c_str(), dbl_value);
-- 
2.43.0


From a38b9b7c1506f7e3502111238ecd5a8aa3c7aca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 68/85] fix: asking for a collection that does not exist leaked
 the database handle

---
 src/db_mongoc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 0974c04..520e274 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -158,6 +158,7 @@ mongoc_collection_t* MongoClient::GetCollection(string const& dbname, string con
     if (!mongoc_database_has_collection(db, collectionname.c_str(), &err)) {
         cout << "MongoClient::GetCollection (" << dbname << ": " << collectionname
                 << ") failed! Error message: " << err.message << endl;
+        mongoc_database_destroy(db);
         return NULL;
     }
     mongoc_database_destroy(db);
-- 
2.43.0


From 0cccea951918ff246ae204212491de0158b01b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 69/85] fix: stores whose names contain dots were not listed
 among the collections

---
 src/db_mongoc.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 520e274..ddbf7e7 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -236,13 +236,12 @@ void MongoDatabase::GetCollectionNames(vector<string>& collnames) {
         }
         vector<string> realnames; // e.g., SPATIAL.files and SPATIAL.chunks has the real GridFS name: SPATIAL
         for (auto it = collnames.begin(); it != collnames.end(); ++it) {
-            vector<string> splitstrs = SplitString((*it), '.');
-            if (splitstrs.back() == "files" || splitstrs.back() == "chunks") {
-                string realname;
-                // Refers to https://stackoverflow.com/a/18703743/4837280
-                std::for_each(splitstrs.begin(), splitstrs.end() - 1,
-                              [&](const std::string &piece){ realname += piece; });
-                string another_coll = splitstrs.back() == "files" ?
+            size_t last_dot = it->rfind('.'); // the name of a GridFS may contain dots
+            if (last_dot == string::npos) { continue; }
+            string suffix = it->substr(last_dot + 1);
+            if (suffix == "files" || suffix == "chunks") {
+                string realname = it->substr(0, last_dot);
+                string another_coll = suffix == "files" ?
                                           realname + ".chunks" :
                                           realname + ".files";
                 if (find(collnames.begin(), collnames.end(), another_coll) == collnames.end()) {
-- 
2.43.0


From 16ebc72bc2a15171d82a921ee16b38dd9788e43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 70/85] fix: listing the files of a missing store crashed

---
 src/db_mongoc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index ddbf7e7..1d50331 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -375,10 +375,10 @@ void MongoGridFs::GetFileNames(vector<string>& files_existed, mongoc_gridfs_t* g
     if (gfs_ != NULL) { gfs = gfs_; }
     if (NULL == gfs) {
         StatusMessage("mongoc_gridfs_t must be provided for MongoGridFs!");
+        return;
     }
     //vector<string> filesExisted;
     bson_t* query = bson_new();
-    bson_init(query);
     mongoc_gridfs_file_list_t* glist = mongoc_gridfs_find_with_opts(gfs, query, NULL);
     mongoc_gridfs_file_t* file;
     while ((file = mongoc_gridfs_file_list_next(glist))) {
-- 
2.43.0


From 3666619ed44cc56f225f58e1add6eeec710bb5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 71/85] fix: counting the records of a collection leaked the
 query

---
 src/db_mongoc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 1d50331..e2621e0 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -281,7 +281,7 @@ mongoc_cursor_t* MongoCollection::ExecuteQuery(const bson_t* b, const bson_t* op
 }
 
 vint MongoCollection::QueryRecordsCount() {
-    const bson_t* q_count = bson_new();
+    bson_t* q_count = bson_new();
     bson_error_t err;
 #if MONGOC_CHECK_VERSION(1, 11, 0)
     int64_t count = mongoc_collection_count_documents(collection_, q_count,
@@ -289,6 +289,7 @@ vint MongoCollection::QueryRecordsCount() {
 #else
     int64_t count = mongoc_collection_count(collection_, MONGOC_QUERY_NONE, q_count, 0, 0, NULL, &err);
 #endif
+    bson_destroy(q_count);
     if (count < 0) {
         cout << "MongoCollection::QueryRecordsCount failed: " << err.message << endl;
         return -1;
-- 
2.43.0


From 41c7e186b4bcdcb1d7e1dc2c82fa3df4e6061e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:44 +0000
Subject: [PATCH 72/85] fix: incompletely read GridFS files were taken for
 complete ones

---
 src/db_mongoc.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index e2621e0..5f1794c 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -429,8 +429,17 @@ bool MongoGridFs::GetStreamData(string const& gfilename, char*& databuf,
         StatusMessage(("MongoGridFs::GetStreamData(" + gfilename + ") failed!").c_str());
         return false;
     }
-    datalength = mongoc_gridfs_file_get_length(gfile);
-    databuf = static_cast<char *>(malloc(datalength));
+    databuf = NULL;
+    int64_t filelength = mongoc_gridfs_file_get_length(gfile);
+    datalength = CVT_VINT(filelength);
+    if (datalength >= 0 && datalength == filelength) { // length of more than 2 GB is not supported
+        databuf = static_cast<char *>(malloc(datalength));
+    }
+    if (NULL == databuf) {
+        StatusMessage(("MongoGridFs::GetStreamData(" + gfilename + ") failed!").c_str());
+        mongoc_gridfs_file_destroy(gfile);
+        return false;
+    }
     mongoc_iovec_t iov;
     iov.iov_base = databuf;
     iov.iov_len = static_cast<u_long>(datalength);
@@ -439,7 +448,13 @@ bool MongoGridFs::GetStreamData(string const& gfilename, char*& databuf,
     vint flag = mongoc_stream_readv(stream, &iov, 1, -1, 10);
     mongoc_stream_destroy(stream);
     mongoc_gridfs_file_destroy(gfile);
-    return flag >= 0;
+    if (flag != datalength) { // error or not all chunks of the file are available
+        StatusMessage(("MongoGridFs::GetStreamData(" + gfilename + ") failed!").c_str());
+        free(databuf);
+        databuf = NULL;
+        return false;
+    }
+    return true;
 }
 
 bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
-- 
2.43.0


From cd609b6a17f2b669d0f48f27636d805cb777038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:44 +0000
Subject: [PATCH 73/85] fix: incompletely written GridFS files were reported as
 saved

---
 src/db_mongoc.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 5f1794c..9ab7ca9 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -472,17 +472,24 @@ bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
     gopt.content_type = "NumericStream";
     gopt.metadata = p;
     gfile = mongoc_gridfs_create_file(gfs, &gopt);
+    if (NULL == gfile || NULL == buf || length < 0) {
+        StatusMessage(("MongoGridFs::WriteStreamData(" + gfilename + ") failed!").c_str());
+        mongoc_gridfs_file_destroy(gfile);
+        return false;
+    }
     mongoc_iovec_t ovec;
     ovec.iov_base = buf;
     ovec.iov_len = static_cast<u_long>(length);
     // Modifying GridFS files is NOT thread-safe. Only one thread or process
     //   can access a GridFS file while it is being modified!
     ssize_t writesize = mongoc_gridfs_file_writev(gfile, &ovec, 1, 0);
-    bool gfilestatus = mongoc_gridfs_file_save(gfile) && // Returns true if successful
+    bool gfilestatus = writesize == length &&
+            mongoc_gridfs_file_save(gfile) && // Returns true if successful
             !mongoc_gridfs_file_error(gfile, &gfileerr); // Returns false if no registered error
-    if (writesize == -1 || !gfilestatus) { // Failed to save GridFS file data
+    if (!gfilestatus) { // Failed to save GridFS file data
+        bool has_error = mongoc_gridfs_file_error(gfile, &gfileerr);
         StatusMessage(("MongoGridFs::WriteStreamData(" + gfilename + ") failed!" +
-                          ". ERROR: " + gfileerr.message).c_str());
+                          ". ERROR: " + (has_error ? gfileerr.message : "unknown")).c_str());
     }
     mongoc_gridfs_file_destroy(gfile);
     return gfilestatus;
-- 
2.43.0


From 2062e41e0c1d10cabc17ba1560efcd7e4919e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:44 +0000
Subject: [PATCH 74/85] fix: GridFS rasters whose data does not fit their
 metadata crashed the reading

---
 src/data_raster.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a1589f8..0125036 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -942,8 +942,8 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
                     STRING_MAP& header_str,
                     const STRING_MAP& opts /* = STRING_MAP() */) {
     // Get stream data and metadata by file name
-    vint length;
-    char* buf = nullptr;
+    vint length = -1;
+    char* buf = nullptr; // allocated by malloc()
     if (!gfs->GetStreamData(filename, buf, length, nullptr, &opts) ||
         nullptr == buf) {
         return false;
@@ -963,17 +963,23 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
             }
         }
     }
-    bson_destroy(bmeta); // Destroy bson of metadata immediately after use
+    if (nullptr != bmeta) bson_destroy(bmeta); // Destroy bson of metadata immediately after use
 
     int n_rows = CVT_INT(header.at(HEADER_RS_NROWS));
     int n_cols = CVT_INT(header.at(HEADER_RS_NCOLS));
     int n_lyrs = CVT_INT(header.at(HEADER_RS_LAYERS));
     int n_cells = CVT_INT(header.at(HEADER_RS_CELLSNUM));
-    if (n_rows < 0 || n_cols < 0 || n_lyrs < 0) { // missing essential metadata
-        delete[] buf;
+    if (n_rows < 0 || n_cols < 0 || n_lyrs < 0 || n_cells < 0) { // missing essential metadata
+        free(buf);
+        return false;
+    }
+    vint64_t expected_count = static_cast<vint64_t>(n_cells) * n_lyrs;
+    if (expected_count == 0 || expected_count > length || length % expected_count != 0) {
+        StatusMessage("Unconsistent of metadata and data length!");
+        free(buf);
         return false;
     }
-    int value_count = n_cells * n_lyrs;
+    int value_count = CVT_INT(expected_count);
     size_t size_dtype = length / value_count;
 
     RasterDataType rstype = RDT_Unknown;
@@ -982,7 +988,7 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
     }
     if (rstype == RDT_Unknown) {
         StatusMessage("Unknown data type in MongoDB GridFS!");
-        delete[] buf;
+        free(buf);
         return false;
     }
 
@@ -1038,10 +1044,10 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
     }
     else {
         StatusMessage("Unconsistent of data type and size!");
-        delete[] buf;
+        free(buf);
         return false;
     }
-    delete[] buf;
+    free(buf);
     return true;
 }
 
-- 
2.43.0


From c675d89fd9c807a044fa3639b3bde509777b9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:44 +0000
Subject: [PATCH 75/85] fix: whole coordinates beyond 32 bits were stored as
 other numbers in the metadata of GridFS rasters

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 0125036..e15d2b5 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1076,6 +1076,7 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     double intpart; // https://stackoverflow.com/a/1521682/4837280
     for (auto iter = header.begin(); iter != header.end(); ++iter) {
         if (!StringMatch(HEADER_RS_NODATA, iter->first)
+            && iter->second >= -2147483648. && iter->second <= 2147483647.
             && std::modf(iter->second, &intpart) == 0.0) {
             // std::modf consider inf as an integer,
             // hence cannot handle -3.40282346639e+38 which is one of commonly used Nodata
-- 
2.43.0


From ba5ab1d6538dd500f0aa823fbb4cdb52309f0ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:44 +0000
Subject: [PATCH 76/85] fix: values out of the range of the specific data type
 became other values in GridFS files, 64-bit types could not be stored

---
 src/data_raster.hpp | 194 ++++++++++++++++++++++++++++----------------
 1 file changed, 123 insertions(+), 71 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index e15d2b5..fa4a5de 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -369,6 +369,23 @@ T CvtNoDataValue(const double nodata) {
     return static_cast<T>(nodata);
 }
 
+/*!
+ * \brief Check if a value is within the range of an integer type
+ *        Note that the upper limits of 32-bit and 64-bit integers may not be exactly represented by floating types.
+ */
+template <typename INTEGER, typename T>
+bool InIntegerRange(const T value) {
+    typedef std::numeric_limits<INTEGER> limits;
+    if (!std::numeric_limits<T>::is_integer) {
+        return value >= static_cast<T>((limits::min)())
+               && static_cast<double>(value) < 2. * static_cast<double>(static_cast<INTEGER>(1) << (limits::digits - 1));
+    }
+    if (value < static_cast<T>(0)) {
+        return limits::is_signed && static_cast<vint64_t>(value) >= static_cast<vint64_t>((limits::min)());
+    }
+    return static_cast<vuint64_t>(value) <= static_cast<vuint64_t>((limits::max)());
+}
+
 #ifdef USE_GDAL
 /*!
  * \brief Read single raster file by GDAL
@@ -597,23 +614,6 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
     return true;
 }
 
-/*!
- * \brief Check if a value is within the range of an integer type
- *        Note that the upper limits of 32-bit and 64-bit integers may not be exactly represented by floating types.
- */
-template <typename INTEGER, typename T>
-bool InIntegerRange(const T value) {
-    typedef std::numeric_limits<INTEGER> limits;
-    if (!std::numeric_limits<T>::is_integer) {
-        return value >= static_cast<T>((limits::min)())
-               && static_cast<double>(value) < 2. * static_cast<double>(static_cast<INTEGER>(1) << (limits::digits - 1));
-    }
-    if (value < static_cast<T>(0)) {
-        return limits::is_signed && static_cast<vint64_t>(value) >= static_cast<vint64_t>((limits::min)());
-    }
-    return static_cast<vuint64_t>(value) <= static_cast<vuint64_t>((limits::max)());
-}
-
 /*!
  * \brief Write single geotiff file
  * If the file exists, delete it first.
@@ -927,6 +927,64 @@ bool WriteRasterToFile(const string& filename, const STRDBL_MAP& header,
 }
 
 #ifdef USE_MONGODB
+/*!
+ * \brief Convert values to an integer type, the nodata value is replaced if it is beyond the range
+ * \param[in] values Array of values
+ * \param[in] n Length of array
+ * \param[in,out] nodata nodata value before and after the conversion
+ * \return Newly allocated array by malloc(), nullptr if any valid value is beyond the range
+ */
+template <typename INTEGER, typename T>
+char* ConvertToInteger(const T* values, const int n, double& nodata) {
+    typedef std::numeric_limits<INTEGER> limits;
+    const bool change_nodata = !InIntegerRange<INTEGER>(nodata);
+    const INTEGER new_nodata = change_nodata
+                                   ? (limits::is_signed ? (limits::min)() : (limits::max)())
+                                   : static_cast<INTEGER>(nodata);
+    INTEGER* converted = static_cast<INTEGER*>(malloc(sizeof(INTEGER) * (n > 0 ? n : 1)));
+    if (nullptr == converted) { return nullptr; }
+    for (int i = 0; i < n; i++) {
+        if (FloatEqual(values[i], nodata)) {
+            converted[i] = new_nodata;
+            continue;
+        }
+        if (!InIntegerRange<INTEGER>(values[i])
+            || (change_nodata && static_cast<INTEGER>(values[i]) == new_nodata)) {
+            free(converted);
+            return nullptr;
+        }
+        converted[i] = static_cast<INTEGER>(values[i]);
+    }
+    if (change_nodata) { nodata = static_cast<double>(new_nodata); }
+    return reinterpret_cast<char*>(converted);
+}
+
+/*!
+ * \brief Convert values to a floating point type
+ * \sa ConvertToInteger
+ */
+template <typename FLOATING, typename T>
+char* ConvertToFloating(const T* values, const int n, double& nodata) {
+    const double limit = static_cast<double>((std::numeric_limits<FLOATING>::max)());
+    const bool change_nodata = nodata < -limit || nodata > limit;
+    FLOATING* converted = static_cast<FLOATING*>(malloc(sizeof(FLOATING) * (n > 0 ? n : 1)));
+    if (nullptr == converted) { return nullptr; }
+    for (int i = 0; i < n; i++) {
+        if (change_nodata && FloatEqual(values[i], nodata)) {
+            converted[i] = static_cast<FLOATING>(MISSINGFLOAT);
+            continue;
+        }
+        if (static_cast<double>(values[i]) < -limit || static_cast<double>(values[i]) > limit
+            || (change_nodata && static_cast<FLOATING>(values[i]) == static_cast<FLOATING>(MISSINGFLOAT))) {
+            free(converted);
+            return nullptr;
+        }
+        converted[i] = static_cast<FLOATING>(values[i]);
+    }
+    if (change_nodata) { nodata = MISSINGFLOAT; }
+    return reinterpret_cast<char*>(converted);
+}
+
 /*!
  * \brief Read GridFs file from MongoDB
  * \param[in] gfs MongoGridFs pointer
@@ -1071,6 +1129,51 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     if (curopts.find(HEADER_RSOUT_DATATYPE) == curopts.end()) {
         UpdateStringMap(curopts, HEADER_RSOUT_DATATYPE, RasterDataTypeToString(temp_type));
     }
+    // Check DATATYPE in metadata is consistent with T, transform if necessary
+    char* buf = nullptr;
+    vint buflength = -1;
+    bool transformed = true;
+    double nodata = header.find(HEADER_RS_NODATA) != header.end() ? header.at(HEADER_RS_NODATA) : NODATA_VALUE;
+    RasterDataType opt_type = StringToRasterDataType(curopts.at(HEADER_RSOUT_DATATYPE));
+    if (opt_type == temp_type) {
+        buf = reinterpret_cast<char*>(values);
+        buflength = datalength * sizeof(T);
+        transformed = false;
+    } else if (opt_type == RDT_UInt8) {
+        buf = ConvertToInteger<vuint8_t>(values, datalength, nodata);
+        buflength = datalength * sizeof(vuint8_t);
+    } else if (opt_type == RDT_Int8) {
+        buf = ConvertToInteger<vint8_t>(values, datalength, nodata);
+        buflength = datalength * sizeof(vint8_t);
+    } else if (opt_type == RDT_UInt16) {
+        buf = ConvertToInteger<vuint16_t>(values, datalength, nodata);
+        buflength = datalength * sizeof(vuint16_t);
+    } else if (opt_type == RDT_Int16) {
+        buf = ConvertToInteger<vint16_t>(values, datalength, nodata);
+        buflength = datalength * sizeof(vint16_t);
+    } else if (opt_type == RDT_UInt32) {
+        buf = ConvertToInteger<vuint32_t>(values, datalength, nodata);
+        buflength = datalength * sizeof(vuint32_t);
+    } else if (opt_type == RDT_Int32) {
+        buf = ConvertToInteger<vint32_t>(values, datalength, nodata);
+        buflength = datalength * sizeof(vint32_t);
+    } else if (opt_type == RDT_UInt64) {
+        buf = ConvertToInteger<vuint64_t>(values, datalength, nodata);
+        buflength = datalength * sizeof(vuint64_t);
+    } else if (opt_type == RDT_Int64) {
+        buf = ConvertToInteger<vint64_t>(values, datalength, nodata);
+        buflength = datalength * sizeof(vint64_t);
+    } else if (opt_type == RDT_Float) {
+        buf = ConvertToFloating<float>(values, datalength, nodata);
+        buflength = datalength * sizeof(float);
+    } else if (opt_type == RDT_Double) {
+        buf = ConvertToFloating<double>(values, datalength, nodata);
+        buflength = datalength * sizeof(double);
+    }
+    if (nullptr == buf) {
+        StatusMessage("The specific raster output data type is not allowed!");
+        return false;
+    }
     gfs->RemoveFile(filename, nullptr, curopts);
     bson_t p = BSON_INITIALIZER;
     double intpart; // https://stackoverflow.com/a/1521682/4837280
@@ -1083,59 +1186,8 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
             BSON_APPEND_INT32(&p, iter->first.c_str(), CVT_INT(iter->second));
         }
         else {
-            BSON_APPEND_DOUBLE(&p, iter->first.c_str(), iter->second);
-        }
-    }
-    // Check DATATYPE in metadata is consistent with T, transform if necessary
-    char* buf = nullptr;
-    vint buflength = -1;
-    bool transformed = true;
-    RasterDataType opt_type = StringToRasterDataType(curopts.at(HEADER_RSOUT_DATATYPE));
-    if (opt_type == temp_type) {
-        buf = reinterpret_cast<char*>(values);
-        buflength = datalength * sizeof(T);
-        transformed = false;
-    } else {
-        if (opt_type == RDT_UInt8) {
-            vuint8_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint8_t);
-        } else if (opt_type == RDT_Int8) {
-            vint8_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint8_t);
-        } else if (opt_type == RDT_UInt16) {
-            vuint16_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint16_t);
-        } else if (opt_type == RDT_Int16) {
-            vint16_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint16_t);
-        } else if (opt_type == RDT_UInt32) {
-            vuint32_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vuint32_t);
-        } else if (opt_type == RDT_Int32) {
-            vint32_t* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(vint32_t);
-        } else if (opt_type == RDT_Float) {
-            float* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(float);
-        } else if (opt_type == RDT_Double) {
-            double* newdata = nullptr;
-            Initialize1DArray(datalength, newdata, values);
-            buf = reinterpret_cast<char*>(newdata);
-            buflength = datalength * sizeof(double);
+            BSON_APPEND_DOUBLE(&p, iter->first.c_str(),
+                               StringMatch(HEADER_RS_NODATA, iter->first) ? nodata : iter->second);
         }
     }
     // Add user-specific key-values into metadata
@@ -1150,7 +1202,7 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
         try_times++;
     }
     bson_destroy(&p);
-    if (transformed) { delete[] buf; }
+    if (transformed) { free(buf); }
     return gstatus;
 }
 
-- 
2.43.0


From 7ba3c9c277a62c35e097dcbfeddc232dda07e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:12 +0000
Subject: [PATCH 77/85] fix: refused GridFS rasters leaked their values

---
 src/data_raster.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index fa4a5de..732fabf 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3704,7 +3704,10 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
     no_data_value_ = CvtNoDataValue<T>(headers_.at(HEADER_RS_NODATA));
     n_cells_ = CVT_INT(headers_.at(HEADER_RS_CELLSNUM));
 
-    if (include_nodata && n_cells_ != fullsize) { return false; }
+    if (include_nodata && n_cells_ != fullsize) {
+        Release1DArray(dbdata);
+        return false;
+    }
     if (n_cells_ != fullsize) { calc_pos_ = true; }
 
     // check the valid values count and determine whether we can read directly.
@@ -3729,7 +3732,10 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
         mask_pos_subset = false;
     }
 
-    if (!include_nodata && (nullptr == pos_data_ || nullptr == pos_idx_)) { return false; }
+    if (!include_nodata && (nullptr == pos_data_ || nullptr == pos_idx_)) {
+        Release1DArray(dbdata);
+        return false;
+    }
 
     if (n_lyrs_ == 1) {
         is_2draster = false;
-- 
2.43.0


From f7508953d834b2d98765fd45a68a4030ddba4728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:12 +0000
Subject: [PATCH 78/85] fix: GridFS rasters of another extent were read with
 the positions of the mask if the counts of cells agree

---
 src/data_raster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 732fabf..fa78d51 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3712,7 +3712,8 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
 
     // check the valid values count and determine whether we can read directly.
     bool mask_pos_subset = true;
-    if (nullptr != mask_ && calc_pos_ && use_mask_ext_ && n_cells_ == mask_->GetValidNumber()) {
+    if (nullptr != mask_ && calc_pos_ && use_mask_ext_ && n_cells_ == mask_->GetValidNumber()
+        && n_rows == mask_->GetRows() && n_cols == mask_->GetCols()) {
         store_pos_ = false;
         mask_->GetRasterPositionData(&n_cells_, &pos_data_);
         mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
-- 
2.43.0


From 24020481887d029618b3323fe190ce9a591f8fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:12 +0000
Subject: [PATCH 79/85] fix: GridFS rasters of valid values only had a wrong
 count of cells in their metadata

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index fa78d51..c66b74e 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3480,7 +3480,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
     }
     STRDBL_MAP tmpheader;
     CopyHeader(headers_, tmpheader);
-    if (include_nodata) { UpdateHeader(tmpheader, HEADER_RS_CELLSNUM, n_fullsize); }
+    UpdateHeader(tmpheader, HEADER_RS_CELLSNUM, include_nodata ? n_fullsize : n_cells_);
     bool saved = WriteStreamDataAsGridfs(gfs, core_name, tmpheader,
                                          data_1d, datalength, options_);
     if (outputdirectly) {
-- 
2.43.0


From 7c30c17f1de7b87c568abd95a1aef13dfc67195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:12 +0000
Subject: [PATCH 80/85] fix: subsets that can not be stored in GridFS were
 reported as stored or used uninitialised lengths

---
 src/data_raster.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index c66b74e..48c7bce 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3524,14 +3524,16 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         T* data1d = nullptr;
         int sublyrs;
         int sublen;
-        bool flag = PrepareCombSubsetData(&data1d, &sublen, &sublyrs,
-                                          out_origin, include_nodata, recls, default_value);
+        if (!PrepareCombSubsetData(&data1d, &sublen, &sublyrs,
+                                   out_origin, include_nodata, recls, default_value)) {
+            return false;
+        }
         STRDBL_MAP tmpheader;
         CopyHeader(headers_, tmpheader);
         UpdateHeader(tmpheader, HEADER_RS_LAYERS, sublyrs);
         UpdateHeader(tmpheader, HEADER_RS_CELLSNUM, sublen / sublyrs);
-        flag = flag && WriteStreamDataAsGridfs(gfs, "0_" + outnameact,
-                                               tmpheader, data1d, sublen, options_);
+        bool flag = WriteStreamDataAsGridfs(gfs, "0_" + outnameact,
+                                            tmpheader, data1d, sublen, options_);
         Release1DArray(data1d);
         return flag;
     }
@@ -3547,15 +3549,16 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         int tmplyrs;
         if (!PrepareSubsetData(it->first, it->second, &tmpdata1d, &tmpdatalen, &tmplyrs,
                                out_origin, include_nodata, recls, default_value)) {
+            flag = false;
             continue;
         }
         UpdateHeader(subheader, HEADER_RS_LAYERS, tmplyrs);
         UpdateHeader(subheader, HEADER_RS_CELLSNUM, tmpdatalen / tmplyrs);
         string tmpfname = itoa(CVT_VINT(it->first)) + "_" + outnameact;
-        flag = flag && WriteStreamDataAsGridfs(gfs, tmpfname, subheader, tmpdata1d, tmpdatalen, options_);
+        flag = WriteStreamDataAsGridfs(gfs, tmpfname, subheader, tmpdata1d, tmpdatalen, options_) && flag;
         if (nullptr != tmpdata1d) { Release1DArray(tmpdata1d); }
     }
-    return true;
+    return flag;
 }
 
 #endif /* USE_MONGODB */
-- 
2.43.0


From bb80ab6dac09b1df94ee14453571e0f9ac10c22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 81/85] fix: reading GridFS values into a subset overran its
 former values of fewer layers

---
 src/data_raster.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 1947ddc..bef820b 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -301,6 +301,7 @@ bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, con
         Release1DArray(dbdata);
         return false;
     }
+    ReleaseData(); // former values may have other layer count
     n_lyrs = db_nlyrs;
     if (n_lyrs == 1) {
         if (n_cells == db_ncells) {
@@ -308,18 +309,14 @@ bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, con
             Release1DArray(dbdata);
             return set_success;
         }
-        if (nullptr == data_) {
-            Initialize1DArray(n_cells, data_, NODATA_VALUE);
-        }
+        Initialize1DArray(n_cells, data_, NODATA_VALUE);
         for (int i = 0; i < n_cells; i++) {
             //data_[i] = dbdata[local_pos_[i][0] * ncols + local_pos_[i][1]];
             data_[i] = dbdata[local_posidx_[i]];
         }
     }
     else {
-        if (nullptr == data2d_) {
-            Initialize2DArray(n_cells, n_lyrs, data2d_, NODATA_VALUE);
-        }
+        Initialize2DArray(n_cells, n_lyrs, data2d_, NODATA_VALUE);
         for (int i = 0; i < n_cells; i++) {
             for (int j = 0; j < n_lyrs; j++) {
                 if (nfull == db_ncells) { // consider data from MongoDB is fullsize data
-- 
2.43.0


From d1f896413823d67e98f65b05d92c4dcc7c785f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:06 +0000
Subject: [PATCH 82/85] fix: GridFS rasters of valid values only could not be
 read if all cells are valid

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 48c7bce..201f41e 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3711,7 +3711,7 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
         Release1DArray(dbdata);
         return false;
     }
-    if (n_cells_ != fullsize) { calc_pos_ = true; }
+    if (!include_nodata) { calc_pos_ = true; } // even if all cells are valid
 
     // check the valid values count and determine whether we can read directly.
     bool mask_pos_subset = true;
-- 
2.43.0


From 660e0f7c376b59e483e40e6ccc04253bb3dae3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:33 +0000
Subject: [PATCH 83/85] fix: rasters without a specific data type could not be
 stored in GridFS

---
 src/data_raster.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 201f41e..494c4fc 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3422,6 +3422,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
     }
     CopyStringMap(opts, options_); // Update metadata
     if (options_.find(HEADER_RSOUT_DATATYPE) == options_.end()
+        || options_.at(HEADER_RSOUT_DATATYPE).empty()
         || StringMatch("Unknown", options_.at(HEADER_RSOUT_DATATYPE))) {
         UpdateStrHeader(options_, HEADER_RSOUT_DATATYPE,
                         RasterDataTypeToString(TypeToRasterDataType(typeid(T))));
@@ -3511,6 +3512,7 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         UpdateStringMap(options_, HEADER_INC_NODATA, "FALSE");
     }
     if (options_.find(HEADER_RSOUT_DATATYPE) == options_.end()
+        || options_.at(HEADER_RSOUT_DATATYPE).empty()
         || StringMatch("Unknown", options_.at(HEADER_RSOUT_DATATYPE))) {
         UpdateStrHeader(options_, HEADER_RSOUT_DATATYPE,
                         RasterDataTypeToString(TypeToRasterDataType(typeid(T))));
-- 
2.43.0


From d80cc04f64fcffc0f9da3baa7a609ac9b58db0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 84/85] fix: GridFS rasters of another place were read with the
 positions of a mask of the same size

---
 src/data_raster.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 494c4fc..4c9e58d 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3718,7 +3718,10 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
     // check the valid values count and determine whether we can read directly.
     bool mask_pos_subset = true;
     if (nullptr != mask_ && calc_pos_ && use_mask_ext_ && n_cells_ == mask_->GetValidNumber()
-        && n_rows == mask_->GetRows() && n_cols == mask_->GetCols()) {
+        && n_rows == mask_->GetRows() && n_cols == mask_->GetCols()
+        && FloatEqual(headers_.at(HEADER_RS_XLL), mask_->GetXllCenter())
+        && FloatEqual(headers_.at(HEADER_RS_YLL), mask_->GetYllCenter())
+        && FloatEqual(headers_.at(HEADER_RS_CELLSIZE), mask_->GetCellWidth())) {
         store_pos_ = false;
         mask_->GetRasterPositionData(&n_cells_, &pos_data_);
         mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
-- 
2.43.0


From 6b7229144a127111c021336ec9f95bd704da560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 85/85] fix: masking by a layer without any valid cell threw
 std::length_error instead of failing

---
 src/data_raster.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 4c9e58d..be1fd6a 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4085,6 +4085,10 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     // Get the position data from mask
     if (!mask_->PositionsCalculated()) { mask_->SetCalcPositions(); }
     mask_->GetRasterPositionData(&mask_ncells, &valid_pos);
+    if (mask_ncells <= 0 || nullptr == valid_pos) {
+        StatusMessage("The mask layer has no valid cells!");
+        return -1;
+    }
     // Masked raster data have the same size with mask's valid positions
     vector<T> values(mask_ncells);             // store layer 1 data
     vector<vector<T> > values_2d(mask_ncells); // store layer 2~n data (excluding the first layer)
-- 
2.43.0

