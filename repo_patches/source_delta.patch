From ef3df3d153e0bbfaee83640366f2ac46cca2ba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 01/24] fix: close the descriptor of a leftover memory only
 once

cleanUpMem already closed it; the second close could hit a descriptor that the
application had opened in the meantime.
---
 EigenIPC/src/MemUtils.hpp | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 71f9722..4a55eef 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -307,15 +307,6 @@ namespace EigenIPC{
 
                 }
 
-                if (shm_fd != -1) {
-                    // Close the file descriptor opened for checking existence
-
-                    ::close(shm_fd);
-
-                    return_code = return_code + ReturnCode::MEMFDCLOSED;
-
-                }
-
             }
 
         }
-- 
2.43.0


From caae44e8f5c47569980bfcd0bf83a21220a1c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 02/24] fix: release the data semaphore only on the first run
 of a server

Every stop/run cycle posted it once more, so that several parties could hold
the data lock at the same time.
---
 EigenIPC/include/EigenIPC/Server.hpp |  3 +++
 EigenIPC/src/Server.cpp              | 12 +++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 9b28538..53aefa5 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -113,6 +113,9 @@ namespace EigenIPC{
 
             bool _running = false;
 
+            bool _holds_data_sem = false; // whether the data semaphore
+            // acquired at construction is still held by this server
+
             bool _force_reconnection = false;
 
             bool _data_acquired = false; // aux. variable,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index c47187e..a0026af 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -108,6 +108,8 @@ namespace EigenIPC {
                         _data_sem,
                         _verbose); 
 
+        _holds_data_sem = true;
+
         _return_code = _return_code + ReturnCode::RESET; // resets to None
 
         MemUtils::checkMem(_mem_config.mem_path,
@@ -185,10 +187,18 @@ namespace EigenIPC {
             // other servers trying to transition to running state will fail
             // due to the sever semaphore being acquired
 
-            _releaseSem(_mem_config.mem_path_data_sem,
+            if (_holds_data_sem) {
+
+                // only when run for the first time: releasing the semaphore again when
+                // the server is restarted would let two parties acquire it
+                _holds_data_sem = false;
+
+                _releaseSem(_mem_config.mem_path_data_sem,
                         _data_sem,
                         _verbose); // data can now be acquired by clients
 
+            }
+
             // set the running flag to true
             _running = true;
             _isrunning_view(0, 0) = 1; // for the clients
-- 
2.43.0


From f4aaf3ba795f34a826d3a0fa35c2240c06f591f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 03/24] fix: refuse clients whose element type differs but has
 the same size

Only the element size was compared, so that a float client could attach to an
int server (and vice versa) and exchange garbage.
---
 EigenIPC/src/Client.cpp   | 12 +++++-------
 EigenIPC/src/MemUtils.hpp | 26 ++++++++++++++++++++++++++
 EigenIPC/src/Server.cpp   |  2 +-
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 4e777a5..d4c43fd 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -518,14 +518,12 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_checkDType()
     {
-        if (_dtype_view(0, 0) != sizeof(Scalar)) {
+        if (_dtype_view(0, 0) != static_cast<int>(CppTypeToDType<Scalar>::value)) {
 
-            // not impeccable: different types may have in general different sizes
-
-            std::string error = std::string("Client initialized with element size of ") +
-                    std::to_string(sizeof(Scalar)) +
-                    std::string(", while the Server was initialized with size ") +
-                    std::to_string(_dtype_view(0, 0));
+            std::string error = std::string("Client initialized with data type ") +
+                    MemUtils::getDTypeName(static_cast<int>(CppTypeToDType<Scalar>::value)) +
+                    std::string(", while the Server was initialized with data type ") +
+                    MemUtils::getDTypeName(_dtype_view(0, 0));
 
             _journal.log(__FUNCTION__,
                          error,
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 4a55eef..b4b8a91 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -70,6 +70,32 @@ namespace EigenIPC{
             }
         }
 
+        inline std::string getDTypeName(int dtype) {
+
+            switch(static_cast<DType>(dtype)) {
+
+                case DType::Float:
+
+                    return "EigenIPC::DType::Float";
+
+                case DType::Double:
+
+                    return "EigenIPC::DType::Double";
+
+                case DType::Int:
+
+                    return "EigenIPC::DType::Int";
+
+                case DType::Bool:
+
+                    return "EigenIPC::DType::Bool";
+
+                default:
+
+                    return "Unknown data type";
+            }
+        }
+
         inline void failWithCode(ReturnCode fail_code,
                             Journal journal,
                             std::string calling_fun,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index a0026af..434ace5 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -844,7 +844,7 @@ namespace EigenIPC {
 
             _mem_layout_view(0, 0) = _mem_layout; // mem layout
 
-            _dtype_view(0, 0) = sizeof(Scalar);
+            _dtype_view(0, 0) = static_cast<int>(CppTypeToDType<Scalar>::value);
 
             _return_code = _return_code + ReturnCode::RESET;
 
-- 
2.43.0


From 587d3f58c2feab3ecd19ad20f7339868c782aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 04/24] fix: give back every descriptor, mapping, semaphore and
 lock, also after a failure

---
 EigenIPC/include/EigenIPC/Client.hpp |  20 ++--
 EigenIPC/include/EigenIPC/Server.hpp |  23 ++--
 EigenIPC/src/Client.cpp              | 158 ++++++++++++++++-----------
 EigenIPC/src/MemUtils.hpp            |  70 +++++++++++-
 EigenIPC/src/Server.cpp              | 150 ++++++++++++++++++++-----
 5 files changed, 310 insertions(+), 111 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index f869b82..88ec515 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -110,8 +110,6 @@ namespace EigenIPC{
 
             bool _safe = false;
 
-            bool _terminated = false;
-
             bool _attached = false;
             
             bool _data_acquired = false; // aux. variable,
@@ -120,13 +118,13 @@ namespace EigenIPC{
             int _n_rows = -1;
             int _n_cols = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1;
 
             static const int _mem_layout = Layout;
 
@@ -146,7 +144,7 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _data_sem = SEM_FAILED; // semaphore for safe data access
 
             ReturnCode _return_code = ReturnCode::NONE; // overwritten by all methods
             // this is to avoid dyn. allocation
@@ -197,6 +195,8 @@ namespace EigenIPC{
 
             void _initSems();
 
+            void _attach();
+
             void _closeSems();
 
             void _cleanMetaMem();
diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 53aefa5..b65f2eb 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -126,13 +126,13 @@ namespace EigenIPC{
 
             int _n_clients = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1;
 
             static const int _mem_layout = Layout;
 
@@ -147,8 +147,8 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _srvr_sem; // semaphore for servers uniqueness
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _srvr_sem = SEM_FAILED; // semaphore for servers uniqueness
+            sem_t* _data_sem = SEM_FAILED; // semaphore for safe data access
 
             Journal _journal; // for rt-friendly logging
 
@@ -192,11 +192,14 @@ namespace EigenIPC{
                                 bool verbose = false);
             void _releaseData();
 
-            void _closeSems();
+            void _closeSems(bool unlink);
 
             void _cleanMetaMem();
             void _cleanMems();
 
+            void _init(); // acquires all the resources of the server
+            void _abortInit(); // gives back whatever a failed initialization took
+
             void _checkIsRunning();
 
     };
diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index d4c43fd..c84fbd1 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -72,17 +72,12 @@ namespace EigenIPC {
         _sem_timeout.tv_sec = 0;
         _sem_timeout.tv_nsec = timeoutInNanoseconds % 1000000000;
 
-        _terminated = false; // just in case
-
     }
 
     template <typename Scalar, int Layout>
     Client<Scalar, Layout>::~Client() {
 
-        if (!_terminated) {
-
-            close();
-        }
+        close();
 
     }
 
@@ -118,33 +113,21 @@ namespace EigenIPC {
 
         }
 
-        _initMetaMem(); // initializes meta-memory
-
-        _waitForServer();  // waits until server is properly initialized
-
-        _initSems(); // creates necessary semaphores
-
-        // acquire shared data semaphore or waits for it
-        // (at this point is actually guaranteed to be free anyway)
-        _acquireData(true, true); // blocking
+        if (_attached) {
 
-        _checkDType(); // checks data type consistency
+            return; // nothing to do
+        }
 
-        _checkMemLayout(); // checks memory layout consistency
+        try {
 
-        _n_rows = _n_rows_view(0, 0);
-        _n_cols = _n_cols_view(0, 0);
-        _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
+            _attach();
 
-        // we have now all the info to create the shared tensor
-        _initDataMem();
+        } catch (...) {
 
-        _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
-                                            _n_cols); // used to hold
-        // a copy of the shared tensor data
+            _cleanMems(); // nothing stays open
 
-        // releasing data semaphore so that other clients/the server can access the tensor
-        _releaseData();
+            throw;
+        }
 
         _attached = true;
 
@@ -161,6 +144,50 @@ namespace EigenIPC {
         }
     }
 
+    template <typename Scalar, int Layout>
+    void Client<Scalar, Layout>::_attach()
+    {
+
+        _initMetaMem(); // initializes meta-memory
+
+        _waitForServer();  // waits until server is properly initialized
+
+        _initSems(); // creates necessary semaphores
+
+        // acquire shared data semaphore or waits for it
+        // (at this point is actually guaranteed to be free anyway)
+        _acquireData(true, true); // blocking
+
+        try {
+
+            _checkDType(); // checks data type consistency
+
+            _checkMemLayout(); // checks memory layout consistency
+
+            _n_rows = _n_rows_view(0, 0);
+            _n_cols = _n_cols_view(0, 0);
+
+            // we have now all the info to create the shared tensor
+            _initDataMem();
+
+            _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
+                                                _n_cols); // used to hold
+            // a copy of the shared tensor data
+
+        } catch (...) {
+
+            _releaseData(); // the others can go on
+
+            throw;
+        }
+
+        _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
+
+        // releasing data semaphore so that other clients/the server can access the tensor
+        _releaseData();
+
+    }
+
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::detach()
     {
@@ -188,6 +215,8 @@ namespace EigenIPC {
 
             _attached = false;
 
+            _cleanMems(); // gives back all the resources of this attachment
+
             if (_verbose &&
             _vlevel > VLevel::V1) {
 
@@ -695,11 +724,17 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_cleanMetaMem()
     {
-        // closing file descriptors and but not unlinking
+        // removing mappings and closing file descriptors, but not unlinking
         // memory
 
         _return_code = _return_code + ReturnCode::RESET;
 
+        MemUtils::unmapMem(_n_rows_view);
+        MemUtils::unmapMem(_n_cols_view);
+        MemUtils::unmapMem(_n_clients_view);
+        MemUtils::unmapMem(_dtype_view);
+        MemUtils::unmapMem(_isrunning_view);
+        MemUtils::unmapMem(_mem_layout_view);
 
         MemUtils::cleanUpMem(_mem_config.mem_path_nrows,
                              _nrows_shm_fd,
@@ -758,37 +793,36 @@ namespace EigenIPC {
     void Client<Scalar, Layout>::_cleanMems()
     {
 
-        if (!_terminated) {
+        // only what this client actually holds is given back, so that
+        // this can be called at any time
 
-            _return_code = _return_code + ReturnCode::RESET;
-
-            MemUtils::cleanUpMem(_mem_config.mem_path,
-                                _data_shm_fd,
-                                _journal,
-                                _return_code,
-                                _verbose,
-                                _vlevel,
-                                false); // closing but no unlinking
+        _return_code = _return_code + ReturnCode::RESET;
 
-            _return_code = _return_code + ReturnCode::RESET;
+        MemUtils::unmapMem(_tensor_view);
 
-            _cleanMetaMem(); // closes, but doesn't unlink, aux. data
+        MemUtils::cleanUpMem(_mem_config.mem_path,
+                            _data_shm_fd,
+                            _journal,
+                            _return_code,
+                            _verbose,
+                            _vlevel,
+                            false); // closing but no unlinking
 
-            _closeSems(); // closing semaphores
+        _return_code = _return_code + ReturnCode::RESET;
 
-            if (_verbose &&
-                _vlevel > VLevel::V1) {
+        _cleanMetaMem(); // closes, but doesn't unlink, aux. data
 
-                std::string info = std::string("Cleaning after client at ") +
-                        _mem_config.mem_path;
+        _closeSems(); // closing semaphores
 
-                _journal.log(__FUNCTION__,
-                    info,
-                    LogType::STAT);
+        if (_verbose &&
+            _vlevel > VLevel::V1) {
 
-            }
+            std::string info = std::string("Cleaning after client at ") +
+                    _mem_config.mem_path;
 
-            _terminated = true;
+            _journal.log(__FUNCTION__,
+                info,
+                LogType::STAT);
 
         }
 
@@ -800,14 +834,7 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
-        if (!isin(ReturnCode::MEMCREATFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMSETFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMMAPFAIL,
-                 _return_code)) {
-
-            MemUtils::initMem<Scalar, Layout>(_n_rows,
+        MemUtils::initMem<Scalar, Layout>(_n_rows,
                             _n_cols,
                             _mem_config.mem_path,
                             _data_shm_fd,
@@ -817,10 +844,7 @@ namespace EigenIPC {
                             _verbose,
                             _vlevel);
 
-            _return_code = _return_code + ReturnCode::RESET;
-
-        }
-        else {
+        if (MemUtils::isMemInitFailed(_return_code)) {
 
             MemUtils::failWithCode(_return_code,
                                    _journal,
@@ -828,6 +852,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
@@ -928,6 +954,14 @@ namespace EigenIPC {
                           _verbose,
                           _vlevel);
 
+        if (isin(ReturnCode::SEMOPENFAIL, _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
     }
 
     template <typename Scalar, int Layout>
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index b4b8a91..1505ec4 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -234,6 +234,32 @@ namespace EigenIPC{
 
         }
 
+        inline bool isMemInitFailed(ReturnCode return_code) {
+
+            return isin(ReturnCode::MEMCREATFAIL, return_code) ||
+                isin(ReturnCode::MEMSETFAIL, return_code) ||
+                isin(ReturnCode::MEMMAPFAIL, return_code);
+
+        }
+
+        template <typename Scalar,
+                  int Layout = MemLayoutDefault>
+        void unmapMem(MMap<Scalar, Layout>& tensor_view) {
+
+            // removes the mapping (for this process only)
+
+            if (tensor_view.data() != nullptr) {
+
+                munmap(tensor_view.data(),
+                    sizeof(Scalar) * tensor_view.rows() * tensor_view.cols());
+
+                new (&tensor_view) MMap<Scalar, Layout>(nullptr,
+                                            tensor_view.rows(),
+                                            tensor_view.cols());
+            }
+
+        }
+
         inline void cleanUpMem(
                         const std::string& mem_path,
                         int& shm_fd,
@@ -243,9 +269,16 @@ namespace EigenIPC{
                         VLevel vlevel = Journal::VLevel::V0,
                         bool unlink = false) {
 
+            if (shm_fd == -1) {
+
+                return; // not opened by this process
+            }
+
             // Closing the file descriptor (for this process only)
             ::close(shm_fd);
 
+            shm_fd = -1;
+
             return_code = return_code + ReturnCode::MEMFDCLOSED;
 
             if (verbose
@@ -543,8 +576,15 @@ namespace EigenIPC{
                          VLevel vlevel = Journal::VLevel::V0,
                          bool unlink = false) {
 
+            if (sem == SEM_FAILED) {
+
+                return; // not opened by this process
+            }
+
             sem_close(sem); // closes semaphore for the current process
 
+            sem = SEM_FAILED;
+
             return_code = return_code + ReturnCode::SEMCLOSE;
 
             if (unlink) {
@@ -608,7 +648,7 @@ namespace EigenIPC{
             }
 
             // Release the semaphore
-            if (sem_post(sem) == -1) {
+            if (sem == SEM_FAILED || sem_post(sem) == -1) {
 
                 // Handle semaphore release error
 
@@ -649,6 +689,13 @@ namespace EigenIPC{
 
             return_code = return_code + ReturnCode::SEMACQTRY;
 
+            if (sem == SEM_FAILED) { // not open
+
+                return_code = return_code + ReturnCode::SEMOPENFAIL + ReturnCode::SEMACQFAIL;
+
+                return -1;
+            }
+
             int result = sem_wait(sem);
 
             if (result == 0) {
@@ -688,6 +735,13 @@ namespace EigenIPC{
 
             return_code = return_code + ReturnCode::SEMACQTRY;
 
+            if (sem == SEM_FAILED) { // not open
+
+                return_code = return_code + ReturnCode::SEMOPENFAIL + ReturnCode::SEMACQFAIL;
+
+                return -1;
+            }
+
             int result = sem_timedwait(sem,
                                 &timeout);
 
@@ -727,11 +781,18 @@ namespace EigenIPC{
 
             // this is nonblocking --> one-shot acquisition 
 
+            return_code = return_code + ReturnCode::SEMACQTRY;
+
+            if (sem == SEM_FAILED) { // not open
+
+                return_code = return_code + ReturnCode::SEMOPENFAIL + ReturnCode::SEMACQFAIL;
+
+                return -1;
+            }
+
             // try to acquire the semaphore
             int result = sem_trywait(sem);
 
-            return_code = return_code + ReturnCode::SEMACQTRY;
-
             if (result == 0) {
                 
                 // Successfully acquired the semaphore.
@@ -841,7 +902,8 @@ namespace EigenIPC{
 
                 }
 
-                if (force_reconnection) {
+                if (force_reconnection &&
+                    !isin(ReturnCode::SEMOPENFAIL, return_code)) {
                     
                     return_code = return_code - ReturnCode::SEMACQFAIL; // removing acquisition fail
                     return_code = return_code - ReturnCode::SEMACQTIMEOUT;
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 434ace5..79eae2d 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -102,6 +102,37 @@ namespace EigenIPC {
         _sem_timeout.tv_sec = 0;
         _sem_timeout.tv_nsec = timeoutInNanoseconds % 1000000000;
 
+        try {
+
+            _init();
+
+        } catch (...) {
+
+            _abortInit(); // nothing stays open or locked
+
+            throw;
+        }
+
+        _terminated = false; // just in case
+
+        if (_verbose &&
+            _vlevel > VLevel::V1) {
+
+            std::string info = std::string("Server at ") +
+                    _mem_config.mem_path + std::string(" initialized. Ready to run");
+
+            _journal.log(__FUNCTION__,
+                info,
+                LogType::STAT);
+
+        }
+
+    }
+
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_init()
+    {
+
         _initSems(); // creates necessary semaphores
 
         _acquireSemTimeout(_mem_config.mem_path_data_sem,
@@ -133,20 +164,39 @@ namespace EigenIPC {
                                             _n_cols); // used to hold
         // a copy of the shared tensor data
 
-        _terminated = false; // just in case
+    }
 
-        if (_verbose &&
-            _vlevel > VLevel::V1) {
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_abortInit()
+    {
 
-            std::string info = std::string("Server at ") +
-                    _mem_config.mem_path + std::string(" initialized. Ready to run");
+        if (_holds_data_sem) {
 
-            _journal.log(__FUNCTION__,
-                info,
-                LogType::STAT);
+            _holds_data_sem = false;
+
+            MemUtils::releaseSem(_mem_config.mem_path_data_sem,
+                                _data_sem,
+                                _journal,
+                                _return_code,
+                                _verbose,
+                                _vlevel);
 
         }
 
+        MemUtils::unmapMem(_tensor_view);
+
+        MemUtils::cleanUpMem(_mem_config.mem_path,
+                             _data_shm_fd,
+                             _journal,
+                             _return_code,
+                             _verbose,
+                             _vlevel,
+                             _unlink_data);
+
+        _cleanMetaMem();
+
+        _closeSems(false); // others may be using them
+
     }
 
     template <typename Scalar, int Layout>
@@ -180,6 +230,16 @@ namespace EigenIPC {
     {
 
         if (!isRunning()) {
+
+            if (_terminated) {
+
+                _journal.log(__FUNCTION__,
+                    std::string("Server at ") + _mem_config.mem_path +
+                    std::string(" was closed and cannot be run again."),
+                    LogType::EXCEP,
+                    true); // throw exception
+
+            }
             
             _acquireSemTimeout(_mem_config.mem_path_server_sem,
                         _srvr_sem,
@@ -288,6 +348,16 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     int Server<Scalar, Layout>::getNClients() {
 
+        if (_holds_data_sem) {
+
+            // not run yet: the data semaphore is already held by this server
+
+            _n_clients = _n_clients_view(0, 0);
+
+            return _n_clients;
+
+        }
+
         _acquireData(true, false);
 
         _n_clients = _n_clients_view(0, 0);
@@ -669,11 +739,17 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Server<Scalar, Layout>::_cleanMetaMem()
     {
-        // closing file descriptors and also unlinking
+        // removing mappings, closing file descriptors and also unlinking
         // memory
 
         _return_code = _return_code + ReturnCode::RESET;
 
+        MemUtils::unmapMem(_n_rows_view);
+        MemUtils::unmapMem(_n_cols_view);
+        MemUtils::unmapMem(_n_clients_view);
+        MemUtils::unmapMem(_dtype_view);
+        MemUtils::unmapMem(_isrunning_view);
+        MemUtils::unmapMem(_mem_layout_view);
 
         MemUtils::cleanUpMem(_mem_config.mem_path_nrows,
                              _nrows_shm_fd,
@@ -707,6 +783,14 @@ namespace EigenIPC {
                              _vlevel,
                              _unlink_data);
 
+        MemUtils::cleanUpMem(_mem_config.mem_path_isrunning,
+                             _isrunning_shm_fd,
+                             _journal,
+                             _return_code,
+                             _verbose,
+                             _vlevel,
+                             false); // waiting clients look at it
+
         MemUtils::cleanUpMem(_mem_config.mem_path_mem_layout,
                              _mem_layout_shm_fd,
                              _journal,
@@ -728,6 +812,22 @@ namespace EigenIPC {
 
             _return_code = _return_code + ReturnCode::RESET;
 
+            if (_holds_data_sem) {
+
+                // closed without having been run
+
+                _holds_data_sem = false;
+
+                MemUtils::releaseSem(_mem_config.mem_path_data_sem,
+                                _data_sem,
+                                _journal,
+                                _return_code,
+                                _verbose,
+                                _vlevel);
+
+            }
+
+            MemUtils::unmapMem(_tensor_view);
 
             MemUtils::cleanUpMem(_mem_config.mem_path,
                                  _data_shm_fd,
@@ -741,7 +841,7 @@ namespace EigenIPC {
 
             _cleanMetaMem();
 
-            _closeSems(); // closing semaphores
+            _closeSems(true); // closing semaphores
 
             if (_verbose &&
                 _vlevel > VLevel::V1) {
@@ -865,14 +965,7 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
-        if (!isin(ReturnCode::MEMCREATFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMSETFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMMAPFAIL,
-                 _return_code)) {
-
-            MemUtils::initMem<Scalar, Layout>(
+        MemUtils::initMem<Scalar, Layout>(
                             _n_rows,
                             _n_cols,
                             _mem_config.mem_path,
@@ -883,10 +976,7 @@ namespace EigenIPC {
                             _verbose,
                             _vlevel);
 
-            _return_code = _return_code + ReturnCode::RESET;
-
-        }
-        else {
+        if (MemUtils::isMemInitFailed(_return_code)) {
 
             MemUtils::failWithCode(_return_code,
                                    _journal,
@@ -894,6 +984,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
@@ -914,10 +1006,18 @@ namespace EigenIPC {
                           _verbose,
                           _vlevel);
 
+        if (isin(ReturnCode::SEMOPENFAIL, _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
     }
 
     template <typename Scalar, int Layout>
-    void Server<Scalar, Layout>::_closeSems()
+    void Server<Scalar, Layout>::_closeSems(bool unlink)
     {
         // closes semaphores and also unlinks it
         // Other processes who had it open can still use it, but no new
@@ -928,7 +1028,7 @@ namespace EigenIPC {
                            _return_code,
                            _verbose,
                            _vlevel,
-                           true);
+                           unlink);
 
         MemUtils::semClose(_mem_config.mem_path_data_sem,
                            _data_sem,
@@ -936,7 +1036,7 @@ namespace EigenIPC {
                            _return_code,
                            _verbose,
                            _vlevel,
-                           true);
+                           unlink);
 
     }
 
-- 
2.43.0


From 779137cb259ef92cf9103eaf2b7c22ed778eda92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 05/24] fix: clients attach only to a complete session of a
 running server

---
 EigenIPC/include/EigenIPC/Client.hpp |  18 +-
 EigenIPC/src/Client.cpp              | 292 +++++++++++++--------------
 EigenIPC/src/MemUtils.hpp            | 165 ++++++++++++---
 3 files changed, 287 insertions(+), 188 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index 88ec515..4e6f9f5 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -190,12 +190,22 @@ namespace EigenIPC{
             void _checkMemLayout(); // checks if mem. layout is
             // consistent with Server
 
-            void _initDataMem();
-            void _initMetaMem();
+            bool _initRunningFlag();
+            bool _initDataMem();
+            bool _initMetaMem();
 
-            void _initSems();
+            template <typename MemScalar, int MemLayout>
+            bool _openMem(int n_rows, int n_cols,
+                        const std::string& mem_path,
+                        int& shm_fd,
+                        MMap<MemScalar, MemLayout>& view);
 
-            void _attach();
+            bool _initSems();
+
+            bool _attach(); // one attempt; false if there's no running server
+
+            bool _acquireSession(); // waits for the data semaphore as long
+            // as the server is not closed or replaced
 
             void _closeSems();
 
diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index c84fbd1..e7fcc31 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -118,9 +118,17 @@ namespace EigenIPC {
             return; // nothing to do
         }
 
+        _msg_counter = 0; // reset counter
+
         try {
 
-            _attach();
+            while (!_attach()) { // no running server (yet)
+
+                _cleanMems();
+
+                _waitForServer();
+
+            }
 
         } catch (...) {
 
@@ -145,34 +153,48 @@ namespace EigenIPC {
     }
 
     template <typename Scalar, int Layout>
-    void Client<Scalar, Layout>::_attach()
+    bool Client<Scalar, Layout>::_attach()
     {
 
-        _initMetaMem(); // initializes meta-memory
+        // Everything which is opened here was created by the server. The running flag is the
+        // first thing a server unlinks and a new one replaces: as long as it's
+        // linked, all the rest belongs to the same server.
 
-        _waitForServer();  // waits until server is properly initialized
+        if (!_initRunningFlag() ||
+            !(_isrunning_view(0, 0) > 0) ||
+            !_initMetaMem() ||
+            !_initSems() ||
+            !_acquireSession()) {
 
-        _initSems(); // creates necessary semaphores
+            return false;
+        }
 
-        // acquire shared data semaphore or waits for it
-        // (at this point is actually guaranteed to be free anyway)
-        _acquireData(true, true); // blocking
+        bool attached = false;
 
         try {
 
-            _checkDType(); // checks data type consistency
+            if (MemUtils::isMemLinked(_isrunning_shm_fd)) {
 
-            _checkMemLayout(); // checks memory layout consistency
+                _checkDType(); // checks data type consistency
 
-            _n_rows = _n_rows_view(0, 0);
-            _n_cols = _n_cols_view(0, 0);
+                _checkMemLayout(); // checks memory layout consistency
 
-            // we have now all the info to create the shared tensor
-            _initDataMem();
+                _n_rows = _n_rows_view(0, 0);
+                _n_cols = _n_cols_view(0, 0);
 
-            _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
-                                                _n_cols); // used to hold
-            // a copy of the shared tensor data
+                // we have now all the info to open the shared tensor
+                if (_initDataMem() &&
+                    MemUtils::isMemLinked(_isrunning_shm_fd)) {
+
+                    _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
+                                                        _n_cols); // used to hold
+                    // a copy of the shared tensor data
+
+                    _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
+
+                    attached = true;
+                }
+            }
 
         } catch (...) {
 
@@ -181,11 +203,11 @@ namespace EigenIPC {
             throw;
         }
 
-        _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
-
         // releasing data semaphore so that other clients/the server can access the tensor
         _releaseData();
 
+        return attached;
+
     }
 
     template <typename Scalar, int Layout>
@@ -205,13 +227,14 @@ namespace EigenIPC {
 
             }
 
-            _acquireData(true, true); // blocking (probably not necessary, 
-            // int operations should be atomic on 64 bit machines)
+            if (_acquireSession()) { // otherwise there's nobody to tell
 
-            _n_clients_view(0, 0) = _n_clients_view(0, 0) - 1; // increase clients counter
+                _n_clients_view(0, 0) = _n_clients_view(0, 0) - 1; // decrease clients counter
 
-            // releasing data semaphore so that other clients/the server can access the tensor
-            _releaseData();
+                // releasing data semaphore so that other clients/the server can access the tensor
+                _releaseData();
+
+            }
 
             _attached = false;
 
@@ -509,39 +532,25 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_waitForServer()
     {
-        
-        _msg_counter = 0; // reset counter
-
-        // preallocating message, in case it's necessary
-        std::string info = std::string("Waiting transition of Server at ") +
-                        _mem_config.mem_path +
-                        std::string(" to running state...");
 
-        while(!(_isrunning_view(0, 0) > 0)) {
-            
-            if (_verbose &&
-                _vlevel > VLevel::V0) {
-
-                    if (_msg_counter % _msg_sample_interval == 0) {
-                        
-                        // only log every now and then
-                        
-                        _journal.log(__FUNCTION__,
-                            info,
-                            LogType::WARN);
+        if (_verbose &&
+            _vlevel > VLevel::V0 &&
+            _msg_counter % _msg_sample_interval == 0) {
 
-                    }
+            // only log every now and then
 
-            }
+            _journal.log(__FUNCTION__,
+                std::string("Waiting transition of Server at ") +
+                    _mem_config.mem_path +
+                    std::string(" to running state..."),
+                LogType::WARN);
 
-            
-            std::this_thread::sleep_for(std::chrono::milliseconds(1)); // no busy wait
+        }
 
-            _msg_counter++;
+        std::this_thread::sleep_for(std::chrono::milliseconds(1)); // no busy wait
 
-        }
+        _msg_counter++;
 
-        _msg_counter = 0; // reset counter
     }
 
     template <typename Scalar, int Layout>
@@ -710,6 +719,27 @@ namespace EigenIPC {
 
     }
 
+    template <typename Scalar, int Layout>
+    bool Client<Scalar, Layout>::_acquireSession()
+    {
+
+        // waits for the data semaphore, unless the server is closed or replaced in the meantime
+
+        while (!_acquireData(false, false)) {
+
+            if (!MemUtils::isMemLinked(_isrunning_shm_fd)) {
+
+                return false;
+            }
+
+            std::this_thread::sleep_for(std::chrono::milliseconds(1)); // no busy wait
+
+        }
+
+        return true;
+
+    }
+
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_releaseData()
     {
@@ -814,137 +844,84 @@ namespace EigenIPC {
 
         _closeSems(); // closing semaphores
 
-        if (_verbose &&
-            _vlevel > VLevel::V1) {
-
-            std::string info = std::string("Cleaning after client at ") +
-                    _mem_config.mem_path;
-
-            _journal.log(__FUNCTION__,
-                info,
-                LogType::STAT);
-
-        }
-
     }
 
     template <typename Scalar, int Layout>
-    void Client<Scalar, Layout>::_initDataMem()
+    bool Client<Scalar, Layout>::_initDataMem()
     {
 
-        _return_code = _return_code + ReturnCode::RESET;
-
-        MemUtils::initMem<Scalar, Layout>(_n_rows,
-                            _n_cols,
-                            _mem_config.mem_path,
-                            _data_shm_fd,
-                            _tensor_view,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel);
-
-        if (MemUtils::isMemInitFailed(_return_code)) {
+        return _openMem(_n_rows, _n_cols,
+                        _mem_config.mem_path,
+                        _data_shm_fd,
+                        _tensor_view);
 
-            MemUtils::failWithCode(_return_code,
-                                   _journal,
-                                   __FUNCTION__);
+    }
 
-        }
+    template <typename Scalar, int Layout>
+    bool Client<Scalar, Layout>::_initRunningFlag()
+    {
 
-        _return_code = _return_code + ReturnCode::RESET;
+        return _openMem(1, 1, _mem_config.mem_path_isrunning,
+                        _isrunning_shm_fd, _isrunning_view);
 
     }
 
     template <typename Scalar, int Layout>
-    void Client<Scalar, Layout>::_initMetaMem()
+    bool Client<Scalar, Layout>::_initMetaMem()
     {
-        _return_code = _return_code + ReturnCode::RESET;
- // resets return code
 
         // auxiliary data
-        MemUtils::initMem<int>(1,
-                        1,
-                        _mem_config.mem_path_nrows,
-                        _nrows_shm_fd,
-                        _n_rows_view,
-                        _journal,
-                        _return_code,
-                        _verbose,
-                        _vlevel);
-
-        MemUtils::initMem<int>(1,
-                        1,
-                        _mem_config.mem_path_ncols,
-                        _ncols_shm_fd,
-                        _n_cols_view,
-                        _journal,
-                        _return_code,
-                        _verbose,
-                        _vlevel);
-
-        MemUtils::initMem<int>(1,
-                        1,
-                        _mem_config.mem_path_clients_counter,
-                        _n_clients_shm_fd,
-                        _n_clients_view,
-                        _journal,
-                        _return_code,
-                        _verbose,
-                        _vlevel);
-
-        MemUtils::initMem<int>(1,
-                        1,
-                        _mem_config.mem_path_dtype,
-                        _dtype_shm_fd,
-                        _dtype_view,
-                        _journal,
-                        _return_code,
-                        _verbose,
-                        _vlevel);
-
-        MemUtils::initMem<bool>(1,
-                        1,
-                        _mem_config.mem_path_isrunning,
-                        _isrunning_shm_fd,
-                        _isrunning_view,
-                        _journal,
-                        _return_code,
-                        _verbose,
-                        _vlevel);
-
-        MemUtils::initMem<int>(1,
-                        1,
-                        _mem_config.mem_path_mem_layout,
-                        _mem_layout_shm_fd,
-                        _mem_layout_view,
-                        _journal,
-                        _return_code,
-                        _verbose,
-                        _vlevel);
-
-        if (!isin(ReturnCode::MEMCREATFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMSETFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMMAPFAIL,
-                 _return_code)) {
+        return _openMem(1, 1, _mem_config.mem_path_nrows,
+                        _nrows_shm_fd, _n_rows_view) &&
+               _openMem(1, 1, _mem_config.mem_path_ncols,
+                        _ncols_shm_fd, _n_cols_view) &&
+               _openMem(1, 1, _mem_config.mem_path_clients_counter,
+                        _n_clients_shm_fd, _n_clients_view) &&
+               _openMem(1, 1, _mem_config.mem_path_dtype,
+                        _dtype_shm_fd, _dtype_view) &&
+               _openMem(1, 1, _mem_config.mem_path_mem_layout,
+                        _mem_layout_shm_fd, _mem_layout_view);
+
+    }
+
+    template <typename Scalar, int Layout>
+    template <typename MemScalar, int MemLayout>
+    bool Client<Scalar, Layout>::_openMem(int n_rows,
+                                    int n_cols,
+                                    const std::string& mem_path,
+                                    int& shm_fd,
+                                    MMap<MemScalar, MemLayout>& view)
+    {
 
-            _return_code = _return_code + ReturnCode::RESET;
+        _return_code = _return_code + ReturnCode::RESET;
 
+        bool opened = MemUtils::openMem<MemScalar, MemLayout>(n_rows,
+                                    n_cols,
+                                    mem_path,
+                                    shm_fd,
+                                    view,
+                                    _journal,
+                                    _return_code,
+                                    _verbose,
+                                    _vlevel);
 
-        }
-        else {
+        if (MemUtils::isMemInitFailed(_return_code)) {
 
             MemUtils::failWithCode(_return_code,
                                    _journal,
-                                   __FUNCTION__);
+                                   __FUNCTION__,
+                                   mem_path);
+
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
+        return opened;
+
     }
 
     template <typename Scalar, int Layout>
-    void Client<Scalar, Layout>::_initSems()
+    bool Client<Scalar, Layout>::_initSems()
     {
 
         MemUtils::semInit(_mem_config.mem_path_data_sem,
@@ -952,7 +929,8 @@ namespace EigenIPC {
                           _journal,
                           _return_code,
                           _verbose,
-                          _vlevel);
+                          _vlevel,
+                          false);
 
         if (isin(ReturnCode::SEMOPENFAIL, _return_code)) {
 
@@ -962,6 +940,8 @@ namespace EigenIPC {
 
         }
 
+        return _data_sem != SEM_FAILED;
+
     }
 
     template <typename Scalar, int Layout>
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 1505ec4..857f0dc 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -21,7 +21,9 @@
 #include <Eigen/Dense>
 #include <string>
 #include <stdexcept>
+#include <cerrno>
 #include <sys/mman.h>
+#include <sys/stat.h>
 #include <fcntl.h>
 #include <unistd.h>
 #include <semaphore.h>
@@ -118,6 +120,65 @@ namespace EigenIPC{
 
         // shared mem data utilities
 
+        template <typename Scalar,
+                  int Layout = MemLayoutDefault>
+        void mapMem(
+            std::size_t n_rows,
+            std::size_t n_cols,
+            const std::string& mem_path,
+            int& shm_fd,
+            MMap<Scalar, Layout>& tensor_view,
+            Journal& journal,
+            ReturnCode& return_code,
+            bool verbose = true,
+            VLevel vlevel = Journal::VLevel::V0
+            ){
+
+            std::size_t data_size = sizeof(Scalar) * n_rows * n_cols;
+
+            // Map the shared memory
+            Scalar* matrix_data = static_cast<Scalar*>(mmap(nullptr,
+                                                        data_size,
+                                                        PROT_READ | PROT_WRITE,
+                                                        MAP_SHARED,
+                                                        shm_fd,
+                                                        0));
+
+            if (matrix_data == MAP_FAILED) {
+
+                if (verbose) {
+
+                    journal.log(__FUNCTION__,
+                                "Could not map memory size.",
+                                LogType::EXCEP);
+                }
+
+                return_code = return_code + ReturnCode::MEMMAPFAIL;
+
+                return;
+
+            }
+
+            new (&tensor_view) MMap<Scalar, Layout>(matrix_data,
+                                           n_rows,
+                                           n_cols); // contiguous memory
+            // (no need to specify strides)
+
+            return_code = return_code + ReturnCode::MEMMAP;
+
+            if (verbose && vlevel > VLevel::V2) {
+
+                std::string info = "Mapped shared memory at " +
+                        mem_path;
+
+                journal.log(__FUNCTION__,
+                            info,
+                            LogType::INFO);
+
+            }
+
+        }
+
         template <typename Scalar,
                   int Layout = MemLayoutDefault>
         void initMem(
@@ -191,47 +252,88 @@ namespace EigenIPC{
 
             }
 
-            // Map the shared memory
-            Scalar* matrix_data = static_cast<Scalar*>(mmap(nullptr,
-                                                        data_size,
-                                                        PROT_READ | PROT_WRITE,
-                                                        MAP_SHARED,
-                                                        shm_fd,
-                                                        0));
+            mapMem<Scalar, Layout>(n_rows, n_cols,
+                            mem_path,
+                            shm_fd,
+                            tensor_view,
+                            journal,
+                            return_code,
+                            verbose,
+                            vlevel);
 
-            if (matrix_data == MAP_FAILED) {
+        }
 
-                if (verbose) {
+        template <typename Scalar,
+                  int Layout = MemLayoutDefault>
+        bool openMem(
+            std::size_t n_rows,
+            std::size_t n_cols,
+            const std::string& mem_path,
+            int& shm_fd,
+            MMap<Scalar, Layout>& tensor_view,
+            Journal& journal,
+            ReturnCode& return_code,
+            bool verbose = true,
+            VLevel vlevel = Journal::VLevel::V0
+            ){
 
-                    journal.log(__FUNCTION__,
-                                "Could not map memory size.",
-                                LogType::EXCEP);
-                }
+            // Opens memory which was created by another party. Returns false if it
+            // couldn't be opened; this is a failure only if it exists
 
-                return_code = return_code + ReturnCode::MEMMAPFAIL;
+            shm_fd = shm_open(mem_path.c_str(), O_RDWR, 0);
 
-                return;
+            if (shm_fd == -1) {
+
+                if (errno != ENOENT) {
+
+                    return_code = return_code + ReturnCode::MEMCREATFAIL;
+                }
+
+                return false;
 
             }
 
-            new (&tensor_view) MMap<Scalar, Layout>(matrix_data,
-                                           n_rows,
-                                           n_cols); // contiguous memory
-            // (no need to specify strides)
+            struct stat mem_info;
 
-            return_code = return_code + ReturnCode::MEMMAP;
+            if (fstat(shm_fd, &mem_info) == -1) {
 
-            if (verbose && vlevel > VLevel::V2) {
+                return_code = return_code + ReturnCode::MEMSETFAIL;
 
-                std::string info = "Mapped shared memory at " +
-                        mem_path;
+                return false;
 
-                journal.log(__FUNCTION__,
-                            info,
-                            LogType::INFO);
+            }
+
+            if (static_cast<std::size_t>(mem_info.st_size) < sizeof(Scalar) * n_rows * n_cols) {
+
+                return false; // its owner has not set it up yet
 
             }
 
+            return_code = return_code + ReturnCode::MEMOPEN;
+
+            mapMem<Scalar, Layout>(n_rows, n_cols,
+                            mem_path,
+                            shm_fd,
+                            tensor_view,
+                            journal,
+                            return_code,
+                            verbose,
+                            vlevel);
+
+            return tensor_view.data() != nullptr;
+
+        }
+
+        inline bool isMemLinked(int shm_fd) {
+
+            // false if the memory was unlinked, i.e. if new processes cannot open it any more
+
+            struct stat mem_info;
+
+            return shm_fd != -1 &&
+                fstat(shm_fd, &mem_info) == 0 &&
+                mem_info.st_nlink > 0;
+
         }
 
         inline bool isMemInitFailed(ReturnCode return_code) {
@@ -525,12 +627,19 @@ namespace EigenIPC{
                     Journal& journal,
                     ReturnCode& return_code,
                     bool verbose = true,
-                    VLevel vlevel = Journal::VLevel::V0) {
+                    VLevel vlevel = Journal::VLevel::V0,
+                    bool create = true) {
 
             sem = sem_open(sem_path.c_str(),
-                                  O_CREAT, S_IRUSR | S_IWUSR,
+                                  create ? O_CREAT : 0, S_IRUSR | S_IWUSR,
                                   1); // initial val to 1 -> binary semaphore
 
+            if (sem == SEM_FAILED && !create && errno == ENOENT) {
+
+                return; // not there (yet)
+
+            }
+
             if (sem == SEM_FAILED) {
                 // Handle semaphore creation error
 
-- 
2.43.0


From f319362133ec08a75f1fd1dde63676635e5b53cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 06/24] fix: a second server neither destroys a running one nor
 outlives its own session

---
 EigenIPC/include/EigenIPC/Server.hpp |   7 +-
 EigenIPC/src/MemUtils.hpp            |  35 +----
 EigenIPC/src/Server.cpp              | 212 +++++++++++++++++----------
 3 files changed, 150 insertions(+), 104 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index b65f2eb..37dba9a 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -116,6 +116,9 @@ namespace EigenIPC{
             bool _holds_data_sem = false; // whether the data semaphore
             // acquired at construction is still held by this server
 
+            bool _holds_srvr_sem = false; // whether the server semaphore
+            // is being held while initializing or closing
+
             bool _force_reconnection = false;
 
             bool _data_acquired = false; // aux. variable,
@@ -194,7 +197,9 @@ namespace EigenIPC{
 
             void _closeSems(bool unlink);
 
-            void _cleanMetaMem();
+            void _clearMem(); // unlinks the memory of previous servers
+            void _releaseAll(bool unlink);
+            void _cleanMetaMem(bool unlink);
             void _cleanMems();
 
             void _init(); // acquires all the resources of the server
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 857f0dc..1cf6294 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -418,49 +418,26 @@ namespace EigenIPC{
 
         }
 
-        inline void checkMem(
+        inline void clearMem(
                     const std::string& mem_path,
-                    int& shm_fd,
                     Journal& journal,
                     ReturnCode& return_code,
                     bool verbose = true,
-                    VLevel vlevel = Journal::VLevel::V0,
-                    bool unlink = false) {
-
-            shm_fd = shm_open(mem_path.c_str(),
-                               O_RDWR,
-                               0);
+                    VLevel vlevel = Journal::VLevel::V0) {
 
-            if (shm_fd != -1) {
-                // Shared memory already exists, so we need to clean it up
+            if (shm_unlink(mem_path.c_str()) == 0) {
 
-                if (verbose &&
-                        vlevel > VLevel::V0) {
-
-                    std::string warn = "Shared memory at " + mem_path +
-                        " already exists. Clearing it up...";
-
-                    journal.log(__FUNCTION__,
-                                 warn,
-                                 LogType::WARN);
-                }
+                // Shared memory already existed, it has been cleaned up
 
                 return_code = return_code + ReturnCode::MEMEXISTS;
 
-                cleanUpMem(mem_path,
-                         shm_fd,
-                         journal,
-                         return_code,
-                         verbose,
-                         vlevel,
-                         unlink);
-
                 return_code = return_code + ReturnCode::MEMCLEAN;
 
                 if (verbose &&
                         vlevel > VLevel::V0) {
 
-                    std::string warn = "Cleanup Done.";
+                    std::string warn = "Shared memory at " + mem_path +
+                        " already existed. Cleared it up.";
 
                     journal.log(__FUNCTION__,
                                  warn,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 79eae2d..17f16e4 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -133,6 +133,14 @@ namespace EigenIPC {
     void Server<Scalar, Layout>::_init()
     {
 
+        if (_force_reconnection) {
+
+            // whatever a previous server left is not to be trusted
+            sem_unlink(_mem_config.mem_path_data_sem.c_str());
+            sem_unlink(_mem_config.mem_path_server_sem.c_str());
+
+        }
+
         _initSems(); // creates necessary semaphores
 
         _acquireSemTimeout(_mem_config.mem_path_data_sem,
@@ -141,16 +149,15 @@ namespace EigenIPC {
 
         _holds_data_sem = true;
 
-        _return_code = _return_code + ReturnCode::RESET; // resets to None
+        // fails if another server is running. Also, no other server can
+        // transition to running state during the initialization
+        _acquireSemTimeout(_mem_config.mem_path_server_sem,
+                        _srvr_sem,
+                        _verbose);
 
-        MemUtils::checkMem(_mem_config.mem_path,
-                            _data_shm_fd,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel,
-                            _unlink_data); // checks if memory was already allocated
-        // if yes, cleans it up
+        _holds_srvr_sem = true;
+
+        _clearMem(); // leftovers of previous servers
 
         _return_code = _return_code + ReturnCode::RESET;
 
@@ -164,38 +171,47 @@ namespace EigenIPC {
                                             _n_cols); // used to hold
         // a copy of the shared tensor data
 
+        _holds_srvr_sem = false;
+
+        _releaseSem(_mem_config.mem_path_server_sem,
+                        _srvr_sem,
+                        _verbose);
+
     }
 
     template <typename Scalar, int Layout>
-    void Server<Scalar, Layout>::_abortInit()
+    void Server<Scalar, Layout>::_clearMem()
     {
 
-        if (_holds_data_sem) {
+        // the running flag goes first: as long as it's linked, clients
+        // can rely on all the rest
 
-            _holds_data_sem = false;
+        for (const std::string& mem_path : {_mem_config.mem_path_isrunning,
+                                            _mem_config.mem_path_nrows,
+                                            _mem_config.mem_path_ncols,
+                                            _mem_config.mem_path_clients_counter,
+                                            _mem_config.mem_path_dtype,
+                                            _mem_config.mem_path_mem_layout,
+                                            _mem_config.mem_path}) {
 
-            MemUtils::releaseSem(_mem_config.mem_path_data_sem,
-                                _data_sem,
+            MemUtils::clearMem(mem_path,
                                 _journal,
                                 _return_code,
                                 _verbose,
-                                _vlevel);
+                                _vlevel); // checks if memory was already allocated
+            // if yes, cleans it up
 
         }
 
-        MemUtils::unmapMem(_tensor_view);
+        _return_code = _return_code + ReturnCode::RESET;
 
-        MemUtils::cleanUpMem(_mem_config.mem_path,
-                             _data_shm_fd,
-                             _journal,
-                             _return_code,
-                             _verbose,
-                             _vlevel,
-                             _unlink_data);
+    }
 
-        _cleanMetaMem();
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_abortInit()
+    {
 
-        _closeSems(false); // others may be using them
+        _releaseAll(_holds_srvr_sem); // unless it owns the session, others may be using it
 
     }
 
@@ -247,6 +263,20 @@ namespace EigenIPC {
             // other servers trying to transition to running state will fail
             // due to the sever semaphore being acquired
 
+            if (!MemUtils::isMemLinked(_isrunning_shm_fd)) {
+
+                _releaseSem(_mem_config.mem_path_server_sem,
+                        _srvr_sem,
+                        _verbose);
+
+                _journal.log(__FUNCTION__,
+                    std::string("Server at ") + _mem_config.mem_path +
+                    std::string(" was replaced by another one and cannot be run again."),
+                    LogType::EXCEP,
+                    true); // throw exception
+
+            }
+
             if (_holds_data_sem) {
 
                 // only when run for the first time: releasing the semaphore again when
@@ -327,9 +357,7 @@ namespace EigenIPC {
     void Server<Scalar, Layout>::close()
     {
 
-        stop(); // stop server if running
-
-        _cleanMems(); // cleans up all memory,
+        _cleanMems(); // stops the server if running and cleans up all memory,
         // semaphores included (if necessary)
 
         if (_verbose &&
@@ -737,10 +765,10 @@ namespace EigenIPC {
     }
 
     template <typename Scalar, int Layout>
-    void Server<Scalar, Layout>::_cleanMetaMem()
+    void Server<Scalar, Layout>::_cleanMetaMem(bool unlink)
     {
         // removing mappings, closing file descriptors and also unlinking
-        // memory
+        // memory (if necessary)
 
         _return_code = _return_code + ReturnCode::RESET;
 
@@ -751,13 +779,21 @@ namespace EigenIPC {
         MemUtils::unmapMem(_isrunning_view);
         MemUtils::unmapMem(_mem_layout_view);
 
+        MemUtils::cleanUpMem(_mem_config.mem_path_isrunning,
+                             _isrunning_shm_fd,
+                             _journal,
+                             _return_code,
+                             _verbose,
+                             _vlevel,
+                             unlink);
+
         MemUtils::cleanUpMem(_mem_config.mem_path_nrows,
                              _nrows_shm_fd,
                              _journal,
                              _return_code,
                              _verbose,
                              _vlevel,
-                             _unlink_data);
+                             unlink);
 
         MemUtils::cleanUpMem(_mem_config.mem_path_ncols,
                              _ncols_shm_fd,
@@ -765,7 +801,7 @@ namespace EigenIPC {
                              _return_code,
                              _verbose,
                              _vlevel,
-                             _unlink_data);
+                             unlink);
 
         MemUtils::cleanUpMem(_mem_config.mem_path_clients_counter,
                              _n_clients_shm_fd,
@@ -773,7 +809,7 @@ namespace EigenIPC {
                              _return_code,
                              _verbose,
                              _vlevel,
-                             _unlink_data);
+                             unlink);
 
         MemUtils::cleanUpMem(_mem_config.mem_path_dtype,
                              _dtype_shm_fd,
@@ -781,15 +817,7 @@ namespace EigenIPC {
                              _return_code,
                              _verbose,
                              _vlevel,
-                             _unlink_data);
-
-        MemUtils::cleanUpMem(_mem_config.mem_path_isrunning,
-                             _isrunning_shm_fd,
-                             _journal,
-                             _return_code,
-                             _verbose,
-                             _vlevel,
-                             false); // waiting clients look at it
+                             unlink);
 
         MemUtils::cleanUpMem(_mem_config.mem_path_mem_layout,
                              _mem_layout_shm_fd,
@@ -797,11 +825,10 @@ namespace EigenIPC {
                              _return_code,
                              _verbose,
                              _vlevel,
-                             _unlink_data);
+                             unlink);
 
         _return_code = _return_code + ReturnCode::RESET;
 
-
     }
 
     template <typename Scalar, int Layout>
@@ -810,38 +837,22 @@ namespace EigenIPC {
 
         if (!_terminated) {
 
-            _return_code = _return_code + ReturnCode::RESET;
+            if (_running) {
 
-            if (_holds_data_sem) {
+                _running = false;
+                _isrunning_view(0, 0) = 0; // for the clients
 
-                // closed without having been run
+                _holds_srvr_sem = true; // since it was run
 
-                _holds_data_sem = false;
-
-                MemUtils::releaseSem(_mem_config.mem_path_data_sem,
-                                _data_sem,
-                                _journal,
-                                _return_code,
-                                _verbose,
-                                _vlevel);
+            } else {
 
+                // fails if another server took over
+                _holds_srvr_sem = _acquireSemOneShot(_mem_config.mem_path_server_sem,
+                                            _srvr_sem);
             }
 
-            MemUtils::unmapMem(_tensor_view);
-
-            MemUtils::cleanUpMem(_mem_config.mem_path,
-                                 _data_shm_fd,
-                                 _journal,
-                                 _return_code,
-                                 _verbose,
-                                 _vlevel);
-
-            _return_code = _return_code + ReturnCode::RESET;
-
-
-            _cleanMetaMem();
-
-            _closeSems(true); // closing semaphores
+            // nothing is unlinked if it belongs to another server
+            _releaseAll(_holds_srvr_sem && MemUtils::isMemLinked(_isrunning_shm_fd));
 
             if (_verbose &&
                 _vlevel > VLevel::V1) {
@@ -861,6 +872,59 @@ namespace EigenIPC {
 
     }
 
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_releaseAll(bool unlink)
+    {
+
+        _cleanMetaMem(unlink);
+
+        MemUtils::unmapMem(_tensor_view);
+
+        MemUtils::cleanUpMem(_mem_config.mem_path,
+                             _data_shm_fd,
+                             _journal,
+                             _return_code,
+                             _verbose,
+                             _vlevel,
+                             unlink);
+
+        if (_holds_data_sem) {
+
+            // not run yet
+
+            _holds_data_sem = false;
+
+            MemUtils::releaseSem(_mem_config.mem_path_data_sem,
+                            _data_sem,
+                            _journal,
+                            _return_code,
+                            _verbose,
+                            _vlevel);
+
+        }
+
+        if (_holds_srvr_sem && !unlink) {
+
+            // (when unlinked, it remains acquired: a server which has opened
+            // it in the meantime should not be able to run)
+
+            MemUtils::releaseSem(_mem_config.mem_path_server_sem,
+                            _srvr_sem,
+                            _journal,
+                            _return_code,
+                            _verbose,
+                            _vlevel);
+
+        }
+
+        _holds_srvr_sem = false;
+
+        _closeSems(unlink); // closing semaphores
+
+        _return_code = _return_code + ReturnCode::RESET;
+
+    }
+
     template <typename Scalar, int Layout>
     void Server<Scalar, Layout>::_initMetaMem()
     {
@@ -1022,16 +1086,16 @@ namespace EigenIPC {
         // closes semaphores and also unlinks it
         // Other processes who had it open can still use it, but no new
         // process can access it
-        MemUtils::semClose(_mem_config.mem_path_server_sem,
-                           _srvr_sem,
+        MemUtils::semClose(_mem_config.mem_path_data_sem,
+                           _data_sem,
                            _journal,
                            _return_code,
                            _verbose,
                            _vlevel,
                            unlink);
 
-        MemUtils::semClose(_mem_config.mem_path_data_sem,
-                           _data_sem,
+        MemUtils::semClose(_mem_config.mem_path_server_sem,
+                           _srvr_sem,
                            _journal,
                            _return_code,
                            _verbose,
-- 
2.43.0


From 912da7dd5d18fd8d5e8719f6611773c83e0a852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 07/24] fix: producers and consumers count every
 acknowledgement, keep deadlines and can be closed

---
 EigenIPC/include/EigenIPC/Consumer.hpp |   6 --
 EigenIPC/include/EigenIPC/Producer.hpp |   6 --
 EigenIPC/src/CondVar.cpp               |  12 ++-
 EigenIPC/src/Consumer.cpp              |  92 ++++++++-------------
 EigenIPC/src/Producer.cpp              | 108 ++++++++++---------------
 5 files changed, 88 insertions(+), 136 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Consumer.hpp b/EigenIPC/include/EigenIPC/Consumer.hpp
index d291e1a..b10c5c0 100644
--- a/EigenIPC/include/EigenIPC/Consumer.hpp
+++ b/EigenIPC/include/EigenIPC/Consumer.hpp
@@ -75,10 +75,6 @@ namespace EigenIPC{
             bool _closed = false;
             bool _is_running = false;
 
-            bool _trigger_received = false;
-
-            bool _timeout = false;
-
             int _internal_trigger_counter = 0;
             int _trigger_counter_increment = 0;
 
@@ -116,8 +112,6 @@ namespace EigenIPC{
 
             bool _check_trigger_received();
 
-            bool _wait(ScopedLock& ack_lock, int ms_timeout = -1);
-
             bool _acknowledge();
 
     };
diff --git a/EigenIPC/include/EigenIPC/Producer.hpp b/EigenIPC/include/EigenIPC/Producer.hpp
index f8ea54c..2db249f 100644
--- a/EigenIPC/include/EigenIPC/Producer.hpp
+++ b/EigenIPC/include/EigenIPC/Producer.hpp
@@ -77,10 +77,6 @@ namespace EigenIPC{
             bool _closed = false;
             bool _is_running = false;
 
-            bool _ack_completed = false;
-
-            bool _timeout = false;
-
             int _acks_before = 0;
             
             std::string _basename, _namespace, _unique_id;
@@ -119,8 +115,6 @@ namespace EigenIPC{
 
             bool _check_ack_counter(int n_consumers);
 
-            bool _wait(ScopedLock& ack_lock, int ms_timeout = -1);
-
     };
 
 }
diff --git a/EigenIPC/src/CondVar.cpp b/EigenIPC/src/CondVar.cpp
index f8ccdbe..2a999d8 100644
--- a/EigenIPC/src/CondVar.cpp
+++ b/EigenIPC/src/CondVar.cpp
@@ -64,10 +64,20 @@ namespace EigenIPC {
                             boost::interprocess::create_only, 
                             _mem_config.mem_path_cond_var.c_str());
                             
-            _mutex_ptr = std::make_unique<NamedMutex>(
+            try {
+
+                _mutex_ptr = std::make_unique<NamedMutex>(
                                 boost::interprocess::create_only,
                                 _mem_config.mem_path_cond_var_mutex.c_str());
 
+            } catch (...) {
+
+                // otherwise it could not be created any more
+                NamedCondition::remove(_mem_config.mem_path_cond_var.c_str());
+
+                throw;
+            }
+
         } else {
 
             _cond_ptr = std::make_unique<NamedCondition>(
diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index dae8778..b217b20 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -56,12 +56,21 @@ namespace EigenIPC {
 
         if (!_is_running) {
             
-            _trigger_counter_clnt.attach();
-            _ack_counter_clnt.attach();
-            
-            _open_cond_vars(); // we open the condition variables
-            // only after client attachment has succeded (this guarantees mutexes
-            // and cond. vars where created by the producer)
+            try {
+
+                _trigger_counter_clnt.attach();
+                _ack_counter_clnt.attach();
+
+                _open_cond_vars(); // we open the condition variables
+                // only after client attachment has succeded (this guarantees mutexes
+                // and cond. vars where created by the producer)
+
+            } catch (...) {
+
+                close(); // nothing is left half-way
+
+                throw;
+            }
 
             _is_running = true;
             _closed = false;
@@ -81,13 +90,15 @@ namespace EigenIPC {
 
     void Consumer::close() {
 
-        if (!_closed) {
-            
-            _trigger_counter_clnt.close();
-            _ack_counter_clnt.close();
+        _is_running = false;
 
-            _closed = true;
-        }
+        _trigger_counter_clnt.close();
+        _ack_counter_clnt.close();
+
+        _trigger_cond_ptr.reset();
+        _ack_cond_ptr.reset();
+
+        _closed = true;
     }
 
     bool Consumer::wait(int ms_timeout) {
@@ -96,52 +107,33 @@ namespace EigenIPC {
 
         ScopedLock trigger_lock = _trigger_cond_ptr->lock();
 
-        _trigger_received = false;
+        // (the mutex is unlocked while waiting and locked again atomically when returning)
 
-        while (!_trigger_received) {
+        auto trigger_received = [this]() { return _check_trigger_received(); };
 
-            _trigger_received = _check_trigger_received();
-
-            if (!_trigger_received) {
-                
-                // wait (unlock and lock mutex atomically when
-                // returning)
-                if(!_wait(trigger_lock, ms_timeout)) {
+        if (ms_timeout > 0) {
 
-                    return false;
-                }
+            return _trigger_cond_ptr->timedwait_for(trigger_lock, ms_timeout, trigger_received); // wait with timeout
 
-            }
         }
 
+        _trigger_cond_ptr->wait_for(trigger_lock, trigger_received); // blocking
+
         return true;
     }
 
     bool Consumer::wait_and_ack(std::function<bool()> pre_ack,
                     int ms_timeout) {
 
-        _fail_count = 0;
-        
         if (!wait(ms_timeout)) {
 
-            _fail_count += 1;
-
-        } else {
-
-            if (!pre_ack()) {
-
-                _fail_count += 1;
-            }
-
-            if (!ack()) { 
+            return false;
+        }
 
-                _fail_count += 1;
+        bool pre_ack_ok = pre_ack();
 
-            }
+        return ack() && pre_ack_ok; // acknowledged in any case
 
-        } 
-
-        return _fail_count == 0;
     }
 
     bool Consumer::ack() {
@@ -236,24 +228,6 @@ namespace EigenIPC {
 
     }
     
-    bool Consumer::_wait(ScopedLock& lock, 
-                int ms_timeout) {
-
-        if (ms_timeout > 0) {
-
-            _timeout = !(_trigger_cond_ptr->timedwait(lock, ms_timeout)); // wait with timeout
-            
-            return !_timeout;
-
-        } else {
-
-            _trigger_cond_ptr->wait(lock); // blocking
-
-            return true;
-        }
-
-    }
-
     std::string Consumer::_getThisName(){
 
         return THISNAME;
diff --git a/EigenIPC/src/Producer.cpp b/EigenIPC/src/Producer.cpp
index 6a81a8b..0f9245f 100644
--- a/EigenIPC/src/Producer.cpp
+++ b/EigenIPC/src/Producer.cpp
@@ -62,12 +62,27 @@ namespace EigenIPC {
 
         if (!_is_running) {
 
-            _create_cond_vars(); // we first create the condition variables
+            try {
 
-            _trigger_counter_srvr.run();
-            _ack_counter_srvr.run();
+                _create_cond_vars(); // we first create the condition variables
 
-            _init_counters();
+                _init_counters();
+
+                _trigger_counter_srvr.run();
+                _ack_counter_srvr.run();
+
+            } catch (...) {
+
+                // nothing is left half-way
+
+                _trigger_counter_srvr.stop();
+                _ack_counter_srvr.stop();
+
+                _trigger_cond_ptr.reset();
+                _ack_cond_ptr.reset();
+
+                throw;
+            }
 
             _is_running = true;
             _closed = false;
@@ -88,15 +103,16 @@ namespace EigenIPC {
 
     void Producer::close() {
 
-        if (!_closed) {
-            
-            _trigger_counter_srvr.close();
-            _ack_counter_srvr.close();
+        _is_running = false;
+
+        _trigger_counter_srvr.close();
+        _ack_counter_srvr.close();
+
+        _trigger_cond_ptr.reset();
+        _ack_cond_ptr.reset();
+
+        _closed = true;
 
-            _closed = true;
-        }
-        
-    
     }
 
     void Producer::trigger() {
@@ -117,28 +133,22 @@ namespace EigenIPC {
 
         ScopedLock ack_lock = _ack_cond_ptr->lock();
         
-        _ack_completed = false;
+        // (the mutex is unlocked while waiting and locked again atomically when returning)
+
+        auto ack_completed = [this, n_consumers]() { return _check_ack_counter(n_consumers); };
+
+        if (ms_timeout > 0) {
+
+            return _ack_cond_ptr->timedwait_for(ack_lock, ms_timeout, ack_completed); // wait with timeout
 
-        while (!_ack_completed) {
-            
-            _ack_completed = _check_ack_counter(n_consumers);
-            
-            if (!_ack_completed) {
-                
-                // wait (unlock and lock mutex atomically when
-                // returning)
-                if(!_wait(ack_lock, ms_timeout)) {
-
-                    return false;
-                }
-            }
-            
         }
 
+        _ack_cond_ptr->wait_for(ack_lock, ack_completed); // blocking
+
         return true;
-        
+
     }
-    
+
     void Producer::_create_cond_vars() {
 
         bool is_server = true; // this is a consumer
@@ -161,23 +171,11 @@ namespace EigenIPC {
 
     void Producer::_init_counters() {
 
-        ScopedLock trigger_lock = _trigger_cond_ptr->lock();
-        _trigger_counter(0, 0) = 0; // initialize shared counter to 0
-        if (!_trigger_counter_srvr.write(_trigger_counter, 0, 0)) {
-            _journal.log(__FUNCTION__+_unique_id,
-                "Could not initialize trigger counter!",
-                LogType::EXCEP, 
-                true); // throw exception
-        }
+        // the shared counters are initialized to 0 by their servers. They are not written
+        // when running, since a consumer might already be using them
 
-        ScopedLock ack_lock = _ack_cond_ptr->lock();
-        _ack_counter(0, 0) = 0; // initialize shared counter to 0
-        if (!_ack_counter_srvr.write(_ack_counter, 0, 0)) {
-            _journal.log(__FUNCTION__+_unique_id,
-                "Could not initialize acknowledge counter!",
-                LogType::EXCEP, 
-                true); // throw exception
-        }
+        _trigger_counter(0, 0) = 0;
+        _ack_counter(0, 0) = 0;
 
     }
 
@@ -203,7 +201,7 @@ namespace EigenIPC {
                 true); // throw exception
         }
 
-        if ((_ack_counter(0, 0) - _acks_before) == n_consumers) {
+        if ((_ack_counter(0, 0) - _acks_before) >= n_consumers) {
             
             _acks_before = _ack_counter(0, 0);
             
@@ -216,24 +214,6 @@ namespace EigenIPC {
 
     }
 
-    bool Producer::_wait(ScopedLock& ack_lock, 
-                int ms_timeout) {
-
-        if (ms_timeout > 0) {
-
-            _timeout = !(_ack_cond_ptr->timedwait(ack_lock, ms_timeout)); // wait with timeout
-            
-            return !_timeout;
-
-        } else {
-
-            _ack_cond_ptr->wait(ack_lock); // blocking
-
-            return true;
-        }
-
-    }
-    
     std::string Producer::_getThisName(){
 
         return THISNAME;
-- 
2.43.0


From 80ec6973fd347e717e4e0f2585c4691e689eb00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 08/24] fix: string tensors share their server or client
 instead of a copy, and refuse what does not fit

---
 .../PyEigenIPC/src/PyStringTensor.cpp         | 20 +++++-------------
 EigenIPC/include/EigenIPC/Client.hpp          |  3 +++
 EigenIPC/include/EigenIPC/Server.hpp          |  3 +++
 EigenIPC/include/EigenIPC/StringTensor.hpp    |  2 +-
 EigenIPC/src/StringTensor.cpp                 | 21 +++++++++++++++----
 5 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
index 30d1431..7587553 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
@@ -94,7 +94,7 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorServer(py::module &m) {
             &StringTensor<StrServer>::write,
             py::arg("to_write"), py::arg("index") = 0)
 
-        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self, int index) {
+        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self, int index) {
             std::string result_str;
             bool success = self.read(result_str, index);
 
@@ -122,13 +122,8 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorServer(py::module &m) {
 
         })
 
-        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self) {
-            
-            EigenIPC::StrServer str_server = self.getSharedMem();
-
-            return str_server;
-
-        })
+        .def("get_shared_mem", &StringTensor<StrServer>::getSharedMem,
+            py::return_value_policy::reference_internal)
 
         ;
 
@@ -226,13 +221,8 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorClient(py::module &m) {
 
         })
 
-        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self) {
-            
-            EigenIPC::StrClient str_server = self.getSharedMem();
-
-            return str_server;
-
-        })
+        .def("get_shared_mem", &StringTensor<StrClient>::getSharedMem,
+            py::return_value_policy::reference_internal)
 
         ;
 }
diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index 4e6f9f5..d1798f6 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -58,6 +58,9 @@ namespace EigenIPC{
                    VLevel vlevel = VLevel::V0,
                    bool safe = true);
 
+            Client(const Client&) = delete; // it owns system resources
+            Client& operator=(const Client&) = delete;
+
             ~Client();
 
             bool write(const TRef<Scalar, Layout> data,
diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 37dba9a..b42514b 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -59,6 +59,9 @@ namespace EigenIPC{
                    bool force_reconnection = false,
                    bool safe = true);
 
+            Server(const Server&) = delete; // it owns system resources
+            Server& operator=(const Server&) = delete;
+
             ~Server();
 
             bool write(const TRef<Scalar, Layout> data,
diff --git a/EigenIPC/include/EigenIPC/StringTensor.hpp b/EigenIPC/include/EigenIPC/StringTensor.hpp
index 7bf1d86..aa393db 100644
--- a/EigenIPC/include/EigenIPC/StringTensor.hpp
+++ b/EigenIPC/include/EigenIPC/StringTensor.hpp
@@ -100,7 +100,7 @@ namespace EigenIPC {
 
             int getLength();
 
-            ShMemType getSharedMem();
+            ShMemType& getSharedMem();
 
             std::string getNamespace() const;
             std::string getBasename() const;
diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index a7658a5..1909e14 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -121,13 +121,13 @@ namespace EigenIPC {
     }
     
     template <>
-    StrServer StringTensor<StrServer>::getSharedMem() {
+    StrServer& StringTensor<StrServer>::getSharedMem() {
 
         return _sh_mem;
     }
 
     template <>
-    StrClient StringTensor<StrClient>::getSharedMem() {
+    StrClient& StringTensor<StrClient>::getSharedMem() {
 
         return _sh_mem;
     }
@@ -172,6 +172,7 @@ namespace EigenIPC {
         // ordered evaluation)
 
         return isRunning() &&
+               _fits(vec, col_index) &&
                _sh_mem.read(_buffer.block(0, col_index,
                                                 _n_rows, vec.size()), 0, col_index) && // just update the block
                _decode_vec(vec, col_index);
@@ -218,7 +219,8 @@ namespace EigenIPC {
 
         if (!isRunning() ||
             col_index < 0 ||
-            col_index >= _length) {
+            col_index >= _length ||
+            str.size() > _max_chars) {
 
             return false;
         }
@@ -262,6 +264,8 @@ namespace EigenIPC {
     template <typename ShMemType>
     void StringTensor<ShMemType>::close() {
 
+        _running = false;
+
         _sh_mem.close();
 
     }
@@ -285,6 +289,14 @@ namespace EigenIPC {
 
         }
 
+        for (const auto& str : vec) {
+
+            if (str.size() > _max_chars) {
+
+                return false; // too long
+            }
+        }
+
         for (const auto& str : vec) { // for each string
 
             _encode_str(str, col_index);
@@ -371,7 +383,8 @@ namespace EigenIPC {
     bool StringTensor<ShMemType>::_fits(const std::vector<std::string>& vec,
                                        int index) {
 
-        if (index + vec.size() > _length) {
+        if (index < 0 || index > _length ||
+            vec.size() > static_cast<std::size_t>(_length - index)) {
 
             return false;
         }
-- 
2.43.0


From ade40df245e8324052b30212c64b407f38a06c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:04 +0000
Subject: [PATCH 09/24] fix: a failed creation or message leaves no name,
 attachment or semaphore behind

---
 EigenIPC/src/CondVar.cpp      | 31 +++++++++++++++-------
 EigenIPC/src/MemUtils.hpp     | 48 +++++++++++++++++------------------
 EigenIPC/src/StringTensor.cpp | 15 ++++++++---
 3 files changed, 58 insertions(+), 36 deletions(-)

diff --git a/EigenIPC/src/CondVar.cpp b/EigenIPC/src/CondVar.cpp
index 2a999d8..a1dd4c4 100644
--- a/EigenIPC/src/CondVar.cpp
+++ b/EigenIPC/src/CondVar.cpp
@@ -60,20 +60,32 @@ namespace EigenIPC {
                 }
             }
 
-            _cond_ptr = std::make_unique<NamedCondition>(
-                            boost::interprocess::create_only, 
-                            _mem_config.mem_path_cond_var.c_str());
-                            
+            // whoever creates the mutex owns both names
+            _mutex_ptr = std::make_unique<NamedMutex>(
+                            boost::interprocess::create_only,
+                            _mem_config.mem_path_cond_var_mutex.c_str());
+
             try {
 
-                _mutex_ptr = std::make_unique<NamedMutex>(
-                                boost::interprocess::create_only,
-                                _mem_config.mem_path_cond_var_mutex.c_str());
+                _cond_ptr = std::make_unique<NamedCondition>(
+                                boost::interprocess::create_only, 
+                                _mem_config.mem_path_cond_var.c_str());
+
+            } catch (const boost::interprocess::interprocess_exception& e) {
+
+                // a creation which failed half-way leaves its name behind
+                if (e.get_error_code() != boost::interprocess::already_exists_error) {
+                    NamedCondition::remove(_mem_config.mem_path_cond_var.c_str());
+                }
+
+                NamedMutex::remove(_mem_config.mem_path_cond_var_mutex.c_str());
+
+                throw;
 
             } catch (...) {
 
                 // otherwise it could not be created any more
-                NamedCondition::remove(_mem_config.mem_path_cond_var.c_str());
+                NamedMutex::remove(_mem_config.mem_path_cond_var_mutex.c_str());
 
                 throw;
             }
@@ -225,8 +237,9 @@ namespace EigenIPC {
         }
 
         // Destroy named mutex and named condition variable
-        bool named_mutex_rm_ok = NamedMutex::remove(_mem_config.mem_path_cond_var_mutex.c_str());
+        // (the mutex last: as long as its name exists nobody else creates them)
         bool named_cond_rm_ok = NamedCondition::remove(_mem_config.mem_path_cond_var.c_str());
+        bool named_mutex_rm_ok = NamedMutex::remove(_mem_config.mem_path_cond_var_mutex.c_str());
 
         return named_mutex_rm_ok && named_cond_rm_ok;
     }
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 1cf6294..0544414 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -715,6 +715,26 @@ namespace EigenIPC{
         // sem release
 
         // free sem
+        inline void logSem(Journal& journal,
+                        const char* function,
+                        const char* what,
+                        const std::string& sem_path) {
+
+            try {
+
+                journal.log(function,
+                             what + sem_path,
+                             LogType::INFO);
+
+            } catch (...) {
+
+                // a message which cannot be built must not leave
+                // the semaphore taken
+
+            }
+
+        }
+
         inline void releaseSem(const std::string& sem_path,
                          sem_t *&sem,
                          Journal& journal,
@@ -725,12 +745,7 @@ namespace EigenIPC{
             if (verbose &&
                     vlevel > VLevel::V2) {
 
-                std::string info = std::string("Releasing semaphore at ") +
-                            sem_path;
-
-                journal.log(__FUNCTION__,
-                             info,
-                             LogType::INFO);
+                logSem(journal, __FUNCTION__, "Releasing semaphore at ", sem_path);
             }
 
             // Release the semaphore
@@ -756,12 +771,7 @@ namespace EigenIPC{
             if (verbose &&
                     vlevel > VLevel::V2) {
 
-                std::string info = std::string("Released semaphore at ") +
-                        sem_path;
-
-                journal.log(__FUNCTION__,
-                             info,
-                             LogType::INFO);
+                logSem(journal, __FUNCTION__, "Released semaphore at ", sem_path);
 
             }
 
@@ -1028,12 +1038,7 @@ namespace EigenIPC{
                 if (verbose &&
                     vlevel > VLevel::V2) {
 
-                    std::string info = std::string("Acquired semaphore at ") +
-                            sem_path;
-
-                    journal.log(__FUNCTION__,
-                                info,
-                                LogType::INFO);
+                    logSem(journal, __FUNCTION__, "Acquired semaphore at ", sem_path);
 
                 }
             }
@@ -1082,12 +1087,7 @@ namespace EigenIPC{
             if (verbose &&
                     vlevel > VLevel::V2) {
 
-                std::string info = std::string("Acquired semaphore at ") +
-                        sem_path;
-
-                journal.log(__FUNCTION__,
-                             info,
-                             LogType::INFO);
+                logSem(journal, __FUNCTION__, "Acquired semaphore at ", sem_path);
 
             }
             
diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index 1909e14..c6a7788 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -98,10 +98,19 @@ namespace EigenIPC {
 
             _sh_mem.attach();
 
-            _length =_sh_mem.getNCols(); // getting from
-            // client (client gets this from server)
+            try {
 
-            _buffer = Tensor<int>(_n_rows, _length); // we can now initialize the buffer
+                _length =_sh_mem.getNCols(); // getting from
+                // client (client gets this from server)
+
+                _buffer = Tensor<int>(_n_rows, _length); // we can now initialize the buffer
+
+            } catch (...) {
+
+                _sh_mem.detach(); // otherwise it would still be counted
+
+                throw;
+            }
 
             _running = true;
         }
-- 
2.43.0


From 115536168d6987087c1b9e6bd95946b432903858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 10/24] fix: a client whose second attach runs out of memory
 can be destroyed

---
 EigenIPC/src/Client.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index e7fcc31..f0870ed 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -186,9 +186,10 @@ namespace EigenIPC {
                 if (_initDataMem() &&
                     MemUtils::isMemLinked(_isrunning_shm_fd)) {
 
-                    _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
-                                                        _n_cols); // used to hold
-                    // a copy of the shared tensor data
+                    _tensor_copy = Tensor<Scalar, Layout>(
+                            Tensor<Scalar, Layout>::Zero(_n_rows, _n_cols)); // used to hold
+                    // a copy of the shared tensor data (moved: a resize which
+                    // fails would leave a freed buffer behind)
 
                     _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
 
-- 
2.43.0


From f5da5cc0bdc85e54259d5b7ce941caa6d0dcae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:35 +0000
Subject: [PATCH 11/24] fix: keep the shared memory of different names and
 namespaces apart

---
 EigenIPC/include/EigenIPC/SharedMemConfig.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/include/EigenIPC/SharedMemConfig.hpp b/EigenIPC/include/EigenIPC/SharedMemConfig.hpp
index b7a287c..22b89dc 100644
--- a/EigenIPC/include/EigenIPC/SharedMemConfig.hpp
+++ b/EigenIPC/include/EigenIPC/SharedMemConfig.hpp
@@ -30,7 +30,10 @@ namespace EigenIPC{
         SharedMemConfig(const std::string& name,
                         const std::string& name_space = "")
             : _name(name),
-              _namespace(name_space) {
+              // the lengths keep the paths of any two different pairs apart:
+              // "a" + "bc" and "ab" + "c" must not share memory
+              _namespace(std::to_string(name_space.size()) + "_" +
+                         std::to_string(name.size()) + "_" + name_space) {
             
             // original shared mem
             mem_path = "/" + _namespace + _name;
-- 
2.43.0


From a726ada9e944ab4011c891d48636c87fe6b5030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 12/24] fix: shared memory paths begin with the namespace and
 the name again

---
 EigenIPC/include/EigenIPC/SharedMemConfig.hpp | 32 ++++++++++---------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/SharedMemConfig.hpp b/EigenIPC/include/EigenIPC/SharedMemConfig.hpp
index 22b89dc..cca370c 100644
--- a/EigenIPC/include/EigenIPC/SharedMemConfig.hpp
+++ b/EigenIPC/include/EigenIPC/SharedMemConfig.hpp
@@ -30,35 +30,37 @@ namespace EigenIPC{
         SharedMemConfig(const std::string& name,
                         const std::string& name_space = "")
             : _name(name),
-              // the lengths keep the paths of any two different pairs apart:
-              // "a" + "bc" and "ab" + "c" must not share memory
-              _namespace(std::to_string(name_space.size()) + "_" +
-                         std::to_string(name.size()) + "_" + name_space) {
+              _namespace(name_space) {
             
+            // the lengths keep the paths of any two different pairs apart:
+            // "a" + "bc" and "ab" + "c" must not share memory
+            const std::string id = "_" + std::to_string(name_space.size()) +
+                                   "_" + std::to_string(name.size());
+
             // original shared mem
-            mem_path = "/" + _namespace + _name;
+            mem_path = "/" + _namespace + _name + id;
 
-            mem_path_nrows = "/" + _namespace + _name + "_" + MemDef::sharedTensorNRowsName();
+            mem_path_nrows = "/" + _namespace + _name + "_" + MemDef::sharedTensorNRowsName() + id;
 
-            mem_path_ncols = "/" + _namespace + _name + "_" + MemDef::sharedTensorNColsName();
+            mem_path_ncols = "/" + _namespace + _name + "_" + MemDef::sharedTensorNColsName() + id;
 
-            mem_path_dtype = "/" + _namespace + _name + "_" + MemDef::sharedTensorDTypeName();
+            mem_path_dtype = "/" + _namespace + _name + "_" + MemDef::sharedTensorDTypeName() + id;
 
-            mem_path_clients_counter = "/" + _namespace + _name + "_" + MemDef::ClientsCountName();
+            mem_path_clients_counter = "/" + _namespace + _name + "_" + MemDef::ClientsCountName() + id;
 
-            mem_path_isrunning = "/" + _namespace + _name + "_" + MemDef::isSrvrRunningName();
+            mem_path_isrunning = "/" + _namespace + _name + "_" + MemDef::isSrvrRunningName() + id;
 
-            mem_path_mem_layout = "/" + _namespace + _name + "_" + MemDef::memLayoutName();
+            mem_path_mem_layout = "/" + _namespace + _name + "_" + MemDef::memLayoutName() + id;
 
-            mem_path_server_sem = "/" + _namespace + _name + "_" + MemDef::SrvrSemName();
+            mem_path_server_sem = "/" + _namespace + _name + "_" + MemDef::SrvrSemName() + id;
 
-            mem_path_data_sem = "/" + _namespace + _name + "_" + MemDef::DataSemName();
+            mem_path_data_sem = "/" + _namespace + _name + "_" + MemDef::DataSemName() + id;
             
             // conditon variable wrapper
 
-            mem_path_cond_var = _namespace + _name + MemDef::CondVarName();
+            mem_path_cond_var = _namespace + _name + MemDef::CondVarName() + id;
 
-            mem_path_cond_var_mutex = _namespace + _name + MemDef::CondVarMutexName();
+            mem_path_cond_var_mutex = _namespace + _name + MemDef::CondVarMutexName() + id;
 
         }
 
-- 
2.43.0


From 547f16b7763daeefa6f061e80105a843a764b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 13/24] fix: accept single rows and columns of any strides from
 Python

---
 .../bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp    | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
index 4e3c6f3..ad61cd5 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
@@ -51,11 +51,12 @@ namespace PyEigenIPC {
             } // we restrict ourselves to work with only 2D tensors
 
 
-            if ((Layout == EigenIPC::RowMajor) &&
-                    (buf_info.strides[0] < buf_info.strides[1]) ) { // not coherent -> stop
+            // the layout only matters if there is more than one row and more
+            // than one column (otherwise numpy is free to choose the strides)
+            bool has_layout = buf_info.shape[0] > 1 && buf_info.shape[1] > 1;
 
-                // (in case strides are equal it means we are dealing with a Scalar ->
-                // Layout does not matter)
+            if ((Layout == EigenIPC::RowMajor) && has_layout &&
+                    (buf_info.strides[0] < buf_info.strides[1]) ) { // not coherent -> stop
 
                 // print non-blocking exception for the user
                 std::string message = std::string("Expected np array of layout RowMajor, but got ") +
@@ -72,12 +73,9 @@ namespace PyEigenIPC {
                 return false;
             }
 
-            if ((Layout == EigenIPC::ColMajor) &&
+            if ((Layout == EigenIPC::ColMajor) && has_layout &&
                     (buf_info.strides[0] > buf_info.strides[1]) ) { // not coherent -> stop
 
-                // (in case strides are equal it means we are dealing with a Scalar ->
-                // Layout does not matter)
-
                 // print non-blocking exception for the user
                 std::string message = std::string("Expected np array of layout ColMajor, but got ") +
                         std::string("RowMajor. Server and array layout must match! ") +
-- 
2.43.0


From 79ccb3ea3181e192084d762387827ddc7953b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 14/24] fix: refuse Python arrays whose strides cannot be
 followed

---
 .../PyEigenIPC/src/PyEigenIPCUtils.hpp        | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
index ad61cd5..0cf4698 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
@@ -51,6 +51,30 @@ namespace PyEigenIPC {
             } // we restrict ourselves to work with only 2D tensors
 
 
+            for (int i = 0; i < 2; i++) {
+
+                // elements have to follow each other in memory, at a whole
+                // number of elements (a single element has no stride)
+                if (buf_info.shape[i] > 1 &&
+                        (buf_info.strides[i] < 0 || buf_info.strides[i] % buf_info.itemsize != 0)) {
+
+                    // print non-blocking exception for the user
+                    std::string message = std::string("Arrays with negative strides, or with strides ") +
+                            std::string("which are not multiple of the element size, are not supported. ") +
+                            std::string("Provided strides are, respectively, ") +
+                            std::to_string(buf_info.strides[0]) +
+                            std::string(", ") + std::to_string(buf_info.strides[1]);
+
+                    EigenIPC::Journal::log("PyEigenIPC::Utils",
+                                "CheckInputBuffer",
+                                message,
+                                LogType::EXCEP);
+
+                    return false;
+                }
+
+            }
+
             // the layout only matters if there is more than one row and more
             // than one column (otherwise numpy is free to choose the strides)
             bool has_layout = buf_info.shape[0] > 1 && buf_info.shape[1] > 1;
-- 
2.43.0


From 96a5a01f13c4e7896ce3a8355b1f7f9af0014ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 15/24] fix: SharedTWrapper.read into an array needs no torch
 view

---
 EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index f3e0e65..88417cb 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -273,7 +273,7 @@ class SharedTWrapper:
                         message,
                         LogType.EXCEP,
                         throw_when_excep = True)
-                if not self._fits_into(data, self._torch_view, 
+                if not self._fits_into(data, self._numpy_view, 
                                     row_index, col_index):
                     message = "Provided data does not fit in data view!!"
                     Logger.log(self.__class__.__name__,
-- 
2.43.0


From 72458eecfe6a4cf899d742160f31dd8c082f6c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 16/24] fix: SharedTensorDict servers publish names and
 dimensions before the data

---
 .../PyEigenIPC/wrappers/shared_tensor_dict.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
index 74c42be..7b578ce 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
@@ -220,11 +220,24 @@ class SharedTensorDict():
 
     def run(self):
         
-        self.data.run()
+        if self.is_server:
+
+            # clients wait for the data first: by then names and
+            # dimensions have to be complete
+
+            self.shared_names.run()
+
+            self.shared_dims.run()
 
-        self.shared_names.run()
+            self.data.run()
+
+        else:
+
+            self.data.run()
+
+            self.shared_names.run()
 
-        self.shared_dims.run()
+            self.shared_dims.run()
 
         if not self.is_server:
 
-- 
2.43.0


From 5d7db505fcfc77929cb67054a9fae2c71c1816d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 17/24] fix: ToRos.run attaches a tensor client (Client has no
 run)

---
 .../bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
index aeebeda..ac51d17 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
@@ -226,7 +226,13 @@ class ToRos():
                         
             # manually run client if not running
 
-            self._client.run()
+            if self._is_string_tensor:
+
+                self._client.run()
+
+            else:
+
+                self._client.attach()
         
         self._init_publisher()
     
-- 
2.43.0


From 1187922972c3435654b30a9dfa08f5c06c18ada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 18/24] fix: ToRos.update returns False before run and after
 close instead of failing or spinning forever

---
 EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
index ac51d17..2fed7dd 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
@@ -242,6 +242,10 @@ class ToRos():
 
     def update(self):
         
+        if self._publisher is None or not self._client.isRunning():
+
+            return False # not running (yet or anymore)
+
         success = self._synch_from_shared_mem() # updated publisher np view with shared memory
 
         if self._ros_backend == "ros2":
-- 
2.43.0


From 327ab9ea15e7761bbf1ad3a943a8fe798581db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 19/24] fix: a data message that does not fit no longer blocks
 FromRos.update forever

---
 .../PyEigenIPC/extensions/ros_bridge/abstractions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py
index 00dd098..3519f3b 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/abstractions.py
@@ -491,12 +491,16 @@ class RosSubscriber(ABC):
         
         self._writing_data = True
 
-        # write data (also updated numpy view)
+        try:
 
-        self.np_data[:, :] = np.array(msg.data).reshape((self._n_rows, self._n_cols))
+            # write data (also updated numpy view)
 
-        # "release" data 
-        self._writing_data = False
+            self.np_data[:, :] = np.array(msg.data).reshape((self._n_rows, self._n_cols))
+
+        finally:
+
+            # "release" data, also if the message does not fit
+            self._writing_data = False
                 
     def _got_metadata(self):
         
-- 
2.43.0


From 78e3f83a7c25bed5b9f9e4e958342ce976cfeeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 20/24] fix: FromRos.run may be called again, FromRos.close at
 any time, and update does nothing after close

---
 .../bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
index 0ac21b3..1154f44 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
@@ -182,11 +182,15 @@ class FromRos():
 
                 self._is_running = True # ready
         
-        return sub_success and self._is_running
+        return self._is_running
 
     def close(self):
 
-        self._server.close()
+        self._is_running = False # no more updates
+
+        if self._server is not None:
+
+            self._server.close()
 
     def update(self):
         
-- 
2.43.0


From 08155e1bcfff5e391ce30206411179eb68889a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 21/24] fix: a closed or replaced producer that is started
 again leaves the running channel alone

run() created the condition variables (with force_reconnection: over those
of a running producer) before it found out that it cannot run any more, and
removed their names on the way out.
---
 EigenIPC/src/Producer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/src/Producer.cpp b/EigenIPC/src/Producer.cpp
index 0f9245f..11987a8 100644
--- a/EigenIPC/src/Producer.cpp
+++ b/EigenIPC/src/Producer.cpp
@@ -64,13 +64,18 @@ namespace EigenIPC {
 
             try {
 
-                _create_cond_vars(); // we first create the condition variables
-
                 _init_counters();
 
-                _trigger_counter_srvr.run();
+                // fails if this producer was closed or replaced: in that case
+                // the condition variables are not (any more) its own
                 _ack_counter_srvr.run();
 
+                _create_cond_vars();
+
+                // consumers wait for the trigger counter first: by then the
+                // condition variables exist
+                _trigger_counter_srvr.run();
+
             } catch (...) {
 
                 // nothing is left half-way
-- 
2.43.0


From bffb82bd7327d2b4d385aae5150ef2aafeadc08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 22/24] fix: a condition variable whose creation runs out of
 memory leaves no name behind

---
 EigenIPC/src/CondVar.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/src/CondVar.cpp b/EigenIPC/src/CondVar.cpp
index a1dd4c4..1d291c8 100644
--- a/EigenIPC/src/CondVar.cpp
+++ b/EigenIPC/src/CondVar.cpp
@@ -84,7 +84,8 @@ namespace EigenIPC {
 
             } catch (...) {
 
-                // otherwise it could not be created any more
+                // otherwise they could not be created any more
+                NamedCondition::remove(_mem_config.mem_path_cond_var.c_str());
                 NamedMutex::remove(_mem_config.mem_path_cond_var_mutex.c_str());
 
                 throw;
-- 
2.43.0


From 9135bc8b894f7de9061ac20f44148eacbb9dc098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 23/24] fix: closing a condition variable does not remove the
 names of the server which replaced it

---
 EigenIPC/include/EigenIPC/CondVar.hpp |  2 ++
 EigenIPC/src/CondVar.cpp              | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/include/EigenIPC/CondVar.hpp b/EigenIPC/include/EigenIPC/CondVar.hpp
index 2453a2c..ff97127 100644
--- a/EigenIPC/include/EigenIPC/CondVar.hpp
+++ b/EigenIPC/include/EigenIPC/CondVar.hpp
@@ -112,6 +112,8 @@ namespace EigenIPC{
             std::unique_ptr<NamedCondition> _cond_ptr;
             std::unique_ptr<NamedMutex> _mutex_ptr;
 
+            int _cond_fd = -1; // the condition variable's memory (server only)
+
             boost::posix_time::ptime _utc_timeout;
             
             ScopedLock _lock;
diff --git a/EigenIPC/src/CondVar.cpp b/EigenIPC/src/CondVar.cpp
index 1d291c8..4c47dba 100644
--- a/EigenIPC/src/CondVar.cpp
+++ b/EigenIPC/src/CondVar.cpp
@@ -17,6 +17,8 @@
 
 #include <EigenIPC/CondVar.hpp>
 
+#include "MemUtils.hpp"
+
 namespace EigenIPC {
 
     ConditionVariable::ConditionVariable(
@@ -71,6 +73,15 @@ namespace EigenIPC {
                                 boost::interprocess::create_only, 
                                 _mem_config.mem_path_cond_var.c_str());
 
+                // tells, when closing, if the names are still the ones created here
+                _cond_fd = shm_open(("/" + _mem_config.mem_path_cond_var).c_str(), O_RDONLY, 0);
+
+                if (_cond_fd == -1) {
+
+                    throw std::runtime_error(std::string("Could not open ") +
+                                    _mem_config.mem_path_cond_var);
+                }
+
             } catch (const boost::interprocess::interprocess_exception& e) {
 
                 // a creation which failed half-way leaves its name behind
@@ -199,7 +210,14 @@ namespace EigenIPC {
 
         if (_is_server && !_closed) {
 
-            if (!_cleanup_mem()) { // clean mutex and condition var
+            // nothing is removed if it belongs to another server, which replaced this one
+            bool owns_names = MemUtils::isMemLinked(_cond_fd);
+
+            ::close(_cond_fd);
+
+            _cond_fd = -1;
+
+            if (owns_names && !_cleanup_mem()) { // clean mutex and condition var
 
                 if (_verbose) {
                     std::string exception = _basename + std::string("-") + _namespace + std::string(". Could not ") + 
-- 
2.43.0


From df34506c62b5c214a870da14ad51c0cafa720347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:54 +0000
Subject: [PATCH 24/24] fix: a server whose creation runs out of memory after
 it was initialized leaves nothing locked behind

---
 EigenIPC/src/Server.cpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 17f16e4..4cb7240 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -106,25 +106,25 @@ namespace EigenIPC {
 
             _init();
 
-        } catch (...) {
+            _terminated = false; // just in case
 
-            _abortInit(); // nothing stays open or locked
+            if (_verbose &&
+                _vlevel > VLevel::V1) {
 
-            throw;
-        }
+                std::string info = std::string("Server at ") +
+                        _mem_config.mem_path + std::string(" initialized. Ready to run");
 
-        _terminated = false; // just in case
+                _journal.log(__FUNCTION__,
+                    info,
+                    LogType::STAT);
 
-        if (_verbose &&
-            _vlevel > VLevel::V1) {
+            }
 
-            std::string info = std::string("Server at ") +
-                    _mem_config.mem_path + std::string(" initialized. Ready to run");
+        } catch (...) {
 
-            _journal.log(__FUNCTION__,
-                info,
-                LogType::STAT);
+            _abortInit(); // nothing stays open or locked
 
+            throw;
         }
 
     }
@@ -211,6 +211,17 @@ namespace EigenIPC {
     void Server<Scalar, Layout>::_abortInit()
     {
 
+        if (!_holds_srvr_sem && _isrunning_shm_fd != -1) {
+
+            // everything was initialized: fails if another server took over
+            _holds_srvr_sem = _acquireSemOneShot(_mem_config.mem_path_server_sem,
+                                        _srvr_sem);
+
+            _releaseAll(_holds_srvr_sem && MemUtils::isMemLinked(_isrunning_shm_fd));
+
+            return;
+        }
+
         _releaseAll(_holds_srvr_sem); // unless it owns the session, others may be using it
 
     }
-- 
2.43.0

