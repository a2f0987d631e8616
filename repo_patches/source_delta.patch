From 3779d987d9ef0724b69c37506bdc62281425dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 01/47] hook: let FILE_BLOCK_SIZE and BIG_FILE_SIZE be set from
 the build

---
 Source/CsvParser/StreamFileReader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Source/CsvParser/StreamFileReader.h b/Source/CsvParser/StreamFileReader.h
index 6c5fb50..f8e9fb7 100644
--- a/Source/CsvParser/StreamFileReader.h
+++ b/Source/CsvParser/StreamFileReader.h
@@ -5,8 +5,12 @@
 #include <iostream>
 
 // BIG_FILE_SIZE must be greater then FILE_BLOCK_SIZE
+#ifndef FILE_BLOCK_SIZE
 #define FILE_BLOCK_SIZE 4096
+#endif
+#ifndef BIG_FILE_SIZE
 #define BIG_FILE_SIZE 10485760
+#endif
 
 namespace mvlt
 {
-- 
2.43.0


From 0e4b96e7dd76ba2288ff383386eb1f3907d0fe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 02/47] fix: a spurious wake-up no longer lets a writer in next
 to a reader

ReadWriteMutex::WriteLock checked the number of readers once before waiting on
the condition variable, which may return without any notification.
---
 Source/ReadWriteMutex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/ReadWriteMutex.cpp b/Source/ReadWriteMutex.cpp
index d8bc577..57bbba8 100644
--- a/Source/ReadWriteMutex.cpp
+++ b/Source/ReadWriteMutex.cpp
@@ -51,7 +51,7 @@ namespace mvlt
 
             IsCondVarWaiting.store(true);
 
-            if (ReadCounter > 0) Cv.wait(lk);
+            while (ReadCounter > 0) Cv.wait(lk);
 
             IsCondVarWaiting.store(false);
         }
-- 
2.43.0


From b88462269086a815a44f9131408496e1356a356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 03/47] fix: a recursive lock no longer counts what its thread
 holds of other locks

The per-thread counters of RecursiveReadWriteMutex were shared by all instances,
so a thread that held one vault's lock did not lock another vault at all.
---
 Source/ReadWriteMutex.cpp | 65 ++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 15 deletions(-)

diff --git a/Source/ReadWriteMutex.cpp b/Source/ReadWriteMutex.cpp
index 57bbba8..1500b27 100644
--- a/Source/ReadWriteMutex.cpp
+++ b/Source/ReadWriteMutex.cpp
@@ -65,8 +65,37 @@ namespace mvlt
         }
     }
 
-    thread_local std::size_t LocalThreadReadLockCounter = 0;
-    thread_local std::size_t LocalThreadWriteLockCounter = 0;
+    // How often the calling thread holds one particular mutex. A node exists only while the thread holds it
+    struct ThreadLockCounters
+    {
+        const RecursiveReadWriteMutex* Mutex;
+        std::size_t ReadLockCounter;
+        std::size_t WriteLockCounter;
+        ThreadLockCounters* Next;
+    };
+
+    thread_local ThreadLockCounters* LocalThreadLockCounters = nullptr;
+
+    // Function to get counters of the mutex for the calling thread
+    static ThreadLockCounters* GetCounters(const RecursiveReadWriteMutex* mutex)
+    {
+        for (ThreadLockCounters* counters = LocalThreadLockCounters; counters != nullptr; counters = counters->Next)
+            if (counters->Mutex == mutex) return counters;
+
+        LocalThreadLockCounters = new ThreadLockCounters{mutex, 0, 0, LocalThreadLockCounters};
+        return LocalThreadLockCounters;
+    }
+
+    // Function to forget counters of the mutex when the calling thread does not hold it any more
+    static void ReleaseCounters(ThreadLockCounters* counters)
+    {
+        if (counters->ReadLockCounter != 0 || counters->WriteLockCounter != 0) return;
+
+        ThreadLockCounters** it = &LocalThreadLockCounters;
+        while (*it != counters) it = &(*it)->Next;
+        *it = counters->Next;
+        delete counters;
+    }
 
     void RecursiveReadWriteMutex::Disable() noexcept
     {
@@ -77,12 +106,13 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 0)
+            ThreadLockCounters* counters = GetCounters(this);
+            if (counters->WriteLockCounter == 0)
             {
-                if (LocalThreadReadLockCounter == 0)
+                if (counters->ReadLockCounter == 0)
                     Rwmx.ReadLock();
 
-                ++LocalThreadReadLockCounter;
+                ++counters->ReadLockCounter;
             }
         }
     }
@@ -91,12 +121,14 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 0)
+            ThreadLockCounters* counters = GetCounters(this);
+            if (counters->WriteLockCounter == 0)
             {
-                if (LocalThreadReadLockCounter == 1)
+                if (counters->ReadLockCounter == 1)
                     Rwmx.ReadUnlock();
 
-                --LocalThreadReadLockCounter;
+                --counters->ReadLockCounter;
+                ReleaseCounters(counters);
             }
         }
     }
@@ -105,15 +137,16 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 0)
+            ThreadLockCounters* counters = GetCounters(this);
+            if (counters->WriteLockCounter == 0)
             {
-                if (LocalThreadReadLockCounter > 0)
+                if (counters->ReadLockCounter > 0)
                     Rwmx.ReadUnlock();
 
                 Rwmx.WriteLock();
             }
 
-            ++LocalThreadWriteLockCounter;
+            ++counters->WriteLockCounter;
         }
     }
 
@@ -121,13 +154,15 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 1)
+            ThreadLockCounters* counters = GetCounters(this);
+            if (counters->WriteLockCounter == 1)
             {
                 Rwmx.WriteUnlock();
-                if (LocalThreadReadLockCounter > 0)
+                if (counters->ReadLockCounter > 0)
                     Rwmx.ReadLock();
             }
-            --LocalThreadWriteLockCounter;
+            --counters->WriteLockCounter;
+            ReleaseCounters(counters);
         }
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From 34e0867572e0c13803f69991d7f619d86c391fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 04/47] fix: writing or reading through a dead reference does
 not touch its vault

VaultRecordRef methods locked the vault before they looked at the reference, so
an empty reference (SetData with a list) or one that outlived its vault crashed.
---
 Source/VaultRecordRef.cpp | 11 ++++++++++-
 Source/VaultRecordRef.hpp |  7 ++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 7f5f6e3..2a304ed 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -154,6 +154,14 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        // The vault of a record that is not valid any more may not exist any more
+        if (!IsValid())
+        {
+            res.IsOperationSuccess = false;
+            res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
+            return res;
+        }
+
         WriteLock<RecursiveReadWriteMutex> writeLock(Vlt->RecursiveReadWriteMtx);
 
         // Copy data from function parametrs
@@ -175,7 +183,8 @@ namespace mvlt
         res.Key = key;
         res.RequestedType = typeid(std::string);
 
-        if (VaultRecordPtr == nullptr)
+        // The vault of a record that is not valid any more may not exist any more
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
diff --git a/Source/VaultRecordRef.hpp b/Source/VaultRecordRef.hpp
index b3ed023..9a8f761 100644
--- a/Source/VaultRecordRef.hpp
+++ b/Source/VaultRecordRef.hpp
@@ -19,7 +19,8 @@ namespace mvlt
         res.Key = key;
         res.RequestedType = typeid(T);
 
-        if (VaultRecordPtr == nullptr)
+        // The vault of a record that is not valid any more may not exist any more
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
@@ -55,8 +56,8 @@ namespace mvlt
         res.Key = key;
         res.RequestedType = typeid(T);
 
-
-        if (VaultRecordPtr == nullptr)
+        // The vault of a record that is not valid any more may not exist any more
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
-- 
2.43.0


From 68814550076f8245c374f32ac138000774f380c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 05/47] fix: a reference answers about its keys only while its
 record is valid

IsKeyExist reported the keys of the vault for an erased record and used the vault
after it was destroyed; GetKeys checked the record before it locked the vault.
---
 Source/VaultRecordRef.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 2a304ed..32e32ad 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -234,7 +234,13 @@ namespace mvlt
 
         bool res = false;
 
-        if (Vlt != nullptr) res = Vlt->IsKeyExist(key);
+        if (IsValid())
+        {
+            ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+
+            // Check if Vault still accessable
+            if (VaultRecordPtr->GetIsValid()) res = Vlt->IsKeyExist(key);
+        }
 
         return res;
     }
@@ -245,8 +251,10 @@ namespace mvlt
 
         std::vector<std::string> res;
 
-        if (VaultRecordPtr != nullptr)
+        if (IsValid())
         {
+            ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
                 res = Vlt->GetKeys();
-- 
2.43.0


From 61e1b96fb36d2979a8a506fd6fbcc4d589ad1463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 06/47] fix: printing a record locks the vault before the
 record

PrintRecord, ToJson and ToStrings took the two locks in the opposite order of
the methods that erase or change records, which could deadlock.
---
 Source/VaultRecordRef.cpp | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 32e32ad..88828e9 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -267,15 +267,14 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        if (VaultRecordPtr != nullptr)
+        if (IsValid())
         {
-            VaultRecordPtr->VaultRecordMutex.lock();
+            // The vault is locked before the record, like everywhere else
+            ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                Vlt->RecursiveReadWriteMtx.ReadLock();
-
                 std::cout << "Vault record " << VaultRecordPtr << ":" << "\n";
 
                 for (const auto& keyPair : Vlt->VaultHashMapStructure)
@@ -285,12 +284,8 @@ namespace mvlt
 
                     std::cout << "\t" << keyPair.first << " = " << dataSaver.Str() << "\n";
                 }
-
-                Vlt->RecursiveReadWriteMtx.ReadUnlock();
             }
             else std::cout << "VaultRecordRef not valid!" << "\n";
-
-            VaultRecordPtr->VaultRecordMutex.unlock();
         }
         else std::cout << "VaultRecordRef not valid!" << "\n";
     }
@@ -314,15 +309,14 @@ namespace mvlt
         std::size_t keyCounter = 0;
         std::string res = "{";
 
-        if (VaultRecordPtr != nullptr)
+        if (IsValid())
         {
-            VaultRecordPtr->VaultRecordMutex.lock();
+            // The vault is locked before the record, like everywhere else
+            ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                Vlt->RecursiveReadWriteMtx.ReadLock();
-
                 for (const std::string& key : Vlt->KeysOrder)
                 {
                     if (isFormat) res += "\n" + tab;
@@ -338,11 +332,7 @@ namespace mvlt
                     ++keyCounter;
                     if (keyCounter != Vlt->KeysOrder.size()) res += ",";
                 }
-
-                Vlt->RecursiveReadWriteMtx.ReadUnlock();
             }
-
-            VaultRecordPtr->VaultRecordMutex.unlock();
         }
 
         if (isFormat) res += "\n";
@@ -357,15 +347,14 @@ namespace mvlt
 
         std::vector<std::pair<std::string, std::string>> res;
 
-        if (VaultRecordPtr != nullptr)
+        if (IsValid())
         {
-            VaultRecordPtr->VaultRecordMutex.lock();
+            // The vault is locked before the record, like everywhere else
+            ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                Vlt->RecursiveReadWriteMtx.ReadLock();
-
                 for (const std::string& key : Vlt->KeysOrder)
                 {
                     DataSaver dataSaver;
@@ -373,11 +362,7 @@ namespace mvlt
 
                     res.emplace_back(std::pair<std::string, std::string>(key, dataSaver.Str()));
                 }
-
-                Vlt->RecursiveReadWriteMtx.ReadUnlock();
             }
-
-            VaultRecordPtr->VaultRecordMutex.unlock();
         }
 
         return res;
-- 
2.43.0


From b2d2709b0a636ce084528886f99ae1ca2f76a6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 07/47] fix: changing a record keeps other records with the
 same value findable

SetDataToRecord erased every record with the old value from both indexes.
---
 Source/Vault.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 5dbedd0..747a519 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -78,7 +78,7 @@ namespace mvlt
             // Find required data record
             if ((*pairIt).second == dataRecord)
             {
-                TtoVaultRecordHashMap->Erase((*pairIt).first);
+                TtoVaultRecordHashMap->Erase(pairIt);
                 break;
             }
         }
@@ -99,7 +99,7 @@ namespace mvlt
             // Find required data record
             if ((*pairIt).second == dataRecord)
             {
-                TtoVaultRecordMap->Erase((*pairIt).first);
+                TtoVaultRecordMap->Erase(pairIt);
                 break;
             }
         }
-- 
2.43.0


From 1e6481f497950da16018ee2c2d408d0c4a5c5254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 08/47] fix: erasing a record keeps other records with the same
 value in the order

The eraser of a key dropped every record with the value from the ordered index.
---
 Source/Vault.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 747a519..a302157 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -493,7 +493,7 @@ namespace mvlt
                 {
                     if ((*pairIt).second == record)
                     {
-                        TtoVaultRecordMap->Erase((*pairIt).first);
+                        TtoVaultRecordMap->Erase(pairIt);
                         break;
                     }
                 }
-- 
2.43.0


From 70472b69c1b99eba01f4a6a3d9a9a6f682dc7fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 09/47] fix: the value of a unique key can be changed to a free
 value

SetDataToRecord looked for the old value of the record, which is always there,
instead of the new one, so every change of a unique key was refused.
---
 Source/Vault.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index a302157..c547ab4 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -63,13 +63,17 @@ namespace mvlt
         // Remove oldData from TtoVaultRecordHashMap from VaultHashMapStructure
         auto FirstAndLastIteratorsWithKeyOnHashMap = TtoVaultRecordHashMap->EqualRange(oldData);
 
-        // Check if it is unique key and try to set duplicate data
-        if (!TtoVaultRecordHashMap->IsMultiContainer() && FirstAndLastIteratorsWithKeyOnHashMap.first != TtoVaultRecordHashMap->End())
+        // Check if it is unique key and try to set data that another record has
+        if (!TtoVaultRecordHashMap->IsMultiContainer())
         {
-            res.IsOperationSuccess = false;
-            res.ResultCode = VaultOperationResultCode::UniqueKeyValueAlredyInSet;
+            auto sameDataIt = TtoVaultRecordHashMap->Find(data);
+            if (sameDataIt != TtoVaultRecordHashMap->End() && (*sameDataIt).second != dataRecord)
+            {
+                res.IsOperationSuccess = false;
+                res.ResultCode = VaultOperationResultCode::UniqueKeyValueAlredyInSet;
 
-            return res;
+                return res;
+            }
         }
 
         // Iterate over all data records with oldData key
-- 
2.43.0


From 610ae68692a3571baf2a6aa25e377e1046584edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 10/47] fix: unique keys stay unique in copies of a vault and
 in its sets

Key copiers recreated every key as an ordinary one, so a copy accepted duplicates
and counted each record twice in the indexes of the key.
---
 Source/Vault.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index c547ab4..61c7a55 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -522,7 +522,8 @@ namespace mvlt
         
         VaultKeyCopiers.emplace(key, [=](Vault* vaultRecordSet)
         {
-            vaultRecordSet->AddKey(key, defaultKeyValue);
+            // The copied key is unique if this key is. There are no records in copy yet so unique key function is not called
+            vaultRecordSet->AddKey<T>(key, defaultKeyValue, isUniqueKey, false, [=](const std::size_t&, const VaultRecordRef&) { return defaultKeyValue; });
         });
 
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
-- 
2.43.0


From 3bf647d448e49f92b2daf587776ffc6411972d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 11/47] fix: an updated default value reaches copies and record
 sets

UpdateKey changed only the template of the vault itself.
---
 Source/Vault.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 61c7a55..9f6614e 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -621,6 +621,13 @@ namespace mvlt
         // Change data in template
         RecordTemplate.SetData(key, defaultKeyValue);
 
+        // Change default value for copies of this
+        VaultKeyCopiers[key] = [=](Vault* vaultRecordSet) { vaultRecordSet->AddKey(key, defaultKeyValue); };
+
+        // Change default value in dependent VaultRecordSets
+        for (VaultRecordSet* set : RecordSetsSet)
+            set->UpdateKey(key, defaultKeyValue);
+
         res.SavedType = res.RequestedType;
         res.ResultCode = VaultOperationResultCode::Success;
         return res;
-- 
2.43.0


From 36bfab7c666052c0f40291ecaf706b191dc14fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 12/47] fix: a refused unique key leaves nothing behind in the
 vault

AddUniqueKey without a function on a vault with records returned after it had put
the indexes of the key into the vault.
---
 Source/Vault.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 9f6614e..02a92b3 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -370,6 +370,9 @@ namespace mvlt
             // If no lamda provided and vault not empty
             if (isUniqueKeyWithoutLambda && !RecordsSet.empty())
             {
+                VaultHashMapStructure.EraseData(key);
+                VaultMapStructure.EraseData(key);
+
                 res.IsOperationSuccess = false;
                 res.ResultCode = VaultOperationResultCode::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda;
                 return res;
-- 
2.43.0


From ca0a9f0316d67d0e9bbefe0c565a86aa0eaf12c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 13/47] fix: a new unique key has the same values in record
 sets as in the vault

AddUniqueKey called the user's function again for each dependent set, with the
set's own counter, and indexed the set by values the records do not have.
---
 Source/Vault.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 02a92b3..70360f3 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -534,7 +534,15 @@ namespace mvlt
             for (VaultRecordSet* set : RecordSetsSet)
             {
                 if (isUniqueKey)
-                    set->AddUniqueKey(key, uniqueKeyFunction);
+                {
+                    // Records inside this alredy have value. Function should not be called second time because it may return other values
+                    set->AddUniqueKey<T>(key, [&](const std::size_t&, const VaultRecordRef& ref)
+                    {
+                        T value{};
+                        ref.VaultRecordPtr->GetData(key, value);
+                        return value;
+                    });
+                }
                 else
                     set->AddKey(key, defaultKeyValue);
                 set->KeysOrder.emplace_back(key);
-- 
2.43.0


From e851f1a4757ca910909a4b6b87b054d06aedc483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 14/47] fix: joined and intersected sets follow their records

Join and Intersection did not register the set with the records they added, so
the set kept stale values and dangling pointers to erased records.
---
 Source/VaultRecordSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index af78276..1f75c9c 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -425,6 +425,8 @@ namespace mvlt
 
                     for (auto& adder : VaultRecordAdders)
                         adder.second(record);
+
+                    record->AddToDependentSets(this);
                 }
             }
         }
@@ -674,6 +676,8 @@ namespace mvlt
 
                         for (auto& adder : res.VaultRecordAdders)
                             adder.second(record);
+
+                        record->AddToDependentSets(&res);
                     }
                 }
             }
@@ -689,6 +693,8 @@ namespace mvlt
 
                         for (auto& adder : res.VaultRecordAdders)
                             adder.second(record);
+
+                        record->AddToDependentSets(&res);
                     }
                 }
             }
-- 
2.43.0


From ed555a76df8faf23785dacd155601ab08b324b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 15/47] fix: a record taken out of a set no longer updates the
 set

Removing a record from a set left the set registered with the record, so a later
change put the record back into the indexes of the set.
---
 Source/Vault.cpp       | 1 +
 Source/Vault.hpp       | 2 ++
 Source/VaultRecord.cpp | 7 ++++++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 8ee1abb..1a9d9ba 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -32,6 +32,7 @@ namespace mvlt
             recordToErase->RemoveFromDependentSets();
             recordToErase->Invalidate();
         }
+        else recordToErase->EraseDependentSet(static_cast<VaultRecordSet*>(this));
 
         if (wasDeleted != nullptr) *wasDeleted = true;
         return dataIt;
diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 70360f3..c803890 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -1014,6 +1014,7 @@ namespace mvlt
                 tmpRec->RemoveFromDependentSets();
                 tmpRec->Invalidate();
             }
+            else tmpRec->EraseDependentSet(static_cast<VaultRecordSet*>(this));
 
             res.IsOperationSuccess = true;
             res.ResultCode = VaultOperationResultCode::Success;
@@ -1095,6 +1096,7 @@ namespace mvlt
                     tmpRec->RemoveFromDependentSets();
                     tmpRec->Invalidate();
                 }
+                else tmpRec->EraseDependentSet(static_cast<VaultRecordSet*>(this));
                 
                 if (counter >= amountOfRecords) break;
                 
diff --git a/Source/VaultRecord.cpp b/Source/VaultRecord.cpp
index 72b65cf..258cae8 100644
--- a/Source/VaultRecord.cpp
+++ b/Source/VaultRecord.cpp
@@ -115,8 +115,13 @@ namespace mvlt
         DBG_LOG_ENTER();
 
         VaultRecordMutex.lock();
-        for (VaultRecordSet* set : dependentVaultRecordSets)
+        // RemoveRecord erases set from dependentVaultRecordSets
+        while (!dependentVaultRecordSets.empty())
+        {
+            VaultRecordSet* set = *dependentVaultRecordSets.begin();
             set->RemoveRecord(this, nullptr);
+            dependentVaultRecordSets.erase(set);
+        }
 
         VaultRecordMutex.unlock();
     }
-- 
2.43.0


From 2b5d3be7a09525edd9f576d0d1d198c7e1b2aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 16/47] fix: requests that run at the same time do not corrupt
 the list of record sets

Requests lock the vault only to read but register the resulting set with it.
---
 Source/Vault.cpp          |  8 ++++++++
 Source/Vault.h            | 10 ++++++++++
 Source/Vault.hpp          |  4 ++--
 Source/VaultRecordSet.cpp |  2 +-
 Source/VaultRecordSet.hpp |  4 ++--
 5 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 1a9d9ba..5a6cb2a 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -38,6 +38,14 @@ namespace mvlt
         return dataIt;
     }
 
+    void Vault::AddRecordSet(VaultRecordSet* vaultRecordSet) const noexcept
+    {
+        DBG_LOG_ENTER();
+
+        std::lock_guard<std::mutex> lock(RecordSetsSetMtx);
+        RecordSetsSet.emplace(vaultRecordSet);
+    }
+
     bool Vault::ReadFile(const std::string& fileName, const bool& isPreprocessRecord,
             const char& separator, const bool& isLoadKeys, const std::vector<std::string>& userKeys,
             const std::function<void (const std::vector<std::string>& keys, std::vector<std::string>& values)>& recordHandler) noexcept
diff --git a/Source/Vault.h b/Source/Vault.h
index ffa6a34..a4489f3 100644
--- a/Source/Vault.h
+++ b/Source/Vault.h
@@ -112,6 +112,16 @@ namespace mvlt
         /// \brief Unordered set with all VaultRecordSet pointers
         mutable std::unordered_set<VaultRecordSet*> RecordSetsSet;
 
+        /// \brief Mutex for adding to RecordSetsSet while Vault is locked only to read
+        mutable std::mutex RecordSetsSetMtx;
+
+        /**
+            \brief Method for adding VaultRecordSet to RecordSetsSet
+
+            \param [in] vaultRecordSet pointer to VaultRecordSet to add
+        */
+        void AddRecordSet(VaultRecordSet* vaultRecordSet) const noexcept;
+
         /**
             \brief Method for setting a new value in VaultRecord and Vault
 
diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index c803890..4418e18 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -288,7 +288,7 @@ namespace mvlt
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
         {
             // Save vaultRecordSet
-            RecordSetsSet.emplace(&vaultRecordSet);
+            AddRecordSet(&vaultRecordSet);
 
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
@@ -910,7 +910,7 @@ namespace mvlt
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
         {
             // Save vaultRecordSet
-            RecordSetsSet.emplace(&vaultRecordSet);
+            AddRecordSet(&vaultRecordSet);
 
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 1f75c9c..78e86ce 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -661,7 +661,7 @@ namespace mvlt
             // Set unique keys
             res.UniqueKeys = a.UniqueKeys;
 
-            a.ParentVault->RecordSetsSet.emplace(&res);
+            a.ParentVault->AddRecordSet(&res);
 
             // Pick less set to iterate
             if (a.RecordsSet.size() < b.RecordsSet.size())
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index 36067e3..e5632ed 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -46,7 +46,7 @@ namespace mvlt
                 else vaultRecordSet.Clear();
 
                 // Save vaultRecordSet
-                ParentVault->RecordSetsSet.emplace(&vaultRecordSet);
+                ParentVault->AddRecordSet(&vaultRecordSet);
 
                 res = Vault::RequestRecords(requestType, key, beginKeyValue, endKeyValue, vaultRecordSet, isIncludeBeginKeyValue, isIncludeEndKeyValue, amountOfRecords, requestPredicat);
                 vaultRecordSet.ParentVault = ParentVault;
@@ -234,7 +234,7 @@ namespace mvlt
                 else vaultRecordSet.Clear();
 
                 // Save vaultRecordSet
-                ParentVault->RecordSetsSet.emplace(&vaultRecordSet);
+                ParentVault->AddRecordSet(&vaultRecordSet);
 
                 res = Vault::Request(std::move(request), vaultRecordSet);
                 vaultRecordSet.ParentVault = ParentVault;
-- 
2.43.0


From 2a63463bef5418d1d4f9fd0cf1d4ffcdb84a9232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 17/47] fix: a request into a set of another vault does not
 lock two vaults at once

---
 Source/Vault.hpp          | 10 ++++++----
 Source/VaultRecordSet.hpp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 4418e18..1b6bbef 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -281,6 +281,9 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        // Detach vaultRecordSet from other Vault before locking this one, so that two Vaults are never locked at the same time
+        if (VaultDerivedClass == VaultDerivedClasses::VaultBase && vaultRecordSet.ParentVault != this) vaultRecordSet.Reset();
+
         // Lock Vault to read
         ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
 
@@ -293,8 +296,6 @@ namespace mvlt
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
             {
-                vaultRecordSet.Reset();
-
                 // Set new parent vault to vaultRecordSet
                 vaultRecordSet.ParentVault = const_cast<Vault*>(this);
 
@@ -903,6 +904,9 @@ namespace mvlt
         res.IsOperationSuccess = true;
         res.ResultCode = VaultOperationResultCode::Success;
 
+        // Detach vaultRecordSet from other Vault before locking this one, so that two Vaults are never locked at the same time
+        if (VaultDerivedClass == VaultDerivedClasses::VaultBase && vaultRecordSet.ParentVault != this) vaultRecordSet.Reset();
+
         // Lock Vault to read
         ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
 
@@ -915,8 +919,6 @@ namespace mvlt
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
             {
-                vaultRecordSet.Reset();
-
                 // Set new parent vault to vaultRecordSet
                 vaultRecordSet.ParentVault = const_cast<Vault*>(this);
 
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index e5632ed..5e3e271 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -23,13 +23,14 @@ namespace mvlt
             }
             else
             {
+                // Detach vaultRecordSet from other Vault before locking this one, so that two Vaults are never locked at the same time
+                if (vaultRecordSet.ParentVault != ParentVault) vaultRecordSet.Reset();
+
                 ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
                 // Remove old data from vaultRecordSet
                 if (vaultRecordSet.ParentVault != ParentVault)
                 {
-                    vaultRecordSet.Reset();
-
                     // Set new parent vault to vaultRecordSet
                     vaultRecordSet.ParentVault = ParentVault;
 
@@ -211,13 +212,14 @@ namespace mvlt
             }
             else
             {
+                // Detach vaultRecordSet from other Vault before locking this one, so that two Vaults are never locked at the same time
+                if (vaultRecordSet.ParentVault != ParentVault) vaultRecordSet.Reset();
+
                 ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
                 // Remove old data from vaultRecordSet
                 if (vaultRecordSet.ParentVault != ParentVault)
                 {
-                    vaultRecordSet.Reset();
-
                     // Set new parent vault to vaultRecordSet
                     vaultRecordSet.ParentVault = ParentVault;
 
-- 
2.43.0


From 21f70e6a2007fa683d021c8c0a41bf702479f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 18/47] fix: changing a record set excludes other threads

---
 Source/Vault.hpp          |  6 +++---
 Source/VaultRecordSet.cpp | 38 +++++++++++++++++++++++---------------
 Source/VaultRecordSet.h   |  5 +++++
 Source/VaultRecordSet.hpp |  8 ++++----
 4 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 1b6bbef..7c109f0 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -309,7 +309,7 @@ namespace mvlt
                 // Set unique keys
                 vaultRecordSet.UniqueKeys = UniqueKeys;
             }
-            else vaultRecordSet.Clear();
+            else vaultRecordSet.ClearRecords();
         }
 
         res = RequestRecordsSet(requestType, key, beginKeyValue, endKeyValue, vaultRecordSet.RecordsSet, isIncludeBeginKeyValue, isIncludeEndKeyValue, amountOfRecords, requestPredicat);
@@ -932,7 +932,7 @@ namespace mvlt
                 // Set unique keys
                 vaultRecordSet.UniqueKeys = UniqueKeys;
             }
-            else vaultRecordSet.Clear();
+            else vaultRecordSet.ClearRecords();
         }
 
         // Try to make complex request 
@@ -952,7 +952,7 @@ namespace mvlt
         }
         catch(VaultOperationResult& result) // Catch complex request errors
         {
-            vaultRecordSet.Clear();
+            vaultRecordSet.ClearRecords();
             res = result;
         }
 
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 78e86ce..1d887ef 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -184,7 +184,7 @@ namespace mvlt
 
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+            WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
 
             // Check if vault record ref depends on same vault as this
             if (recordRef.Vlt == ParentVault && recordRef.IsValid())
@@ -256,22 +256,30 @@ namespace mvlt
         }
     }
 
+    void VaultRecordSet::ClearRecords() noexcept
+    {
+        DBG_LOG_ENTER();
+
+        // Remove this from records
+        for (VaultRecord* record : RecordsSet)
+            record->EraseDependentSet(this);
+
+        // Clear structure
+        for (const auto& vaultRecordClearersIt : VaultRecordClearers)
+            vaultRecordClearersIt.second();
+
+        // No need to delete each record because it is RecordSet and records will be delete in original vault
+        RecordsSet.clear();
+    }
+
     void VaultRecordSet::Clear() noexcept
     {
         DBG_LOG_ENTER();
 
         if (GetIsParentVaultValid())
         {
-            // Remove this from records
-            for (VaultRecord* record : RecordsSet)
-                record->EraseDependentSet(this);
-
-            // Clear structure
-            for (const auto& vaultRecordClearersIt : VaultRecordClearers)
-                vaultRecordClearersIt.second();
-
-            // No need to delete each record because it is RecordSet and records will be delete in original vault
-            RecordsSet.clear();
+            WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
+            ClearRecords();
         }
     }
 
@@ -281,7 +289,7 @@ namespace mvlt
 
         if (!GetIsParentVaultValid()) return false;
 
-        ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+        WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
         return Vault::EraseRecord(recordRefToErase);
     }
 
@@ -415,7 +423,7 @@ namespace mvlt
 
         if (res.IsOperationSuccess)
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+            WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
 
             for (VaultRecord* record : a.RecordsSet)
             {
@@ -469,7 +477,7 @@ namespace mvlt
 
         if (res.IsOperationSuccess)
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+            WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
 
             for (auto recordsSetIt = RecordsSet.begin(); recordsSetIt != RecordsSet.end();)
             {
@@ -519,7 +527,7 @@ namespace mvlt
 
         if (res.IsOperationSuccess)
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+            WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
 
             for (auto recordsSetIt = RecordsSet.begin(); recordsSetIt != RecordsSet.end();)
             {
diff --git a/Source/VaultRecordSet.h b/Source/VaultRecordSet.h
index cc1160f..a067817 100644
--- a/Source/VaultRecordSet.h
+++ b/Source/VaultRecordSet.h
@@ -65,6 +65,11 @@ namespace mvlt
         */
         void MoveSet(VaultRecordSet&& other) noexcept;
 
+        /**
+            \brief Method for removing all records from VaultRecordSet without locking the parent Vault
+        */
+        void ClearRecords() noexcept;
+
     public:
         /// Make Vault class friend
         friend Vault;
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index 5e3e271..f966c8c 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -44,7 +44,7 @@ namespace mvlt
                     // Set unique keys
                     vaultRecordSet.UniqueKeys = UniqueKeys;
                 }
-                else vaultRecordSet.Clear();
+                else vaultRecordSet.ClearRecords();
 
                 // Save vaultRecordSet
                 ParentVault->AddRecordSet(&vaultRecordSet);
@@ -233,7 +233,7 @@ namespace mvlt
                     // Set unique keys
                     vaultRecordSet.UniqueKeys = UniqueKeys;
                 }
-                else vaultRecordSet.Clear();
+                else vaultRecordSet.ClearRecords();
 
                 // Save vaultRecordSet
                 ParentVault->AddRecordSet(&vaultRecordSet);
@@ -264,7 +264,7 @@ namespace mvlt
 
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+            WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
             res = Vault::EraseRecord(key, keyValue);
         }
         else
@@ -291,7 +291,7 @@ namespace mvlt
 
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+            WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
             res = Vault::EraseRecords(key, keyValue, amountOfRecords);
         }
         else
-- 
2.43.0


From 0fc9b8f3fe27694a3ad1cda11464ddc1aee8061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 19/47] fix: comparing record sets and asking for file errors
 exclude writers

---
 Source/Vault.cpp          |  2 ++
 Source/VaultRecordSet.cpp | 18 ++++++++++--------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 5a6cb2a..e4a0a57 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1058,6 +1058,8 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
+
         return InvalidFileRecords;
     }
 
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 1d887ef..751aa6e 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -570,8 +570,15 @@ namespace mvlt
 
         bool res = false;
 
-        if (a.ParentVault == b.ParentVault && a.RecordsSet == b.RecordsSet)
-            res = true;
+        if (a.ParentVault == b.ParentVault)
+        {
+            if (a.GetIsParentVaultValid())
+            {
+                ReadLock<RecursiveReadWriteMutex> readLock(a.ParentVault->RecursiveReadWriteMtx);
+                res = a.RecordsSet == b.RecordsSet;
+            }
+            else res = a.RecordsSet == b.RecordsSet;
+        }
 
         return res;
     }
@@ -580,12 +587,7 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        bool res = false;
-
-        if (a.ParentVault != b.ParentVault || a.RecordsSet != b.RecordsSet)
-            res = true;
-
-        return res;
+        return !(a == b);
     }
 
     VaultOperationResult Union(const VaultRecordSet& a, const VaultRecordSet& b, VaultRecordSet& res) noexcept
-- 
2.43.0


From 5d35c3756a2e9d1dca74a2cf3cfb2b1d8324603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 20/47] fix: a moved record set takes its place completely

---
 Source/VaultRecordSet.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 751aa6e..71eca88 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -59,14 +59,20 @@ namespace mvlt
         ParentVault = other.ParentVault;
         other.ParentVault = nullptr;
 
-        for (auto& keyCopierIt : other.VaultKeyCopiers)
-            keyCopierIt.second(this);
-
+        // Functions work with structures of other so all of them should be taken together
+        RecordTemplate = std::move(other.RecordTemplate);
+        VaultHashMapStructure = std::move(other.VaultHashMapStructure);
+        VaultMapStructure = std::move(other.VaultMapStructure);
+        KeysTypes = std::move(other.KeysTypes);
+        VaultRecordAdders = std::move(other.VaultRecordAdders);
+        VaultRecordClearers = std::move(other.VaultRecordClearers);
+        VaultRecordErasers = std::move(other.VaultRecordErasers);
+        VaultRecordSorters = std::move(other.VaultRecordSorters);
+        VaultKeyCopiers = std::move(other.VaultKeyCopiers);
         KeysOrder = std::move(other.KeysOrder);
         UniqueKeys = std::move(other.UniqueKeys);
         InvalidFileRecords = std::move(other.InvalidFileRecords);
         RecordsSet = std::move(other.RecordsSet);
-        RecordSetsSet = std::move(other.RecordSetsSet);
 
         ParentVault->RecordSetsSet.erase(&other);
         ParentVault->RecordSetsSet.emplace(this);
@@ -119,10 +125,9 @@ namespace mvlt
 
         if (&other != this)
         {
+            Reset();
             if (other.GetIsParentVaultValid())
                 MoveSet(std::move(other));
-            else
-                Reset();
         }
 
         return *this;
-- 
2.43.0


From 9446d31281258d07ba0a06edcb2ef6faaa501bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 21/47] fix: a copy of a record set without vault is a record
 set

---
 Source/VaultRecordSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 71eca88..c41af43 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -89,7 +89,7 @@ namespace mvlt
     }
 
     // codechecker_intentional [all] its not call parent class copy constructor because it is other copying style
-    VaultRecordSet::VaultRecordSet(const VaultRecordSet& other) noexcept : Vault()
+    VaultRecordSet::VaultRecordSet(const VaultRecordSet& other) noexcept : VaultRecordSet()
     {
         DBG_LOG_ENTER();
 
@@ -111,7 +111,7 @@ namespace mvlt
         return *this;
     }
 
-    VaultRecordSet::VaultRecordSet(VaultRecordSet&& other) noexcept
+    VaultRecordSet::VaultRecordSet(VaultRecordSet&& other) noexcept : VaultRecordSet()
     {
         DBG_LOG_ENTER();
 
-- 
2.43.0


From 721516094d8df7d2d51a065d266ec6fb34248900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 22/47] fix: a handle uses the vault of its record wherever it
 comes from

---
 Source/Vault.cpp          |  4 ++++
 Source/VaultRecord.h      |  3 +++
 Source/VaultRecordRef.cpp | 35 ++++++++++++++---------------------
 Source/VaultRecordRef.h   |  3 ---
 Source/VaultRecordRef.hpp |  8 ++++----
 Source/VaultRecordSet.cpp |  2 +-
 Source/VaultRecordSet.hpp |  3 ---
 7 files changed, 26 insertions(+), 32 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index e4a0a57..e67f989 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -77,6 +77,7 @@ namespace mvlt
 
             // Record to set to it data from file and store in Vault
             VaultRecord* newRecord = new VaultRecord(RecordTemplate);
+            newRecord->ParentVault = this;
 
             bool isCorrectRecordInFile = false;
 
@@ -217,6 +218,7 @@ namespace mvlt
         {
             // Allocate space to new record and copy data to it
             VaultRecord* newRecord = new VaultRecord(*recordPtr);
+            newRecord->ParentVault = this;
             
             // Add new record to set
             RecordsSet.emplace(newRecord);
@@ -254,6 +256,7 @@ namespace mvlt
             {
                 // Allocate space to new record and copy data to it
                 VaultRecord* newRecord = new VaultRecord(*recordPtr);
+                newRecord->ParentVault = this;
                 
                 // Add new record to set
                 RecordsSet.emplace(newRecord);
@@ -456,6 +459,7 @@ namespace mvlt
 
         // Create new record
         VaultRecord* newRecord = new VaultRecord(RecordTemplate);
+        newRecord->ParentVault = this;
 
         for (const auto& paramsIt : params)
         {
diff --git a/Source/VaultRecord.h b/Source/VaultRecord.h
index 09a4841..4d2894f 100644
--- a/Source/VaultRecord.h
+++ b/Source/VaultRecord.h
@@ -20,6 +20,9 @@ namespace mvlt
         // Variable to store object validity
         bool IsValid = true;
 
+        // Pointer to Vault which stores this record
+        Vault* ParentVault = nullptr;
+
         // Validity counter
         std::size_t RefCounter = 0;
 
diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 88828e9..8527b49 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -14,7 +14,6 @@ namespace mvlt
         if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
 
         VaultRecordPtr = vaultRecord;
-        Vlt = vlt;
 
         vlt->RecursiveReadWriteMtx.ReadUnlock();
     }
@@ -57,12 +56,10 @@ namespace mvlt
 
                 other.VaultRecordPtr->AddRef();
                 VaultRecordPtr = other.VaultRecordPtr;
-                Vlt = other.Vlt;
             }
             else
             {
                 if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
-                Vlt = nullptr;
                 VaultRecordPtr = nullptr;
             }
         }
@@ -81,14 +78,11 @@ namespace mvlt
                 if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
 
                 VaultRecordPtr = other.VaultRecordPtr;
-                Vlt = other.Vlt;
                 other.VaultRecordPtr = nullptr;
-                other.Vlt = nullptr;
             }
             else
             {
                 if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
-                Vlt = nullptr;
                 VaultRecordPtr = nullptr;
             }
         }
@@ -162,7 +156,7 @@ namespace mvlt
             return res;
         }
 
-        WriteLock<RecursiveReadWriteMutex> writeLock(Vlt->RecursiveReadWriteMtx);
+        WriteLock<RecursiveReadWriteMutex> writeLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Copy data from function parametrs
         for (const auto& paramsIt : params)
@@ -192,7 +186,7 @@ namespace mvlt
             return res;
         }
 
-        ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+        ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -203,7 +197,7 @@ namespace mvlt
         }
 
         // If key not exist
-        if (!Vlt->GetKeyType(key, res.SavedType))
+        if (!VaultRecordPtr->ParentVault->GetKeyType(key, res.SavedType))
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::WrongKey;
@@ -236,10 +230,10 @@ namespace mvlt
 
         if (IsValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+            ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
             // Check if Vault still accessable
-            if (VaultRecordPtr->GetIsValid()) res = Vlt->IsKeyExist(key);
+            if (VaultRecordPtr->GetIsValid()) res = VaultRecordPtr->ParentVault->IsKeyExist(key);
         }
 
         return res;
@@ -253,11 +247,11 @@ namespace mvlt
 
         if (IsValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+            ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
-                res = Vlt->GetKeys();
+                res = VaultRecordPtr->ParentVault->GetKeys();
         }
 
         return res;
@@ -270,14 +264,14 @@ namespace mvlt
         if (IsValid())
         {
             // The vault is locked before the record, like everywhere else
-            ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+            ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
                 std::cout << "Vault record " << VaultRecordPtr << ":" << "\n";
 
-                for (const auto& keyPair : Vlt->VaultHashMapStructure)
+                for (const auto& keyPair : VaultRecordPtr->ParentVault->VaultHashMapStructure)
                 {
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(keyPair.first, dataSaver);
@@ -298,7 +292,6 @@ namespace mvlt
             VaultRecordPtr->RemoveRef();
 
         VaultRecordPtr = nullptr;
-        Vlt = nullptr;
     }
 
     std::string VaultRecordRef::ToJson(const bool& isFormat, const std::size_t& tabSize) const noexcept
@@ -312,12 +305,12 @@ namespace mvlt
         if (IsValid())
         {
             // The vault is locked before the record, like everywhere else
-            ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+            ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                for (const std::string& key : Vlt->KeysOrder)
+                for (const std::string& key : VaultRecordPtr->ParentVault->KeysOrder)
                 {
                     if (isFormat) res += "\n" + tab;
 
@@ -330,7 +323,7 @@ namespace mvlt
                     res += mvlt::ToJson(dataSaver);
 
                     ++keyCounter;
-                    if (keyCounter != Vlt->KeysOrder.size()) res += ",";
+                    if (keyCounter != VaultRecordPtr->ParentVault->KeysOrder.size()) res += ",";
                 }
             }
         }
@@ -350,12 +343,12 @@ namespace mvlt
         if (IsValid())
         {
             // The vault is locked before the record, like everywhere else
-            ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+            ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                for (const std::string& key : Vlt->KeysOrder)
+                for (const std::string& key : VaultRecordPtr->ParentVault->KeysOrder)
                 {
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(key, dataSaver);
diff --git a/Source/VaultRecordRef.h b/Source/VaultRecordRef.h
index a22884f..3f07abf 100644
--- a/Source/VaultRecordRef.h
+++ b/Source/VaultRecordRef.h
@@ -20,9 +20,6 @@ namespace mvlt
     class VaultRecordRef
     {
     private:
-        // Pointer to Vault
-        Vault* Vlt = nullptr;
-
         // Pointer to VaultRecord inside Vault
         VaultRecord* VaultRecordPtr = nullptr;
 
diff --git a/Source/VaultRecordRef.hpp b/Source/VaultRecordRef.hpp
index 9a8f761..478ebd9 100644
--- a/Source/VaultRecordRef.hpp
+++ b/Source/VaultRecordRef.hpp
@@ -27,7 +27,7 @@ namespace mvlt
             return res;
         }
 
-        WriteLock<RecursiveReadWriteMutex> Lock(Vlt->RecursiveReadWriteMtx);
+        WriteLock<RecursiveReadWriteMutex> Lock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -37,7 +37,7 @@ namespace mvlt
             return res;
         }
 
-        res = Vlt->SetDataToRecord(VaultRecordPtr, key, data);
+        res = VaultRecordPtr->ParentVault->SetDataToRecord(VaultRecordPtr, key, data);
 
         return res;
     }
@@ -65,7 +65,7 @@ namespace mvlt
             return res;
         }
 
-        ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+        ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -76,7 +76,7 @@ namespace mvlt
         }
 
         // If key not exist
-        if(!Vlt->GetKeyType(key, res.SavedType))
+        if(!VaultRecordPtr->ParentVault->GetKeyType(key, res.SavedType))
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::WrongKey;
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index c41af43..fa2d55e 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -192,7 +192,7 @@ namespace mvlt
             WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
 
             // Check if vault record ref depends on same vault as this
-            if (recordRef.Vlt == ParentVault && recordRef.IsValid())
+            if (recordRef.IsValid() && recordRef.VaultRecordPtr->ParentVault == ParentVault)
             {
                 // Add pointer to record from recordRef to this
                 std::pair<decltype(RecordsSet.begin()), bool> emplaceRes = RecordsSet.emplace(recordRef.VaultRecordPtr);
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index f966c8c..68b9add 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -99,7 +99,6 @@ namespace mvlt
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
             res = Vault::GetRecord(key, keyValue, vaultRecordRef);
-            vaultRecordRef.Vlt = ParentVault;
         }
         else
         {
@@ -124,8 +123,6 @@ namespace mvlt
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
             res = Vault::GetRecords(key, keyValue, recordsRefs, amountOfRecords);
-            for (VaultRecordRef& ref : recordsRefs)
-                ref.Vlt = ParentVault;
         }
         else
         {
-- 
2.43.0


From 06485bc8737ea2a3268abf964417abb131d0058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 23/47] fix: a moved vault takes its record sets and handles
 along

---
 Source/Vault.cpp | 83 ++++++++++++++++--------------------------------
 Source/Vault.h   |  9 ++++++
 2 files changed, 37 insertions(+), 55 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index e67f989..5a33dce 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -233,50 +233,19 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        // The copy is made before this is changed, so that two Vaults are never locked at the same time
         if (&other != this)
-        {
-            DropVault();
-
-            ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
-            ReadLock<RecursiveReadWriteMutex> otherReadLock(other.RecursiveReadWriteMtx);
-
-            VaultDerivedClass = VaultDerivedClasses::VaultBase;
-
-            // Copy keys
-            for (auto& keyCopierIt : other.VaultKeyCopiers)
-                keyCopierIt.second(this);
-
-            // Set proper key order
-            KeysOrder = other.KeysOrder;
-
-            // Set unique keys
-            UniqueKeys = other.UniqueKeys;
-
-            for (VaultRecord* recordPtr : other.RecordsSet)
-            {
-                // Allocate space to new record and copy data to it
-                VaultRecord* newRecord = new VaultRecord(*recordPtr);
-                newRecord->ParentVault = this;
-                
-                // Add new record to set
-                RecordsSet.emplace(newRecord);
-
-                // Add new record to every maps inside VaultStructureHashMap
-                for (const auto& vaultRecordAddersIt : VaultRecordAdders)
-                    vaultRecordAddersIt.second(newRecord);
-            }
-        }
+            *this = Vault(other);
 
         return *this;
     }
 
-    Vault::Vault(Vault&& other) noexcept
+    void Vault::MoveVault(Vault&& other) noexcept
     {
         DBG_LOG_ENTER();
 
-        ReadLock<RecursiveReadWriteMutex> otherReadLock(other.RecursiveReadWriteMtx);
-
-        VaultDerivedClass = VaultDerivedClasses::VaultBase;
+        // Lock other to write because all of its data will be taken
+        WriteLock<RecursiveReadWriteMutex> otherWriteLock(other.RecursiveReadWriteMtx);
 
         RecordTemplate = std::move(other.RecordTemplate);
         VaultHashMapStructure = std::move(other.VaultHashMapStructure);
@@ -292,6 +261,22 @@ namespace mvlt
         InvalidFileRecords = std::move(other.InvalidFileRecords);
         RecordsSet = std::move(other.RecordsSet);
         RecordSetsSet = std::move(other.RecordSetsSet);
+
+        // Records and record sets of other now belong to this
+        for (VaultRecord* record : RecordsSet)
+            record->ParentVault = this;
+
+        for (VaultRecordSet* set : RecordSetsSet)
+            set->ParentVault = this;
+    }
+
+    Vault::Vault(Vault&& other) noexcept
+    {
+        DBG_LOG_ENTER();
+
+        VaultDerivedClass = VaultDerivedClasses::VaultBase;
+
+        MoveVault(std::move(other));
     }
 
     Vault& Vault::operator=(Vault&& other) noexcept
@@ -300,26 +285,14 @@ namespace mvlt
 
         if (this != &other)
         {
-            DropVault();
+            // Data of other is taken before this is changed, so that two Vaults are never locked at the same time
+            Vault movedVault(std::move(other));
 
-            ReadLock<RecursiveReadWriteMutex> otherReadLock(other.RecursiveReadWriteMtx);
-
-            VaultDerivedClass = VaultDerivedClasses::VaultBase;
-
-            RecordTemplate = std::move(other.RecordTemplate);
-            VaultHashMapStructure = std::move(other.VaultHashMapStructure);
-            VaultMapStructure = std::move(other.VaultMapStructure);
-            KeysTypes = std::move(other.KeysTypes);
-            VaultRecordAdders = std::move(other.VaultRecordAdders);
-            VaultRecordClearers = std::move(other.VaultRecordClearers);
-            VaultRecordErasers = std::move(other.VaultRecordErasers);
-            VaultRecordSorters = std::move(other.VaultRecordSorters);
-            VaultKeyCopiers = std::move(other.VaultKeyCopiers);
-            KeysOrder = std::move(other.KeysOrder);
-            UniqueKeys = std::move(other.UniqueKeys);
-            InvalidFileRecords = std::move(other.InvalidFileRecords);
-            RecordsSet = std::move(other.RecordsSet);
-            RecordSetsSet = std::move(other.RecordSetsSet);
+            // Lock Vault to write
+            WriteLock<RecursiveReadWriteMutex> writeLock(RecursiveReadWriteMtx);
+
+            DropVault();
+            MoveVault(std::move(movedVault));
         }
 
         return *this;
diff --git a/Source/Vault.h b/Source/Vault.h
index a4489f3..15964f9 100644
--- a/Source/Vault.h
+++ b/Source/Vault.h
@@ -148,6 +148,15 @@ namespace mvlt
         */
         std::unordered_set<VaultRecord*>::iterator RemoveRecord(VaultRecord* recordToErase, bool* wasDeleted) noexcept;
 
+        /**
+            \brief An internal method for taking all data of other Vault
+
+            The records and the record sets of other will belong to this Vault
+
+            \param [in] other object to move data from
+        */
+        void MoveVault(Vault&& other) noexcept;
+
         /**
             \brief The method for getting the result of the request in the std::set
 
-- 
2.43.0


From bfcdca325f09da4c917a03570699dd595a1ce740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 24/47] fix: a file that can not be read completely is not
 loaded as if it was

---
 Source/CsvParser/CsvParser.cpp        | 12 +++++++++
 Source/CsvParser/CsvParser.h          |  7 ++++++
 Source/CsvParser/StreamFileReader.cpp | 35 +++++++++++++++++++++++----
 Source/CsvParser/StreamFileReader.h   | 20 +++++++++++++++
 Source/Vault.cpp                      |  2 +-
 5 files changed, 70 insertions(+), 6 deletions(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index 3969a08..3d76728 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -39,6 +39,11 @@ namespace mvlt
         return FileReader.Open(fileName);
     }
 
+    bool CsvParser::GetIsReadFail() const noexcept
+    {
+        return FileReader.GetIsReadFail();
+    }
+
     bool CsvParser::GetNextVector(std::vector<std::string>& vectorWithNext, const char& separator) noexcept
     {
         // Clear old data
@@ -111,6 +116,13 @@ namespace mvlt
             }
         }
 
+        // The record in which reading has failed is not complete
+        if (FileReader.GetIsReadFail())
+        {
+            vectorWithNext.clear();
+            return false;
+        }
+
         // Add last record
         if (!recordPole.empty())
             vectorWithNext.emplace_back(std::move(recordPole));
diff --git a/Source/CsvParser/CsvParser.h b/Source/CsvParser/CsvParser.h
index 308a38c..2c51c60 100644
--- a/Source/CsvParser/CsvParser.h
+++ b/Source/CsvParser/CsvParser.h
@@ -96,6 +96,13 @@ namespace mvlt
         */
         bool GetNextVector(std::vector<std::string>& vectorWithNext, const char& separator) noexcept;
 
+        /**
+            \brief Method for checking whether reading of the file has failed
+
+            \return true if it was not possible to read the whole file, otherwise returns false
+        */
+        bool GetIsReadFail() const noexcept;
+
         /// \brief Default destructor
         ~CsvParser() noexcept = default;
     };
diff --git a/Source/CsvParser/StreamFileReader.cpp b/Source/CsvParser/StreamFileReader.cpp
index a5567a8..e97b1a7 100644
--- a/Source/CsvParser/StreamFileReader.cpp
+++ b/Source/CsvParser/StreamFileReader.cpp
@@ -18,18 +18,26 @@ namespace mvlt
         FileSize = File.tellg();
         File.seekg(0);
 
+        // The size of the file can not be received so it can not be read
+        if (!File || FileSize < 0)
+        {
+            FileSize = 0;
+            IsReadFail = true;
+            return false;
+        }
+
         if (FileSize > 0)
         {
             if (FileSize > BIG_FILE_SIZE)
             {
-                File.read(DataChunk, FILE_BLOCK_SIZE);
+                ReadBlock(DataChunk, FILE_BLOCK_SIZE);
                 Char = DataChunk[0];
                 NextChar = DataChunk[1];
             }
             else
             {
                 Data = new char[FileSize];
-                File.read(Data, FileSize);
+                ReadBlock(Data, FileSize);
                 Char = Data[0];
                 FilePos = 1;
                 if (FileSize > 1)
@@ -37,7 +45,24 @@ namespace mvlt
             }
         }
         
-        return true; 
+        return !IsReadFail;
+    }
+
+    void StreamFileReader::ReadBlock(char* block, const std::streamsize& size) noexcept
+    {
+        File.read(block, size);
+
+        // If it was not possible to read everything, then the file ends where reading stopped
+        if (File.gcount() != size)
+        {
+            FileSize = FilePos + File.gcount();
+            IsReadFail = true;
+        }
+    }
+
+    bool StreamFileReader::GetIsReadFail() const noexcept
+    {
+        return IsReadFail;
     }
 
     bool StreamFileReader::IsOpen() const noexcept
@@ -99,9 +124,9 @@ namespace mvlt
                     FilePos += FILE_BLOCK_SIZE;
 
                     if (FileSize - FilePos > FILE_BLOCK_SIZE)
-                        File.read(DataChunk, FILE_BLOCK_SIZE);
+                        ReadBlock(DataChunk, FILE_BLOCK_SIZE);
                     else
-                        File.read(DataChunk, FileSize - FilePos);
+                        ReadBlock(DataChunk, FileSize - FilePos);
 
                     ChunkPos = 0;
                 }
diff --git a/Source/CsvParser/StreamFileReader.h b/Source/CsvParser/StreamFileReader.h
index f8e9fb7..2c77b31 100644
--- a/Source/CsvParser/StreamFileReader.h
+++ b/Source/CsvParser/StreamFileReader.h
@@ -55,6 +55,19 @@ namespace mvlt
         // Pointer to store little files
         char* Data = nullptr;
 
+        // Was it not possible to read the whole file
+        bool IsReadFail = false;
+
+        /**
+            \brief Method for reading the next part of the file
+
+            If it is not possible to read the whole part, then FileSize will be reduced to the size of what was read
+
+            \param [out] block place for the part
+            \param [in] size size of the part
+        */
+        void ReadBlock(char* block, const std::streamsize& size) noexcept;
+
     public:
         /// \brief Default constructor
         /// \todo Wait new lcc version to make it default
@@ -108,6 +121,13 @@ namespace mvlt
         */
         bool Open(const std::string& fileName) noexcept;
 
+        /**
+            \brief Method for checking whether reading of the file has failed
+
+            \return true if it was not possible to read the whole file, otherwise returns false
+        */
+        bool GetIsReadFail() const noexcept;
+
         /**
             \brief Method for checking whether the file has been opened
 
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 5a33dce..5f647e0 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -186,7 +186,7 @@ namespace mvlt
             }
         }
 
-        return true;
+        return !parser.GetIsReadFail();
     }
 
     Vault::Vault() noexcept 
-- 
2.43.0


From 62592969531401a1219e524e486bea656accd236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 25/47] fix: empty fields and empty lines of a file are not
 lost

---
 Source/CsvParser/CsvParser.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index 3d76728..ba974af 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -52,6 +52,9 @@ namespace mvlt
         // Is escaping flag
         bool isEscaping = false;
 
+        // Was the current pole in quotes. A pole in quotes is a pole even if it is empty
+        bool isQuotedPole = false;
+
         // Record pole
         std::string recordPole;
 
@@ -65,12 +68,12 @@ namespace mvlt
                 // If it is still escaping then this is not new record because it is available to store new line symbol in record poles
                 if (!isEscaping && (FileReader.GetChar() == 13 || FileReader.GetChar() == 10 )) // 13 - CR or 0d. 10 - LF or 0a.
                 {
-                    // Add last record
-                    if (!recordPole.empty())
+                    // Add last pole. The line without poles is empty
+                    if (!recordPole.empty() || !vectorWithNext.empty() || isQuotedPole)
                         vectorWithNext.emplace_back(std::move(recordPole));
 
                     // Check if it is CRLF.
-                    if (FileReader.GetCurrentPos() < FileReader.GetFileSize() - 1 && FileReader.GetNextChar() == 10)
+                    if (FileReader.GetChar() == 13 && FileReader.GetCurrentPos() < FileReader.GetFileSize() - 1 && FileReader.GetNextChar() == 10)
                         FileReader.Move();
 
                     FileReader.Move();
@@ -85,6 +88,7 @@ namespace mvlt
                     {
                         // Start escaping
                         isEscaping = true;
+                        isQuotedPole = true;
                         recordPole.clear();
                         continue;
                     }
@@ -108,6 +112,7 @@ namespace mvlt
                     // Set new record pole to record
                     vectorWithNext.emplace_back(std::move(recordPole));
                     recordPole.clear();
+                    isQuotedPole = false;
                     continue;
                 }
                 
@@ -123,8 +128,8 @@ namespace mvlt
             return false;
         }
 
-        // Add last record
-        if (!recordPole.empty())
+        // Add last pole
+        if (!recordPole.empty() || !vectorWithNext.empty() || isQuotedPole)
             vectorWithNext.emplace_back(std::move(recordPole));
 
         if (!vectorWithNext.empty())
-- 
2.43.0


From ef0bd5eb00c2f6ddb02b7bf9e9e428d12dc66439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 26/47] fix: a line with more fields than keys does not read
 past the keys

---
 Source/Vault.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 5f647e0..c98897b 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -110,6 +110,9 @@ namespace mvlt
                     // Store all keys values to record
                     for (const auto& recordPole : record)
                     {
+                        // There may be more poles than keys
+                        if (keyOrderIt == KeysOrder.end()) break;
+
                         // Set last record pole
                         isCorrectRecordInFile = newRecord->SetDataFromString(*keyOrderIt, recordPole);
 
-- 
2.43.0


From 94c3d2fd59ad97fe08a9d1f96f36014518262d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 27/47] fix: saving reports failure when the file can not be
 written

---
 Source/Vault.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index c98897b..e0233d3 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1017,7 +1017,10 @@ namespace mvlt
             }
         }
 
-        return true;
+        // All data must reach the file
+        csvFile.close();
+
+        return !csvFile.fail();
     }
 
     bool Vault::ReadFile(const std::string& fileName, const char& separator, const bool& isLoadKeys, const std::vector<std::string>& keys) noexcept
-- 
2.43.0


From 375200696219efc74bb7f4c4a801d4f27fd7c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 28/47] fix: saved keys and values with any separator or a
 carriage return are quoted

---
 Source/CsvParser/CsvParser.cpp |  6 +++---
 Source/CsvParser/CsvParser.h   |  3 ++-
 Source/Vault.cpp               | 22 ++++++++++++----------
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index ba974af..762138f 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -2,7 +2,7 @@
 
 namespace mvlt
 {
-    std::string FormatStringToCsv(const std::string& str) noexcept
+    std::string FormatStringToCsv(const std::string& str, const std::string& separator) noexcept
     {
         bool isEscapingRequired = false;
         std::string res;
@@ -16,10 +16,10 @@ namespace mvlt
                 continue;
             }
 
-            if (symbol == ',')
+            if (symbol == ',' || separator.find(symbol) != std::string::npos)
                 isEscapingRequired = true;
 
-            if (symbol == '\n')
+            if (symbol == '\n' || symbol == '\r')
                 isEscapingRequired = true;
 
             res += symbol;
diff --git a/Source/CsvParser/CsvParser.h b/Source/CsvParser/CsvParser.h
index 2c51c60..ad576f0 100644
--- a/Source/CsvParser/CsvParser.h
+++ b/Source/CsvParser/CsvParser.h
@@ -30,10 +30,11 @@ namespace mvlt
         - "  - a quotation mark to end escaping
 
         \param [in] str the string to be converted
+        \param [in] separator the string used to separate the fields
 
         \return returns a string in csv format
     */
-    std::string FormatStringToCsv(const std::string& str) noexcept;
+    std::string FormatStringToCsv(const std::string& str, const std::string& separator = ",") noexcept;
 
     /// \brief A class for parsing csv files that provides data in a form similar to generators
     class CsvParser
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index e0233d3..a24cf82 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -956,19 +956,21 @@ namespace mvlt
         {
             if (keys.empty())
             {
-                auto keysOrderIt = KeysOrder.cbegin();
-                csvFile << *keysOrderIt;
-                ++keysOrderIt;
-                for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << *keysOrderIt;
+                for (auto keysOrderIt = KeysOrder.cbegin(); keysOrderIt != KeysOrder.cend(); ++keysOrderIt)
+                {
+                    if (keysOrderIt != KeysOrder.cbegin()) csvFile << separator;
+                    csvFile << FormatStringToCsv(*keysOrderIt, separator);
+                }
                 if (KeysOrder.size() != 0)
                     csvFile.write(endOfLine, 2);
             }
             else 
             {
-                auto keysOrderIt = keys.cbegin();
-                csvFile << *keysOrderIt;
-                ++keysOrderIt;
-                for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << *keysOrderIt;
+                for (auto keysOrderIt = keys.cbegin(); keysOrderIt != keys.cend(); ++keysOrderIt)
+                {
+                    if (keysOrderIt != keys.cbegin()) csvFile << separator;
+                    csvFile << FormatStringToCsv(*keysOrderIt, separator);
+                }
                 if (KeysOrder.size() != 0)
                     csvFile.write(endOfLine, 2);
             }
@@ -984,7 +986,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data);
+                    csvFile << FormatStringToCsv(data, separator);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
@@ -1004,7 +1006,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data);
+                    csvFile << FormatStringToCsv(data, separator);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
-- 
2.43.0


From 8875579ebe9774d85c06a0f81533fef3c3095d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 29/47] fix: records with one empty field are not lost in a
 saved file

---
 Source/Vault.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index a24cf82..1a34f5d 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -986,7 +986,9 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data, separator);
+                    // The only field of the record is quoted if it is empty, so that the line is not empty
+                    if (KeysOrder.size() == 1 && data.empty()) csvFile << "\"\"";
+                    else csvFile << FormatStringToCsv(data, separator);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
@@ -1006,7 +1008,9 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data, separator);
+                    // The only field of the record is quoted if it is empty, so that the line is not empty
+                    if (keys.size() == 1 && data.empty()) csvFile << "\"\"";
+                    else csvFile << FormatStringToCsv(data, separator);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
-- 
2.43.0


From 23a104e801bdfc315d167495eaa725ca2d630e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 30/47] fix: a request with a predicate and an amount counts
 only matching records

---
 Source/Vault.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 7c109f0..cd695c6 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -182,12 +182,11 @@ namespace mvlt
                     // Check if it is not default predicate
                     if (&requestPredicat != &DefaultRequestPredicat)
                     {
-                        if (requestPredicat(VaultRecordRef((*equalRangeIt).second, const_cast<Vault*>(this))))
-                            vaultRecords.emplace((*equalRangeIt).second);
+                        if (!requestPredicat(VaultRecordRef((*equalRangeIt).second, const_cast<Vault*>(this))))
+                            continue;
                     }
-                    else
-                        vaultRecords.emplace((*equalRangeIt).second);
-                    
+
+                    vaultRecords.emplace((*equalRangeIt).second);
                     ++counter;
                 }
             }
@@ -255,12 +254,11 @@ namespace mvlt
                 // Check if it is not default predicate
                 if (&requestPredicat != &DefaultRequestPredicat)
                 {
-                    if (requestPredicat(VaultRecordRef((*TtoVaultRecordMapIt).second, const_cast<Vault*>(this))))
-                        vaultRecords.emplace((*TtoVaultRecordMapIt).second);
+                    if (!requestPredicat(VaultRecordRef((*TtoVaultRecordMapIt).second, const_cast<Vault*>(this))))
+                        continue;
                 }
-                else
-                    vaultRecords.emplace((*TtoVaultRecordMapIt).second);
 
+                vaultRecords.emplace((*TtoVaultRecordMapIt).second);
                 ++counter;
             }
         }
-- 
2.43.0


From 58d1c96934684ea6f80223778834c8f616c54b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 31/47] fix: requests can be copied and stored, and mixed value
 types are not confused

---
 Source/VaultRequest.h   | 15 +++++++--------
 Source/VaultRequest.hpp | 27 +++++++--------------------
 2 files changed, 14 insertions(+), 28 deletions(-)

diff --git a/Source/VaultRequest.h b/Source/VaultRequest.h
index 214e54d..72e4431 100644
--- a/Source/VaultRequest.h
+++ b/Source/VaultRequest.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <functional>
+#include <memory>
+#include <typeindex>
 
 #include "VaultClasses.h"
 
@@ -24,14 +26,14 @@ namespace mvlt
         /// A variable for storing a logical request function
         std::function<void(Vault* vlt, std::unordered_set<VaultRecord*>& setWithRecords)> LogicalRequestFunction;
 
-        /// A pointer to a function that delete data
-        void (*DeleteFunc)(void*) = nullptr;
-
         /// Request key
         std::string Key;
 
-        /// Pointer to Data saved inside Request
-        void* DataPtr = nullptr;
+        /// Pointer to Data saved inside Request. Copies of the request share it
+        std::shared_ptr<void> DataPtr;
+
+        /// Type of the data saved inside Request
+        std::type_index DataType = typeid(void);
 
         /// Variable to store predicat function
         std::function<bool(const VaultRecordRef& ref)> RequestPredicat;
@@ -104,9 +106,6 @@ namespace mvlt
         */
         void Request(Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecords) const;
 
-        /// \brief Default destructor
-        ~VaultRequest() noexcept;
-
         /// \brief Friend operator&&
         template <VaultRequestType TType>
         friend VaultRequest operator&&(const VaultRequest& lhs, const VaultRequest& rhs) noexcept;
diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index d395539..b93fb54 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -18,7 +18,8 @@ namespace mvlt
             Less<std::string>(\"Key\", \"Value\") or Greater(\"Key\", std::string(\"Value\")). \n\
             This works with the following classes: Less, LessOrEqual, Equal, GreaterOrEqual, Greater.");
 
-        DataPtr = static_cast<void*>(new T(keyValue));
+        DataPtr = std::make_shared<T>(keyValue);
+        DataType = typeid(T);
 
         // Set Request func
         DataRequestFunc = [](const std::string& key, Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet, void* beginValue, void* endValue,
@@ -34,11 +35,6 @@ namespace mvlt
             // Throw error
             if (!res.IsOperationSuccess) throw VaultOperationResult(res);
         };
-
-        DeleteFunc = [](void* ptrToDelete)
-        {
-            delete static_cast<T*>(ptrToDelete);
-        };
     }
 
     template <VaultRequestType Type>
@@ -52,7 +48,7 @@ namespace mvlt
         {
         case VaultRequestType::Or:
             // Set complex request func
-            LogicalRequestFunction = [&](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
+            LogicalRequestFunction = [request1, request2](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 std::unordered_set<VaultRecord*> req1Result, req2Result;
 
@@ -70,14 +66,14 @@ namespace mvlt
         
         case VaultRequestType::And:
             // Set complex request func
-            LogicalRequestFunction = [&](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
+            LogicalRequestFunction = [request1, request2](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 // Handle interval situation
-                if (request1.Key == request2.Key && 
+                if (request1.Key == request2.Key && request1.DataType == request2.DataType && 
                     (request1.RequestType == VaultRequestType::Greater || request1.RequestType == VaultRequestType::GreaterOrEqual) &&
                     (request2.RequestType == VaultRequestType::Less || request1.RequestType == VaultRequestType::LessOrEqual))
                 {
-                    request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr, request2.DataPtr, 
+                    request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr.get(), request2.DataPtr.get(), 
                         (request1.RequestType == VaultRequestType::GreaterOrEqual),
                         (request2.RequestType == VaultRequestType::LessOrEqual), [&](const VaultRecordRef& ref) 
                             {
@@ -121,7 +117,7 @@ namespace mvlt
         case VaultRequestType::Equal:
         case VaultRequestType::GreaterOrEqual:
         case VaultRequestType::Greater:
-            DataRequestFunc(Key, vlt, vaultRecords, DataPtr, nullptr, false, false, RequestPredicat);
+            DataRequestFunc(Key, vlt, vaultRecords, DataPtr.get(), nullptr, false, false, RequestPredicat);
             break;
         case VaultRequestType::Or:
         case VaultRequestType::And:
@@ -130,15 +126,6 @@ namespace mvlt
         }
     }
 
-    template <VaultRequestType Type>
-    VaultRequest<Type>::~VaultRequest() noexcept
-    {
-        DBG_LOG_ENTER();
-
-        if (DeleteFunc != nullptr && DataPtr != nullptr)
-            DeleteFunc(DataPtr);
-    }
-
     template <VaultRequestType LType, VaultRequestType RType>
     VaultRequest<VaultRequestType::And> operator&& (const VaultRequest<LType>& lhs, const VaultRequest<RType>& rhs) noexcept
     {
-- 
2.43.0


From 45280c9efd9a5d98a2593339c637d410dab24d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 32/47] fix: getting or erasing zero records by value touches
 no record

---
 Source/Vault.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index cd695c6..dbdbea2 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -795,9 +795,9 @@ namespace mvlt
             std::size_t counter = 0;
             for (auto equalRangeIt = equalRange.first; equalRangeIt != equalRange.second; ++equalRangeIt)
             {
+                if (counter >= amountOfRecords) break;
                 ++counter;
                 recordsRefs.emplace_back(VaultRecordRef((*equalRangeIt).second, const_cast<Vault*>(this)));
-                if (counter >= amountOfRecords) break;
             }
 
             res.IsOperationSuccess = true;
@@ -1077,6 +1077,8 @@ namespace mvlt
             std::size_t counter = 0;
             for (auto equalRangeIt = equalRange.first; equalRangeIt != equalRange.second;)
             {
+                if (counter >= amountOfRecords) break;
+
                 // Save next iterator
                 auto nextIt = equalRangeIt;
                 ++nextIt;
@@ -1098,8 +1100,7 @@ namespace mvlt
                 }
                 else tmpRec->EraseDependentSet(static_cast<VaultRecordSet*>(this));
                 
-                if (counter >= amountOfRecords) break;
-                
+
                 equalRangeIt = nextIt;
             }
         }
-- 
2.43.0


From 050497b25743a3ddbda51276cff57361538546ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 33/47] fix: a failed request for references leaves the vector
 as it was

---
 Source/Vault.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index dbdbea2..4de9f94 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -761,8 +761,6 @@ namespace mvlt
         res.Key = key;
         res.RequestedType = typeid(T);
 
-        recordsRefs.clear();
-
         // Lock Vault to read
         ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
 
@@ -792,6 +790,9 @@ namespace mvlt
         auto equalRange = TtoVaultRecordHashMap->EqualRange(keyValue);
         if (equalRange.first != TtoVaultRecordHashMap->end())
         {
+            // In case of errors the vector does not change
+            recordsRefs.clear();
+
             std::size_t counter = 0;
             for (auto equalRangeIt = equalRange.first; equalRangeIt != equalRange.second; ++equalRangeIt)
             {
-- 
2.43.0


From 9d9171255d257ce5aa871a636db81ceb06c97ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 34/47] fix: strings inside json are escaped

---
 Source/Strings/ToJson.cpp | 34 +++++++++++++++++++++++++++++++++-
 Source/Strings/ToJson.h   | 11 ++++++++++-
 Source/Vault.cpp          |  4 ++--
 Source/VaultRecordRef.cpp |  2 +-
 4 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/Source/Strings/ToJson.cpp b/Source/Strings/ToJson.cpp
index 8ee39dc..a4052d2 100644
--- a/Source/Strings/ToJson.cpp
+++ b/Source/Strings/ToJson.cpp
@@ -20,13 +20,45 @@ namespace mvlt
             return true;
     }
 
+    std::string EscapeJsonString(const std::string& str)
+    {
+        static const char hexDigits[] = "0123456789abcdef";
+        std::string res;
+
+        for (const char& c : str)
+        {
+            switch (c)
+            {
+            case '"': res += "\\\""; break;
+            case '\\': res += "\\\\"; break;
+            case '\b': res += "\\b"; break;
+            case '\f': res += "\\f"; break;
+            case '\n': res += "\\n"; break;
+            case '\r': res += "\\r"; break;
+            case '\t': res += "\\t"; break;
+            default:
+                // Other control characters are written by their codes
+                if (static_cast<unsigned char>(c) < 0x20)
+                {
+                    res += "\\u00";
+                    res += hexDigits[static_cast<unsigned char>(c) >> 4];
+                    res += hexDigits[static_cast<unsigned char>(c) & 0xf];
+                }
+                else res += c;
+                break;
+            }
+        }
+
+        return res;
+    }
+
     std::string ToJson(const DataSaver& dataSaver)
     {
         std::string res;
         std::type_index dataType = dataSaver.GetDataType();
 
         if (IsQuotedJsonType(dataType))
-            res = "\"" + dataSaver.Str() + "\"";
+            res = "\"" + EscapeJsonString(dataSaver.Str()) + "\"";
         else
             res = dataSaver.Str();
 
diff --git a/Source/Strings/ToJson.h b/Source/Strings/ToJson.h
index 066bbf3..6a13814 100644
--- a/Source/Strings/ToJson.h
+++ b/Source/Strings/ToJson.h
@@ -13,6 +13,15 @@ namespace mvlt
     */
     bool IsQuotedJsonType(const std::type_index& dataType);
 
+    /**
+        \brief A function for escaping the characters that can not be inside a json string as they are
+
+        \param [in] str string to escape
+
+        \return string that can be placed between quotation marks in json
+    */
+    std::string EscapeJsonString(const std::string& str);
+
     /**
         \brief Method for convert DataSaver to json string
 
@@ -37,7 +46,7 @@ namespace mvlt
         std::string res;
 
         if (IsQuotedJsonType(typeid(T)))
-            res = "\"" + ToString(data) + "\"";
+            res = "\"" + EscapeJsonString(ToString(data)) + "\"";
         else
             res = ToString(data);
 
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 1a34f5d..98dc7a9 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -712,7 +712,7 @@ namespace mvlt
             if (!isArray)
             {
                 if (isUseRecordTemplate)
-                    res << "\"" << recordTemplate << counter << "\":";
+                    res << "\"" << EscapeJsonString(recordTemplate) << counter << "\":";
                 else
                     res << "\"" << record << "\":";
             }
@@ -730,7 +730,7 @@ namespace mvlt
                 DataSaver dataSaver;
                 record->GetDataSaver(key, dataSaver);
 
-                res << "\"" << key << "\":";
+                res << "\"" << EscapeJsonString(key) << "\":";
 
                 if (isFormat) res << " ";
                 res << mvlt::ToJson(dataSaver);
diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 8527b49..35aa7d2 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -317,7 +317,7 @@ namespace mvlt
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(key, dataSaver);
 
-                    res += "\"" + key + "\":";
+                    res += "\"" + EscapeJsonString(key) + "\":";
 
                     if (isFormat) res += " ";
                     res += mvlt::ToJson(dataSaver);
-- 
2.43.0


From 998fc1fb7bbada34f9fdf9413eb683db7378d793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 35/47] fix: whole numbers that do not fit into their type are
 not loaded as other numbers

---
 Source/Strings/FromString.h | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 4a2b38f..3eb6fc0 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -2,6 +2,7 @@
 
 #include <string>
 #include <cstdint>
+#include <limits>
 
 namespace mvlt
 {
@@ -198,13 +199,22 @@ namespace mvlt
         for (; i < stringToCopyDataFrom.length(); ++i)
         {
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            res *= 10;
-            res += static_cast<int>(stringToCopyDataFrom[i] - '0');
+            const T digit = static_cast<T>(stringToCopyDataFrom[i] - '0');
+
+            // Numbers that do not fit into the type are not converted
+            if (isNegative)
+            {
+                if (res < (std::numeric_limits<T>::min() + digit) / 10) return false;
+                res = static_cast<T>(res * 10 - digit);
+            }
+            else
+            {
+                if (res > (std::numeric_limits<T>::max() - digit) / 10) return false;
+                res = static_cast<T>(res * 10 + digit);
+            }
         }
 
-        // codechecker_intentional [all] its not error because negative numbers handled by if
-        if (isNegative) data = res * -1;
-        else data = res;
+        data = res;
 
         return true;
     }
@@ -281,8 +291,11 @@ namespace mvlt
         for (std::size_t i = 0; i < stringToCopyDataFrom.length(); ++i)
         {
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            res *= 10;
-            res += static_cast<int>(stringToCopyDataFrom[i] - '0');
+            const T digit = static_cast<T>(stringToCopyDataFrom[i] - '0');
+
+            // Numbers that do not fit into the type are not converted
+            if (res > (std::numeric_limits<T>::max() - digit) / 10) return false;
+            res = static_cast<T>(res * 10 + digit);
         }
 
         data = res;
@@ -302,7 +315,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint16_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**
@@ -318,7 +331,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint32_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**
@@ -334,7 +347,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint64_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**@} */
-- 
2.43.0


From 94b846ef05ef8b7456149359539a5b518dc473e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 36/47] fix: floating point numbers keep their value through
 text

---
 Source/Strings/FromString.h | 79 ++++++++++++++++++++++++++-----------
 Source/Strings/ToString.h   | 40 ++++++++++++++++---
 2 files changed, 90 insertions(+), 29 deletions(-)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 3eb6fc0..36214fe 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -1,8 +1,10 @@
 #pragma once
 
-#include <string>
+#include <cmath>
 #include <cstdint>
+#include <cstdlib>
 #include <limits>
+#include <string>
 
 namespace mvlt
 {
@@ -78,6 +80,30 @@ namespace mvlt
         return false;
     }
 
+    /**
+        \brief A template function that converts text to the nearest floating point number
+
+        \tparam <T> floatating type
+
+        \param [in] str text to convert
+
+        \return nearest number of type T
+    */
+    template <class T>
+    inline T StringToFloating(const char* str) noexcept { return static_cast<T>(std::strtod(str, nullptr)); }
+
+    /**
+        \brief StringToFloating specialization for working with float
+
+        \tparam <float> float type
+
+        \param [in] str text to convert
+
+        \return nearest float number
+    */
+    template <>
+    inline float StringToFloating(const char* str) noexcept { return std::strtof(str, nullptr); }
+
     /**
         \brief FromStringDoubleAndFloat template for working with float and double
 
@@ -95,42 +121,47 @@ namespace mvlt
     {
         if (stringToCopyDataFrom.length() == 0) return false;
 
-        int integer = 0, fractional = 0;
+        // Infinity is written without digits
+        if (stringToCopyDataFrom == "inf" || stringToCopyDataFrom == "-inf")
+        {
+            data = std::numeric_limits<T>::infinity();
+            if (stringToCopyDataFrom[0] == '-') data = -data;
+            return true;
+        }
 
         std::size_t i = 0;
-        bool isNegative = false;
 
-        if (stringToCopyDataFrom[0] == '-' && stringToCopyDataFrom.length() > 1)
-        {
-            isNegative = true;
-            i = 1;
-        }
+        if (stringToCopyDataFrom[0] == '-' && stringToCopyDataFrom.length() > 1) i = 1;
 
         for (; i < stringToCopyDataFrom.length(); ++i)
         {
-            if (stringToCopyDataFrom[i] == '.')
-            {
-                ++i;
-                break;
-            }
-
+            if (stringToCopyDataFrom[i] == '.' || stringToCopyDataFrom[i] == 'e') break;
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            integer *= 10;
-            integer += static_cast<int>(stringToCopyDataFrom[i] - '0');
         }
 
-        T coeff = 1;
-        for (; i < stringToCopyDataFrom.length(); ++i)
+        if (i < stringToCopyDataFrom.length() && stringToCopyDataFrom[i] == '.')
+            for (++i; i < stringToCopyDataFrom.length(); ++i)
+            {
+                if (stringToCopyDataFrom[i] == 'e') break;
+                if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
+            }
+
+        // Exponent of very big and very small numbers
+        if (i < stringToCopyDataFrom.length())
         {
-            if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            coeff /= 10;
-            fractional *= 10;
-            fractional += static_cast<int>(stringToCopyDataFrom[i] - '0');
+            ++i;
+            if (i < stringToCopyDataFrom.length() && (stringToCopyDataFrom[i] == '-' || stringToCopyDataFrom[i] == '+')) ++i;
+            if (i == stringToCopyDataFrom.length()) return false;
+            for (; i < stringToCopyDataFrom.length(); ++i)
+                if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
         }
 
-        data = static_cast<T>(integer) + static_cast<T>(fractional) * coeff;
+        const T res = StringToFloating<T>(stringToCopyDataFrom.c_str());
 
-        if (isNegative) data *= -1;
+        // Numbers that do not fit into the type are not converted
+        if (std::isinf(res)) return false;
+
+        data = res;
 
         return true;
     }
diff --git a/Source/Strings/ToString.h b/Source/Strings/ToString.h
index c78eb11..919f377 100644
--- a/Source/Strings/ToString.h
+++ b/Source/Strings/ToString.h
@@ -1,7 +1,10 @@
 #pragma once
 
-#include <string>
 #include <cstdint>
+#include <cstdio>
+#include <string>
+
+#include "FromString.h"
 
 namespace mvlt
 {
@@ -229,6 +232,33 @@ namespace mvlt
         return data;
     }
 
+    /**
+        \brief A template function that converts a floating point number to the text from which the same number can be read
+
+        \tparam <T> floatating type
+
+        \param [in] data the variable to be converted to a string
+
+        \return result of std::to_string function if no digits are lost there, otherwise the text with as many digits as needed
+    */
+    template <class T>
+    std::string FloatingToString(const T& data) noexcept
+    {
+        std::string res = std::to_string(data);
+
+        // NaN is not equal to itself and has only one text
+        if (data != data) return res;
+
+        for (int precision = 6; precision <= std::numeric_limits<T>::max_digits10 && StringToFloating<T>(res.c_str()) != data; ++precision)
+        {
+            char buffer[64];
+            std::snprintf(buffer, sizeof(buffer), "%.*g", precision, static_cast<double>(data));
+            res = buffer;
+        }
+
+        return res;
+    }
+
     /**
         \brief Specialization of the ToString method for the float type
 
@@ -236,12 +266,12 @@ namespace mvlt
 
         \param [in] data the variable to be converted to a string
 
-        \return result of std::to_string function
+        \return result of FloatingToString function
     */
     template <>
     inline std::string ToString(const float& data) noexcept
     {
-        return std::to_string(data);
+        return FloatingToString(data);
     }
 
     /**
@@ -251,12 +281,12 @@ namespace mvlt
 
         \param [in] data the variable to be converted to a string
 
-        \return result of std::to_string function
+        \return result of FloatingToString function
     */
     template <>
     inline std::string ToString(const double& data) noexcept
     {
-        return std::to_string(data);
+        return FloatingToString(data);
     }
 
     /**@} */
-- 
2.43.0


From f245e43c0ae3cda64c908431539847dfcbcff0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 37/47] fix: an empty DataSaver assigned to another one empties
 it completely

---
 Source/DataSaver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Source/DataSaver.cpp b/Source/DataSaver.cpp
index 4029dab..9c67711 100644
--- a/Source/DataSaver.cpp
+++ b/Source/DataSaver.cpp
@@ -46,6 +46,11 @@ namespace mvlt
             {
                 // If other is empty clear the variables
                 Ptr = nullptr;
+                DataType = typeid(void);
+                CopyFunc = nullptr;
+                ToStringFunc = nullptr;
+                CustomDeleteFunc = nullptr;
+                SetDataFromStringFunc = nullptr;
             }
         }
 
-- 
2.43.0


From a464e4c53cfd2b678da3cc50ce2912f58617273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 38/47] fix: the union of two record sets happens at one moment

---
 Source/Vault.h            | 3 +++
 Source/VaultRecordSet.cpp | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/Source/Vault.h b/Source/Vault.h
index 15964f9..3255afa 100644
--- a/Source/Vault.h
+++ b/Source/Vault.h
@@ -795,6 +795,9 @@ namespace mvlt
         /// \brief Default destructor
         ~Vault() noexcept;
 
+        /// Making Union function friendly
+        friend VaultOperationResult Union(const VaultRecordSet& a, const VaultRecordSet& b, VaultRecordSet& res) noexcept;
+
         /// Making Intersection function friendly
         friend VaultOperationResult Intersection(const VaultRecordSet& a, const VaultRecordSet& b, VaultRecordSet& res) noexcept;
     };
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index fa2d55e..2024b5b 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -623,6 +623,12 @@ namespace mvlt
         }
         else
         {
+            // Detach res from other Vault before locking this one, so that two Vaults are never locked at the same time
+            res.Reset();
+
+            // No other thread changes the Vault between the two steps
+            WriteLock<RecursiveReadWriteMutex> writeLock(a.ParentVault->RecursiveReadWriteMtx);
+
             res = a;
             vor = res.Join(b);
         }
-- 
2.43.0


From 80b0b08f83e6c198bebd7c188bd65dadf09aa29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 39/47] fix: the end of a file that ends with a block is not a
 read failure

---
 Source/CsvParser/StreamFileReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/CsvParser/StreamFileReader.cpp b/Source/CsvParser/StreamFileReader.cpp
index e97b1a7..bc56850 100644
--- a/Source/CsvParser/StreamFileReader.cpp
+++ b/Source/CsvParser/StreamFileReader.cpp
@@ -50,6 +50,9 @@ namespace mvlt
 
     void StreamFileReader::ReadBlock(char* block, const std::streamsize& size) noexcept
     {
+        // There is nothing to read behind the end of the file
+        if (size <= 0) return;
+
         File.read(block, size);
 
         // If it was not possible to read everything, then the file ends where reading stopped
-- 
2.43.0


From 77f55a83ff53168b432c9dc1cd20e0b167352c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 40/47] fix: a printed table shows no other column's value
 under a key the vault does not have

---
 Source/Strings/PrintAsTable.h | 3 +++
 Source/Vault.cpp              | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/Source/Strings/PrintAsTable.h b/Source/Strings/PrintAsTable.h
index b03e5aa..53e5569 100644
--- a/Source/Strings/PrintAsTable.h
+++ b/Source/Strings/PrintAsTable.h
@@ -51,6 +51,8 @@ namespace mvlt
         {
             for (const auto& record : container)
             {
+                // A key that is not in the vault has no value, do not keep the previous one
+                dataString.clear();
                 record.GetDataAsString((*realKeys)[i], dataString);
                 if (dataString.length() > maxLengths[i]) maxLengths[i] = dataString.length();
             }
@@ -93,6 +95,7 @@ namespace mvlt
             std::cout << "|";
             for (std::size_t i = 0; i < realKeys->size(); ++i)
             {
+                dataString.clear();
                 record.GetDataAsString((*realKeys)[i], dataString);
                 std::cout << " " << dataString;
                 for (std::size_t j = dataString.length(); j < maxLengths[i]; ++j) std::cout << " ";
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 98dc7a9..b74ec6e 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -837,6 +837,8 @@ namespace mvlt
         {
             for (const auto& record : RecordsSet)
             {
+                // A key that is not in the vault has no value, do not keep the previous one
+                dataString.clear();
                 record->GetDataAsString(key, dataString);
                 if (dataString.length() > maxLengths[counter]) maxLengths[counter] = dataString.length();   
             }
@@ -892,6 +894,7 @@ namespace mvlt
             std::cout << "|";
             for (const std::string& key : *keysList)
             {
+                dataString.clear();
                 record.GetDataAsString(key, dataString);
                 std::cout << " " << dataString;
                 for (std::size_t j = dataString.length(); j < maxLengths[counter]; ++j) std::cout << " ";
-- 
2.43.0


From b0be25f93181f413ad632f36b9df49eb849f9526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 41/47] fix: printing a back-trace does not read stack frames
 that do not exist

---
 Source/BackTrace/BackTrace.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Source/BackTrace/BackTrace.cpp b/Source/BackTrace/BackTrace.cpp
index 351431f..3b42bd8 100644
--- a/Source/BackTrace/BackTrace.cpp
+++ b/Source/BackTrace/BackTrace.cpp
@@ -24,6 +24,10 @@ namespace mvlt
 
             traceSize = backtrace(array, TRACE_MAX);
 
+            // Inlined functions are in Trace but do not have a stack frame
+            if (traceSize == 0) return;
+            if (i >= traceSize) i = traceSize - 1;
+
             if (TraceFormat == BackTraceFormat::Compact)
             {
                 traceSize = i + 1;
-- 
2.43.0


From 1dcde623fa9e7c43ee898a4a5c6103640e9ab7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:24 +0000
Subject: [PATCH 42/47] fix: printing zero records as a table prints no record

---
 Source/Strings/PrintAsTable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/Strings/PrintAsTable.h b/Source/Strings/PrintAsTable.h
index 53e5569..1681443 100644
--- a/Source/Strings/PrintAsTable.h
+++ b/Source/Strings/PrintAsTable.h
@@ -92,6 +92,9 @@ namespace mvlt
         std::size_t counter = 0;
         for (const auto& record : container)
         {
+            if (counter == amountOfRecords) break;
+            ++counter;
+
             std::cout << "|";
             for (std::size_t i = 0; i < realKeys->size(); ++i)
             {
@@ -105,9 +108,6 @@ namespace mvlt
                 std::cout << " " << record.GetRecordUniqueId() << "\n";
             else
                 std::cout << "\n";
-
-            ++counter;
-            if (counter == amountOfRecords) break;
         }
 
         // Print splitter
-- 
2.43.0


From f5d670156e526ef9d0bfecf74872e0cf79abbb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 43/47] fix: NaN values of a key do not break the order of its
 other values

---
 Source/Map.h     | 97 +++++++++++++++++++++++++++++++++++++-----------
 Source/Vault.hpp |  2 +-
 2 files changed, 76 insertions(+), 23 deletions(-)

diff --git a/Source/Map.h b/Source/Map.h
index c98ae5f..3b380d4 100644
--- a/Source/Map.h
+++ b/Source/Map.h
@@ -1,10 +1,63 @@
 #pragma once
 
 #include <map>
+#include <functional>
+#include <type_traits>
 #include <unordered_map>
 
 namespace mvlt 
 {
+    /**
+        \brief Order of floating point keys
+
+        It is the order of operator less in which all NaN are the same value that is greater than any number.
+        Operator less does not say that two NaN are the same and calls NaN equivalent to all numbers, so that maps with such keys fall apart
+
+        \tparam <KeyType> - floating point type
+    */
+    template <class KeyType>
+    struct FloatingLess
+    {
+        /// \brief Check if a is before b
+        bool operator()(const KeyType& a, const KeyType& b) const noexcept { return a < b || (a == a && b != b); }
+    };
+
+    /**
+        \brief Equality of floating point keys. All NaN are the same value
+
+        \tparam <KeyType> - floating point type
+    */
+    template <class KeyType>
+    struct FloatingEqual
+    {
+        /// \brief Check if a and b are the same key
+        bool operator()(const KeyType& a, const KeyType& b) const noexcept { return a == b || (a != a && b != b); }
+    };
+
+    /**
+        \brief Hash of floating point keys. All NaN have the same one
+
+        \tparam <KeyType> - floating point type
+    */
+    template <class KeyType>
+    struct FloatingHash
+    {
+        /// \brief Get hash of key
+        std::size_t operator()(const KeyType& key) const noexcept { return key != key ? 0 : std::hash<KeyType>()(key); }
+    };
+
+    /// \brief Order of keys in all library maps
+    template <class KeyType>
+    using KeyLess = typename std::conditional<std::is_floating_point<KeyType>::value, FloatingLess<KeyType>, std::less<KeyType>>::type;
+
+    /// \brief Equality of keys in all library hash tables
+    template <class KeyType>
+    using KeyEqual = typename std::conditional<std::is_floating_point<KeyType>::value, FloatingEqual<KeyType>, std::equal_to<KeyType>>::type;
+
+    /// \brief Hash of keys in all library hash tables
+    template <class KeyType>
+    using KeyHash = typename std::conditional<std::is_floating_point<KeyType>::value, FloatingHash<KeyType>, std::hash<KeyType>>::type;
+
     /**
         \brief Iterator class for all library maps
 
@@ -206,22 +259,22 @@ namespace mvlt
         \brief Declaring the UnorderedMapIterator class
     */
     template <class KeyType, class ValueType>
-    using UnorderedMapIterator = AllMapIterator<typename std::unordered_multimap<KeyType, ValueType>::iterator, 
-        typename std::unordered_map<KeyType, ValueType>::iterator, KeyType, ValueType>;
+    using UnorderedMapIterator = AllMapIterator<typename std::unordered_multimap<KeyType, ValueType, KeyHash<KeyType>, KeyEqual<KeyType>>::iterator, 
+        typename std::unordered_map<KeyType, ValueType, KeyHash<KeyType>, KeyEqual<KeyType>>::iterator, KeyType, ValueType>;
 
     /**
         \brief Declaring the MapIterator class
     */
     template <class KeyType, class ValueType>
-    using MapIterator = AllMapIterator<typename std::multimap<KeyType, ValueType>::iterator, 
-        typename std::map<KeyType, ValueType>::iterator, KeyType, ValueType>;
+    using MapIterator = AllMapIterator<typename std::multimap<KeyType, ValueType, KeyLess<KeyType>>::iterator, 
+        typename std::map<KeyType, ValueType, KeyLess<KeyType>>::iterator, KeyType, ValueType>;
 
     /**
         \brief Declaring the ReverseMapIterator class
     */
     template <class KeyType, class ValueType>
-    using ReverseMapIterator = AllMapIterator<typename std::multimap<KeyType, ValueType>::reverse_iterator, 
-        typename std::map<KeyType, ValueType>::reverse_iterator, KeyType, ValueType>;
+    using ReverseMapIterator = AllMapIterator<typename std::multimap<KeyType, ValueType, KeyLess<KeyType>>::reverse_iterator, 
+        typename std::map<KeyType, ValueType, KeyLess<KeyType>>::reverse_iterator, KeyType, ValueType>;
 
 
     /**
@@ -439,7 +492,7 @@ namespace mvlt
         \brief The descendant of the ParentMap class, which stores the map, i.e. the binary tree
     */
     template <class KeyType, class ValueType>
-    class Map : public ParentMap<std::multimap<KeyType, ValueType>, std::map<KeyType, ValueType>, 
+    class Map : public ParentMap<std::multimap<KeyType, ValueType, KeyLess<KeyType>>, std::map<KeyType, ValueType, KeyLess<KeyType>>, 
         MapIterator<KeyType, ValueType>, KeyType, ValueType>
     {
     public:
@@ -450,7 +503,7 @@ namespace mvlt
         */
         explicit Map(const bool& isMultiMap) noexcept
         {
-            ParentMap<std::multimap<KeyType, ValueType>, std::map<KeyType, ValueType>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::IsMultiMap = isMultiMap;
+            ParentMap<std::multimap<KeyType, ValueType, KeyLess<KeyType>>, std::map<KeyType, ValueType, KeyLess<KeyType>>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::IsMultiMap = isMultiMap;
         }
 
         /**
@@ -463,9 +516,9 @@ namespace mvlt
         */
         MapIterator<KeyType, ValueType> LowerBound(const KeyType& data) noexcept
         {
-            return MapIterator<KeyType, ValueType>(ParentMap<std::multimap<KeyType, ValueType>, std::map<KeyType, ValueType>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMultiMap.lower_bound(data), 
-                ParentMap<std::multimap<KeyType, ValueType>, std::map<KeyType, ValueType>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMap.lower_bound(data),
-                ParentMap<std::multimap<KeyType, ValueType>, std::map<KeyType, ValueType>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::IsMultiMap);
+            return MapIterator<KeyType, ValueType>(ParentMap<std::multimap<KeyType, ValueType, KeyLess<KeyType>>, std::map<KeyType, ValueType, KeyLess<KeyType>>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMultiMap.lower_bound(data), 
+                ParentMap<std::multimap<KeyType, ValueType, KeyLess<KeyType>>, std::map<KeyType, ValueType, KeyLess<KeyType>>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMap.lower_bound(data),
+                ParentMap<std::multimap<KeyType, ValueType, KeyLess<KeyType>>, std::map<KeyType, ValueType, KeyLess<KeyType>>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::IsMultiMap);
         }
 
         /**
@@ -478,9 +531,9 @@ namespace mvlt
         */
         MapIterator<KeyType, ValueType> UpperBound(const KeyType& data) noexcept
         {
-            return MapIterator<KeyType, ValueType>(ParentMap<std::multimap<KeyType, ValueType>, std::map<KeyType, ValueType>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMultiMap.upper_bound(data), 
-                ParentMap<std::multimap<KeyType, ValueType>, std::map<KeyType, ValueType>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMap.upper_bound(data),
-                ParentMap<std::multimap<KeyType, ValueType>, std::map<KeyType, ValueType>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::IsMultiMap);
+            return MapIterator<KeyType, ValueType>(ParentMap<std::multimap<KeyType, ValueType, KeyLess<KeyType>>, std::map<KeyType, ValueType, KeyLess<KeyType>>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMultiMap.upper_bound(data), 
+                ParentMap<std::multimap<KeyType, ValueType, KeyLess<KeyType>>, std::map<KeyType, ValueType, KeyLess<KeyType>>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMap.upper_bound(data),
+                ParentMap<std::multimap<KeyType, ValueType, KeyLess<KeyType>>, std::map<KeyType, ValueType, KeyLess<KeyType>>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::IsMultiMap);
         }
 
         /**
@@ -490,9 +543,9 @@ namespace mvlt
         */
         ReverseMapIterator<KeyType, ValueType> Rbegin() noexcept
         {
-            return ReverseMapIterator<KeyType, ValueType>(ParentMap<std::multimap<KeyType, ValueType>, std::map<KeyType, ValueType>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMultiMap.rbegin(), 
-                ParentMap<std::multimap<KeyType, ValueType>, std::map<KeyType, ValueType>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMap.rbegin(),
-                ParentMap<std::multimap<KeyType, ValueType>, std::map<KeyType, ValueType>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::IsMultiMap);
+            return ReverseMapIterator<KeyType, ValueType>(ParentMap<std::multimap<KeyType, ValueType, KeyLess<KeyType>>, std::map<KeyType, ValueType, KeyLess<KeyType>>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMultiMap.rbegin(), 
+                ParentMap<std::multimap<KeyType, ValueType, KeyLess<KeyType>>, std::map<KeyType, ValueType, KeyLess<KeyType>>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMap.rbegin(),
+                ParentMap<std::multimap<KeyType, ValueType, KeyLess<KeyType>>, std::map<KeyType, ValueType, KeyLess<KeyType>>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::IsMultiMap);
         }
 
         /**
@@ -502,9 +555,9 @@ namespace mvlt
         */
         ReverseMapIterator<KeyType, ValueType> Rend() noexcept
         {
-            return ReverseMapIterator<KeyType, ValueType>(ParentMap<std::multimap<KeyType, ValueType>, std::map<KeyType, ValueType>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMultiMap.rend(), 
-            ParentMap<std::multimap<KeyType, ValueType>, std::map<KeyType, ValueType>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMap.rend(), 
-            ParentMap<std::multimap<KeyType, ValueType>, std::map<KeyType, ValueType>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::IsMultiMap);
+            return ReverseMapIterator<KeyType, ValueType>(ParentMap<std::multimap<KeyType, ValueType, KeyLess<KeyType>>, std::map<KeyType, ValueType, KeyLess<KeyType>>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMultiMap.rend(), 
+            ParentMap<std::multimap<KeyType, ValueType, KeyLess<KeyType>>, std::map<KeyType, ValueType, KeyLess<KeyType>>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::DataMap.rend(), 
+            ParentMap<std::multimap<KeyType, ValueType, KeyLess<KeyType>>, std::map<KeyType, ValueType, KeyLess<KeyType>>, MapIterator<KeyType, ValueType>, KeyType, ValueType>::IsMultiMap);
         }
     };
 
@@ -512,7 +565,7 @@ namespace mvlt
         \brief The descendant of the ParentMap class, which stores the unordered_map, i.e. the hash table
     */
     template <class KeyType, class ValueType>
-    class UnorderedMap : public ParentMap<std::unordered_multimap<KeyType, ValueType>, std::unordered_map<KeyType, ValueType>, 
+    class UnorderedMap : public ParentMap<std::unordered_multimap<KeyType, ValueType, KeyHash<KeyType>, KeyEqual<KeyType>>, std::unordered_map<KeyType, ValueType, KeyHash<KeyType>, KeyEqual<KeyType>>, 
         UnorderedMapIterator<KeyType, ValueType>, KeyType, ValueType>
     {
     public:
@@ -523,7 +576,7 @@ namespace mvlt
         */
         explicit UnorderedMap(const bool& isMultiMap) noexcept
         {
-            ParentMap<std::unordered_multimap<KeyType, ValueType>, std::unordered_map<KeyType, ValueType>, UnorderedMapIterator<KeyType, ValueType>, KeyType, ValueType>::IsMultiMap = isMultiMap;
+            ParentMap<std::unordered_multimap<KeyType, ValueType, KeyHash<KeyType>, KeyEqual<KeyType>>, std::unordered_map<KeyType, ValueType, KeyHash<KeyType>, KeyEqual<KeyType>>, UnorderedMapIterator<KeyType, ValueType>, KeyType, ValueType>::IsMultiMap = isMultiMap;
         }
     };
 }
\ No newline at end of file
diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 4de9f94..747cedc 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -226,7 +226,7 @@ namespace mvlt
                 break;
             
             case VaultRequestType::Interval:
-                if (beginKeyValue > endKeyValue || (beginKeyValue == endKeyValue && (isIncludeBeginKeyValue == false || isIncludeEndKeyValue == false)))
+                if (KeyLess<T>()(endKeyValue, beginKeyValue) || (!KeyLess<T>()(beginKeyValue, endKeyValue) && (isIncludeBeginKeyValue == false || isIncludeEndKeyValue == false)))
                 {
                     startIt = TtoVaultRecordMap->End();
                     endIt = TtoVaultRecordMap->End();
-- 
2.43.0


From 37496426f1b127bbcb15f6f6e0b0f75ced817362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 44/47] fix: NaN values survive saving and loading

---
 Source/Strings/FromString.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 36214fe..585a9f1 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -121,6 +121,13 @@ namespace mvlt
     {
         if (stringToCopyDataFrom.length() == 0) return false;
 
+        // NaN is written without digits
+        if (stringToCopyDataFrom == "nan" || stringToCopyDataFrom == "-nan")
+        {
+            data = std::numeric_limits<T>::quiet_NaN();
+            return true;
+        }
+
         // Infinity is written without digits
         if (stringToCopyDataFrom == "inf" || stringToCopyDataFrom == "-inf")
         {
-- 
2.43.0


From b9bb81269839c6fbe8cdc742493bd47fb12fa1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:49 +0000
Subject: [PATCH 45/47] fix: load int8_t and uint8_t values from files

There was no FromString for these types, so a file written by SaveToFile
with such a key could not be loaded back: every row was rejected.
---
 Source/Strings/FromString.h | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 585a9f1..416911b 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -209,6 +209,7 @@ namespace mvlt
         \brief FromStringSignedInt template for working with all signed integers
 
         \tparam <T> signed integer as a type
+        \tparam <std::int8_t> std::int8_t int as a type
         \tparam <std::int16_t> std::int16_t int as a type
         \tparam <std::int32_t> std::int32_t int as a type
         \tparam <std::int64_t> std::int64_t int as a type
@@ -257,6 +258,22 @@ namespace mvlt
         return true;
     }
 
+    /**
+        \brief FromString specialization for working with std::int8_t
+
+        \tparam <std::int8_t> int as a type
+
+        \param [in] stringToCopyDataFrom the string to be converted to type int
+        \param [out] data the variable where the converted string will be written
+
+        \return Returns true if the conversion was successful, otherwise it returns false
+    */
+    template <>
+    inline bool FromString(const std::string& stringToCopyDataFrom, std::int8_t& data) noexcept
+    {
+        return FromStringSignedInt(stringToCopyDataFrom, data);
+    }
+
     /**
         \brief FromString specialization for working with std::int16_t int
 
@@ -340,6 +357,22 @@ namespace mvlt
         return true;
     }
 
+    /**
+        \brief FromString specialization for working with std::uint8_t
+
+        \tparam <std::uint8_t> int as a type
+
+        \param [in] stringToCopyDataFrom the string to be converted to type unsigned int
+        \param [out] data the variable where the converted string will be written
+
+        \return Returns true if the conversion was successful, otherwise it returns false
+    */
+    template <>
+    inline bool FromString(const std::string& stringToCopyDataFrom, std::uint8_t& data) noexcept
+    {
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
+    }
+
     /**
         \brief FromString specialization for working with std::uint16_t
 
-- 
2.43.0


From 42351cd8480801af4b4bdd8fe81bba12b5bb27c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:49 +0000
Subject: [PATCH 46/47] fix: DataSaver without data called a null function in
 Str and SetDataFromString

---
 Source/DataSaver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/DataSaver.cpp b/Source/DataSaver.cpp
index 9c67711..c587563 100644
--- a/Source/DataSaver.cpp
+++ b/Source/DataSaver.cpp
@@ -59,6 +59,9 @@ namespace mvlt
 
     bool DataSaver::SetDataFromString(const std::string& data) noexcept
     {
+        // There is nothing to set if there is no data
+        if (SetDataFromStringFunc == nullptr) return false;
+
         return SetDataFromStringFunc(Ptr, data);
     }
 
@@ -91,6 +94,9 @@ namespace mvlt
 
     std::string DataSaver::Str() const noexcept
     {
+        // There is nothing to convert if there is no data
+        if (ToStringFunc == nullptr) return "";
+
         return ToStringFunc(Ptr);
     }
 
-- 
2.43.0


From 92ee1dd81ddfaaa56f16f30e7a2753e5dac5bf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:58 +0000
Subject: [PATCH 47/47] fix: text without digits is not loaded as the floating
 point number 0

---
 Source/Strings/FromString.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 416911b..81c7008 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -153,6 +153,9 @@ namespace mvlt
                 if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
             }
 
+        // There is no number without digits
+        if (stringToCopyDataFrom.find_first_of("0123456789") >= i) return false;
+
         // Exponent of very big and very small numbers
         if (i < stringToCopyDataFrom.length())
         {
-- 
2.43.0

