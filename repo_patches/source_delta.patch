From 2bac5d503a507f9ccaeeb971dcc8e02be964d50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 01/63] fix: unlock password protected private keys

Indexing bytes gives an int, so the comparison with b'y' never held and a
protected key was used still encrypted.
---
 bversion/crypto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/crypto.py b/bversion/crypto.py
index a66f5ea..9dd4fb3 100644
--- a/bversion/crypto.py
+++ b/bversion/crypto.py
@@ -44,7 +44,7 @@ def make_keypair() -> Tuple[bytes, bytes]:
 def unlock_private_key(private_key_b64: str) -> bytes:
     private_key: bytes = base64.b64decode(private_key_b64)
 
-    if private_key[0] == b'y':
+    if private_key[0:1] == b'y':
         sbytes: int = pysodium.crypto_pwhash_SALTBYTES
         nbytes: int = pysodium.crypto_box_NONCEBYTES
         salt: bytes = private_key[1:sbytes+1]
-- 
2.43.0


From 9b6e1db6899a4595b4f9b6644393bd98cae70c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 02/63] fix: allow an existing session to be resumed

Session tokens are stored as bytes, looking them up as str never matched.
---
 bversion/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/server.py b/bversion/server.py
index c815333..9a3311e 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -133,7 +133,7 @@ def authenticate(request: Request, context: ConnectionContext) -> Responce: # py
 
     # Allow resume of an existing session
     if 'session_token' in request.headers:
-        session_token = request.headers['session_token']
+        session_token = request.headers['session_token'].encode('utf8')
 
         if sdb.validate_session(session_token, client_ip) != []:
             return success({
-- 
2.43.0


From 0676baa3baaa364fa9d29e511ced78dbbe1e6b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 03/63] fix: a file sent again within a commit replaces the
 earlier one

The insert failed on the unique path, so a changed file could not be sent
again when resuming a commit.
---
 bversion/storage/server_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index f21086e..d626755 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -240,7 +240,7 @@ class server_db:
         file_info['status'] = 'changed' if self.file_exists_in_commit (file_info['path']) != [] else 'new'
 
         # Update commit changes
-        self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
+        self.con.execute("insert or replace into active_commit_changes (hash, path, status) values (?, ?, ?)",
                          (file_info['hash'], file_info['path'], file_info['status']))
 
         self.con.commit()
-- 
2.43.0


From 7254383550d3d84f1be5be035166ef0c9da53e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 04/63] fix: deleting a missing file does not skip the other
 deletions

The early return dropped the remaining files of the request, and left the
deletions before it uncommitted. A file which was already sent in this commit
could not be deleted either, or stayed in it.
---
 bversion/storage/server_db.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index d626755..513d829 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -254,9 +254,12 @@ class server_db:
         for it in files:
             file_path = it['path']
 
-            # We don't need to do anything if the file doesnt exist
+            # We don't need to do anything if the file doesnt exist,
+            # other than to forget it, if it was added earlier in this commit.
             the_file = self.file_exists_in_commit(file_path)
-            if the_file == []: return
+            if the_file == []:
+                self.con.execute("delete from active_commit_changes where path = ?", (file_path,))
+                continue
             file_info = the_file[0]
 
             # Update commit changes
@@ -265,7 +268,7 @@ class server_db:
 
             if already_deleted == []:
                 file_info['status'] = 'deleted'
-                self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
+                self.con.execute("insert or replace into active_commit_changes (hash, path, status) values (?, ?, ?)",
                                 (file_info['hash'], file_info['path'], file_info['status']))
 
         self.con.commit()
-- 
2.43.0


From 903c174910d87a28ef3ac707a5e9af3172bbdd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 05/63] fix: do not delete a completed commit which was resumed
 before

When a commit is interrupted after writing its commit object, resumed, and
interrupted again after updating head, the GC log contains two commits. Only
the first was compared with head, and rollback then deleted the objects of the
current head.
---
 bversion/storage/versioned_storage.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 8bd5738..e81e5d2 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -306,6 +306,16 @@ class versioned_storage:
         return commit_object_hash
 
 
+#===============================================================================
+    def active_commit_is_head(self) -> bool:
+        """ Did the active commit become head, but was interrupted before it was cleaned up? A
+        commit which was interrupted and resumed may have written several commit objects. """
+
+        sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
+        head = self.get_head()
+        return any(item['item_type'] == 'commit' and item['item_hash'] == head for item in sdb.get_gc_log())
+
+
 #===============================================================================
     def rollback(self) -> None:
         if self.get_active_commit() is None: raise Exception()
@@ -316,8 +326,7 @@ class versioned_storage:
         if gc_log_items != []:
             # If a commit exists and it's hash matches the current head we do not need to do anything
             # The commit succeeded but we failed before deleting the active commit file for some reason
-            is_commit = next((item for item in gc_log_items if item['item_type'] == 'commit'), None)
-            if is_commit is not None and is_commit['item_hash'] == self.get_head():
+            if self.active_commit_is_head():
                 pass # commit actually ok
 
             else:# commit not ok, need to clean up
-- 
2.43.0


From 9a2f2e531eb317d8d601d5a9d0eb21180acc1733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 06/63] fix: a partly rolled back commit can not be resumed

If the server stops during a rollback, some objects of the commit are already
deleted. When the owner then came back the commit was resumed, and it recorded
files which no longer exist.
---
 bversion/storage/server_db.py         | 7 +++++++
 bversion/storage/versioned_storage.py | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 513d829..3d02ec4 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -223,6 +223,13 @@ class server_db:
         self.con.execute("update active_commit_exists set session_token = ?", (session_token,))
         self.con.commit()
 
+    #===============================================================================
+    def abandon_commit(self):
+        """ Remove the owner of the active commit, so nobody can resume it """
+
+        self.con.execute("update active_commit_exists set user = null")
+        self.con.commit()
+
     #===============================================================================
     def file_exists_in_commit(self, file_path):
         if self.active_files is None: raise Exception('active files not initilised')
diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index e81e5d2..182784b 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -323,6 +323,9 @@ class versioned_storage:
         sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
         gc_log_items = sdb.get_gc_log()
 
+        # From here on this commit can not be resumed, should this be interrupted
+        sdb.abandon_commit()
+
         if gc_log_items != []:
             # If a commit exists and it's hash matches the current head we do not need to do anything
             # The commit succeeded but we failed before deleting the active commit file for some reason
-- 
2.43.0


From 7401727ef14e0d1f935479c0b73eb2b372cfe6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 07/63] fix: never resume a commit which already completed, or
 of another user

If the server stops after head was updated, but before the commit state was
cleaned, the completed commit could be resumed and recorded a second time. The
owner was compared with the user name claimed in the request, rather than the
authenticated one.
---
 bversion/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bversion/server.py b/bversion/server.py
index 9a3311e..bd30e32 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -429,7 +429,8 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     commit_files = {}
 
     if active_commit is not None:
-        if active_commit['user'] == request.headers['user'] and active_commit['ip'] == request.remote_addr:
+        if (active_commit['user'] == current_user['username'] and active_commit['ip'] == request.remote_addr
+            and not data_store.active_commit_is_head()):
             commit_files = data_store.get_active_commit_changes()
             commit_files = [it for it in commit_files if it['status'] != 'deleted']
             data_store.begin(request.headers['user'], request.remote_addr, session_token, resume = True)
-- 
2.43.0


From 4bf552424e81de927ef70c1af81d61c0035c769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 08/63] fix: the owner of a commit is the authenticated user

Not whatever user name the request claims.
---
 bversion/server.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index bd30e32..18ee4c9 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -433,14 +433,14 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
             and not data_store.active_commit_is_head()):
             commit_files = data_store.get_active_commit_changes()
             commit_files = [it for it in commit_files if it['status'] != 'deleted']
-            data_store.begin(request.headers['user'], request.remote_addr, session_token, resume = True)
+            data_store.begin(current_user['username'], request.remote_addr, session_token, resume = True)
 
         else:
             data_store.rollback()
-            data_store.begin(request.headers['user'], request.remote_addr, session_token)
+            data_store.begin(current_user['username'], request.remote_addr, session_token)
 
     else:
-        data_store.begin(request.headers['user'], request.remote_addr, session_token)
+        data_store.begin(current_user['username'], request.remote_addr, session_token)
 
     #------------
     return success(data={'partial_commit' : commit_files})
-- 
2.43.0


From 7fb55c8487cb893ceb84c826de29d248dd49af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 09/63] fix: the write lock of one repository does not apply to
 others

A connection which held the lock of one repository could write to any other
one, while another connection was committing to it.
---
 bversion/server.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index 18ee4c9..5c7952c 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -406,9 +406,9 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
         return fail(lock_fail_msg)
 
     else:
-        context.lock = True
+        context.lock = repository
         def unlock():
-            if context.lock is True:
+            if context.lock is not False:
                 data_store.unlock()
                 context.lock = False
 
@@ -462,7 +462,7 @@ def push_file(request: Request, context: ConnectionContext) -> Responce:
     repository_path = config['repositories'][repository]['path']
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
@@ -506,7 +506,7 @@ def delete_files(request: Request, context: ConnectionContext) -> Responce:
     body_data = request.get_json()
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
@@ -542,7 +542,7 @@ def commit(request: Request, context: ConnectionContext) -> Responce:
     repository_path = config['repositories'][repository]['path']
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
-- 
2.43.0


From d18ea2cee33423e92d6782611c61577a349b7be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 10/63] fix: release the write lock when a commit can not begin

Otherwise nobody can commit until the refused client disconnects.
---
 bversion/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bversion/server.py b/bversion/server.py
index 5c7952c..03d8774 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -420,6 +420,7 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     # handled by the client, and a server interface for this is not needed.
     if data_store.get_head() != request.headers["previous_revision"]:
         if data_store.get_active_commit() is not None: data_store.rollback()
+        context.shutdown_handler()
         return fail(need_to_update_msg)
 
     # if the last active commit was by the same user and ip, get the partial committed files
-- 
2.43.0


From 7a1b4c0e181dbccfc49e22809a3a74cbdb948279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 11/63] fix: a resumed commit contains only the current local
 changes

Files which were uploaded before the interruption but are no longer a local
change (reverted, deleted, or uploaded from another working copy), and
deletions which are no longer wanted, were committed all the same.
---
 bversion/client.py            | 39 ++++++++++++++++++++++-------------
 bversion/storage/server_db.py |  4 ++++
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 96953a9..ec87457 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -715,32 +715,43 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
 
 
     # Acquire the commit lock and check we still have the latest revision
-    manifest_meta = cdb.get_system_meta()
-    body, headers = server_connection.request("begin_commit", {
-        "session_token"     : session_token,
-        'user'              : config['user'],
-        'repository'        : config['repository'],
-        "previous_revision" : manifest_meta['have_revision']})
+    def begin_commit():
+        manifest_meta = cdb.get_system_meta()
+        body, headers = server_connection.request("begin_commit", {
+            "session_token"     : session_token,
+            'user'              : config['user'],
+            'repository'        : config['repository'],
+            "previous_revision" : manifest_meta['have_revision']})
+
+        if headers['status'] != 'ok': raise SystemExit(headers['msg'])
+
+        return json.loads(body)['partial_commit']
 
+    previous_uploads = begin_commit()
 
-    if headers['status'] != 'ok': raise SystemExit(headers['msg'])
+    # If the partial commit contains a file which is no longer a local change, or
+    # never was one in this working copy, it can not be resumed. Start afresh.
+    push_paths = {fle['path'] for fle in changes['client_push_files']}
+    if any(fle['path'] not in push_paths for fle in previous_uploads):
+        headers = server_connection.request("commit", {
+            "session_token"  : session_token,
+            'repository'     : config['repository'],
+            'commit_message' : commit_message,
+            'mode'           : 'abort'})[1] # Only care about headers
 
+        if headers['status'] != 'ok': raise SystemExit(headers['msg'])
+
+        previous_uploads = begin_commit()
 
     # If we are resuming a partial commit, handle the previously uploaded files
     # Hash local files to ensure they have not changed and thus need reuploading
-    previous_uploads = json.loads(body)
-    previous_uploads = previous_uploads['partial_commit']
-
     filtered_previous = {}
     if len(previous_uploads) != 0:
         for fle in previous_uploads:
             print('Checking file from partially complete commit: ' + fle['path'])
             local_path = cpjoin(config['data_dir'], fle['path'])
 
-            if not os.path.isfile(local_path):
-                changes['to_delete_on_server'].append(fle)
-
-            elif fle['hash'] == hash_file(local_path):
+            if os.path.isfile(local_path) and fle['hash'] == hash_file(local_path):
                 filtered_previous[fle['path']] = fle
 
     previous_uploads = filtered_previous
diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 3d02ec4..c5c840b 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -220,6 +220,10 @@ class server_db:
         # Add the existing files to the commit
         self.active_files = active_files
 
+        # Clients send deletions again when resuming, deletions from before the
+        # interruption may no longer be wanted.
+        self.con.execute("delete from active_commit_changes where status = 'deleted'")
+
         self.con.execute("update active_commit_exists set session_token = ?", (session_token,))
         self.con.commit()
 
-- 
2.43.0


From fe6e163ce51ef25880a072a17786ee3fb9203745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 12/63] fix: notice files which are modified while they are
 being committed

The modification times were read after the commit, so a change made meanwhile
was not detected, and a file deleted meanwhile made the client fail to record
the commit.
---
 bversion/client.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index ec87457..710f961 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -11,7 +11,7 @@ import pysodium #type: ignore
 
 #=================================================
 from bversion.common import (cpjoin, get_file_list, find_manifest_changes, make_dirs_if_dont_exist,
-                             manifestFileDetails, get_single_file_info, file_or_default, question_user,
+                             manifestFileDetails, file_or_default, question_user,
                              file_put_contents, file_get_contents, ignore, find_bvn_dir, hash_file)
 
 from bversion.http.client_http_request import client_http_request
@@ -853,9 +853,13 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
                 cdb.remove_file_from_manifest(change['path'])
 
             elif change['status'] == 'new/changed':
-                file_info = get_single_file_info(cpjoin(config['data_dir'], change['path']), change['path'])
-                file_info['server_file_hash'] = change['file_info']['hash']
-                cdb.add_file_to_manifest(file_info)
+                # Use the times from before the file was sent, so that a file which
+                # was modified since then shows up as changed.
+                cdb.add_file_to_manifest({
+                    'path'             : change['path'],
+                    'last_mod'         : client_changes[change['path']]['last_mod'],
+                    'created'          : client_changes[change['path']]['created'],
+                    'server_file_hash' : change['file_info']['hash']})
 
         cdb.commit()
 
-- 
2.43.0


From b9a24adcd5ff7b089f8c8c1bbfff40b7c2d976b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 13/63] fix: do not lose a file when interrupted while it is
 being overwritten

The journal is written before the action, so an interruption while the existing
file was copied to tmp made the rollback replace it with the partial copy. An
interruption between the journal entry and the move over an existing file made
the rollback move that file away. Moving is atomic, and keeps the times.
---
 bversion/storage/journaling_filesystem.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index ffbd3c7..11fdbeb 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -75,8 +75,7 @@ class journaling_filesystem:
             self.client_db.commit()
 
         d = command['do']
-        if   d[cmd] == 'copy':   shutil.copy(d[src], d[dst])
-        elif d[cmd] == 'move':   shutil.move(d[src], d[dst])
+        if   d[cmd] == 'move':   shutil.move(d[src], d[dst])
         elif d[cmd] == 'backup': shutil.move(d[src], self.new_backup(d[src]))
         elif d[cmd] == 'write' :
             if callable(d[data]): d[data](d[path])
@@ -135,11 +134,11 @@ class journaling_filesystem:
 
         path = self.get_full_file_path(path)
 
-        # if file exists, create a temp copy to allow rollback
+        # if file exists, move it to tmp to allow rollback
         if os.path.isfile(path):
             tmp_path = self.new_tmp()
             self.do_action({
-                'do'   : ['copy', path, tmp_path],
+                'do'   : ['move', path, tmp_path],
                 'undo' : ['move', tmp_path, path]})
 
         self.do_action(
@@ -154,11 +153,11 @@ class journaling_filesystem:
 
         # record where file moved
         if os.path.isfile(src):
-            # if destination file exists, copy it to tmp first
+            # if destination file exists, move it to tmp first
             if os.path.isfile(dst):
                 tmp_path = self.new_tmp()
                 self.do_action({
-                    'do'   : ['copy', dst, tmp_path],
+                    'do'   : ['move', dst, tmp_path],
                     'undo' : ['move', tmp_path, dst]})
 
         self.do_action(
-- 
2.43.0


From 5cd2a9ec2ae5ec27b07c28ad74b78adc51fb9f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 14/63] fix: do not reuse temporary files of an interrupted run

A rollback restored the old contents of such a file over the working copy.
---
 bversion/storage/journaling_filesystem.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 11fdbeb..dfed683 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -33,8 +33,11 @@ class journaling_filesystem:
     def new_tmp(self):
         """ Create a new temp file allocation """
 
-        self.tmp_idx += 1
-        return p.join(self.tmp_dir, 'tmp_' + str(self.tmp_idx))
+        # A file may be left from when a previous run was interrupted
+        while True:
+            self.tmp_idx += 1
+            tmp_path = p.join(self.tmp_dir, 'tmp_' + str(self.tmp_idx))
+            if not p.exists(tmp_path): return tmp_path
 
 ############################################################################################
     def new_backup(self, src: str):
-- 
2.43.0


From b09dccbb660117d6382d3ab198d7bcb575ee4573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 15/63] fix: rolling back a failed file operation also restores
 the manifest

Uncommitted manifest changes were committed along with the journal.
---
 bversion/storage/client_db.py             | 4 ++++
 bversion/storage/journaling_filesystem.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/bversion/storage/client_db.py b/bversion/storage/client_db.py
index 5759f37..db53c06 100644
--- a/bversion/storage/client_db.py
+++ b/bversion/storage/client_db.py
@@ -53,6 +53,10 @@ class client_db:
     def commit(self):
         self.con.commit()
 
+    # --------------
+    def rollback(self):
+        self.con.rollback()
+
 
 # ===================================================
 # Handling of system metadata
diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index dfed683..6557374 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -88,6 +88,9 @@ class journaling_filesystem:
     def rollback(self):
         """ Do journal rollback """
 
+        # Discard manifest changes of the transaction, so they do not get committed below
+        self.client_db.rollback()
+
         journ_list = self.client_db.get_fs_journal()
 
         for j_itm in reversed(journ_list):
-- 
2.43.0


From 549b051632dbd4403a99aa9ba67597300bbe752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 16/63] fix: roll back interrupted file operations on start up

Otherwise a file which was being replaced is seen as deleted, and a commit
deletes it on the server.
---
 bversion/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 710f961..7b48b50 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -95,6 +95,9 @@ def init(unlocked = False):
     journaling_fs = journaling_filesystem(cdb, config['data_dir'], '.bvn')
     data_store = client_filesystem_interface(cdb, journaling_fs)
 
+    # Undo a file operation which was interrupted
+    if cdb.get_fs_journal() != []: journaling_fs.rollback()
+
     if server_connection is None:
         server_connection = client_http_request(config['server_domain'])
 
-- 
2.43.0


From 9fc1e6c0c7d687fbea9ae63d78f0fae8b606d6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 17/63] fix: hold the working copy lock until the client ends

The lock was released as soon as init returned and the file got closed.
---
 bversion/client.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 7b48b50..fb0a77a 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -38,13 +38,14 @@ cdb:               client_db                   = None
 data_store:        client_filesystem_interface = None
 server_connection: client_http_request         = None
 
+lock_file                                      = None
 working_copy_base_path: str                    = ''
 relative_cwd: str                              = ''
 
 
 #===============================================================================
 def init(unlocked = False):
-    global cdb, data_store, server_connection, config, working_copy_base_path, relative_cwd
+    global cdb, data_store, server_connection, config, lock_file, working_copy_base_path, relative_cwd
 
     working_copy_base_path, relative_cwd = find_bvn_dir()
 
@@ -65,9 +66,12 @@ def init(unlocked = False):
     except ValueError: raise SystemExit('Configuration file syntax error')
 
     # Lock for sanity check, only one client can use the working copy at any time
+    # The file must stay open, as closing it releases the lock.
+    if lock_file is not None: lock_file.close()
+
     try:
-        lockfile = open(cpjoin(working_copy_base_path, '.bvn', 'lock_file'), 'w')
-        fcntl.flock(lockfile, fcntl.LOCK_EX | fcntl.LOCK_NB)
+        lock_file = open(cpjoin(working_copy_base_path, '.bvn', 'lock_file'), 'w')
+        fcntl.flock(lock_file, fcntl.LOCK_EX | fcntl.LOCK_NB)
     except IOError: raise SystemExit('Could not lock working copy')
 
     #-----------
-- 
2.43.0


From 582dad0818eb33ddf8630791596c6806ee413cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 18/63] fix: update when a file was replaced by a directory, or
 the reverse

Files were pulled before the deletions, so the parent directory could not be
created, or the new file was moved inside of the old directory.
---
 bversion/client.py                        | 43 ++++++++++++-----------
 bversion/storage/journaling_filesystem.py |  3 ++
 2 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index fb0a77a..6ae19a3 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -600,6 +600,28 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
         'errors'        : []
     }
 
+    # Files which have been deleted on server and need deleting on client. This must
+    # be done first, as a file may be replaced by a directory of the same name or the reverse.
+    if changes['to_delete_on_client'] != []:
+        print('Removing files deleted on the server...')
+
+        for fle in changes['to_delete_on_client']:
+            print(colored('Deleting file: ' + fle['path'], 'red'))
+
+            try:
+                data_store.fs_delete(fle['path'])
+            except OSError:
+                # If this happens, a file was deleted on the server which
+                # never existed on this client, thus do nothing.
+                pass
+
+            affected_files['deleted_files'].append(fle['path'])
+
+            # Delete the folder if it is now empty
+            try: os.removedirs(os.path.dirname(data_store.jfs.get_full_file_path(fle['path'])))
+            except OSError as e:
+                if e.errno not in [errno.ENOTEMPTY, errno.ENOENT]: raise
+
     if changes['client_pull_files'] != []:
         # Filter out pull ignore files
         filtered_pull_files = []
@@ -649,27 +671,6 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
             pulled_items += 1
 
-    # Files which have been deleted on server and need deleting on client
-    if changes['to_delete_on_client'] != []:
-        print('Removing files deleted on the server...')
-
-        for fle in changes['to_delete_on_client']:
-            print(colored('Deleting file: ' + fle['path'], 'red'))
-
-            try:
-                data_store.fs_delete(fle['path'])
-            except OSError:
-                # If this happens, a file was deleted on the server which
-                # never existed on this client, thus do nothing.
-                pass
-
-            affected_files['deleted_files'].append(fle['path'])
-
-            # Delete the folder if it is now empty
-            try: os.removedirs(os.path.dirname(data_store.jfs.get_full_file_path(fle['path'])))
-            except OSError as e:
-                if e.errno not in [errno.ENOTEMPTY, errno.ENOENT]: raise
-
 
     # Update the latest revision in the manifest
     manifest_meta = cdb.get_system_meta()
diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 6557374..2893457 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -157,6 +157,9 @@ class journaling_filesystem:
 
         src = self.get_full_file_path(src); dst = self.get_full_file_path(dst)
 
+        # shutil.move would move the file inside of the directory
+        if os.path.isdir(dst): raise OSError(errno.EISDIR, 'Is a directory', dst)
+
         # record where file moved
         if os.path.isfile(src):
             # if destination file exists, move it to tmp first
-- 
2.43.0


From 940e3aff6268c2a3f9aaa5b70a3c872d5f15f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 19/63] fix: update of a file deleted both locally and on the
 server

The file stayed in the manifest, so it kept being shown as deleted. If its
directory was replaced with a file, the update failed.
---
 bversion/client.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 6ae19a3..f0b3e9c 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -611,16 +611,17 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
             try:
                 data_store.fs_delete(fle['path'])
             except OSError:
-                # If this happens, a file was deleted on the server which
-                # never existed on this client, thus do nothing.
-                pass
+                # If this happens, a file was deleted on the server which never existed
+                # on this client, or was deleted here too. Forget it if it is known.
+                cdb.remove_file_from_manifest(fle['path'])
+                cdb.commit()
 
             affected_files['deleted_files'].append(fle['path'])
 
             # Delete the folder if it is now empty
             try: os.removedirs(os.path.dirname(data_store.jfs.get_full_file_path(fle['path'])))
             except OSError as e:
-                if e.errno not in [errno.ENOTEMPTY, errno.ENOENT]: raise
+                if e.errno not in [errno.ENOTEMPTY, errno.ENOENT, errno.ENOTDIR]: raise
 
     if changes['client_pull_files'] != []:
         # Filter out pull ignore files
-- 
2.43.0


From b41715a222b69693393197a9bea869abd2730463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 20/63] fix: resolving a conflict to the server discards the
 local change

When the server's content of the file equals what the client last got from it
(an update was interrupted, or it was changed back), the file was not pulled and
the local change or deletion remained.
---
 bversion/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index f0b3e9c..95437e2 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -642,7 +642,8 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
             # Chech we don't already have the file due to a previous run that failed mid-process
             have_file = False
-            if file_in_manifest is not None and file_in_manifest['server_file_hash'] == file_hash:
+            is_local_change  = fle['path'] in client_changes and client_changes[fle['path']]['status'] != 'unchanged'
+            if file_in_manifest is not None and file_in_manifest['server_file_hash'] == file_hash and not is_local_change:
                 have_file = True
 
             # ===================
-- 
2.43.0


From 95a2dd7ca5dd9bc7f9e1ed069088a6c3c7a5571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 21/63] fix: stay at the old revision if not all files could be
 updated

Files which failed to download were never fetched by later updates, and shown
as locally deleted or unchanged.
---
 bversion/client.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 95437e2..33f80dd 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -674,6 +674,13 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
             pulled_items += 1
 
 
+    # If some files are missing stay at the current revision, so the next update gets them
+    if affected_files['errors'] != []:
+        for item in affected_files['errors']:
+            print(item)
+
+        raise SystemExit('Some files could not be updated, please run update again')
+
     # Update the latest revision in the manifest
     manifest_meta = cdb.get_system_meta()
     manifest_meta['have_revision'] = result['head']
@@ -684,10 +691,6 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
     ignore(os.remove, config['conflict_resolution_file'])
     ignore(shutil.rmtree, config['conflict_comparison_file_root'])
 
-    # ============================================
-    for item in affected_files['errors']:
-        print(item)
-
     # ==================
     print('\n-------------------------------\n')
     print(colored('At revision: ' + result['head'], 'yellow'))
-- 
2.43.0


From 2ef81eaac9d44117c1a0652eb8b755ac3d082626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 22/63] fix: resolve conflicts of files with a colon in their
 name

---
 bversion/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index 33f80dd..50a89b0 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -381,7 +381,7 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
 
         resolutions = []
         for chunk in chunks:
-            path_sect = chunk[0].split(':')
+            path_sect = chunk[0].split(':', 1)
             res_sect  = chunk[2].split(':')
 
             if 'Path' not in path_sect[0]:
-- 
2.43.0


From 56fad68e2d20c0d92efafce092dc8e1fd1bac16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 23/63] fix: update does not overwrite or delete ignored files

Files matching the ignore rules are not checked for local changes, so the local
contents were lost when a file of the same name changed on the server.
---
 bversion/client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 50a89b0..ce414fb 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -606,6 +606,12 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
         print('Removing files deleted on the server...')
 
         for fle in changes['to_delete_on_client']:
+            # Keep ignored files, but forget them
+            if next((True for flter in config['ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
+                cdb.remove_file_from_manifest(fle['path'])
+                cdb.commit()
+                continue
+
             print(colored('Deleting file: ' + fle['path'], 'red'))
 
             try:
@@ -624,10 +630,10 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
                 if e.errno not in [errno.ENOTEMPTY, errno.ENOENT, errno.ENOTDIR]: raise
 
     if changes['client_pull_files'] != []:
-        # Filter out pull ignore files
+        # Filter out ignored and pull ignored files
         filtered_pull_files = []
         for fle in changes['client_pull_files']:
-            if not next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
+            if not next((True for flter in config['ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
                 filtered_pull_files.append(fle)
 
         if filtered_pull_files != []:
-- 
2.43.0


From 1f5c6c6eeb9507066136b3dcdaaab3b3dcef2348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 24/63] fix: adding a filter to the pull ignore file does not
 delete the files on the server

Unless added with the pull-ignore command, files which matched the filter were
still in the manifest and thus seen as locally deleted.
---
 bversion/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index ce414fb..d709b29 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -102,6 +102,12 @@ def init(unlocked = False):
     # Undo a file operation which was interrupted
     if cdb.get_fs_journal() != []: journaling_fs.rollback()
 
+    # Pull ignored files are not part of this working copy
+    for path in cdb.get_manifest():
+        if next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(path, flter)), False):
+            cdb.remove_file_from_manifest(path)
+    cdb.commit()
+
     if server_connection is None:
         server_connection = client_http_request(config['server_domain'])
 
-- 
2.43.0


From 5d21aa306fa86e67eee55eb60e38a0fb6698004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 25/63] fix: revert

Only pull ignored files were reverted, instead of all others. Reverting failed
for files which were deleted locally along with their directory, and deleted the
files to revert rather than those which do not exist in the revision.
---
 bversion/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index d709b29..fbb18dc 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -940,7 +940,7 @@ def revert(session_token, args):
     # Apply pull ignore filters
     filtered_files_in_revision = {}
     for path, fle in files_in_revision.items():
-        if next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
+        if not next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
             filtered_files_in_revision[path] = fle
     files_in_revision = filtered_files_in_revision
 
@@ -1005,23 +1005,23 @@ def revert(session_token, args):
         raise SystemExit('Opperation Abort')
 
     # ===============================
-    for file_path in files_to_revert:
+    for file_path in files_to_delete:
         print('Deleting file: ' + file_path)
-        os.remove(cpjoin(working_copy_base_path, file_path))
+        ignore(os.remove, cpjoin(working_copy_base_path, file_path))
 
     # ===============================
     for file_path in files_to_revert:
         print('Reverting file: ' + file_path)
+        make_dirs_if_dont_exist(cpjoin(working_copy_base_path, *file_path.split('/')[:-1]) + '/')
 
         req_result, headers = server_connection.request("pull_file", {
             'session_token' : session_token,
             'repository'    : config['repository'],
             'path'          : file_path,
-            'use_head'      : str(int(use_head)),
-            'version_id'    : '' if version_id is None else version_id
+            'use_head'      : str(int(False)),
+            'version_id'    : version_id
             }, gen = True)
 
-
         if headers['status'] == 'ok':
             # If we are using the local revision, we need to add the file to the manifest,
             # otherwise just download it so it will appear as a changed file, and can be committed.
-- 
2.43.0


From d99938b8435777f953e5c37ea3b779429233e26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 26/63] fix: checkout

The repository name is a list, so creating the directory always failed, the
user name was ignored and the configuration must be encoded.
---
 bversion/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index fbb18dc..9f7093b 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -330,7 +330,7 @@ def checkout(args):
     #---------------
     config = {"server_domain" : server_domain,
                 "repository"    : repository_name[0],
-                "user"          : "test",
+                "user"          : user,
                 "private_key"   : private_key}
 
     # Validate info is correct by attempting to authenticate
@@ -340,10 +340,11 @@ def checkout(args):
     config["private_key"] = private_key
 
     # create repo dir
+    repository_name = repository_name[0]
     try: os.makedirs(repository_name)
     except: raise SystemExit('Directory already exists')
     os.makedirs(cpjoin(repository_name, '.bvn'))
-    file_put_contents(cpjoin(repository_name, '.bvn', 'client_configuration.json'), json.dumps(config, indent=4))
+    file_put_contents(cpjoin(repository_name, '.bvn', 'client_configuration.json'), json.dumps(config, indent=4).encode('utf8'))
 
     config["private_key"] = unlocked_key
     os.chdir(repository_name); init(True)
-- 
2.43.0


From c075ee4cd8f1fdc4e734ade824b210b2a267f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 27/63] fix: send all of a message

send may send only a part of the data.
---
 bversion/http/http_client.py | 2 +-
 bversion/http/http_server.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bversion/http/http_client.py b/bversion/http/http_client.py
index 77e3758..63c2169 100644
--- a/bversion/http/http_client.py
+++ b/bversion/http/http_client.py
@@ -15,7 +15,7 @@ class HTTPClient:
         self.s.connect((host,port))
 
     def send(self, data: bytes):
-        self.s.send(data)
+        self.s.sendall(data)
 
     def send_headers(self, uri: str, headers: Dict[str, str]):
         msg = b"POST " + uri.encode('utf8') + b" HTTP/1.1\r\n"
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index 9a4e155..a348feb 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -97,7 +97,7 @@ def HTTPServer(host, port, connection_handler):
                     responce_headers += k + b':' + v + b'\r\n'
 
                 responce_headers += b"\r\n"
-                c.send(responce_headers)
+                c.sendall(responce_headers)
 
                 if isinstance(rsp.body, ServeFile):
                     c.sendfile(open(rsp.body.path, 'rb'), 0)
@@ -106,7 +106,7 @@ def HTTPServer(host, port, connection_handler):
                     while True:
                         chunk = reader.read(4096)
                         if chunk == b'': break
-                        c.send(chunk)
+                        c.sendall(chunk)
 
         except:
             context.shutdown_handler()
-- 
2.43.0


From b3bdd9414cd5a1c3e53701a4f9d6ba9d3f3e2d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 28/63] fix: stop waiting for a message header when the peer
 has gone

The loop never ended if the connection was closed in the middle of a header (or
before a responce), keeping the commit lock.
---
 bversion/http/http_client.py | 4 +++-
 bversion/http/http_server.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bversion/http/http_client.py b/bversion/http/http_client.py
index 63c2169..d6f0c08 100644
--- a/bversion/http/http_client.py
+++ b/bversion/http/http_client.py
@@ -35,7 +35,9 @@ class HTTPClient:
 
         # read request preamble
         while True:
-            data += self.s.recv(1024)
+            received = self.s.recv(1024)
+            if received == b'': raise Exception('Socket closed')
+            data += received
             if b"\r\n\r\n" in data: break
 
         preamble, body_partial = data.split(b"\r\n\r\n", 1)
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index a348feb..c31a8e1 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -52,8 +52,9 @@ def HTTPServer(host, port, connection_handler):
 
                 # read request preamble
                 while True:
-                    data += c.recv(1024)
-                    if data == b'': raise Exception('Socket closed')
+                    received = c.recv(1024)
+                    if received == b'': raise Exception('Socket closed')
+                    data += received
                     if b"\r\n\r\n" in data: break
 
                 preamble, body_partial = data.split(b"\r\n\r\n", 1)
-- 
2.43.0


From 68258805c55a0c2692aa9c29ad659095c88792b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 29/63] fix: requests which arrive together

A request following in the same read was added to the body of the one before,
or lost.
---
 bversion/http/http_common.py | 4 +++-
 bversion/http/http_server.py | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/bversion/http/http_common.py b/bversion/http/http_common.py
index 3500f45..4543cb9 100644
--- a/bversion/http/http_common.py
+++ b/bversion/http/http_common.py
@@ -69,7 +69,9 @@ class read_body:
     def read(self, length = None) -> Union[bytes, None]:
         if self.have_read >= self.body_length: return None
 
-        if length is None: length = self.body_length - self.have_read
+        # Never read beyond this body, the next request may already follow
+        remaining = self.body_length - self.have_read
+        length = remaining if length is None else min(length, remaining)
 
         retbuffer: bytes
         if len(self.body_partial) > 0:
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index c31a8e1..adc41c6 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -47,15 +47,14 @@ def HTTPServer(host, port, connection_handler):
         context = ConnectionContext()
 
         try:
-            while True:
-                data = b""
+            data = b""
 
+            while True:
                 # read request preamble
-                while True:
+                while b"\r\n\r\n" not in data:
                     received = c.recv(1024)
                     if received == b'': raise Exception('Socket closed')
                     data += received
-                    if b"\r\n\r\n" in data: break
 
                 preamble, body_partial = data.split(b"\r\n\r\n", 1)
 
@@ -78,6 +77,7 @@ def HTTPServer(host, port, connection_handler):
                 rsp: Responce = connection_handler(rq, context)
                 body_reader.dump() # as we are using persistant connections, we need to read and discard any
                                    # remaining body from the socket
+                data = body_reader.body_partial # the start of the next request, if already received
 
                 # generate client responce
                 responce_headers =  b"HTTP/1.1 200 OK\r\n"
-- 
2.43.0


From 547a12a2b9b0fdb24edffd4b55c6655f4c56be08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 30/63] fix: merge nested configuration

collections.Mapping was removed in Python 3.10.
---
 bversion/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index 58e12bc..6b39d2a 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -1,5 +1,5 @@
 import os.path, hashlib, errno, copy
-import collections
+import collections.abc
 from typing import List, Dict, Any, cast, Tuple
 from typing_extensions import TypedDict
 from termcolor import colored
@@ -8,7 +8,7 @@ from termcolor import colored
 def merge_config(config, parsed_config):
     def dict_merge(dct, merge_dct): # recursive dict merge from https://gist.github.com/angstwad/bf22d1822c38a92ec0a9
         for k in merge_dct.keys():
-            if (k in dct and isinstance(dct[k], dict) and isinstance(merge_dct[k], collections.Mapping)):
+            if (k in dct and isinstance(dct[k], dict) and isinstance(merge_dct[k], collections.abc.Mapping)):
                 dict_merge(dct[k], merge_dct[k])
             else: dct[k] = merge_dct[k]
     dict_merge(config, parsed_config)
-- 
2.43.0


From 8540aaeba80fc60b15c2a5b1fe95491146201f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 31/63] fix: restore the other repositories if one has no
 backup

Backup skips repositories which are not set to be backed up or have no commits,
restore stopped at the first of them.
---
 bversion/repo_manager.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bversion/repo_manager.py b/bversion/repo_manager.py
index cfc7eb1..4165527 100644
--- a/bversion/repo_manager.py
+++ b/bversion/repo_manager.py
@@ -288,9 +288,13 @@ def restore():
 
         # Download head pointer
         fle = BytesIO()
-        streaming_download(s3_conn, config, repository_name + '/head',
-                           version_id = None,
-                           file_handle = fle)
+        try:
+            streaming_download(s3_conn, config, repository_name + '/head',
+                               version_id = None,
+                               file_handle = fle)
+        except ValueError:
+            print('There is no backup of repository: ' + repository_name)
+            continue
 
         fle.seek(0)
         commit_pointer = fle.read().decode('utf8')
-- 
2.43.0


From 19052b18982536949e9fc1b10a0c4578760ba5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 32/63] fix: garbage collection

It computed the objects which are missing, rather than those not needed, looked
for files in the index directory, would have deleted the uploads of a commit
which can still be resumed, kept the lock when it found a problem, and its
caller expects two results.
---
 bversion/storage/versioned_storage.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 182784b..25bf133 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -580,6 +580,13 @@ class versioned_storage:
         if lock_status is False:
             return False, ['failed to lock']
 
+        try:
+            return self.garbage_collect_locked()
+        finally:
+            self.unlock()
+
+#===============================================================================
+    def garbage_collect_locked(self):
         head, reachable_objects = self.get_reachable_objects()
         all_objects             = self.get_all_object_hashes()
 
@@ -615,8 +622,12 @@ class versioned_storage:
         file_objects_that_do_exist     =   set(all_objects['files'].keys())
 
         # ===============
-        garbage_index_objects = index_objects_that_should_exist - index_objects_that_do_exist
-        garbage_file_objects = file_objects_that_should_exist - file_objects_that_do_exist
+        garbage_index_objects = index_objects_that_do_exist - index_objects_that_should_exist
+        garbage_file_objects = file_objects_that_do_exist - file_objects_that_should_exist
+
+        # Keep what an interrupted commit needs if it gets resumed
+        if self.get_active_commit() is not None:
+            garbage_file_objects -= {item['hash'] for item in self.get_active_commit_changes()}
 
         #================================================================
         # Delete garbage objects
@@ -626,8 +637,7 @@ class versioned_storage:
             os.remove(object_path)
 
         for object_hash in garbage_file_objects:
-            object_path = sfs.cpjoin(self.base_path, 'index', object_hash[:2], object_hash[2:])
+            object_path = sfs.cpjoin(self.base_path, 'files', object_hash[:2], object_hash[2:])
             os.remove(object_path)
 
-        self.unlock()
-        return True
+        return True, issues
-- 
2.43.0


From 3543f3950a97899a65f64c37d052e0a64bccac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 33/63] fix: beginning a commit in another repository does not
 drop the lock held

The lock of the first repository was released without its commit having been
finished or aborted.
---
 bversion/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bversion/server.py b/bversion/server.py
index 03d8774..e340ced 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -400,6 +400,11 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     data_store = versioned_storage(repository_path,
                                    path_override = config['repositories'][repository]['transient_db_path_override'])
 
+    # A connection can only do one commit at a time. Beginning another one, also in
+    # another repository, must not make it lose the lock it holds.
+    if context.lock is not False:
+        return fail(lock_fail_msg)
+
     # ==
     have_lock = data_store.lock()
     if not have_lock:
-- 
2.43.0


From 4f7e14aa2ed7b81ba0a3792945ac096678c8a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 34/63] fix: a commit survives requests to other repositories
 on the same connection

---
 bversion/storage/server_db.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index c5c840b..9e8000e 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -13,19 +13,16 @@ def get_server_db_instance_for_thread(db_file_path, need_to_recreate = False, pa
     if path_override is not None:
         db_file_path = path_override
 
-    old_db_path = getattr(threadLocal, 'old_db_path', '')
-    if old_db_path != db_file_path:
-        need_to_recreate = True
+    # One instance for each repository, as an instance holds the state of a commit
+    # and a connection may use several repositories.
+    db_instances = getattr(threadLocal, 'db_instances', None)
+    if db_instances is None:
+        db_instances = threadLocal.db_instances = {}
 
-    db_instance = getattr(threadLocal, 'db_instance', None)
-    if db_instance is None:
-        need_to_recreate = True
+    if need_to_recreate or db_file_path not in db_instances:
+        db_instances[db_file_path] = server_db(db_file_path, path_override = path_override)
 
-    if need_to_recreate:
-        threadLocal.db_instance = server_db(db_file_path, path_override = path_override)
-        threadLocal.old_db_path = db_file_path
-
-    return threadLocal.db_instance
+    return db_instances[db_file_path]
 
 
 #=====================================================
-- 
2.43.0


From be158888eadf857d4b80fc7e2a9294ae10c2dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:20 +0000
Subject: [PATCH 35/63] fix: a crash while a backup is made does not leave the
 working copy unusable

When the process died while rewriting .bk_idx, every later rollback failed on the
empty number.
---
 bversion/storage/journaling_filesystem.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 2893457..25c229e 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -45,12 +45,17 @@ class journaling_filesystem:
 
         backup_id_file = p.join(self.backup_dir, '.bk_idx')
 
-        backup_num = int(file_or_default(backup_id_file, b'1'))
-        backup_name = str(backup_num) + "_" + os.path.basename(src)
-        backup_num += 1
+        # Writing the file may have been interrupted
+        try: backup_num = int(file_or_default(backup_id_file, b'1'))
+        except ValueError: backup_num = 1
+
+        while True:
+            backup_path = p.join(self.backup_dir, str(backup_num) + "_" + os.path.basename(src))
+            backup_num += 1
+            if not p.exists(backup_path): break
 
         file_put_contents(backup_id_file, bytes(str(backup_num), encoding='utf8'))
-        return p.join(self.backup_dir, backup_name)
+        return backup_path
 
 ############################################################################################
     def begin(self):
-- 
2.43.0


From bfbd341146a3687d3a28b7743bedd86e0c899e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:20 +0000
Subject: [PATCH 36/63] fix: moving a file which does not exist does not move
 the destination away

The undo record of the move was executed by the rollback, although the move had failed.
---
 bversion/storage/journaling_filesystem.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 25c229e..a6fc6ef 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -162,17 +162,19 @@ class journaling_filesystem:
 
         src = self.get_full_file_path(src); dst = self.get_full_file_path(dst)
 
+        # There is nothing to undo if this fails, undoing it would move an existing
+        # destination to the source.
+        if not os.path.isfile(src): raise OSError(errno.ENOENT, 'No such file or directory', src)
+
         # shutil.move would move the file inside of the directory
         if os.path.isdir(dst): raise OSError(errno.EISDIR, 'Is a directory', dst)
 
-        # record where file moved
-        if os.path.isfile(src):
-            # if destination file exists, move it to tmp first
-            if os.path.isfile(dst):
-                tmp_path = self.new_tmp()
-                self.do_action({
-                    'do'   : ['move', dst, tmp_path],
-                    'undo' : ['move', tmp_path, dst]})
+        # if destination file exists, move it to tmp first
+        if os.path.isfile(dst):
+            tmp_path = self.new_tmp()
+            self.do_action({
+                'do'   : ['move', dst, tmp_path],
+                'undo' : ['move', tmp_path, dst]})
 
         self.do_action(
             {'do'   : ['move', src, dst],
-- 
2.43.0


From 666ddbec3ec79caf930a6e3214153adca5a5e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:20 +0000
Subject: [PATCH 37/63] fix: writing to a path which is a directory does not
 remove the directory

---
 bversion/storage/journaling_filesystem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index a6fc6ef..1cfe589 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -145,6 +145,9 @@ class journaling_filesystem:
 
         path = self.get_full_file_path(path)
 
+        # the rollback would move the directory to the backups
+        if os.path.isdir(path): raise OSError(errno.EISDIR, 'Is a directory', path)
+
         # if file exists, move it to tmp to allow rollback
         if os.path.isfile(path):
             tmp_path = self.new_tmp()
-- 
2.43.0


From 9896506de55f79ef4b3ffb8253c28be31f9ad14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:20 +0000
Subject: [PATCH 38/63] fix: an error while rolling back does not lose journal
 records

---
 bversion/storage/journaling_filesystem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 1cfe589..4130f7d 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -99,8 +99,10 @@ class journaling_filesystem:
         journ_list = self.client_db.get_fs_journal()
 
         for j_itm in reversed(journ_list):
-            try: self.do_action({'do' : j_itm['data']}, write_journal = False)
-            except IOError: pass
+            # The action may not have happened, or has been undone already. Any other
+            # error must not lose the record of what is left to undo.
+            if p.lexists(j_itm['data'][1]):
+                self.do_action({'do' : j_itm['data']}, write_journal = False)
 
             # As each item is completed remove it from the journal. In case
             # something fails during the rollback we can pick up where it stopped.
-- 
2.43.0


From 50223c52c459020075876ec06cc41bad2fccd535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 39/63] fix: resuming a session does not end the session which
 owns the active commit

---
 bversion/storage/server_db.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 9e8000e..da34549 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -177,7 +177,9 @@ class server_db:
 
     #===============================================================================
     def validate_session(self, session_token : str, client_ip : str):
-        self.con.execute("delete from session_tokens where expires < ?", (time.time(),))
+        # as everywhere else, the session which owns the active commit does not expire
+        active_commit = self.get_active_commit()
+        self.gc_session_tokens(None if active_commit is None else active_commit['session_token'])
         self.con.commit()
 
         res = self.con.execute("select * from session_tokens where token = ? and ip = ?", (session_token, client_ip)).fetchall()
-- 
2.43.0


From 999e542df3c0d7a82f75275e8599debb42d6327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:37 +0000
Subject: [PATCH 40/63] fix: two concurrent logins can not use the same
 challenge

---
 bversion/server.py            | 3 ++-
 bversion/storage/server_db.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index e340ced..1c8fdcd 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -167,7 +167,8 @@ def authenticate(request: Request, context: ConnectionContext) -> Responce: # py
 
             # Everything OK, clean up transient token and
             # generate a session token for the client
-            sdb.delete_token(auth_token)
+            if not sdb.delete_token(auth_token):
+                return fail(user_auth_fail_msg)
 
             session_token = sdb.create_session(extend_session_duration, client_ip, user)
 
diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index da34549..4df53c6 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -128,8 +128,11 @@ class server_db:
 
     #===============================================================================
     def delete_token(self, auth_token):
-        self.con.execute("delete from tokens where token = ?", (auth_token,))
+        """ Returns False if the token was already gone, each of them can be used once """
+
+        deleted = self.con.execute("delete from tokens where token = ?", (auth_token,)).rowcount
         self.con.commit()
+        return deleted == 1
 
 
     #===============================================================================
-- 
2.43.0


From ee148e1256d7e078820dc7001091dd1d3d586f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:17 +0000
Subject: [PATCH 41/63] fix: a request of a removed user does not leave the
 repository's database locked

---
 bversion/server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bversion/server.py b/bversion/server.py
index 1c8fdcd..e308720 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -208,7 +208,9 @@ def have_authenticated_user(client_ip: str, repository: str, session_token: byte
     # Get the session token
     res = sdb.get_session_token(session_token, client_ip)
 
-    if res != [] and repository in config['users'][res[0]['username']]['uses_repositories']:
+    # The user may have been removed from the configuration after the session was created
+    if (res != [] and res[0]['username'] in config['users']
+        and repository in config['users'][res[0]['username']]['uses_repositories']):
         sdb.update_session_token_expiry(extend_session_duration, session_token, client_ip)
         sdb.con.commit() # we commit at the end to make sure that all opperations have the same view
 
-- 
2.43.0


From 7ee7b70d15b5e0c20ab2699307b58dd164ac9feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:33 +0000
Subject: [PATCH 42/63] fix: pull-ignore with deletion failed half way when a
 file was already deleted locally

---
 bversion/client.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 9f7093b..817a7ca 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1093,7 +1093,8 @@ def pull_ignore(filters, require_commit_changes):
             for path in affected_local_files:
                 full_path = cpjoin(working_copy_base_path, path)
                 print(colored('Deleting local file: ' + full_path, 'red'))
-                os.remove(full_path)
+                try: os.remove(full_path)
+                except FileNotFoundError: pass # already deleted locally
 
                 affected_dirs[os.path.dirname(full_path)] = None
 
@@ -1103,7 +1104,10 @@ def pull_ignore(filters, require_commit_changes):
 
                 while True:
                     walking_path = '/' + cpjoin(*split_path)
-                    contents = os.listdir(walking_path)
+                    try: contents = os.listdir(walking_path)
+                    except FileNotFoundError: # went away together with its files
+                        split_path.pop()
+                        continue
 
                     if len(contents) == 0:
                         print(colored('Deleting empty directory: ' + walking_path, 'red'))
-- 
2.43.0


From ed9188f36ce8c577eb7bc4e22664ba484f6fe0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:43 +0000
Subject: [PATCH 43/63] fix: update killed while writing the conflict
 resolution file could not be run again

---
 bversion/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index 817a7ca..4151bb4 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -544,7 +544,10 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
                 print('Server versions of conflicting files written to .bvn/conflict_files\n')
 
             # ====================
-            file_put_contents(config['conflict_resolution_file'], resolution_file.encode('utf-8'))
+            # Never leave a partly written resolution file, it would have to be removed by hand
+            tmp_path = config['conflict_resolution_file'] + '_tmp'
+            file_put_contents(tmp_path, resolution_file.encode('utf-8'))
+            os.rename(tmp_path, config['conflict_resolution_file'])
             raise SystemExit("Conflict resolution file written to .bvn/conflict_resolution\n" +
                             "Please edit this file removing 'client', or 'server' to choose which\n" +
                             "version to retain, and then re-run bvn update.")
-- 
2.43.0


From c6a0863de2cffdcd23fa583cfac9237299613bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 44/63] fix: a file added on both sides, resolved to the client
 and then removed was forgotten

---
 bversion/client.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 4151bb4..f5ccd4b 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -351,6 +351,21 @@ def checkout(args):
     update(session_token)
 
 
+#===============================================================================
+def keep_client_version(fle):
+    """ A conflict was resolved to the client. A file which was added on both sides is not
+    in the manifest yet, add it with a time no file has, so that it shows up as changed
+    (or deleted, if it is removed before the next commit) relative to the server. """
+
+    path = fle['file_info']['path']
+    if fle['server_status'] == 'Changed' and cdb.get_single_file_from_manifest(path) is None:
+        cdb.add_file_to_manifest({
+            'path'             : path,
+            'last_mod'         : -1,
+            'created'          : -1,
+            'server_file_hash' : fle['file_info']['hash']})
+        cdb.commit()
+
 #===============================================================================
 def resolve_update_conflicts(session_token: str, changes: list, version_id: str, testing: bool, test_overrides: dict):
 
@@ -431,7 +446,7 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
                 # in the manifest gets set to the latest revision on the server, prior server
                 # changes will be ignored, and the clients versions will be committed on the next
                 # commit.
-                pass
+                keep_client_version(fle)
 
             elif resolution == 'server':
                 # Download the changed files from the server
@@ -496,8 +511,8 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
             print('Client files will override server files the next time you commit.')
 
             # ignore the files on the server, and upload the files from the client
-            # don't think we need to actually do anything as this should happen
             # during commit
+            for fle in changes['conflict_files']: keep_client_version(fle)
 
             changes['conflict_files'] = []
 
-- 
2.43.0


From bcd73ea857883e3774051257b9b5f2ce6c20f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 45/63] fix: commit hung if a file became shorter while it was
 being sent, and lost the framing if it grew

---
 bversion/http/client_http_request.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bversion/http/client_http_request.py b/bversion/http/client_http_request.py
index ab4cd9d..7823eca 100644
--- a/bversion/http/client_http_request.py
+++ b/bversion/http/client_http_request.py
@@ -64,11 +64,14 @@ class client_http_request:
 
         conn = self.begin(url, size, headers, content_type = 'application/octet-stream')
 
+        # Send exactly as much as was announced, also when the file is modified meanwhile
         with open(file_path, 'rb') as f:
-            while True:
-                chunk = f.read(1000 * 1000)
-                if chunk == b'': break
+            remaining = size
+            while remaining > 0:
+                chunk = f.read(min(1000 * 1000, remaining))
+                if chunk == b'': raise SystemExit('File was truncated while it was being sent: ' + file_path)
                 conn.send(chunk)
+                remaining -= len(chunk)
 
         parsed_preamble, body = conn.read_responce()
         return body.read_all(), parsed_preamble['headers']
-- 
2.43.0


From a1d46ae7e55cfec226116d3698e37b06215c659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 46/63] fix: undoing an interrupted update overwrote a file
 which the user wrote meanwhile

---
 bversion/storage/journaling_filesystem.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 4130f7d..28b1f49 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -89,6 +89,14 @@ class journaling_filesystem:
             if callable(d[data]): d[data](d[path])
             else: file_put_contents(d[path], d[data])
 
+############################################################################################
+    def is_user_file(self, undo: list) -> bool:
+        """ Is a file at the source or the destination of the undo operation one which the user
+        made or modified since the transaction was interrupted? It must stay where it is. """
+
+        if undo[0] != 'move': return False
+        return p.lexists(undo[2]) or (len(undo) > 3 and p.getmtime(undo[1]) != undo[3])
+
 ############################################################################################
     def rollback(self):
         """ Do journal rollback """
@@ -101,7 +109,7 @@ class journaling_filesystem:
         for j_itm in reversed(journ_list):
             # The action may not have happened, or has been undone already. Any other
             # error must not lose the record of what is left to undo.
-            if p.lexists(j_itm['data'][1]):
+            if p.lexists(j_itm['data'][1]) and not self.is_user_file(j_itm['data']):
                 self.do_action({'do' : j_itm['data']}, write_journal = False)
 
             # As each item is completed remove it from the journal. In case
@@ -183,7 +191,7 @@ class journaling_filesystem:
 
         self.do_action(
             {'do'   : ['move', src, dst],
-             'undo' : ['move', dst, src]})
+             'undo' : ['move', dst, src, p.getmtime(src)]})
 
 ############################################################################################
     def delete_file(self, path: str):
-- 
2.43.0


From 42079d1f474cfe17e39c9fdbaa3cb66c63669a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:56 +0000
Subject: [PATCH 47/63] fix: verify and gc did not end if damage makes the
 commits a cycle

---
 bversion/storage/versioned_storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 25bf133..683fc3d 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -455,6 +455,7 @@ class versioned_storage:
             reachable_objects['commits'][pointer] = commit
             pointer = commit['parent']
             if pointer == 'root': break
+            if pointer in reachable_objects['commits']: raise Exception("Cycle detected")
 
         # Read tree objects
         def recursive_helper(tree_object_hash):
-- 
2.43.0


From 0c214b2e086d22233491872928d800d21a63a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:56 +0000
Subject: [PATCH 48/63] fix: gc of a repository which was not served yet

---
 bversion/storage/versioned_storage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 683fc3d..51c12ee 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -626,7 +626,10 @@ class versioned_storage:
         garbage_index_objects = index_objects_that_do_exist - index_objects_that_should_exist
         garbage_file_objects = file_objects_that_do_exist - file_objects_that_should_exist
 
-        # Keep what an interrupted commit needs if it gets resumed
+        # Keep what an interrupted commit needs if it gets resumed. Its tables do not exist
+        # if the repository has not been served yet.
+        get_server_db_instance_for_thread(self.base_path, path_override = self.path_override).db_init()
+
         if self.get_active_commit() is not None:
             garbage_file_objects -= {item['hash'] for item in self.get_active_commit_changes()}
 
-- 
2.43.0


From 3d628399b64a5b5835127368da248055276d57fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:03 +0000
Subject: [PATCH 49/63] fix: file names and messages which begin or end with
 white space lost it on the wire

---
 bversion/http/http_common.py | 7 ++++++-
 bversion/http/http_server.py | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/bversion/http/http_common.py b/bversion/http/http_common.py
index 4543cb9..9c05886 100644
--- a/bversion/http/http_common.py
+++ b/bversion/http/http_common.py
@@ -16,7 +16,12 @@ def parse_headers(headers_raw: List[bytes]) -> Dict[str, str]:
     headers = {}
     for i in headers_raw:
         split_header = i.split(b':', 1)
-        headers[split_header[0].strip().decode('utf8').lower()] = split_header[1].strip().decode('utf8')
+
+        # Values (such as paths) may begin or end with white space, only the separator is not a part of them
+        value = split_header[1]
+        if value.startswith(b' '): value = value[1:]
+
+        headers[split_header[0].strip().decode('utf8').lower()] = value.decode('utf8')
 
     return headers
 
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index adc41c6..52df466 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -95,7 +95,7 @@ def HTTPServer(host, port, connection_handler):
                 for k, v in rsp.headers.items():
                     if isinstance(k, str): k=k.encode('utf8')
                     if isinstance(v, str): v=v.encode('utf8')
-                    responce_headers += k + b':' + v + b'\r\n'
+                    responce_headers += k + b': ' + v + b'\r\n'
 
                 responce_headers += b"\r\n"
                 c.sendall(responce_headers)
-- 
2.43.0


From 75bee07323d7caf50d4a9ae6d95904334c30a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 50/63] fix: B01: restore took a head pointer it could not
 decrypt for a repository without backup

The decryption raises ValueError, too: with a wrong password, or when the download broke off, restore said
that there is no backup and ended without error.
---
 bversion/backup/s3_interface.py | 6 +++++-
 bversion/repo_manager.py        | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bversion/backup/s3_interface.py b/bversion/backup/s3_interface.py
index 8862ce0..88dc931 100644
--- a/bversion/backup/s3_interface.py
+++ b/bversion/backup/s3_interface.py
@@ -92,6 +92,10 @@ def list_remote_objects(s3_conn, prefix):
     return objects_on_remote
 
 
+#++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++==
+class ObjectNotFound(ValueError):
+    """ There is no such object on the remote """
+
 #++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++==
 def get_object(conn, key, error='object not found', version_id=None):
     """ Gets an object from s3 """
@@ -101,7 +105,7 @@ def get_object(conn, key, error='object not found', version_id=None):
             if version_id is None: return conn['client'].get_object(Bucket=conn['bucket'], Key=key)
             else: return conn['client'].get_object(Bucket=conn['bucket'], Key=key, VersionId=version_id)
         except conn['client'].exceptions.NoSuchKey:
-            raise ValueError(error)
+            raise ObjectNotFound(error)
     k = helper()
 
     return {'key'             : key,
diff --git a/bversion/repo_manager.py b/bversion/repo_manager.py
index 4165527..b07dcd8 100644
--- a/bversion/repo_manager.py
+++ b/bversion/repo_manager.py
@@ -292,7 +292,7 @@ def restore():
             streaming_download(s3_conn, config, repository_name + '/head',
                                version_id = None,
                                file_handle = fle)
-        except ValueError:
+        except s3_interface.ObjectNotFound:
             print('There is no backup of repository: ' + repository_name)
             continue
 
-- 
2.43.0


From 483ebd8b214f0afaa1bb2c2d96cbfdf1460d006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 51/63] fix: C06: a path whose last component is white space
 was joined as a directory

---
 bversion/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index 6b39d2a..f9119ab 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -114,8 +114,8 @@ def cpjoin(*args: str) -> str:
     if len(args) == 0:
         return ''
 
-    rooted = bool(args[0].strip().startswith('/'))
-    ended  = bool(args[-1].strip().endswith('/'))
+    rooted = bool(args[0].startswith('/'))
+    ended  = bool(args[-1].endswith('/'))
 
     split_items = []
 
-- 
2.43.0


From 63343825c7c73707768ad0d1bb2ec38b450122e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 52/63] fix: C05: a manual resolution of a path ending in white
 space was never accepted

---
 bversion/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index f5ccd4b..0d059d7 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -418,7 +418,7 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
                 raise SystemExit('specified resolution must be either "client" or "server"')
 
             resolutions.append({
-                'path' : path_sect[1].strip(),
+                'path' : path_sect[1].lstrip(),
                 'resolution' : resolution
             })
 
-- 
2.43.0


From a009a1555bf9a7816309c335fba1bafb5a01b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 53/63] fix: take answers to questions in any case, not only
 accept them

---
 bversion/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index f9119ab..9f48683 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -43,8 +43,8 @@ def question_user(prompt_text: str, valid_choices) -> str:
     choice = None
     while True:
         print(prompt_text)
-        choice = input('> ')
-        if choice.lower() in valid_choices: break
+        choice = input('> ').lower()
+        if choice in valid_choices: break
 
     return choice
 
-- 
2.43.0


From 30ac67517e1cdd55cb95dc8f8d09957d8cbb00d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 54/63] fix: take over the manifest of an old working copy
 which has no revision yet

---
 bversion/client.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 0d059d7..d895a7e 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -122,14 +122,18 @@ def update_manifest(session_token):
 
         # As the old manifest format did not store server file hashes, we need to get
         # them from the server and add them to the manifest
-        req_result, headers = get_files_in_version(session_token, show_head = False,
-                                                   version_id = old_manifest['have_revision'])
+        server_file_info_for_version = {}
 
-        if headers['status'] != 'ok':
-            raise SystemExit(headers['msg'])
+        # There is no such revision on the server, nothing was ever updated or committed
+        if old_manifest['have_revision'] != 'root':
+            req_result, headers = get_files_in_version(session_token, show_head = False,
+                                                       version_id = old_manifest['have_revision'])
+
+            if headers['status'] != 'ok':
+                raise SystemExit(headers['msg'])
 
-        # Get file hashes from the server
-        server_file_info_for_version = json.loads(req_result)['files']
+            # Get file hashes from the server
+            server_file_info_for_version = json.loads(req_result)['files']
 
         # Apply pull ignore filters to the server data
         new_server_file_info_for_version = {}
-- 
2.43.0


From 89b53deef962282bbeb8e62b1a6ecab7af74ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:31 +0000
Subject: [PATCH 55/63] fix: take over the manifest of an old working copy
 which lacks files of its revision

---
 bversion/client.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index d895a7e..9ad8320 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -142,14 +142,12 @@ def update_manifest(session_token):
                 new_server_file_info_for_version[path] = file_info
         server_file_info_for_version = new_server_file_info_for_version
 
-        # The number of items in the local manifest may be more than the
-        # remote in case the client did a partial update, then Bversion version
-        # was updated, but should never be less
-        if len(old_manifest['files']) < len(server_file_info_for_version):
-            raise Exception('local manifest error')
-
+        # The local manifest may have more items than the remote in case the client did
+        # a partial update, then Bversion version was updated. It may also lack some,
+        # which that update deleted, or which are ignored here and were never pulled.
         new_files = []
         for path, file_info in server_file_info_for_version.items():
+            if path not in old_manifest['files']: continue
             item = old_manifest['files'][path]
             item['server_file_hash'] = file_info['hash']
             old_manifest['files'].pop(path)
-- 
2.43.0


From 5116ff6b939eaa69674e28859ddc294bfdc4287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 56/63] fix: revert: say so when some of the files could not be
 downloaded

---
 bversion/client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 9ad8320..6b5bbd6 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1031,6 +1031,7 @@ def revert(session_token, args):
         ignore(os.remove, cpjoin(working_copy_base_path, file_path))
 
     # ===============================
+    errors = []
     for file_path in files_to_revert:
         print('Reverting file: ' + file_path)
         make_dirs_if_dont_exist(cpjoin(working_copy_base_path, *file_path.split('/')[:-1]) + '/')
@@ -1056,6 +1057,10 @@ def revert(session_token, args):
                 os.rename(tmp_path, cpjoin(working_copy_base_path, file_path))
         else:
             print('error with downloading ' + file_path)
+            errors.append(file_path)
+
+    if errors != []:
+        raise SystemExit('Some files could not be reverted, please run revert again')
 
 
 #===============================================================================
-- 
2.43.0


From a0ee7c1604adcfb9bed2301ec96d7df17e705bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:04 +0000
Subject: [PATCH 57/63] fix: filters given in a directory whose name has
 wildcard characters matched files elsewhere, or none

---
 bversion/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 6b5bbd6..68941cc 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1,5 +1,5 @@
 from pprint import pprint
-import os, sys, json, base64, fnmatch, shutil, fcntl, errno, urllib.parse
+import os, sys, json, base64, fnmatch, shutil, fcntl, errno, urllib.parse, glob
 
 from collections import defaultdict
 from typing import List, Dict, Tuple, Optional
@@ -204,7 +204,8 @@ def normalise_filters(filters):
     normalised_filters = []
     for flter in filters:
         if flter[0] != '*' and flter[0] != '/':
-            normalised = cpjoin(relative_cwd, flter)
+            # Only the filter is a pattern, the name of the directory is not
+            normalised = cpjoin(glob.escape(relative_cwd), flter)
             if normalised[0] != '/':
                 normalised = '/' + normalised
 
-- 
2.43.0


From ff3b8b9207592b4dfcbdcdb9e87f66258404d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 58/63] fix: pull-ignore: an interruption made the files look
 deleted or new, the next commit changed them on the server

---
 bversion/client.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 68941cc..b5c842b 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1112,6 +1112,26 @@ def pull_ignore(filters, require_commit_changes):
             "They will be added to your pull ignore file in either case.\n",
             valid_choices=['delete', 'nothing'])
 
+    # Add the filters to the pull ignore file. This must be done first, if it is interrupted the
+    # files must not look as if they were deleted or new, as the next commit would change them on the
+    # server. For the same reason never leave a partly written file.
+    pull_ignore_file_path = cpjoin(working_copy_base_path, '.bvn_pull_ignore')
+    pull_ignore_filters: str = file_or_default(pull_ignore_file_path, b'').decode('utf8')
+    pull_ignore_filters += "\n"
+
+    for flter in filters:
+        pull_ignore_filters += flter + "\n"
+
+    tmp_path = cpjoin(working_copy_base_path, '.bvn', 'pull_ignore_tmp')
+    file_put_contents(tmp_path, pull_ignore_filters.encode('utf8'))
+    os.rename(tmp_path, pull_ignore_file_path)
+
+    if affected_local_files != []:
+        # Remove the affected files from the manifest
+        for path in affected_local_files:
+            cdb.remove_file_from_manifest(path)
+        cdb.commit()
+
         if choice == 'delete':
 
             affected_dirs = {}
@@ -1146,21 +1166,6 @@ def pull_ignore(filters, require_commit_changes):
             # We do not need to do anything in this case
             pass
 
-        # Remove the affected files from the manifest
-        for path in affected_local_files:
-            cdb.remove_file_from_manifest(path)
-        cdb.commit()
-
-    # Add the filters to the pull ignore file
-    pull_ignore_file_path = cpjoin(working_copy_base_path, '.bvn_pull_ignore')
-    pull_ignore_filters: str = file_or_default(pull_ignore_file_path, b'').decode('utf8')
-    pull_ignore_filters += "\n"
-
-    for flter in filters:
-        pull_ignore_filters += flter + "\n"
-
-    file_put_contents(pull_ignore_file_path, pull_ignore_filters.encode('utf8'))
-
 
 #===============================================================================
 def list_versions(session_token):
-- 
2.43.0


From 67a2aa17c058cb11e2eaca8c9b86bd8453006722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 59/63] fix: update forgot files it could not delete, the next
 commit put them back on the server

---
 bversion/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index b5c842b..2d57a03 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -644,7 +644,7 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
             try:
                 data_store.fs_delete(fle['path'])
-            except OSError:
+            except FileNotFoundError:
                 # If this happens, a file was deleted on the server which never existed
                 # on this client, or was deleted here too. Forget it if it is known.
                 cdb.remove_file_from_manifest(fle['path'])
-- 
2.43.0


From 7e0a4ccb6a97f144e8bb98ffbb4de0a72ef293a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 60/63] fix: revert all ended as if it had removed files it
 could not remove

---
 bversion/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index 2d57a03..f478ee2 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1027,12 +1027,13 @@ def revert(session_token, args):
         raise SystemExit('Opperation Abort')
 
     # ===============================
+    errors = []
     for file_path in files_to_delete:
         print('Deleting file: ' + file_path)
         ignore(os.remove, cpjoin(working_copy_base_path, file_path))
+        if os.path.isfile(cpjoin(working_copy_base_path, file_path)): errors.append(file_path)
 
     # ===============================
-    errors = []
     for file_path in files_to_revert:
         print('Reverting file: ' + file_path)
         make_dirs_if_dont_exist(cpjoin(working_copy_base_path, *file_path.split('/')[:-1]) + '/')
-- 
2.43.0


From aea1fa787f16eb0e76d023cf35e7b79c3785840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:36 +0000
Subject: [PATCH 61/63] fix: list-versions which the server refuses says so and
 fails

---
 bversion/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index f478ee2..704e4bc 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1187,6 +1187,9 @@ def list_versions(session_token):
         else:
             print ('There are no commits')
 
+    else:
+        raise SystemExit(headers['msg'])
+
 
 #===============================================================================
 def list_ignored_files():
-- 
2.43.0


From 4f29e23151eb9f5f349a4f3235f008d88cfbfbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 62/63] fix: what a discarded commit stored is not forgotten
 when it can not be removed

---
 bversion/storage/versioned_storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 51c12ee..e55ce3d 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -337,7 +337,9 @@ class versioned_storage:
                     # delete the object for this file, noting that it may not exist
                     object_dir = 'files' if item['item_type'] == 'file' else 'index'
                     target_base = sfs.cpjoin(self.base_path, object_dir, item['item_hash'][:2])
-                    sfs.ignore(os.remove, sfs.cpjoin(target_base, item['item_hash'][2:]))
+                    try: os.remove(sfs.cpjoin(target_base, item['item_hash'][2:]))
+                    except FileNotFoundError: pass
+
                     sfs.ignore(os.rmdir, target_base)
 
         sdb.clean_commit_state()
-- 
2.43.0


From 67b7d4d8c7a99a850c7f9a23f2503cb9989b5594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 63/63] fix: an update which was killed after it was complete
 left the resolution file, a later conflict of the same paths was resolved by
 it without being reported

---
 bversion/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 704e4bc..0b4d3fb 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -715,14 +715,16 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
         raise SystemExit('Some files could not be updated, please run update again')
 
+    # Delete the conflicts resolution file before the update is complete, so that a later conflict is never resolved by it
+    ignore(os.remove, config['conflict_resolution_file'])
+
     # Update the latest revision in the manifest
     manifest_meta = cdb.get_system_meta()
     manifest_meta['have_revision'] = result['head']
     cdb.update_system_meta(manifest_meta)
     cdb.commit()
 
-    # Delete the conflicts resolution file and recursively delete any conflict files downloaded for comparison
-    ignore(os.remove, config['conflict_resolution_file'])
+    # Recursively delete any conflict files downloaded for comparison
     ignore(shutil.rmtree, config['conflict_comparison_file_root'])
 
     # ==================
-- 
2.43.0

