From a79f1bc55ec0917b16564303d73ccf25719f4102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:31 +0000
Subject: [PATCH 01/98] fix: sender validation used undefined names and aliased
 the caller's arguments

A missing directory raised NameError instead of FileNotFoundError, addFiles
could not work at all, and addFiles/addProperty changed the list and the
dictionary passed to the constructor.
---
 impactutils/transfer/sender.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/sender.py b/impactutils/transfer/sender.py
index f402a13..4728ff8 100644
--- a/impactutils/transfer/sender.py
+++ b/impactutils/transfer/sender.py
@@ -48,7 +48,7 @@ class Sender(object):
                 cancel() actions, this allows the user to define what that
                 file is called.
         """
-        self._properties = properties
+        self._properties = {} if properties is None else dict(properties)
         for prop in self._required_properties:
             if prop not in self._properties:
                 raise RequiredArgumentError(
@@ -65,9 +65,9 @@ class Sender(object):
         if local_directory is not None:
             if not os.path.isdir(local_directory):
                 raise FileNotFoundError(
-                    f'Input directory {directory} could not be found')
+                    f'Input directory {local_directory} could not be found')
         if local_files is not None:
-            self._local_files = local_files
+            self._local_files = list(local_files)
         else:
             self._local_files = []
 
@@ -82,7 +82,7 @@ class Sender(object):
         self._properties[key] = value
 
     def addFiles(self, local_files):
-        for f in files:
+        for f in local_files:
             if not os.path.isfile(f):
                 raise FileNotFoundError(f'Input file {f} could not be found')
         self._local_files += local_files
@@ -90,7 +90,7 @@ class Sender(object):
     def changeDirectory(self, local_directory, directory_alias=None):
         if not os.path.isdir(local_directory):
             raise FileNotFoundError(
-                f'Input directory {directory} could not be found')
+                f'Input directory {local_directory} could not be found')
         self._local_directory = local_directory
         self._directory_alias = directory_alias
 
-- 
2.43.0


From 799597641b28f30e712b13a8fde0b7bcf6e366b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:31 +0000
Subject: [PATCH 02/98] fix: report unreadable sub-directories instead of
 silently skipping them

---
 impactutils/transfer/sender.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/impactutils/transfer/sender.py b/impactutils/transfer/sender.py
index 4728ff8..bcd843e 100644
--- a/impactutils/transfer/sender.py
+++ b/impactutils/transfer/sender.py
@@ -105,7 +105,12 @@ class Sender(object):
         allfiles = []
         if not self._local_directory:
             return allfiles
-        for root, dirs, files in os.walk(self._local_directory):
+
+        def _raise(error):
+            raise error
+
+        for root, dirs, files in os.walk(self._local_directory,
+                                         onerror=_raise):
             for fname in files:
                 filename = os.path.join(root, fname)
                 allfiles.append(filename)
-- 
2.43.0


From d5beec00a78d019067cb9aaaaf0e6af4e3a250df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:31 +0000
Subject: [PATCH 03/98] fix: CopySender counted every directory file twice

---
 impactutils/transfer/copysender.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/impactutils/transfer/copysender.py b/impactutils/transfer/copysender.py
index 891bd02..a73feec 100755
--- a/impactutils/transfer/copysender.py
+++ b/impactutils/transfer/copysender.py
@@ -76,9 +76,6 @@ class CopySender(Sender):
                     filename, remote_folder, local_folder=local_folder)
                 nfiles += 1
 
-            nfiles += sum([len(files)
-                           for r, d, files in os.walk(local_folder)])
-
         # copy files to remote location
         for filename in self._local_files:
             self._copy_file_with_path(filename, remote_folder)
-- 
2.43.0


From 50467c335318b8827bfa638b2611a6f3877525b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:31 +0000
Subject: [PATCH 04/98] fix: CopySender mangled relative paths

Removing every occurrence of the local folder text from a file's path
misplaced files whose path repeats that text, and a relative remote
directory was turned into an absolute one.
---
 impactutils/transfer/copysender.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/copysender.py b/impactutils/transfer/copysender.py
index a73feec..2d09ee4 100755
--- a/impactutils/transfer/copysender.py
+++ b/impactutils/transfer/copysender.py
@@ -133,11 +133,8 @@ class CopySender(Sender):
                 name (not preserving path) into remote_folder.
         """
         if local_folder is not None:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
-            remote_parts = remote_folder.strip(os.path.sep).split(os.path.sep)
-            all_parts = [os.path.sep] + remote_parts + local_parts
-            remote_file = os.path.join(*all_parts)
+            remote_file = os.path.join(
+                remote_folder, os.path.relpath(local_file, local_folder))
             root, rfile = os.path.split(remote_file)
             if not os.path.isdir(root):
                 os.makedirs(root)
-- 
2.43.0


From 7011f3ea7fee4f66ee5900de1fe4e9dd9f2d5dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 05/98] fix: FTPSender reported success although files were not
 delivered

Errors on files of a directory were swallowed, every other error surfaced
as a NameError, and a relative remote directory only worked because of the
swallowed error.
---
 impactutils/transfer/ftpsender.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index f736392..0c3b52f 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -83,19 +83,16 @@ class FTPSender(Sender):
                 local_directory = self._local_directory
                 allfiles = self.getAllLocalFiles()
                 for filename in allfiles:
-                    try:
-                        self._copy_file_with_path(
-                            ftp, filename, remote_folder,
-                            local_folder=local_directory)
-                        nfiles += 1
-                    except:
-                        x = 1
+                    self._copy_file_with_path(
+                        ftp, filename, remote_folder,
+                        local_folder=local_directory)
+                    nfiles += 1
 
             ftp.quit()
             return (nfiles, f'{int(nfiles):d} files were sent successfully to {remote_host} {remote_folder}')
         except Exception as obj:
             raise Exception(
-                f'Could not send to {host}.  Error "{str(obj)}"')
+                f'Could not send to {remote_host}.  Error "{str(obj)}"')
 
     def cancel(self):
         """
@@ -241,7 +238,7 @@ class FTPSender(Sender):
                 self._create_remote_directory(ftp, remfolder)
 
             self.__sendfile(local_file, ftp)
-            ftp.cwd(remote_folder)
+            ftp.cwd('/' + '/'.join(remote_parts))
 
     def __sendfile(self, filename, ftp):
         '''Internal function used to send a file using an FTP object.
-- 
2.43.0


From bf57c755a71e9262f047aed016e5033073319bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 06/98] fix: FTPSender mangled relative paths that repeat the
 local folder name

---
 impactutils/transfer/ftpsender.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index 0c3b52f..5f31b0f 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -223,10 +223,10 @@ class FTPSender(Sender):
         """
         if local_folder is None:
             ftp.cwd(remote_folder)
-            self.__sendfile(filename, ftp)
+            self.__sendfile(local_file, ftp)
         else:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
+            local_parts = os.path.relpath(
+                local_file, local_folder).split(os.path.sep)
             remote_parts = self._split(remote_folder)
             all_parts = remote_parts + local_parts
             remote_file = '/' + '/'.join(all_parts)
-- 
2.43.0


From 12d9582533b916c0a505c405e32f3114868b26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 07/98] fix: FTPSender.cancel lacked its documented
 cancel_content argument

It also left the connection open and, with a relative remote directory,
tried to descend into that directory twice.
---
 impactutils/transfer/ftpsender.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index 5f31b0f..95ec995 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -94,7 +94,7 @@ class FTPSender(Sender):
             raise Exception(
                 f'Could not send to {remote_host}.  Error "{str(obj)}"')
 
-    def cancel(self):
+    def cancel(self, cancel_content=None):
         """
         Create a cancel file (named as indicated in constructor "cancelfile"
         parameter) in remote_directory on remote_host.
@@ -115,9 +115,11 @@ class FTPSender(Sender):
         try:
             tfile = os.path.join(tempdir, self._cancelfile)  # local file
             f = open(tfile, 'wt')
+            if cancel_content is not None:
+                f.write(cancel_content)
             f.close()
-            ftp.cwd(remote_folder)
             self.__sendfile(tfile, ftp)
+            ftp.quit()
         except Exception as e:
             raise Exception(
                 f'Could not create .cancel file on {remote_host}/{remote_folder}')
-- 
2.43.0


From 23e6ff2a1d26b9f1580db583fafed54a64588571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 08/98] fix: FTPSender's temporary name could destroy another
 delivered file

Sending 'a' went through 'a.tmp', so a file really called 'a.tmp' that had
already been delivered was overwritten and renamed away.
---
 impactutils/transfer/ftpsender.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index 95ec995..175cc82 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -5,6 +5,7 @@ from ftplib import FTP, error_perm
 import os.path
 import shutil
 import tempfile
+import uuid
 
 # local
 from .sender import Sender
@@ -253,7 +254,7 @@ class FTPSender(Sender):
         # make a temporary file first, then rename it
         # so the poller doesn't grab it before its finished transferring.
         fbase, fpath = os.path.split(filename)  # this is a local file
-        tmpfile = fpath + '.tmp'
+        tmpfile = f'{fpath}.{uuid.uuid4().hex}.tmp'
         cmd = "STOR " + tmpfile
         # we don't tell the ftp server about the local path to the file
 
-- 
2.43.0


From 2020bf71a2c737c6505c438cebed036efc40bafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:38 +0000
Subject: [PATCH 09/98] fix: SecureSender mangled relative paths that repeat
 the local folder name

---
 impactutils/transfer/securesender.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index b6138fe..3d4a1fc 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -198,11 +198,8 @@ class SecureSender(Sender):
         """
         remote_host = self._properties['remote_host']
         if local_folder is not None:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
-            remote_parts = remote_folder.strip(os.path.sep).split(os.path.sep)
-            all_parts = [os.path.sep] + remote_parts + local_parts
-            remote_file = os.path.join(*all_parts)
+            remote_file = os.path.join(
+                remote_folder, os.path.relpath(local_file, local_folder))
             root, rfile = os.path.split(remote_file)
             exists, isdir = self._check_remote_folder(ssh, root)
             if not isdir:
-- 
2.43.0


From e3a08c2361378d85660179407895ac9bd78d8724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:38 +0000
Subject: [PATCH 10/98] fix: SecureSender reported success when the remote
 rename failed

Remote commands run asynchronously: wait for them, and check the rename.
---
 impactutils/transfer/securesender.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index 3d4a1fc..8831fb2 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -219,6 +219,9 @@ class SecureSender(Sender):
         scp.put(local_file, remote_tmp_file)
         rename_cmd = f'mv {remote_tmp_file} {remote_file}'
         stdin, stdout, stderr = ssh.exec_command(rename_cmd)
+        if stdout.channel.recv_exit_status() != 0:
+            raise Exception(f'Could not rename {remote_tmp_file} to '
+                            f'{remote_file} on host {remote_host}')
 
     def _check_remote_folder(self, ssh, remote_folder):
         """Check to see if remote folder exists and is a directory.
@@ -256,11 +259,13 @@ class SecureSender(Sender):
             if exists:
                 rm_cmd = f'rm {remote_folder}'
                 stdin, stdout, stderr = ssh.exec_command(rm_cmd)
+                stdout.channel.recv_exit_status()
                 stdin, stdout, stderr = ssh.exec_command(chk_cmd1)
                 exists = not int(stdout.read().decode('utf-8').strip())
             if not exists:
                 mk_cmd = f'mkdir -p {remote_folder}'
                 stdin, stdout, stderr = ssh.exec_command(mk_cmd)
+                stdout.channel.recv_exit_status()
                 exists, isdir = self._check_remote_folder(ssh, remote_folder)
                 if not isdir:
                     return False
-- 
2.43.0


From 6549bcfc74025bcf9c87712a3ee5210c98ebbc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:38 +0000
Subject: [PATCH 11/98] fix: SecureSender did not quote remote paths for the
 remote shell

---
 impactutils/transfer/securesender.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index 8831fb2..5be95ab 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -8,10 +8,14 @@ import getpass
 # depends on https://github.com/jbardin/scp.py
 # pip install git+git://github.com/jbardin/scp.py.git
 from paramiko import SSHClient
-from impactutils.extern.scp.scp import SCPClient
+from impactutils.extern.scp.scp import SCPClient, asbytes, _sh_quote
 from .sender import Sender
 
 
+def _quote(path):
+    return _sh_quote(asbytes(path)).decode('utf-8')
+
+
 class SecureSender(Sender):
     '''Class for sending files to a remote Unix-like system using ssh.
 
@@ -217,7 +221,7 @@ class SecureSender(Sender):
             datetime.datetime.utcnow().strftime('%Y%m%d%H%M%S')
         print(f'Copying {local_file}...')
         scp.put(local_file, remote_tmp_file)
-        rename_cmd = f'mv {remote_tmp_file} {remote_file}'
+        rename_cmd = f'mv {_quote(remote_tmp_file)} {_quote(remote_file)}'
         stdin, stdout, stderr = ssh.exec_command(rename_cmd)
         if stdout.channel.recv_exit_status() != 0:
             raise Exception(f'Could not rename {remote_tmp_file} to '
@@ -234,10 +238,10 @@ class SecureSender(Sender):
             Tuple with two booleans -- (does a file or directory of this name
             exist, is it a directory?)
         """
-        chk_cmd1 = f'[ -e {remote_folder} ];echo $?'
+        chk_cmd1 = f'[ -e {_quote(remote_folder)} ];echo $?'
         stdin, stdout, stderr = ssh.exec_command(chk_cmd1)
         exists = not int(stdout.read().decode('utf-8').strip())
-        chk_cmd2 = f'[ -d {remote_folder} ];echo $?'
+        chk_cmd2 = f'[ -d {_quote(remote_folder)} ];echo $?'
         stdin, stdout, stderr = ssh.exec_command(chk_cmd2)
         isdir = not int(stdout.read().decode('utf-8').strip())
         return (exists, isdir)
@@ -254,16 +258,16 @@ class SecureSender(Sender):
             Boolean indicating success or failure.
         """
         exists, isdir = self._check_remote_folder(ssh, remote_folder)
-        chk_cmd1 = f'[ -d {remote_folder} ];echo $?'
+        chk_cmd1 = f'[ -d {_quote(remote_folder)} ];echo $?'
         if not isdir:
             if exists:
-                rm_cmd = f'rm {remote_folder}'
+                rm_cmd = f'rm {_quote(remote_folder)}'
                 stdin, stdout, stderr = ssh.exec_command(rm_cmd)
                 stdout.channel.recv_exit_status()
                 stdin, stdout, stderr = ssh.exec_command(chk_cmd1)
                 exists = not int(stdout.read().decode('utf-8').strip())
             if not exists:
-                mk_cmd = f'mkdir -p {remote_folder}'
+                mk_cmd = f'mkdir -p {_quote(remote_folder)}'
                 stdin, stdout, stderr = ssh.exec_command(mk_cmd)
                 stdout.channel.recv_exit_status()
                 exists, isdir = self._check_remote_folder(ssh, remote_folder)
-- 
2.43.0


From 658ca88f3030cdd58a05c2bb3bce80bb35258757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:38 +0000
Subject: [PATCH 12/98] fix: SecureSender.cancel wrote "None" or shell-expanded
 text

Without content the marker contained the word None, and content was
interpreted by the remote shell.
---
 impactutils/transfer/securesender.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index 5be95ab..85a5e28 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -4,6 +4,7 @@
 import os.path
 import datetime
 import getpass
+import shlex
 
 # depends on https://github.com/jbardin/scp.py
 # pip install git+git://github.com/jbardin/scp.py.git
@@ -126,12 +127,12 @@ class SecureSender(Sender):
         remote_host = self._properties['remote_host']
         ssh = self._connect()
         cancelfile = os.path.join(remote_folder, self._cancelfile)
-        echo_cmd = f'echo {cancel_content} > {cancelfile}'
+        if cancel_content is None:
+            cancel_content = ''
+        echo_cmd = (f'printf %s {shlex.quote(cancel_content)} '
+                    f'> {_quote(cancelfile)}')
         stdin, stdout, stderr1 = ssh.exec_command(echo_cmd)
-        chk_cmd = f'[ -e {cancelfile} ];echo $?'
-        stdin, stdout, stderr = ssh.exec_command(chk_cmd)
-        exists = not int(stdout.read().decode('utf-8').strip())
-        if not exists:
+        if stdout.channel.recv_exit_status() != 0:
             err = stderr1.read().decode('utf-8').strip()
             fmt = (f'Could not create {cancelfile} file on '
                    f'remote_host {remote_host} due to error: {err}')
@@ -139,6 +140,7 @@ class SecureSender(Sender):
 
         msg = ('A .cancel file has been placed in remote '
                f'directory {remote_folder}.')
+        ssh.close()
         return (msg)
 
     def _connect(self):
-- 
2.43.0


From 7f60f383e6f2970f5393e43129e3d3526800f3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 13/98] fix: SecureSender moved the file into a directory that
 has the file's name

---
 impactutils/transfer/securesender.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index 85a5e28..c02dbe3 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -223,7 +223,8 @@ class SecureSender(Sender):
             datetime.datetime.utcnow().strftime('%Y%m%d%H%M%S')
         print(f'Copying {local_file}...')
         scp.put(local_file, remote_tmp_file)
-        rename_cmd = f'mv {_quote(remote_tmp_file)} {_quote(remote_file)}'
+        rename_cmd = (f'[ ! -d {_quote(remote_file)} ] && '
+                      f'mv {_quote(remote_tmp_file)} {_quote(remote_file)}')
         stdin, stdout, stderr = ssh.exec_command(rename_cmd)
         if stdout.channel.recv_exit_status() != 0:
             raise Exception(f'Could not rename {remote_tmp_file} to '
-- 
2.43.0


From 95c2e90bdfa075b490fda86f5565c998eec114af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 14/98] fix: EmailSender never returned when max_bcc was 1

---
 impactutils/transfer/emailsender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 35903be..8f82a72 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -287,7 +287,7 @@ def _split_addresses(recipients, max_bcc, primary_recipient):
     iend = max_bcc
     while istart < len(recipients):
         address = primary_recipient
-        iend = min(len(recipients), istart + (max_bcc - 1))
+        iend = min(len(recipients), istart + max_bcc)
         bcclist = recipients[istart:iend]
         tuples.append((address, bcclist))
         istart = iend
-- 
2.43.0


From edf49f972c11c2196fedeaec09062f76e546913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 15/98] fix: EmailSender failed on directories without zip and
 mangled zip entry names

---
 impactutils/transfer/emailsender.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 8f82a72..b5b47da 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -168,8 +168,8 @@ class EmailSender(Sender):
                         if self._local_directory:
                             allfiles = self.getAllLocalFiles()
                             for filename in allfiles:
-                                arcname = filename.replace(
-                                    self._local_directory, '')
+                                arcname = os.path.relpath(
+                                    filename, self._local_directory)
                                 myzip.write(filename, arcname)
                         myzip.close()
                         attachments.append(zfilename)
@@ -177,7 +177,7 @@ class EmailSender(Sender):
                         for filename in self._local_files:
                             attachments.append(filename)
 
-                            all_files = self.getAllLocalFiles()
+                        all_files = self.getAllLocalFiles()
                         for filename in all_files:
                             attachments.append(filename)
 
-- 
2.43.0


From abe1d10ce56ed531aaf5a87a538fc9430e4bf845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 16/98] fix: EmailSender disclosed the blind-copy list to every
 recipient

smtplib transmits the text as given, Bcc header included.
---
 impactutils/transfer/emailsender.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index b5b47da..b05886b 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -187,9 +187,6 @@ class EmailSender(Sender):
                     msg['To'] = address
                     msg['Subject'] = subject
                     msg['Date'] = email.utils.formatdate()
-                    if bcc is not None:
-                        bccstr = ', '.join(bcc)
-                        msg['Bcc'] = bccstr
                     msgtxt = msg.as_string()
                 else:
                     msgtxt = _get_encoded_message(
@@ -258,8 +255,6 @@ class EmailSender(Sender):
             msg['To'] = address
             msg['Subject'] = subject
             msg['Date'] = email.utils.formatdate()
-            bccstr = ', '.join(bcc)
-            msg['Bcc'] = bccstr
             msgtxt = msg.as_string()
             all_addresses = [address] + bcc
             _send_email(sender, all_addresses, msgtxt, smtp_servers)
@@ -369,8 +364,6 @@ def _get_encoded_message(address, subject, text, sender, attachments,
     outer['To'] = address
     outer['From'] = sender
     outer['Date'] = email.utils.formatdate()
-    if bcc is not None:
-        outer['Bcc'] = ', '.join(bcc)
 
     # insert the text into the email as a MIMEText part...
     firstSubMsg = Message()
-- 
2.43.0


From 6ab56b9b07cee50e3761a84f44452de19deb72c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 17/98] fix: EmailSender lost or duplicated messages on partial
 server failures

Recipients refused by a server that accepted others were dropped silently,
and an error while closing the connection re-sent an accepted message
through the next server.
---
 impactutils/transfer/emailsender.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index b05886b..c94df83 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -302,20 +302,24 @@ def _send_email(sender, address, msgtxt, smtp_servers):
     Raises:
         Exception if sending the message failed for any reason.
     """
-    messageSent = False
+    # an empty address is only a placeholder for the To: header
+    if isinstance(address, str):
+        remaining = [address]
+    else:
+        remaining = [addr for addr in address if addr]
+    messageSent = not remaining
     errormsg = []
     # let's try all of the email servers we know about before
     # admitting defeat...
     servername = ''
     for server in smtp_servers:
+        if messageSent:
+            break
         # print 'Trying server %s' % (server)
         try:
             session = smtplib.SMTP(server)
             resp, servername = session.helo()
-            session.sendmail(sender, address, msgtxt)
-            messageSent = True
-            session.quit()
-            break
+            refused = session.sendmail(sender, remaining, msgtxt)
         except smtplib.SMTPRecipientsRefused:
             errormsg.append({server: 'Recipients refused'})
             continue
@@ -332,6 +336,17 @@ def _send_email(sender, address, msgtxt, smtp_servers):
         except:
             errormsg.append(
                 {server: 'Connection to server failed (possible timeout)'})
+            continue
+        # anybody this server refused is left for the next one
+        remaining = [addr for addr in remaining if addr in refused]
+        messageSent = not remaining
+        if remaining:
+            errormsg.append({server: f'Recipients refused: {remaining}'})
+        try:
+            session.quit()
+        except Exception:
+            # the message has been accepted already
+            pass
 
     if not messageSent:
         errstr = (f'The message to {address} was not sent. '
-- 
2.43.0


From a70527bb37a0b6a4398004cdfacbd3e0032e50bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 18/98] fix: EmailSender altered text attachments and could not
 send non-ASCII text

Text attachments lost CR LF line ends and had to be valid text in the
locale's encoding; a non-ASCII message with attachments always failed.
cancel() now returns the message its documentation promises.
---
 impactutils/transfer/emailsender.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index c94df83..0c0bf23 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -4,7 +4,6 @@ import shutil
 import smtplib
 import mimetypes
 from email import encoders
-from email.message import Message
 from email.mime.text import MIMEText
 from email.mime.audio import MIMEAudio
 from email.mime.base import MIMEBase
@@ -258,6 +257,8 @@ class EmailSender(Sender):
             msgtxt = msg.as_string()
             all_addresses = [address] + bcc
             _send_email(sender, all_addresses, msgtxt, smtp_servers)
+        num_recipients = int(len(self._properties['recipients']))
+        return f'Cancel message sent to {num_recipients:d} recipients.'
 
 
 def _split_addresses(recipients, max_bcc, primary_recipient):
@@ -381,11 +382,7 @@ def _get_encoded_message(address, subject, text, sender, attachments,
     outer['Date'] = email.utils.formatdate()
 
     # insert the text into the email as a MIMEText part...
-    firstSubMsg = Message()
-    firstSubMsg["Content-type"] = "text/plain"
-    firstSubMsg["Content-transfer-encoding"] = "7bit"
-    firstSubMsg.set_payload(text)
-    outer.attach(firstSubMsg)
+    outer.attach(MIMEText(text))
 
     for attachment in attachments:
         ctype, encoding = mimetypes.guess_type(attachment)
@@ -395,12 +392,7 @@ def _get_encoded_message(address, subject, text, sender, attachments,
             # use a generic bag-of-bits type.
             ctype = 'application/octet-stream'
         maintype, subtype = ctype.split('/', 1)
-        if maintype == 'text':
-            fp = open(attachment)
-            # Note: we should handle calculating the charset
-            msg = MIMEText(fp.read(), _subtype=subtype)
-            fp.close()
-        elif maintype == 'image':
+        if maintype == 'image':
             fp = open(attachment, 'rb')
             msg = MIMEImage(fp.read(), _subtype=subtype)
             fp.close()
-- 
2.43.0


From 1495db829ea16ba330874f7b51b39b0ab1001d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:01 +0000
Subject: [PATCH 19/98] fix: PDLSender passed values through the shell unquoted

Property values, paths and identifiers containing blanks, quotes or other
shell characters (or text that looks like a template placeholder) reached
the product client altered.
---
 impactutils/transfer/pdlsender.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/impactutils/transfer/pdlsender.py b/impactutils/transfer/pdlsender.py
index 8732447..c00b09e 100755
--- a/impactutils/transfer/pdlsender.py
+++ b/impactutils/transfer/pdlsender.py
@@ -3,6 +3,7 @@
 # stdlib imports
 import os.path
 import datetime
+import shlex
 
 # third party
 
@@ -16,6 +17,12 @@ from impactutils.exceptions import PDLError
 DATE_TIME_FMT = '%Y-%m-%dT%H:%M:%S.%f'
 
 
+def _quote(value):
+    # shell-quote a value, and keep it from being taken for a placeholder
+    # when the remaining parts of the command template are filled in
+    return shlex.quote(str(value)).replace('[', "[''")
+
+
 class PDLSender(Sender):
     """Class to invoke a PDL send command on a product.
 
@@ -98,7 +105,7 @@ class PDLSender(Sender):
     def _replace_required_properties(self, cmd):
         for propkey in self._required_properties:
             propvalue = self._properties[propkey]
-            cmd = cmd.replace('[' + propkey.upper() + ']', propvalue)
+            cmd = cmd.replace('[' + propkey.upper() + ']', _quote(propvalue))
         return cmd
 
     def _replace_product_properties(self, cmd):
@@ -106,19 +113,14 @@ class PDLSender(Sender):
             prop_nuggets = []
             for propkey, propvalue in self._product_properties.items():
                 if isinstance(propvalue, float):
-                    prop_nuggets.append(
-                        f'--property-{propkey}={propvalue:.4f}')
+                    nugget = f'--property-{propkey}={propvalue:.4f}'
                 elif isinstance(propvalue, int):
-                    prop_nuggets.append(
-                        f'--property-{propkey}={int(propvalue):d}')
+                    nugget = f'--property-{propkey}={int(propvalue):d}'
                 elif isinstance(propvalue, datetime.datetime):
-                    prop_nuggets.append(
-                        f'--property-{propkey}={propvalue.strftime(DATE_TIME_FMT)[0:23]}')
-                elif isinstance(propvalue, str):
-                    prop_nuggets.append(f'--property-{propkey}="{propvalue}"')
+                    nugget = f'--property-{propkey}={propvalue.strftime(DATE_TIME_FMT)[0:23]}'
                 else:
-                    prop_nuggets.append(
-                        f'--property-{propkey}={str(propvalue)}')
+                    nugget = f'--property-{propkey}={str(propvalue)}'
+                prop_nuggets.append(_quote(nugget))
             cmd = cmd.replace('[PRODUCT_PROPERTIES]', ' '.join(prop_nuggets))
         else:
             cmd = cmd.replace('[PRODUCT_PROPERTIES]', '')
@@ -126,12 +128,13 @@ class PDLSender(Sender):
 
     def _replace_files(self, cmd):
         if self._local_files:
-            cmd = cmd.replace('[FILE]', f'--file={self._local_files[0]}')
+            cmd = cmd.replace(
+                '[FILE]', _quote(f'--file={self._local_files[0]}'))
         else:
             cmd = cmd.replace('[FILE]', '')
         if self._local_directory:
             cmd = cmd.replace(
-                '[DIRECTORY]', f'--directory={self._local_directory}')
+                '[DIRECTORY]', _quote(f'--directory={self._local_directory}'))
         else:
             cmd = cmd.replace('[DIRECTORY]', '')
 
-- 
2.43.0


From df053871979bf7ee8a3518cbcdb5a8a363768ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:02 +0000
Subject: [PATCH 20/98] fix: PDLSender failed after a successful send with
 non-UTF-8 output

Also drop two unused properties that cancel() added to the configuration.
---
 impactutils/transfer/pdlsender.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/impactutils/transfer/pdlsender.py b/impactutils/transfer/pdlsender.py
index c00b09e..e1b5154 100755
--- a/impactutils/transfer/pdlsender.py
+++ b/impactutils/transfer/pdlsender.py
@@ -213,7 +213,7 @@ class PDLSender(Sender):
             nfiles += sum([len(files)
                            for r, d, files in os.walk(self._local_directory)])
         numfiles = int(nfiles)
-        error_msg = stdout.decode('utf-8')
+        error_msg = stdout.decode('utf-8', 'replace')
         msg = f'{numfiles:d} files sent successfully: resulting in output: "{error_msg}"'
         return (nfiles, msg)
 
@@ -228,8 +228,6 @@ class PDLSender(Sender):
             Standard output from PDL DELETE command.
         """
         # build pdl command line from properties
-        self._properties['file'] = ''
-        self._properties['directory'] = ''
         cmd = self._pdlcmd
 
         # make this a delete status
-- 
2.43.0


From 2d0fb666e44d32f5925d992141cfdffe2117844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:02 +0000
Subject: [PATCH 21/98] fix: SCPClient looped forever when the data stream
 ended early

put() never returned if the file shrank, get() if the channel closed in the
middle of a file; a missing final status was taken for success.
---
 impactutils/extern/scp/scp.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 88b1ddf..f158901 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -251,7 +251,12 @@ class SCPClient(object):
             buff_size = self.buff_size
             chan = self.channel
             while file_pos < size:
-                chan.sendall(file_hdl.read(buff_size))
+                data = file_hdl.read(buff_size)
+                if not data:
+                    file_hdl.close()
+                    raise SCPException(
+                        f'{asunicode(basename)}: file shrank while sending')
+                chan.sendall(data)
                 file_pos = file_hdl.tell()
                 if self._progress:
                     self._progress(basename, size, file_pos)
@@ -410,13 +415,16 @@ class SCPClient(object):
                 # we have to make sure we don't read the final byte
                 if size - pos <= buff_size:
                     buff_size = size - pos
-                file_hdl.write(chan.recv(buff_size))
+                data = chan.recv(buff_size)
+                if not data:
+                    raise SCPException('Connection closed while receiving')
+                file_hdl.write(data)
                 pos = file_hdl.tell()
                 if self._progress:
                     self._progress(path, size, pos)
 
             msg = chan.recv(512)
-            if msg and msg[0:1] != b'\x00':
+            if msg[0:1] != b'\x00':
                 raise SCPException(asunicode(msg[1:]))
         except SocketTimeout:
             chan.close()
-- 
2.43.0


From 4e25dfc34c4f02a36861a469670a54589bd56c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:49 +0000
Subject: [PATCH 22/98] fix: EmailSender attached mail messages in a form that
 cannot be decoded

---
 impactutils/transfer/emailsender.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 0c0bf23..4643bcb 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -387,9 +387,11 @@ def _get_encoded_message(address, subject, text, sender, attachments,
     for attachment in attachments:
         ctype, encoding = mimetypes.guess_type(attachment)
         msg = None
-        if ctype is None or encoding is not None:
-            # No guess could be made, or the file is encoded (compressed), so
-            # use a generic bag-of-bits type.
+        if (ctype is None or encoding is not None or
+                ctype.startswith(('message/', 'multipart/'))):
+            # No guess could be made, or the file is encoded (compressed), or
+            # the type may not be base64 encoded, so use a generic
+            # bag-of-bits type.
             ctype = 'application/octet-stream'
         maintype, subtype = ctype.split('/', 1)
         if maintype == 'image':
-- 
2.43.0


From b908315312ac71fe5621e964ca744bb6610b31e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:52 +0000
Subject: [PATCH 23/98] fix: SCPClient sent an empty name for a directory given
 with a trailing slash

---
 impactutils/extern/scp/scp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index f158901..73f511a 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -300,7 +300,7 @@ class SCPClient(object):
 
     def _send_pushd(self, directory):
         (mode, size, mtime, atime) = self._read_stats(directory)
-        basename = asbytes(os.path.basename(directory))
+        basename = asbytes(os.path.basename(directory.rstrip(bytes_sep)))
         if self.preserve_times:
             self._send_time(mtime, atime)
         self.channel.sendall((f'D{mode} 0 ').encode('ascii') +
-- 
2.43.0


From a42f2129651629bff0bfe46b885a712ced102ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:52 +0000
Subject: [PATCH 24/98] fix: SCPClient.get let the remote side write outside
 the local path

---
 impactutils/extern/scp/scp.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 73f511a..495d0ba 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -375,11 +375,12 @@ class SCPClient(object):
 
     def _recv_file(self, cmd):
         chan = self.channel
-        parts = cmd.strip().split(b' ', 2)
+        parts = cmd.split(b' ', 2)
 
         try:
             mode = int(parts[0], 8)
             size = int(parts[1])
+            self._check_name(parts[2])
             if self._rename:
                 path = self._recv_dir
                 self._rename = False
@@ -444,6 +445,7 @@ class SCPClient(object):
         parts = cmd.split(b' ', 2)
         try:
             mode = int(parts[0], 8)
+            self._check_name(parts[2])
             if self._rename:
                 path = self._recv_dir
                 self._rename = False
@@ -466,11 +468,20 @@ class SCPClient(object):
             self._dirtimes[path] = (self._utime)
             self._utime = None
             self._recv_dir = path
+            self._pushed += 1
         except (OSError, SCPException) as e:
             self.channel.send(b'\x01' + asbytes(str(e)))
             raise
 
+    def _check_name(self, name):
+        # names come from the remote side and must stay below the local path
+        if not name or bytes_sep in name or name in (b'.', b'..'):
+            raise SCPException(f'Unexpected file name {asunicode(name)}')
+
     def _recv_popd(self, *cmd):
+        if self._pushed < 1:
+            raise SCPException('Unexpected end of directory')
+        self._pushed -= 1
         self._recv_dir = os.path.split(self._recv_dir)[0]
 
     def _set_dirtimes(self):
-- 
2.43.0


From 30d4c35f595dcc8d22338466f3a6097af237cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:52 +0000
Subject: [PATCH 25/98] fix: SCPClient.get returned silently when the transfer
 ended early

---
 impactutils/extern/scp/scp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 495d0ba..1721b24 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -346,6 +346,7 @@ class SCPClient(object):
                    b'T': self._set_time,
                    b'D': self._recv_pushd,
                    b'E': self._recv_popd}
+        received = False
         while not self.channel.closed:
             # wait for command as long as we're open
             self.channel.sendall('\x00')
@@ -359,6 +360,9 @@ class SCPClient(object):
                 command[code](msg[1:])
             except KeyError:
                 raise SCPException(asunicode(msg[1:]))
+            received = received or code in b'CD'
+        if self._pushed or not received:
+            raise SCPException('Connection closed before the end of transfer')
         # directory times can't be set until we're done writing files
         self._set_dirtimes()
 
-- 
2.43.0


From bf0a01e0f4d2b5b76d38384afd2870658709c359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:33 +0000
Subject: [PATCH 26/98] fix: HDFContainer.getDataFrame always failed with
 current h5py

h5py returns the time_columns attribute as str.
---
 impactutils/io/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index fa3cbcd..3168c3e 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -460,7 +460,10 @@ class HDFContainer(object):
         # date/time columns in an attribute.  Let's use that
         # now to make sure those are read back in with the appropriate
         # type
-        clist = json.loads(mdataset.attrs['time_columns'].decode('utf-8'))
+        cstr = mdataset.attrs['time_columns']
+        if isinstance(cstr, bytes):
+            cstr = cstr.decode('utf-8')
+        clist = json.loads(cstr)
         dataframe = pd.read_json(outstring, convert_dates=clist)
 
         return dataframe
-- 
2.43.0


From 06cbc4f51625e6ddd3fe9974b6cda1612df37ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:33 +0000
Subject: [PATCH 27/98] fix: HDFContainer altered tables (row order, digit
 strings, precision)

---
 impactutils/io/container.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index 3168c3e..0852ae3 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -4,6 +4,7 @@
 from datetime import datetime
 import collections
 import copy
+import io
 import json
 import warnings
 
@@ -430,13 +431,16 @@ class HDFContainer(object):
         else:
             dataframe_group = self._hdfobj[GROUPS['dataframe']]
 
-        inbytes = dataframe.to_json(date_format='iso').encode('utf-8')
+        inbytes = dataframe.to_json(orient='split', date_format='iso',
+                                    date_unit='ns',
+                                    double_precision=15).encode('utf-8')
         mdataset = dataframe_group.create_dataset(dataframe_name, data=inbytes)
         # use attributes to store time columns?
         cidx = dataframe.select_dtypes(include=['datetime64[ns]']).columns
         clist = cidx.tolist()
         cstr = json.dumps(clist)
         mdataset.attrs['time_columns'] = cstr.encode('utf-8')
+        mdataset.attrs['orient'] = 'split'
         return mdataset
 
     def getDataFrame(self, name):
@@ -464,7 +468,10 @@ class HDFContainer(object):
         if isinstance(cstr, bytes):
             cstr = cstr.decode('utf-8')
         clist = json.loads(cstr)
-        dataframe = pd.read_json(outstring, convert_dates=clist)
+        orient = mdataset.attrs.get('orient', 'columns')
+        dataframe = pd.read_json(io.StringIO(outstring), orient=orient,
+                                 dtype=None if orient == 'columns' else False,
+                                 convert_dates=clist)
 
         return dataframe
 
-- 
2.43.0


From 9c47558485cb10ce308b612daa24541fddd8675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 28/98] fix: HDFContainerBase listed empty groups as stored
 items

---
 impactutils/io/smcontainers.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index cff91ec..8a3286c 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -84,14 +84,10 @@ class HDFContainerBase(object):
 
     def _getGroupPaths(self, dd):
         plist = []
-        try:
-            k = dd.keys()
-        except Exception:
-            return plist
-        for kk in k:
-            paths = self._getGroupPaths(dd[kk])
-            if len(paths) > 0:
-                for path in paths:
+        for kk in dd.keys():
+            if isinstance(dd[kk], h5py.Group):
+                # a group without any items in it has no paths
+                for path in self._getGroupPaths(dd[kk]):
                     nn = kk + '/' + path
                     plist.append(nn)
             else:
-- 
2.43.0


From f663de264d52d8bd153ce5d56b0ee8a18c71e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 29/98] fix: HDFContainerBase.setArray kept the array when its
 metadata was refused

---
 impactutils/io/smcontainers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index 8a3286c..d5e4f97 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -204,8 +204,13 @@ class HDFContainerBase(object):
         dset = array_group.create_dataset(name, data=array,
                                           compression=compression)
         if metadata:
-            for key, value in metadata.items():
-                dset.attrs[key] = value
+            try:
+                for key, value in metadata.items():
+                    dset.attrs[key] = value
+            except Exception:
+                # do not keep an array without its metadata
+                del array_group[name]
+                raise
         return dset
 
     def getArray(self, groups, name):
-- 
2.43.0


From 639abec4ab4cb83cf94447ff026bad4b7905812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 30/98] fix: ShakeMap containers lost the stored item when a
 new one was refused

---
 impactutils/io/smcontainers.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index d5e4f97..5386578 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -337,6 +337,13 @@ class ShakeMapContainerBase(HDFContainerBase):
     Parent class for InputShakeMapContainer and OutputShakeMapContainer.
     """
 
+    def _replaceDictionary(self, name, dictionary):
+        # make sure the new dictionary can be stored before dropping the old
+        json.dumps(dictionary)
+        if name in self.getDictionaries():
+            self.dropDictionary([], name)
+        self.setDictionary([], name, dictionary)
+
     def setConfig(self, config):
         """
         Add the config as a dictionary to the HDF file.
@@ -345,9 +352,7 @@ class ShakeMapContainerBase(HDFContainerBase):
             config (dict--like): Dict--like object with configuration
                 information.
         """
-        if 'config' in self.getDictionaries():
-            self.dropDictionary([], 'config')
-        self.setDictionary([], 'config', config)
+        self._replaceDictionary('config', config)
 
     def getConfig(self):
         """
@@ -373,12 +378,10 @@ class ShakeMapContainerBase(HDFContainerBase):
             TypeError: If input object or dictionary does not
                 represent a Rupture object.
         """
-        if 'rupture' in self.getDictionaries():
-            self.dropDictionary([], 'rupture')
         if not isinstance(rupture, dict):
             fmt = 'Input dict does not represent a rupture object.'
             raise TypeError(fmt)
-        self.setDictionary([], 'rupture', rupture)
+        self._replaceDictionary('rupture', rupture)
 
     def getRuptureDict(self):
         """
@@ -407,9 +410,7 @@ class ShakeMapContainerBase(HDFContainerBase):
         if not isinstance(stationdict, dict):
             fmt = 'Input object is not a dictionary.'
             raise TypeError(fmt)
-        if 'stations_dict' in self.getDictionaries():
-            self.dropDictionary([], 'stations_dict')
-        self.setDictionary([], 'stations_dict', stationdict)
+        self._replaceDictionary('stations_dict', stationdict)
 
     def getStationDict(self):
         """
@@ -432,9 +433,7 @@ class ShakeMapContainerBase(HDFContainerBase):
         Args:
             history_dict (dict): Dictionary containing version history. ??
         """
-        if 'version_history' in self.getDictionaries():
-            self.dropDictionary([], 'version_history')
-        self.setDictionary([], 'version_history', history_dict)
+        self._replaceDictionary('version_history', history_dict)
         return
 
     def getVersionHistory(self):
@@ -520,9 +519,7 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
         Returns:
             nothing: Nothing.
         """
-        if 'info.json' in self.getDictionaries():
-            self.dropDictionary([], 'info.json')
-        self.setDictionary([], 'info.json', info)
+        self._replaceDictionary('info.json', info)
         return
 
     def getMetadata(self):
-- 
2.43.0


From 6e71e515b7eb78132b41aaf18db68a54b8876bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 31/98] fix: a refused IMT layer set the file type or left part
 of its arrays

---
 impactutils/io/smcontainers.py | 40 +++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index 5386578..68829db 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -557,13 +557,29 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
 
         if self.getDataType() == 'points':
             raise TypeError('Setting grid data in a file containing points')
-        self.setDataType('grid')
-
         sub_groups = ['imts', component, imt_name]
-        self.setArray(sub_groups, 'mean', imt_mean, mean_metadata)
-        self.setArray(sub_groups, 'std', imt_std, std_metadata)
+        self._setLayers(sub_groups, [('mean', imt_mean, mean_metadata),
+                                     ('std', imt_std, std_metadata)],
+                        compression)
+        self.setDataType('grid')
         return
 
+    def _setLayers(self, sub_groups, layers, compression):
+        # store all of the arrays of one IMT, or none of them
+        parent = self._makeGroup('arrays', sub_groups[:-1])
+        imt_name = sub_groups[-1]
+        if imt_name in parent:
+            raise LookupError(
+                f'{imt_name} already exists in {self.getFileName()}')
+        try:
+            for name, array, metadata in layers:
+                self.setArray(sub_groups, name, array, metadata=metadata,
+                              compression=compression)
+        except Exception:
+            if imt_name in parent:
+                del parent[imt_name]
+            raise
+
     def getIMTGrids(self, imt_name, component):
         """
         Retrieve a Grid2D object and any associated metadata from the
@@ -633,7 +649,6 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
 
         if self.getDataType() == 'grid':
             raise TypeError('Setting point data in a file containing grids')
-        self.setDataType('points')
 
         #
         # Check that all of the arrays are the same
@@ -650,14 +665,13 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
 
         # create data sets containing the longitudes, latitudes, and ids
 
-        self.setArray(sub_groups, 'lons', lons, compression=compression)
-        self.setArray(sub_groups, 'lats', lats, compression=compression)
-        self.setArray(sub_groups, 'ids', ids, compression=compression)
-
-        self.setArray(sub_groups, 'mean', imt_mean, metadata=mean_metadata,
-                      compression=compression)
-        self.setArray(sub_groups, 'std', imt_std, metadata=std_metadata,
-                      compression=compression)
+        self._setLayers(sub_groups, [('lons', lons, None),
+                                     ('lats', lats, None),
+                                     ('ids', ids, None),
+                                     ('mean', imt_mean, mean_metadata),
+                                     ('std', imt_std, std_metadata)],
+                        compression)
+        self.setDataType('points')
         return
 
     def getIMTArrays(self, imt_name, component):
-- 
2.43.0


From 8e53aa5f67fda9c045f593ba7748718e90d0c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 32/98] fix: components without any IMT were still listed

---
 impactutils/io/smcontainers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index 68829db..751620d 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -767,7 +767,8 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
            'imts' not in self._hdfobj['arrays']:
             return []
         if imt_name is None:
-            return list(self._hdfobj['arrays']['imts'].keys())
+            imts = self._hdfobj['arrays']['imts']
+            return [comp for comp in imts.keys() if len(imts[comp])]
         else:
             components = []
             for component in self.getComponents():
-- 
2.43.0


From c880415d1c8eb0b182f9d7ade8144754291c7ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 33/98] fix: HDFContainer.setArray kept the array when its
 metadata was refused

---
 impactutils/io/container.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index 0852ae3..9531139 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -285,8 +285,13 @@ class HDFContainer(object):
         dset = array_group.create_dataset(
             array_name, data=array, compression=compression)
         if metadata:
-            for key, value in metadata.items():
-                dset.attrs[key] = value
+            try:
+                for key, value in metadata.items():
+                    dset.attrs[key] = value
+            except Exception:
+                # do not keep an array without its metadata
+                del array_group[array_name]
+                raise
         return dset
 
     def getArray(self, name):
-- 
2.43.0


From b29c39d1878917a8cbe5f099c210136fa3166d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:16 +0000
Subject: [PATCH 34/98] fix: comcat downloads never retried and swallowed HTTP
 errors

---
 impactutils/comcat/query.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impactutils/comcat/query.py b/impactutils/comcat/query.py
index 98f7c3a..11f5c0b 100644
--- a/impactutils/comcat/query.py
+++ b/impactutils/comcat/query.py
@@ -1,6 +1,7 @@
 # stdlib imports
 from datetime import datetime
 import json
+import time
 from urllib import request
 from urllib.error import HTTPError
 import warnings
@@ -22,7 +23,9 @@ def _get_url_data(url, timeout=TIMEOUT):
         fh.close()
         return data
     except HTTPError as htpe:
-        if htpe.code == 503:
+        if htpe.code != 503:
+            raise
+        else:
             try:
                 time.sleep(WAITSECS)
                 fh = request.urlopen(url, timeout=timeout)
-- 
2.43.0


From 7f60195a84b5844a542bb26573843af5a677488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:16 +0000
Subject: [PATCH 35/98] fix: GeoServe.getRegions returned the metadata it
 documents as omitted

---
 impactutils/comcat/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/comcat/query.py b/impactutils/comcat/query.py
index 11f5c0b..c7588ab 100644
--- a/impactutils/comcat/query.py
+++ b/impactutils/comcat/query.py
@@ -96,7 +96,7 @@ class GeoServe(object):
             dict: geojson-like dictionaries, described here: https://earthquake.usgs.gov/ws/geoserve/regions.php
                   The 'metadata' dictionary is omitted.
         """
-        self._regdict.get('metadata', None)
+        self._regdict.pop('metadata', None)
         return self._regdict
 
     def getAuthoritative(self):
-- 
2.43.0


From 498f3d3ac35eb5a2019ffcfa8d2336b5a2ca70ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:01 +0000
Subject: [PATCH 36/98] fix: HistoricTime missed %c and %x after an escaped %%c
 or %%x

---
 impactutils/time/ancient_time.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 5d852c7..774375a 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -14,8 +14,9 @@ class Specifier(str):
         return self
 
     def ispresent_in(self, format):
-        m = self._regex.search(format)
-        return m and m.group(1).count('%') & 1  # odd number of '%'
+        # odd number of '%' in any of the occurrences
+        return any(m.group(1).count('%') & 1
+                   for m in self._regex.finditer(format))
 
     def replace_in(self, format, by):
         def repl(m):
-- 
2.43.0


From d6c7d92bca995db75ad7baec156e8241450072c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:01 +0000
Subject: [PATCH 37/98] fix: HistoricTime formatted early years unpadded and
 %G, %c and %x wrongly

---
 impactutils/time/ancient_time.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 774375a..2b7be57 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -31,7 +31,7 @@ class Specifier(str):
 
 class HistoricTime(datetime):
 
-    def strftime(self, format):
+    def strftime(self, format, force=False):
         year = self.year
         if year >= 1900:
             return super(HistoricTime, self).strftime(format)
@@ -40,7 +40,9 @@ class HistoricTime(datetime):
         future_year = year + factor * 400
         assert future_year > 1900
 
-        format = Specifier('%Y').replace_in(format, year)
+        format = Specifier('%Y').replace_in(format, '%04d' % year)
+        format = Specifier('%G').replace_in(
+            format, '%04d' % self.isocalendar()[0])
         result = self.replace(year=future_year).strftime(format)
         if any(f.ispresent_in(format) for f in map(Specifier, ['%c', '%x'])):
             msg = "'%c', '%x' produce unreliable results for year < 1900"
-- 
2.43.0


From 99720b4cd4b61ce4146bcd174aa5d05c8de20ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:20 +0000
Subject: [PATCH 38/98] fix: HistoricTime could not format years 300, 700, 1100
 and 1500

---
 impactutils/time/ancient_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 2b7be57..80f0e7d 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -38,7 +38,7 @@ class HistoricTime(datetime):
         assert year < 1900
         factor = (1900 - year - 1) // 400 + 1
         future_year = year + factor * 400
-        assert future_year > 1900
+        assert future_year >= 1900
 
         format = Specifier('%Y').replace_in(format, '%04d' % year)
         format = Specifier('%G').replace_in(
-- 
2.43.0


From cc816432fd044f6e35c0afb6de9b2de79c3492c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:15 +0000
Subject: [PATCH 39/98] fix: LocalTimeNE used an invalid UTM zone string and
 always failed

---
 impactutils/time/timeutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index bad0ff5..f9480d2 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -317,9 +317,9 @@ class LocalTimeNE(LocalTime):
             if xmin > xmax:
                 xmin -= 360
             clon = (xmin + xmax) / 2
-            hem = 'N'
+            hem = ''
             if lat < 0:
-                hem = 'S'
+                hem = ' +south'
             utmzone = _get_utm_zone(clon)
             utmstr = (f'+proj=utm +zone={int(utmzone):d}{hem} '
                       '+ellps=WGS84 +datum=WGS84 +units=m +no_defs')
-- 
2.43.0


From 33a3e5cefbddbbab832df8dc7481b56e4b491392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:33 +0000
Subject: [PATCH 40/98] fix: LocalTime read the UTC instant as local time
 around clock changes

---
 impactutils/time/timeutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index f9480d2..be401c5 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -244,7 +244,8 @@ class LocalTime(object):
 
             if is_inside:
                 mytz = pytz.timezone(timezone)
-                utcoffset = mytz.utcoffset(utctime)
+                utcoffset = pytz.utc.localize(
+                    utctime).astimezone(mytz).utcoffset()
                 local_time = utctime + utcoffset
                 break
         if local_time is None:
@@ -346,7 +347,8 @@ class LocalTimeNE(LocalTime):
                     timezone = 'undefined'
                 if timezone != 'undefined':
                     mytz = pytz.timezone(timezone)
-                    utcoffset = mytz.utcoffset(utctime)
+                    utcoffset = pytz.utc.localize(
+                        utctime).astimezone(mytz).utcoffset()
                     local_time = utctime + utcoffset
                 else:
                     offset_hours = f['properties']['zone']
-- 
2.43.0


From cbe5420f7664d121ed1e08c7cd73219bc55cc379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:33 +0000
Subject: [PATCH 41/98] fix: LocalTime zone name and nautical offset were not
 as documented

---
 impactutils/time/timeutils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index be401c5..02df3b6 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -250,8 +250,9 @@ class LocalTime(object):
                 break
         if local_time is None:
             # this is effectively nautical time as the ultimate failover.
-            utcoffset = round(lon / 15)
-            local_time = utctime + timedelta(seconds=utcoffset * 3600)
+            timezone = 'undefined'
+            utcoffset = timedelta(seconds=round(lon / 15) * 3600)
+            local_time = utctime + utcoffset
         self._local_time = local_time
         self._timezone_str = timezone
         self._utcoffset = utcoffset
@@ -273,7 +274,7 @@ class LocalTime(object):
         return self._utcoffset
 
     def getTimeZone(self):
-        return self._timezone
+        return self._timezone_str
 
     def update(self, utctime, lat, lon):
         self._lat = lat
@@ -358,8 +359,9 @@ class LocalTimeNE(LocalTime):
                 break
         if local_time is None:
             # this is effectively nautical time as the ultimate failover.
-            utcoffset = round(lon / 15)
-            local_time = utctime + timedelta(seconds=utcoffset * 3600)
+            timezone = 'undefined'
+            utcoffset = timedelta(seconds=round(lon / 15) * 3600)
+            local_time = utctime + utcoffset
         self._local_time = local_time
         self._timezone_str = timezone
         self._utcoffset = utcoffset
-- 
2.43.0


From 8e19d297b77fe3e905b438aa3a863dbf16289051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:33 +0000
Subject: [PATCH 42/98] fix: TimeConversion used the border cells for rasters
 across the antimeridian

---
 impactutils/time/timeutils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index 02df3b6..ab8c9df 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -480,6 +480,12 @@ class TimeConversion(object):
         min_lat = self._extents['Lower Left'][1]
         max_lat = self._extents['Upper Left'][1]
 
+        # Account for rasters that cross the antimeridian
+        if max_lon < min_lon:
+            max_lon += 360
+            if lon < (min_lon + max_lon) / 2 - 180:
+                lon += 360
+
         # Account for rasters with limited extent
         # If the value is less than or greater than the extent, then set it to
         # the closest boundary
@@ -495,8 +501,6 @@ class TimeConversion(object):
         # Set the resolution in x (longitude) and y (latitude)
         resx = self._resolution[0]
         resy = self._resolution[1]
-        if max_lon < min_lon and lon < min_lon:
-            lon += 360
         col = (lon - min_lon) / resx
         row = (max_lat - lat) / resy
 
-- 
2.43.0


From 2603ec7d74e6e90b5e07f2b34da5c10eb7e69fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:33 +0000
Subject: [PATCH 43/98] fix: TimeConversion ignored the rounding method when
 converting

---
 impactutils/time/timeutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index ab8c9df..e3c9fe8 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -553,7 +553,7 @@ class TimeConversion(object):
         Returns:
             Datetime object for the local time.
         """
-        code = self.get_timezone_code(lat, lon)
+        code = self.get_timezone_code(lat, lon, rounding_method)
         timezone = pytz.timezone(code)
         local_time = pytz.utc.localize(utctime).astimezone(timezone)
         return local_time
@@ -573,7 +573,7 @@ class TimeConversion(object):
         Returns:
             Datetime object for the UTC time.
         """
-        code = self.get_timezone_code(lat, lon)
+        code = self.get_timezone_code(lat, lon, rounding_method)
         timezone = pytz.timezone(code)
         # Set the local timezone information
         local = timezone.localize(localtime)
-- 
2.43.0


From 2b9643ff1864fa7ea67b83c33f738f83745dcdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:00 +0000
Subject: [PATCH 44/98] fix: rounding to fractional steps returned wrong
 multiples

---
 impactutils/textformat/text.py | 52 ++++++++++++++++------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/impactutils/textformat/text.py b/impactutils/textformat/text.py
index c4ff3b1..d84f7ed 100644
--- a/impactutils/textformat/text.py
+++ b/impactutils/textformat/text.py
@@ -2,6 +2,7 @@
 
 # stdlib imports
 import re
+from fractions import Fraction
 from math import floor, ceil
 
 # these two lists serves as building blocks to construct any roman numeral
@@ -163,6 +164,27 @@ def pop_round_short(value, usemillion=False):
         return commify(roundnum) + suffix
 
 
+def _to_nearest(value, step, func):
+    """
+    Apply a rounding function to the number of steps in a value, using exact
+    arithmetic on the decimal representation of both.
+
+    Args:
+        value: Value to be rounded.
+        step: Number to which the value should be rounded.
+        func: One of round, floor, ceil.
+
+    Returns:
+        Multiple of the step: integer when the step is a whole number, float
+        otherwise.
+    """
+    step = Fraction(str(step))
+    value = func(Fraction(str(value)) / step) * step
+    if step.denominator == 1:
+        return int(value)
+    return float(value)
+
+
 def round_to_nearest(value, round_value=1000):
     """Return the value, rounded to nearest round_value (defaults to 1000).
 
@@ -173,15 +195,7 @@ def round_to_nearest(value, round_value=1000):
     Returns:
         Value rounded to nearest desired integer.
     """
-    if round_value < 1:
-        ds = str(round_value)
-        nd = len(ds) - (ds.find('.') + 1)
-        value = value * 10**nd
-        round_value = round_value * 10**nd
-        value = int(round(float(value) / round_value) * round_value)
-        value = float(value) / 10**nd
-    else:
-        value = int(round(float(value) / round_value) * round_value)
+    value = _to_nearest(value, round_value, round)
 
     return value
 
@@ -196,15 +210,7 @@ def floor_to_nearest(value, floor_value=1000):
     Returns:
         Floored value.
     """
-    if floor_value < 1:
-        ds = str(floor_value)
-        nd = len(ds) - (ds.find('.') + 1)
-        value = value * 10**nd
-        floor_value = floor_value * 10**nd
-        value = int(floor(float(value) / floor_value) * floor_value)
-        value = float(value) / 10**nd
-    else:
-        value = int(floor(float(value) / floor_value) * floor_value)
+    value = _to_nearest(value, floor_value, floor)
     return value
 
 
@@ -218,15 +224,7 @@ def ceil_to_nearest(value, ceil_value=1000):
     Returns:
         Ceiled value.
     """
-    if ceil_value < 1:
-        ds = str(ceil_value)
-        nd = len(ds) - (ds.find('.') + 1)
-        value = value * 10**nd
-        ceil_value = ceil_value * 10**nd
-        value = int(ceil(float(value) / ceil_value) * ceil_value)
-        value = float(value) / 10**nd
-    else:
-        value = int(ceil(float(value) / ceil_value) * ceil_value)
+    value = _to_nearest(value, ceil_value, ceil)
     return value
 
 
-- 
2.43.0


From 2fb09eca7f79d4e7ea899d40effbc7b8630ca9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:00 +0000
Subject: [PATCH 45/98] fix: pop_round_short cut millions off instead of
 rounding

---
 impactutils/textformat/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/textformat/text.py b/impactutils/textformat/text.py
index d84f7ed..cda62ff 100644
--- a/impactutils/textformat/text.py
+++ b/impactutils/textformat/text.py
@@ -157,7 +157,7 @@ def pop_round_short(value, usemillion=False):
         suffix = 'k'
 
     roundValue = suffixdict[suffix]
-    roundnum = round_to_nearest(value) // roundValue
+    roundnum = round_to_nearest(value, roundValue) // roundValue
     if roundnum == 0:
         return str(roundnum)
     else:
-- 
2.43.0


From 99842a6a963ba3bbec7ba9c53d31580273c1b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:00 +0000
Subject: [PATCH 46/98] fix: dollar_round used the wrong unit at unit
 boundaries

---
 impactutils/textformat/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/textformat/text.py b/impactutils/textformat/text.py
index cda62ff..ed6d925 100644
--- a/impactutils/textformat/text.py
+++ b/impactutils/textformat/text.py
@@ -110,6 +110,8 @@ def dollar_round(value, digits=2, mode='short'):
     Returns:
         Rounded string version of dollar amount (i.e., $1.0B or $1.0 billion).
     """
+    # round first, so that the rounded value decides about the unit
+    value = set_num_precision(value, digits, mode='float')
     if value < 1e3:
         return '$' + commify(set_num_precision(value, digits))
     suffixdict = {'K': 1e3, 'M': 1e6, 'B': 1e9}
@@ -127,7 +129,7 @@ def dollar_round(value, digits=2, mode='short'):
         if value >= suffixdict['K'] and value < suffixdict['M']:
             dollar_value = set_num_precision(value / 1e3, digits, mode='float')
             return (f'${dollar_value} thousand')
-        if value > suffixdict['M'] and value < suffixdict['B']:
+        if value >= suffixdict['M'] and value < suffixdict['B']:
             dollar_value = set_num_precision(value / 1e6, digits, mode='float')
             return (f'${dollar_value} million')
         else:
-- 
2.43.0


From 82c4e704ac6ff95c33771990be653f8dbd090951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:43 +0000
Subject: [PATCH 47/98] fix: ColorPalette accepted tables whose columns differ
 in length

---
 impactutils/colors/cpalette.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/colors/cpalette.py b/impactutils/colors/cpalette.py
index 89b6f85..8d8e60a 100644
--- a/impactutils/colors/cpalette.py
+++ b/impactutils/colors/cpalette.py
@@ -55,7 +55,7 @@ POP = {'z0': [0, 4, 49, 99, 499, 999, 4999, 9999],
 
 
 TOPO = {'z0': [-100, 0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100],
-        'z1': [0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9200],
+        'z1': [0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100, 9200],
         'rgb0': [(195, 255, 193),
                  (110, 135, 80),
                  (120, 160, 90),
@@ -108,7 +108,7 @@ class ColorPalette(object):
                 transparent, and 255 is opaque.)
         """
         # validate that lengths are all identical
-        if len(z0) != len(z1) != len(rgb0) != len(rgb1):
+        if not len(z0) == len(z1) == len(rgb0) == len(rgb1):
             raise ConsistentLengthError('Lengths of input sequences to ColorPalette() '
                                       'must be identical.')
         self._is_log = is_log
-- 
2.43.0


From 606015457e43b54e8ff5d082daf19610c4e69b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:43 +0000
Subject: [PATCH 48/98] fix: ColorPalette failed for colour sequences other
 than lists

---
 impactutils/colors/cpalette.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/colors/cpalette.py b/impactutils/colors/cpalette.py
index 8d8e60a..eae27eb 100644
--- a/impactutils/colors/cpalette.py
+++ b/impactutils/colors/cpalette.py
@@ -134,8 +134,8 @@ class ColorPalette(object):
 
         # if we add dummy rows to our rgb sequences, we can do one simple loop
         # through.
-        rgb0_t = rgb0.copy()
-        rgb1_t = rgb1.copy()
+        rgb0_t = list(rgb0)
+        rgb1_t = list(rgb1)
         # append a dummy row to the end of RGB0
         rgb0_t.append((E, E, E))
         # prepend a dummy row to the beginning of RGB1
-- 
2.43.0


From 72522003593d3c1fd3356c123cd27d73489d8f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:56 +0000
Subject: [PATCH 49/98] fix: get_compass_dir ignored the requested format

---
 impactutils/mapping/compass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/compass.py b/impactutils/mapping/compass.py
index 652f3d6..b23b5eb 100755
--- a/impactutils/mapping/compass.py
+++ b/impactutils/mapping/compass.py
@@ -42,7 +42,7 @@ def get_compass_dir(lat1, lon1, lat2, lon2, resolution='intercardinal', format='
     az = azimuth(lon1, lat1, lon2, lat2)
     if az < 0:
         az += 360
-    return get_compass_dir_azimuth(az, resolution=resolution)
+    return get_compass_dir_azimuth(az, resolution=resolution, format=format)
 
 
 def get_compass_dir_azimuth(azimuth, resolution='intercardinal', format='short'):
-- 
2.43.0


From 06c31318e18d53c6c76347e0f31ba51fd140126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:50 +0000
Subject: [PATCH 50/98] fix: draw_scale failed whenever a bar length was given

---
 impactutils/mapping/scalebar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/scalebar.py b/impactutils/mapping/scalebar.py
index 7f85a5c..5840e55 100644
--- a/impactutils/mapping/scalebar.py
+++ b/impactutils/mapping/scalebar.py
@@ -224,9 +224,9 @@ def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
     gap_height = top_data - bottom_data
 
     # what is the bar length data units?
+    map_width_data = xmax - xmin
     if bar_length is None:
         lengths = np.array(list(LENGTHS.keys()))
-        map_width_data = xmax - xmin
         map_width_meters = map_width_data * dataunits_to_meters
         map_width_scale_units = map_width_meters * 1 / UNITS[units]
         qmap_width_scale_units = map_width_scale_units * BAR_WIDTH_FRACTION
-- 
2.43.0


From dad8921d71f7860c6bba4d14bc519538b303b717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:51 +0000
Subject: [PATCH 51/98] fix: draw_scale cut the fraction off its distance
 labels

---
 impactutils/mapping/scalebar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/impactutils/mapping/scalebar.py b/impactutils/mapping/scalebar.py
index 5840e55..16011e7 100644
--- a/impactutils/mapping/scalebar.py
+++ b/impactutils/mapping/scalebar.py
@@ -288,8 +288,7 @@ def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
             color = 'black'
         else:
             color = 'white'
-            tick_i = int(i * (bar_length / divisions))
-            scale_tick = f'{tick_i:d}'
+            scale_tick = f'{i * bar_length / divisions:.10g}'
             if is_div_even or i == 0:
                 # if we have an even number of divisions, draw every other
                 # tick mark
@@ -306,7 +305,7 @@ def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
         ax.fill(barx, recty, color, zorder=zorder)
     # draw the last tick mark and number
     ax.text(bar_left + bar_length_data, bar_bottom - (tick_height + gap_height),
-            f'{int(bar_length):d}', ha='center', zorder=zorder, va='top',
+            f'{bar_length:.10g}', ha='center', zorder=zorder, va='top',
             fontsize=font_size)
     left = bar_left + bar_length_data
     bottom = bar_bottom - tick_height
-- 
2.43.0


From 6bf41bcced55d4920c11be07da7fe93f57f2f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:36 +0000
Subject: [PATCH 52/98] fix: Cities.sortByColumns always failed

---
 impactutils/mapping/city.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 1c70718..60cae84 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -198,7 +198,9 @@ class Cities(object):
         Raises:
             KeyError: When column(s) are not in the list of dataframe columns.
         """
-        bad_columns = set(columns).difference(set(self._dataframe.columns()))
+        if isinstance(columns, str):
+            columns = [columns]
+        bad_columns = set(columns).difference(set(self._dataframe.columns))
         if bad_columns:
             raise KeyError(
                 f'Column(s) not in list of DataFrame columns: {str(bad_columns)}')
-- 
2.43.0


From 8a956fa2b1f21fd1a1cab7422fa187dfbb0e47db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:36 +0000
Subject: [PATCH 53/98] fix: Cities.limitByGrid failed with current pandas for
 more than one cell

---
 impactutils/mapping/city.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 60cae84..2c834f4 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -328,7 +328,7 @@ class Cities(object):
                 if newdf is None:
                     newdf = tdf.copy()
                 else:
-                    newdf = newdf.append(tdf)
+                    newdf = pd.concat([newdf, tdf])
         return type(self)(newdf)
 
     def limitByName(self, cityname):
-- 
2.43.0


From 951abe12d6637f998294e11b7651a81dcc8e2489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:36 +0000
Subject: [PATCH 54/98] fix: Cities.limitByRadius removed a column named dist
 from the data

---
 impactutils/mapping/city.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 2c834f4..8466d30 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -251,9 +251,7 @@ class Cities(object):
         dist = geodetic_distance(lon, lat,
                                  self._dataframe['lon'],
                                  self._dataframe['lat'])
-        newdf['dist'] = dist
-        newdf = newdf[newdf['dist'] <= radius]
-        del newdf['dist']
+        newdf = newdf[np.asarray(dist) <= radius]
         return type(self)(newdf)
 
     def limitByPopulation(self, pop, minpop=0):
-- 
2.43.0


From b4d0dab0e27b4a29e32190fb20be90bf2066b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:36 +0000
Subject: [PATCH 55/98] fix: Cities.limitByGrid dropped the cities on the edges
 of the data set

---
 impactutils/mapping/city.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 8466d30..94245dd 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -306,13 +306,15 @@ class Cities(object):
         dy = (ymax - ymin) / ny
         newdf = None
         # start from the bottom left of our grid, and trim our cities.
+        # limitByBounds excludes the lower limits, so the outermost cells are
+        # extended to hold the cities that define the edges of the grid.
 
         for i in range(0, ny):
-            cellymin = ymin + (i * dy)
-            cellymax = cellymin + dy
+            cellymin = ymin + (i * dy) if i > 0 else -np.inf
+            cellymax = ymin + (i + 1) * dy if i < ny - 1 else np.inf
             for j in range(0, nx):
-                cellxmin = xmin + (j * dx)
-                cellxmax = cellxmin + dx
+                cellxmin = xmin + (j * dx) if j > 0 else -np.inf
+                cellxmax = xmin + (j + 1) * dx if j < nx - 1 else np.inf
                 tcities = self.limitByBounds(
                     (cellxmin, cellxmax, cellymin, cellymax))
                 # older versions of pandas use a different sort function
-- 
2.43.0


From 75b71c73dcd96a03aee88903dd929211a77b77f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:37 +0000
Subject: [PATCH 56/98] fix: MercatorMap.getAxesClone always failed

---
 impactutils/mapping/mercatormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index 4ee38a7..61eb584 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -173,7 +173,7 @@ class MercatorMap(object):
         Returns:
             Cartopy GeoAxes instance.
         """
-        return self._axes_clone
+        return self._ax_clone
 
     def getFonts(self):
         """Get list of supported fonts.
-- 
2.43.0


From eda51ac5fa00c2c00485f52653179a110bee1079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:37 +0000
Subject: [PATCH 57/98] fix: MercatorMap drew the largest city even when its
 label left the map

---
 impactutils/mapping/mercatormap.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index 61eb584..d5e9812 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -261,8 +261,8 @@ class MercatorMap(object):
         rights = rights[ikeep]
         bottoms = bottoms[ikeep]
         tops = tops[ikeep]
-        ikeep = [0]  # indices of non-overlapping cities in dataframe
-        for i in range(1, len(tops)):
+        ikeep = []  # indices of non-overlapping cities in dataframe
+        for i in range(0, len(tops)):
             # what is this cities name?
             # Seems like an unused variable...
             # cname = newdf.iloc[i]['name']
@@ -313,16 +313,8 @@ class MercatorMap(object):
         lefts = np.ones(len(df)) * np.nan
         rights = np.ones(len(df)) * np.nan
 
-        # get the extent of the first city
-        left, right, bottom, top = self.getCityEdges(
-            df.iloc[0], fontname, fontsize, shadow, zorder)
-        lefts[0] = left
-        rights[0] = right
-        bottoms[0] = bottom
-        tops[0] = top
-
         # loop over all the cities and get their extents on the map
-        for i in range(1, len(df)):
+        for i in range(0, len(df)):
             row = df.iloc[i]
             left, right, bottom, top = self.getCityEdges(
                 row, fontname, fontsize, shadow, zorder)
-- 
2.43.0


From 778dd6d1f87aed019653ac96496a88cb4afa3c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:57 +0000
Subject: [PATCH 58/98] fix: MercatorMap tested label collisions on axes of
 another size

---
 impactutils/mapping/mercatormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index d5e9812..1d6e759 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -98,7 +98,7 @@ class MercatorMap(object):
         # set up an identical axes object - this will be used to determine city
         # label collisions.
         self._figure_clone = plt.figure(figsize=figsize)
-        self._ax_clone = self._figure_clone.add_axes([0, 0, 1, 1],
+        self._ax_clone = self._figure_clone.add_axes(dimensions,
                                                      projection=self._proj)
         self._ax_clone.set_extent([xmin, xmax, ymin, ymax],
                                   crs=self._geoproj)
-- 
2.43.0


From ba9f5162a34b391df4fd231034c72094f3b4cfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:17 +0000
Subject: [PATCH 59/98] fix: MercatorMap tested label collisions with the wrong
 aspect ratio

---
 impactutils/mapping/mercatormap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index 1d6e759..9996861 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -102,6 +102,8 @@ class MercatorMap(object):
                                                      projection=self._proj)
         self._ax_clone.set_extent([xmin, xmax, ymin, ymax],
                                   crs=self._geoproj)
+        # shrink the axes as drawing would, so that label sizes are right
+        self._ax_clone.apply_aspect()
 
         # establish list of supported fonts
         self._fontlist = [f.name for f in fm.fontManager.ttflist]
-- 
2.43.0


From e50595f7a9dc212f7f88288e661c3e6598706cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:50 +0000
Subject: [PATCH 60/98] fix: Origin altered the event dictionary it was given

---
 impactutils/rupture/origin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index ba3505c..c569948 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -60,6 +60,9 @@ class Origin(object):
         # ---------------------------------------------------------------------
         # Check for missing keys
         # ---------------------------------------------------------------------
+        # Work on a copy so that the caller's dictionary is left alone
+        event = dict(event)
+
         missing = []
         ekeys = list(event.keys())
         for req in constants.ORIGIN_REQUIRED_KEYS:
-- 
2.43.0


From 5b74cf1f3be760da8bf649d6529b61950b7b29cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:50 +0000
Subject: [PATCH 61/98] fix: read_event_file failed on separate date and time
 attributes

---
 impactutils/rupture/origin.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index c569948..bc830e9 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -384,13 +384,13 @@ def read_event_file(eventxml):
            'day' not in xmldict or 'hour' not in xmldict or \
            'minute' not in xmldict or 'second' not in xmldict:
             raise ValueError("Missing date/time elements in event file.")
-        eqdict['time'] = HistoricTime.datetime(
-            xmldict['year'],
-            xmldict['month'],
-            xmldict['day'],
-            xmldict['hour'],
-            xmldict['minute'],
-            xmldict['second'])
+        eqdict['time'] = HistoricTime(
+            int(xmldict['year']),
+            int(xmldict['month']),
+            int(xmldict['day']),
+            int(xmldict['hour']),
+            int(xmldict['minute']),
+            int(xmldict['second']))
 
     eqdict['lat'] = float(xmldict['lat'])
     eqdict['lon'] = float(xmldict['lon'])
-- 
2.43.0


From 5b1288603f54de03e20be5c533389873599719ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:50 +0000
Subject: [PATCH 62/98] fix: read_source failed on blank lines and cut values
 containing '='

---
 impactutils/rupture/origin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index bc830e9..270d0ee 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -426,9 +426,9 @@ def read_source(sourcefile):
         f = sourcefile
     params = {}
     for line in f.readlines():
-        if line.startswith('#'):
+        if line.startswith('#') or not line.strip():
             continue
-        parts = line.split('=')
+        parts = line.split('=', 1)
         key = parts[0].strip()
         value = parts[1].strip()
         # see if this is some sort of number
-- 
2.43.0


From 4ef1a3c8ee128824f14c434f3e1af0d538b6bf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:18 +0000
Subject: [PATCH 63/98] fix: is_quad compared the fourth vertex with a plane
 through itself

---
 impactutils/rupture/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index b42275c..c7d0446 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -44,7 +44,7 @@ def is_quad(q):
     new_p2 = p3 + v0 * d
 
     # How far off of the plane is the origin p2?
-    planepoints = [p0, p1, p2]
+    planepoints = [p0, p1, p3]
     dist = get_distance_to_plane(planepoints, p2)
 
     # Is it close enough?
-- 
2.43.0


From 9cf5b4ba5f05e9958b256a38ab6c9af132d2ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:18 +0000
Subject: [PATCH 64/98] fix: get_distance_to_plane was zero for every plane
 through the center of the Earth

---
 impactutils/rupture/utils.py | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index c7d0446..143ac8f 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -505,27 +505,10 @@ def get_distance_to_plane(planepoints, otherpoint):
         float: Distance (in meters) from otherpoint to plane.
 
     """
-    # from
-    # https://en.wikipedia.org/wiki/Plane_(geometry)#Describing_a_plane_through_three_points
     p0, p1, p2 = planepoints
-    x1, y1, z1 = p0.getArray()
-    x2, y2, z2 = p1.getArray()
-    x3, y3, z3 = p2.getArray()
-    D = np.linalg.det(np.array([[x1, y1, z1], [x2, y2, z2], [x3, y3, z3]]))
-    if D != 0:
-        d = -1
-        at = np.linalg.det(np.array([[1, y1, z1], [1, y2, z2], [1, y3, z3]]))
-        bt = np.linalg.det(np.array([[x1, 1, z1], [x2, 1, z2], [x3, 1, z3]]))
-        ct = np.linalg.det(np.array([[x1, y1, 1], [x2, y2, 1], [x3, y3, 1]]))
-        a = (-d / D) * at
-        b = (-d / D) * bt
-        c = (-d / D) * ct
-
-        numer = np.abs(a * otherpoint.x +
-                       b * otherpoint.y +
-                       c * otherpoint.z + d)
-        denom = np.sqrt(a**2 + b**2 + c**2)
-        dist = numer / denom
+    normal = (p1 - p0).cross(p2 - p0)
+    if normal.mag() > 0:
+        dist = np.abs(normal.norm().dot(otherpoint - p0))
     else:
         dist = 0
     return dist
-- 
2.43.0


From 7fd919858f8afb4df241ca2218261954af7f629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:18 +0000
Subject: [PATCH 65/98] fix: ruptures altered and shared the dictionary they
 were built from

---
 impactutils/rupture/edge_rupture.py | 3 +++
 impactutils/rupture/quad_rupture.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index b65a0ab..8e99f88 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -42,6 +42,9 @@ class EdgeRupture(Rupture):
             EdgeRupture instance.
 
         """
+        # The metadata is extended below, so keep a copy of the input
+        d = copy.deepcopy(d)
+
         polys = d['features'][0]['geometry']['coordinates'][0]
         n_polygons = len(polys)
         toplons = np.empty(shape=(0, 0))
diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index 7a5c52f..a4f666c 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -48,6 +48,9 @@ class QuadRupture(Rupture):
 
         """
 
+        # The metadata is extended below, so keep a copy of the input
+        d = copy.deepcopy(d)
+
         polys = d['features'][0]['geometry']['coordinates'][0]
         n_polygons = len(polys)
         lon = []
-- 
2.43.0


From e4619a9f474e56a50a161a2b7a3c04cd84cb1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:10 +0000
Subject: [PATCH 66/98] fix: an origin's reference replaced the reference of
 the rupture

---
 impactutils/rupture/edge_rupture.py  | 2 ++
 impactutils/rupture/point_rupture.py | 1 +
 impactutils/rupture/quad_rupture.py  | 7 ++++++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index 8e99f88..df2bd49 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -90,6 +90,7 @@ class EdgeRupture(Rupture):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
             else:
                 d['metadata'][k] = v
+        d['metadata']['reference'] = reference
         d['metadata']['mesh_dx'] = mesh_dx
 
         self._geojson = d
@@ -179,6 +180,7 @@ class EdgeRupture(Rupture):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
             else:
                 d['metadata'][k] = v
+        d['metadata']['reference'] = reference
         d['metadata']['mesh_dx'] = mesh_dx
 
         return cls(d, origin, mesh_dx)
diff --git a/impactutils/rupture/point_rupture.py b/impactutils/rupture/point_rupture.py
index 8f0872a..4027a0a 100755
--- a/impactutils/rupture/point_rupture.py
+++ b/impactutils/rupture/point_rupture.py
@@ -62,6 +62,7 @@ class PointRupture(Rupture):
                 d['metadata'][k] = v.strftime(TIMEFMT)
             else:
                 d['metadata'][k] = v
+        d['metadata']['reference'] = reference
 
         self._geojson = d
 
diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index a4f666c..b6ffff1 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -65,6 +65,8 @@ class QuadRupture(Rupture):
             lat = lat + p_lats + [np.nan]
             dep = dep + p_depths + [np.nan]
 
+        reference = d['metadata']['reference']
+
         # Add origin information to metadata
         odict = origin.__dict__
         for k, v in odict.items():
@@ -72,13 +74,14 @@ class QuadRupture(Rupture):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
             else:
                 d['metadata'][k] = v
+        d['metadata']['reference'] = reference
 
         self._geojson = d
         self._lon = lon
         self._lat = lat
         self._depth = dep
         self._origin = origin
-        self._reference = d['metadata']['reference']
+        self._reference = reference
         self._setQuadrilaterals()
 
     def getDepthAtPoint(self, lat, lon):
@@ -391,6 +394,7 @@ class QuadRupture(Rupture):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
             else:
                 d['metadata'][k] = v
+        d['metadata']['reference'] = reference
 
         return cls(d, origin)
 
@@ -669,6 +673,7 @@ class QuadRupture(Rupture):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
             else:
                 d['metadata'][k] = v
+        d['metadata']['reference'] = reference
         if hasattr(origin, 'id'):
             d['metadata']['eventid'] = origin.id
 
-- 
2.43.0


From c16db5745b3db8c795c610f7bce51eb3047dfce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:10 +0000
Subject: [PATCH 67/98] fix: rupture_from_dict lost the reference of a
 PointRupture

---
 impactutils/rupture/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index ca57dd9..4b562f1 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -178,7 +178,7 @@ def rupture_from_dict(d):
         else:
             rupt = QuadRupture(d, origin)
     elif geo_type == 'Point':
-        rupt = PointRupture(origin)
+        rupt = PointRupture(origin, reference=d['metadata']['reference'])
 
     return rupt
 
-- 
2.43.0


From 13f666ca004125124ebef8584e4ed4ce9e98e11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:10 +0000
Subject: [PATCH 68/98] fix: rupture files without any quadrilateral were
 accepted

---
 impactutils/rupture/factory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index 4b562f1..1f2afec 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -238,6 +238,9 @@ def _check_polygon(p):
     if n_points % 2 == 0:
         raise ValueError('Number of points in polyon must be odd.')
 
+    if n_points < 5:
+        raise ValueError('Polygon must have at least four vertices.')
+
     if p[0] != p[-1]:
         raise ValueError('First and last points in polygon must be '
                          'identical.')
@@ -435,6 +438,8 @@ def validate_json(d):
 
     if geom['type'] == 'MultiPolygon':
         n_polygons = len(polygons)
+        if n_polygons == 0:
+            raise ValueError('Rupture must have at least one polygon.')
         for i in range(n_polygons):
             _check_polygon(polygons[i])
 
-- 
2.43.0


From 2c67e442d11a1cbbfe09f17c71851ba344047955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:10 +0000
Subject: [PATCH 69/98] fix: an EdgeRupture built from integer coordinates
 could not be written

---
 impactutils/rupture/edge_rupture.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index df2bd49..6a67258 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -131,12 +131,12 @@ class EdgeRupture(Rupture):
             EdgeRupture instance.
 
         """
-        toplons = np.array(toplons)
-        toplats = np.array(toplats)
-        topdeps = np.array(topdeps)
-        botlons = np.array(botlons)
-        botlats = np.array(botlats)
-        botdeps = np.array(botdeps)
+        toplons = np.array(toplons, dtype='d')
+        toplats = np.array(toplats, dtype='d')
+        topdeps = np.array(topdeps, dtype='d')
+        botlons = np.array(botlons, dtype='d')
+        botlats = np.array(botlats, dtype='d')
+        botdeps = np.array(botdeps, dtype='d')
         if group_index is not None:
             group_index = np.array(group_index)
         else:
-- 
2.43.0


From 759bab969e9dd73dc52f028d29613f733a9ffda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:10 +0000
Subject: [PATCH 70/98] fix: a QuadRupture read from the file of an EdgeRupture
 was written as EdgeRupture

---
 impactutils/rupture/quad_rupture.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index b6ffff1..9bd2b30 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -76,6 +76,9 @@ class QuadRupture(Rupture):
                 d['metadata'][k] = v
         d['metadata']['reference'] = reference
 
+        # 'mesh_dx' marks an EdgeRupture (see factory.rupture_from_dict)
+        d['metadata'].pop('mesh_dx', None)
+
         self._geojson = d
         self._lon = lon
         self._lat = lat
-- 
2.43.0


From 5ac2b29fbac7b7aa8346b2ba4b901fbae986aa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:10 +0000
Subject: [PATCH 71/98] fix: comma separated rupture text files were refused

---
 impactutils/rupture/factory.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index 1f2afec..dc2f5da 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -4,6 +4,7 @@
 import json
 import logging
 import copy
+import re
 
 # third party imports
 import numpy as np
@@ -325,16 +326,11 @@ def text_to_json(file, new_format=True):
             polygon = []
             continue
 
-        # first try to split on whitespace
-        parts = line.split()
+        # Coordinates are separated by whitespace and/or a comma
+        parts = re.split(r'\s*,\s*|\s+', line.strip())
         if len(parts) == 1:
-            if new_format:
-                raise Exception(
-                    f'Rupture file {file} has unspecified delimiters.')
-            parts = line.split(',')
-            if len(parts) == 1:
-                raise Exception(
-                    f'Rupture file {file} has unspecified delimiters.')
+            raise Exception(
+                f'Rupture file {file} has unspecified delimiters.')
 
         if len(parts) != 3:
             msg = f'Rupture file {file} is not in lat, lon, depth format.'
-- 
2.43.0


From 6fbb0be5931d312367c793e3782ed9e27e647372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:10 +0000
Subject: [PATCH 72/98] fix: text_to_json removed every '#' from the reference

---
 impactutils/rupture/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index dc2f5da..75ee9a9 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -316,7 +316,7 @@ def text_to_json(file, new_format=True):
 
         if line.strip().startswith('#'):
             # Get reference string
-            reference += line.strip().replace('#', '')
+            reference += line.strip().lstrip('#')
             continue
 
         if line.strip().startswith('>'):
-- 
2.43.0


From 0ed5a0c539079430702bd24d155b0da58011e995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:10 +0000
Subject: [PATCH 73/98] fix: references with accents were garbled by the
 rupture text file

---
 impactutils/rupture/quad_rupture.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index 9bd2b30..08aa631 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -415,7 +415,8 @@ class QuadRupture(Rupture):
 
         """
         if not hasattr(rupturefile, 'read'):
-            f = open(rupturefile, 'wt')
+            # Same encoding as used by text_to_json
+            f = open(rupturefile, 'wt', encoding="latin-1", errors="replace")
         else:
             f = rupturefile  # just a reference to the input file-like object
         f.write(f'#{self._reference}\n')
-- 
2.43.0


From 877228b5801462dce14b8bdad5b2dc0c991e639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:46 +0000
Subject: [PATCH 74/98] fix: an exactly vertical EdgeRupture had no strike and
 a dip of zero

---
 impactutils/rupture/edge_rupture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index 6a67258..c03ea73 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -466,7 +466,7 @@ class EdgeRupture(Rupture):
 
         # Do I need to flip the vector because it is pointing down (i.e.,
         # right-hand rule is violated)?
-        flip = np.sign(up_vec.dot(norm_vec))
+        flip = -1.0 if up_vec.dot(norm_vec) < 0 else 1.0
         norm_vec = flip * norm_vec
 
         # Angle between up_vec and norm_vec is dip
-- 
2.43.0


From 92304a0d5c87107a4bc43abdb99cde06aa7dd6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:29 +0000
Subject: [PATCH 75/98] fix: the dip of a vertical EdgeRupture could be NaN

---
 impactutils/rupture/edge_rupture.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index c03ea73..34348b6 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -470,7 +470,8 @@ class EdgeRupture(Rupture):
         norm_vec = flip * norm_vec
 
         # Angle between up_vec and norm_vec is dip
-        self._dip = np.arcsin(up_vec.cross(norm_vec).mag()) * 180 / np.pi
+        sin_dip = np.min([up_vec.cross(norm_vec).mag(), 1.0])
+        self._dip = np.arcsin(sin_dip) * 180 / np.pi
 
         # Normal vector projected to horizontal plane
         nvph = (norm_vec - up_vec.dot(norm_vec) * up_vec).norm()
-- 
2.43.0


From 009d0f18474df5edb2839783ba16dfee84583204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:27 +0000
Subject: [PATCH 76/98] fix: rupture distances failed for site arrays that are
 not C-contiguous

Assigning to .shape raises AttributeError on transposed or Fortran-ordered
arrays; reshape() copies when it has to.
---
 impactutils/rupture/edge_rupture.py | 12 ++++++------
 impactutils/rupture/quad_rupture.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index 34348b6..dfb9bd6 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -552,9 +552,9 @@ class EdgeRupture(Rupture):
             newshape = (oldshape[0], 1)
 
         x, y, z = latlon2ecef(lat, lon, depth)
-        x.shape = newshape
-        y.shape = newshape
-        z.shape = newshape
+        x = x.reshape(newshape)
+        y = y.reshape(newshape)
+        z = z.reshape(newshape)
         sites_ecef = np.hstack((x, y, z))
 
         # ---------------------------------------------------------------------
@@ -629,9 +629,9 @@ class EdgeRupture(Rupture):
             newshape = (oldshape[0], 1)
 
         x, y, z = latlon2ecef(lat, lon, depth)
-        x.shape = newshape
-        y.shape = newshape
-        z.shape = newshape
+        x = x.reshape(newshape)
+        y = y.reshape(newshape)
+        z = z.reshape(newshape)
         sites_ecef = np.hstack((x, y, z))
 
         # ---------------------------------------------------------------------
diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index 08aa631..d40cf8d 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -1060,9 +1060,9 @@ class QuadRupture(Rupture):
             newshape = (oldshape[0], 1)
 
         x, y, z = latlon2ecef(lat, lon, depth)
-        x.shape = newshape
-        y.shape = newshape
-        z.shape = newshape
+        x = x.reshape(newshape)
+        y = y.reshape(newshape)
+        z = z.reshape(newshape)
         sites_ecef = np.hstack((x, y, z))
 
         minrjb = np.ones(newshape, dtype=lon.dtype) * 1e16
@@ -1110,9 +1110,9 @@ class QuadRupture(Rupture):
             newshape = (oldshape[0], 1)
 
         x, y, z = latlon2ecef(lat, lon, depth)
-        x.shape = newshape
-        y.shape = newshape
-        z.shape = newshape
+        x = x.reshape(newshape)
+        y = y.reshape(newshape)
+        z = z.reshape(newshape)
         sites_ecef = np.hstack((x, y, z))
 
         minrrup = np.ones(newshape, dtype=lon.dtype) * 1e16
-- 
2.43.0


From 9ca33164f07c1d1ff23913b3aa6186898b42db89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:48 +0000
Subject: [PATCH 77/98] fix: Rjb of an exactly vertical quadrilateral was zero
 everywhere

The surface projection of such a quadrilateral has no area, its unit normal
is not a number, and every site passed the test for being inside it.
---
 impactutils/rupture/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index 143ac8f..648d440 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -466,6 +466,9 @@ def _quad_distance(q, points, horizontal=False):
     sgn3 = np.signbit(np.sum(n3 * p3d, axis=1))
 
     inside_idx = (sgn0 == sgn1) & (sgn1 == sgn2) & (sgn2 == sgn3)
+    if (p1 - p0).cross(p2 - p0).mag() == 0:
+        # The projection of a vertical quad is a line with nothing inside it
+        inside_idx[:] = False
     if horizontal:
         dist[inside_idx] = 0.0
     else:
-- 
2.43.0


From ac98cf81e54f87950fa91f7a4c461b2998fc2b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:36 +0000
Subject: [PATCH 78/98] fix: EdgeRupture.getQuadrilaterals repeated the first
 group for every group

The vertices were indexed by their position in the group.
---
 impactutils/rupture/edge_rupture.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index dfb9bd6..9f0126b 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -509,18 +509,18 @@ class EdgeRupture(Rupture):
             ind = np.where(self._group_index == ugroup[i])[0]
             nq = len(ind) - 1
             for j in range(nq):
-                P0 = Point(self._toplons[j],
-                           self._toplats[j],
-                           self._topdeps[j])
-                P1 = Point(self._toplons[j + 1],
-                           self._toplats[j + 1],
-                           self._topdeps[j + 1])
-                P2 = Point(self._botlons[j + 1],
-                           self._botlats[j + 1],
-                           self._botdeps[j + 1])
-                P3 = Point(self._botlons[j],
-                           self._botlats[j],
-                           self._botdeps[j])
+                P0 = Point(self._toplons[ind[j]],
+                           self._toplats[ind[j]],
+                           self._topdeps[ind[j]])
+                P1 = Point(self._toplons[ind[j + 1]],
+                           self._toplats[ind[j + 1]],
+                           self._topdeps[ind[j + 1]])
+                P2 = Point(self._botlons[ind[j + 1]],
+                           self._botlats[ind[j + 1]],
+                           self._botdeps[ind[j + 1]])
+                P3 = Point(self._botlons[ind[j]],
+                           self._botlats[ind[j]],
+                           self._botdeps[ind[j]])
                 qlist.append([P0, P1, P2, P3])
 
         return qlist
-- 
2.43.0


From 0ad5f65b083a0312b959e5327340526bf764e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:36 +0000
Subject: [PATCH 79/98] fix: GC2 distances of an EdgeRupture with several
 groups

The group index of an EdgeRupture has an element for each vertex, that of a
QuadRupture one for each quadrilateral; the former was used as the latter.
---
 impactutils/rupture/gc2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 6a7687a..3139d39 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -61,6 +61,10 @@ def _computeGC2(rupture, lon, lat, depth):
     # starting the loop if there is more than one group/trace.
     # -------------------------------------------------------------------------
     group_ind = rupture._getGroupIndex()
+    if len(group_ind) > len(quadlist):
+        # EdgeRupture has an index for each vertex along the top edge
+        group_ind = [g0 for g0, g1 in zip(group_ind[:-1], group_ind[1:])
+                     if g0 == g1]
 
     # Need group_ind as numpy array for sensible indexing...
     group_ind_np = np.array(group_ind)
-- 
2.43.0


From 17f59545b8d3e0edd5bbd505c0ba87a15662ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:36 +0000
Subject: [PATCH 80/98] fix: the origin of GC2 was not among the endpoints most
 distant

The second trace's first endpoint was taken from its last quadrilateral and
its last endpoint from its first one, and the two ends of one trace were
never compared with each other.
---
 impactutils/rupture/gc2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 3139d39..526b9d9 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -92,7 +92,7 @@ def _computeGC2(rupture, lon, lat, depth):
         # including trace orientations (i.e., flipped).
         # ---------------------------------------------------------------------
 
-        it_seg = it.product(it.combinations(uind, 2),
+        it_seg = it.product(it.combinations_with_replacement(uind, 2),
                             it.product([0, 1], [0, 1]))
 
         # Placeholder for the trace pair/orientation that gives the
@@ -109,9 +109,9 @@ def _computeGC2(rupture, lon, lat, depth):
             else:
                 P0 = quadlist[iq1[s0ind]][1]
             if p1ind == 0:
-                P1 = quadlist[iq1[s1ind]][0]
+                P1 = quadlist[iq0[s1ind]][0]
             else:
-                P1 = quadlist[iq0[s1ind]][1]
+                P1 = quadlist[iq1[s1ind]][1]
 
             dist = geodetic.distance(P0.longitude, P0.latitude, 0.0,
                                      P1.longitude, P1.latitude, 0.0)
-- 
2.43.0


From eb1145d98a28fba4de294417bc6717ab596b28d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:36 +0000
Subject: [PATCH 81/98] fix: Ry0 was measured from the end of the last group
 listed

With several groups the end of the rupture is the largest U of any of them.
---
 impactutils/rupture/gc2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 526b9d9..a63d8a2 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -190,6 +190,7 @@ def _computeGC2(rupture, lon, lat, depth):
 
     s_i = 0.0
     l_i = np.zeros(len(quadgc2))
+    u_end = 0.0
 
     for i in range(len(quadgc2)):
         G0, G1, G2, G3 = quadgc2[i]
@@ -244,6 +245,7 @@ def _computeGC2(rupture, lon, lat, depth):
 
             s_ij = s_ij_1 + s_ij_2
             GC2U = GC2U + w_i * (u_i + s_ij)
+            u_end = max(u_end, s_ij + l_i[i])
 
         s_i = s_i + l_i[i]
 
@@ -271,7 +273,7 @@ def _computeGC2(rupture, lon, lat, depth):
     ix = GC2U < 0
     Ry0[ix] = np.abs(GC2U[ix])
     if n_groups > 1:
-        s_i = s_ij + l_i[-1]
+        s_i = u_end
     ix = GC2U > s_i
     Ry0[ix] = GC2U[ix] - s_i
     Ry0 = Ry0.reshape(oldshape)
-- 
2.43.0


From c146f45d9bc747ddd84dcf2bc0c76f0d3f8f580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:36 +0000
Subject: [PATCH 82/98] fix: GC2 coordinates of sites exactly on the trace

The weight of the segment is infinite there and was replaced by one in the
denominator only, so that U was 0 wherever on the trace the site was.
---
 impactutils/rupture/gc2.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index a63d8a2..49bd9bd 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -55,6 +55,8 @@ def _computeGC2(rupture, lon, lat, depth):
     totweight = np.zeros(newshape, dtype=lon.dtype)
     GC2T = np.zeros(newshape, dtype=lon.dtype)
     GC2U = np.zeros(newshape, dtype=lon.dtype)
+    on_trace = np.zeros(newshape, dtype=bool)
+    U_on = np.zeros(newshape)
 
     # -------------------------------------------------------------------------
     # First sort out strike discordance and nominal strike prior to
@@ -209,9 +211,9 @@ def _computeGC2(rupture, lon, lat, depth):
         # Case 3: t_i == 0 and 0 <= u_i <= l_i
         w_i = np.zeros_like(t_i)
 
-        # To avoid division by zero in totweight later on:
-        ix = (t_i == 0) & (0 <= u_i) & (u_i <= l_i[i])
-        totweight[ix] = 1.0
+        # These sites are on the trace, so their coordinates are known
+        on_i = (t_i == 0) & (0 <= u_i) & (u_i <= l_i[i])
+        on_trace = on_trace | on_i
 
         # Case 1:
         ix = t_i != 0
@@ -227,6 +229,7 @@ def _computeGC2(rupture, lon, lat, depth):
 
         if n_groups == 1:
             GC2U = GC2U + w_i * (u_i + s_i)
+            U_on[on_i] = u_i[on_i] + s_i
         else:
             if i == 0:
                 qind = np.array(range(len(quadgc2)))
@@ -245,12 +248,17 @@ def _computeGC2(rupture, lon, lat, depth):
 
             s_ij = s_ij_1 + s_ij_2
             GC2U = GC2U + w_i * (u_i + s_ij)
+            U_on[on_i] = u_i[on_i] + s_ij
             u_end = max(u_end, s_ij + l_i[i])
 
         s_i = s_i + l_i[i]
 
+    # To avoid division by zero:
+    totweight[on_trace] = 1.0
     GC2T = GC2T / totweight
     GC2U = GC2U / totweight
+    GC2T[on_trace] = 0.0
+    GC2U[on_trace] = U_on[on_trace]
 
     # Dictionary for holding the distances
     distdict = dict()
-- 
2.43.0


From 350f2834f9365ce1b54e201a446b05ca8e487619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:03 +0000
Subject: [PATCH 83/98] fix: get_distance changed the mesh spacing of the
 rupture it was given

A rupture queried once with a coarse spacing kept it for every later query.
---
 impactutils/rupture/distance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impactutils/rupture/distance.py b/impactutils/rupture/distance.py
index 3684f23..7cc63f0 100755
--- a/impactutils/rupture/distance.py
+++ b/impactutils/rupture/distance.py
@@ -168,7 +168,10 @@ def get_distance(methods, lat, lon, dep, rupture, dx=0.5):
     Returns:
        dict: dictionary of numpy arrays of distances, size of lon.shape.
     """
-    rupture._mesh_dx = dx
+    if isinstance(rupture, EdgeRupture):
+        # Use this spacing without changing the caller's rupture
+        rupture = copy.copy(rupture)
+        rupture._mesh_dx = dx
 
     # Dictionary for holding/returning the requested distances
     distdict = dict()
-- 
2.43.0


From 1eac31495a3ed2cc7402df819ecb36cff8b01b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:25 +0000
Subject: [PATCH 84/98] fix: GC2 of sites in line with a segment lost all
 precision

The weight is the difference of two arctangents that are almost equal there,
so that the segment on whose end a site lies could get no weight at all.
---
 impactutils/rupture/gc2.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 49bd9bd..dd301b7 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -217,8 +217,11 @@ def _computeGC2(rupture, lon, lat, depth):
 
         # Case 1:
         ix = t_i != 0
-        w_i[ix] = (1.0 / t_i[ix]) * (np.arctan(
-            (l_i[i] - u_i[ix]) / t_i[ix]) - np.arctan(-u_i[ix] / t_i[ix]))
+        # (the angle that the segment subtends, in a form that stays accurate
+        # when the site is almost in line with the segment)
+        w_i[ix] = np.arctan2(
+            l_i[i] * np.abs(t_i[ix]),
+            t_i[ix]**2 + u_i[ix] * (u_i[ix] - l_i[i])) / np.abs(t_i[ix])
 
         # Case 2:
         ix = (t_i == 0) & ((u_i < 0) | (u_i > l_i[i]))
-- 
2.43.0


From f385ef96471ce2320af3cd4b2198fb5bc8da682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:58 +0000
Subject: [PATCH 85/98] fix: getDepthAtPoint was too deep unless the rupture
 reached the surface

The width was in metres and the distance down dip in kilometres, so that the
weight of the top edge was always almost one.
---
 impactutils/rupture/quad_rupture.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index d40cf8d..db90bb6 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -146,8 +146,8 @@ class QuadRupture(Rupture):
         # dot product
         sxdd = ddn.dot(s0sx)
 
-        # get width of quad (convert from km to m)
-        w = get_quad_width(quad) * 1000
+        # get width of quad (km)
+        w = get_quad_width(quad)
 
         # Get weights for top and bottom edge depths
         N = get_quad_normal(quad)
@@ -158,7 +158,7 @@ class QuadRupture(Rupture):
         wtb = sxdd / ws
 
         # Compute the depth of of the plane at Px:
-        depth = wtt * P0.z + wtb * P3.z * 1000
+        depth = wtt * P0.z + wtb * P3.z
 
         return depth
 
-- 
2.43.0


From 9175a30d26aeb2b89e5741a9211f5727ddc39e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:58 +0000
Subject: [PATCH 86/98] fix: fromTrace accepted a group_index of the wrong
 length

The comparison with it was then False, and quadrilaterals were lost.
---
 impactutils/rupture/quad_rupture.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index db90bb6..68abe2c 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -260,6 +260,9 @@ class QuadRupture(Rupture):
 
         if group_index is None:
             group_index = np.array(range(len(xp0)))
+        elif len(group_index) != len(xp0):
+            raise ConsistentLengthError(
+                'group_index must have same length as trace coordinates.')
 
         # Convert dips to radians
         dips = np.radians(dips)
-- 
2.43.0


From 3f1fc31bca8a24918e6028bf68be063e3205e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:58 +0000
Subject: [PATCH 87/98] fix: EdgeRupture.fromArrays accepted arrays of
 different length

Depending on which one was longer, vertices were lost or an IndexError was
raised; QuadRupture raises ConsistentLengthError.
---
 impactutils/rupture/edge_rupture.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index 9f0126b..328ea1e 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -9,6 +9,7 @@ from openquake.hazardlib.geo.point import Point
 
 from impactutils.vectorutils.ecef import latlon2ecef
 from impactutils.vectorutils.vector import Vector
+from impactutils.exceptions import ConsistentLengthError
 from impactutils.time.ancient_time import HistoricTime
 from impactutils.rupture.base import Rupture
 from impactutils.rupture import constants
@@ -142,6 +143,13 @@ class EdgeRupture(Rupture):
         else:
             group_index = np.zeros_like(toplons)
 
+        if not (len(toplons) == len(toplats) == len(topdeps) ==
+                len(botlons) == len(botlats) == len(botdeps) ==
+                len(group_index)):
+            raise ConsistentLengthError(
+                'All arrays specifying edge vertices must have the same '
+                'length.')
+
         coords = []
         u_groups = np.unique(group_index)
         n_groups = len(u_groups)
-- 
2.43.0


From c6f412928724f8be2ff11e8ef1be27b0138f9cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:17 +0000
Subject: [PATCH 88/98] fix: getDepthAtPoint of a vertical quadrilateral was
 millions of kilometers

The distance down dip was divided by a horizontal width of zero.
---
 impactutils/rupture/quad_rupture.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index 68abe2c..9cc2977 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -154,8 +154,9 @@ class QuadRupture(Rupture):
         V = get_vertical_vector(quad)
         dip = np.degrees(np.arccos(Vector.dot(N, V)))
         ws = (w * np.cos(np.radians(dip)))
-        wtt = (ws - sxdd) / ws
-        wtb = sxdd / ws
+        # A vertical quad has no horizontal width; do not leave its depth range
+        wtb = np.clip(sxdd / np.max([ws, SMALL_DISTANCE]), 0.0, 1.0)
+        wtt = 1.0 - wtb
 
         # Compute the depth of of the plane at Px:
         depth = wtt * P0.z + wtb * P3.z
-- 
2.43.0


From 3f27ebfa40ac3d2fce1363c019059dbe2939be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:40 +0000
Subject: [PATCH 89/98] fix: plot_rupture_wire3d refused every 3-D axes it was
 given

---
 impactutils/rupture/plotrupture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/plotrupture.py b/impactutils/rupture/plotrupture.py
index 1426bd8..8b182e2 100644
--- a/impactutils/rupture/plotrupture.py
+++ b/impactutils/rupture/plotrupture.py
@@ -1,7 +1,7 @@
 import numpy as np
 import matplotlib.pyplot as plt
 import cartopy.crs as ccrs
-from mpl_toolkits.mplot3d import Axes3D  # noqa
+from mpl_toolkits.mplot3d import Axes3D
 
 
 MAP_WIDTH = 10.0  # map width in degrees
@@ -27,7 +27,7 @@ def plot_rupture_wire3d(rupture, ax=None):
         fig = plt.figure()
         ax = fig.add_subplot(111, projection='3d')
     else:
-        if 'xlim3d' not in list(ax.properties().keys()):
+        if not isinstance(ax, Axes3D):
             raise TypeError(
                 'Non-3d axes object passed to plot() method.')
     for quad in rupture.getQuadrilaterals():
-- 
2.43.0


From aa78c7103b529ed1bf21c36dcfd1a287fe8bb3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:57 +0000
Subject: [PATCH 90/98] fix: SCPClient could not be used again after a failed
 transfer

---
 impactutils/extern/scp/scp.py | 41 ++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 1721b24..d9a8d9b 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -142,19 +142,21 @@ class SCPClient(object):
         self._pushed = 0
         self.channel.settimeout(self.socket_timeout)
         scp_command = (b'scp -t ', b'scp -r -t ')[recursive]
-        self.channel.exec_command(scp_command +
-                                  self.sanitize(asbytes(remote_path)))
-        self._recv_confirm()
-
-        if not isinstance(files, (list, tuple)):
-            files = [files]
+        try:
+            self.channel.exec_command(scp_command +
+                                      self.sanitize(asbytes(remote_path)))
+            self._recv_confirm()
 
-        if recursive:
-            self._send_recursive(files)
-        else:
-            self._send_files(files)
+            if not isinstance(files, (list, tuple)):
+                files = [files]
 
-        self.close()
+            if recursive:
+                self._send_recursive(files)
+            else:
+                self._send_files(files)
+        finally:
+            # a session serves one transfer only, even if it fails
+            self.close()
 
     def get(self, remote_path, local_path='',
             recursive=False, preserve_times=False):
@@ -188,13 +190,16 @@ class SCPClient(object):
         self.channel = self._open()
         self._pushed = 0
         self.channel.settimeout(self.socket_timeout)
-        self.channel.exec_command(b"scp" +
-                                  rcsv +
-                                  prsv +
-                                  b" -f " +
-                                  b' '.join(remote_path))
-        self._recv_all()
-        self.close()
+        try:
+            self.channel.exec_command(b"scp" +
+                                      rcsv +
+                                      prsv +
+                                      b" -f " +
+                                      b' '.join(remote_path))
+            self._recv_all()
+        finally:
+            # a session serves one transfer only, even if it fails
+            self.close()
 
     def _open(self):
         """
-- 
2.43.0


From 726199003c40aeb3df84d33c01dce1e4afcaa8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:57 +0000
Subject: [PATCH 91/98] fix: SCPClient gave files the time of an earlier
 transfer that failed

---
 impactutils/extern/scp/scp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index d9a8d9b..c0facaa 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -190,6 +190,9 @@ class SCPClient(object):
         self.channel = self._open()
         self._pushed = 0
         self.channel.settimeout(self.socket_timeout)
+        # nothing is left over from an earlier transfer that failed
+        self._utime = None
+        self._dirtimes = {}
         try:
             self.channel.exec_command(b"scp" +
                                       rcsv +
-- 
2.43.0


From a46c8775208d6312fa8789c7b60399212f47d8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:02 +0000
Subject: [PATCH 92/98] fix: get_recent_timezone_data downloaded the last link
 of a page without the data set

---
 impactutils/time/timeutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index e3c9fe8..1a52b54 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -43,9 +43,9 @@ def get_recent_timezone_data(outdir):
     link = None
     for anchor in soup.find_all('a'):
         if 'href' in anchor.attrs:
-            link = anchor.attrs['href']
-            if link.find('timezones.shapefile.zip') > -1:
-                link = parse.urljoin('https://github.com', link)
+            href = anchor.attrs['href']
+            if href.find('timezones.shapefile.zip') > -1:
+                link = parse.urljoin('https://github.com', href)
                 break
 
     if link is None:
-- 
2.43.0


From 6cb4461fab0c7ea13b2e9e3a467511cd208409a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:02 +0000
Subject: [PATCH 93/98] fix: get_recent_timezone_data deleted its output
 directory, or failed, depending on the folders in the archive

---
 impactutils/time/timeutils.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index 1a52b54..852f185 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -60,18 +60,16 @@ def get_recent_timezone_data(outdir):
     f.close()
     myzip = zipfile.ZipFile(outfile, 'r')
     shpfile = None
-    for fpath in myzip.namelist():
-        fbase, fname = os.path.split(fpath)
+    for info in myzip.infolist():
+        if info.is_dir():
+            continue
+        fname = os.path.split(info.filename)[1]
         outfile = os.path.join(outdir, fname)
-        actual_outfile = myzip.extract(fpath, path=outdir)
-        if actual_outfile != outfile:
-            shutil.move(actual_outfile, outfile)
+        with myzip.open(info) as fsrc, open(outfile, 'wb') as fdst:
+            shutil.copyfileobj(fsrc, fdst)
 
         if fname.endswith('.shp'):
             shpfile = outfile
-    tmpdir = os.path.join(outdir, fbase)
-    if os.path.isdir(tmpdir):
-        shutil.rmtree(tmpdir)
     myzip.close()
     return shpfile
 
-- 
2.43.0


From 1b7c1e0c8d5e74b7649e3cc61f3bd532dc6241a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:43 +0000
Subject: [PATCH 94/98] fix: a failed city download left its scratch folder
 behind

---
 impactutils/mapping/city.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 94245dd..3d4ecb3 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -5,6 +5,7 @@ import tempfile
 import sys
 import io
 import os.path
+import shutil
 
 from impactutils.extern.openquake.geodetic import geodetic_distance
 import pandas as pd
@@ -29,7 +30,11 @@ def _fetchGeoNames():
     f = io.BytesIO(data)
     myzip = zipfile.ZipFile(f)
     fdir = tempfile.mkdtemp()
-    myzip.extract('cities1000.txt', fdir)
+    try:
+        myzip.extract('cities1000.txt', fdir)
+    except Exception:
+        shutil.rmtree(fdir)
+        raise
     myzip.close()
     return os.path.join(fdir, 'cities1000.txt')
 
@@ -127,7 +132,13 @@ class Cities(object):
                   'iscap': [],
                   'pop': []}
         f = open(cityfile, 'rt', encoding='latin-1')
-        for line in f.readlines():
+        lines = f.readlines()
+        f.close()
+        if delete_folder:
+            fdir, bname = os.path.split(cityfile)
+            os.remove(cityfile)
+            os.rmdir(fdir)
+        for line in lines:
             parts = line.split('\t')
             tname = parts[2].strip()
             if not tname:
@@ -143,11 +154,6 @@ class Cities(object):
             iscap = (capfield == CAPFLAG1) or (capfield == CAPFLAG2)
             mydict['iscap'].append(iscap)
             mydict['pop'].append(int(parts[14].strip()))
-        f.close()
-        if delete_folder:
-            fdir, bname = os.path.split(cityfile)
-            os.remove(cityfile)
-            os.rmdir(fdir)
         df = pd.DataFrame.from_dict(mydict)
         return cls(df)
 
-- 
2.43.0


From 5a7026b22ae8182ac2a917a5440dff2ea5d9a24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:55 +0000
Subject: [PATCH 95/98] fix: Point.to_polygon used a projection helper that
 openquake no longer has

---
 impactutils/extern/openquake/point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/extern/openquake/point.py b/impactutils/extern/openquake/point.py
index 4943d8f..7ddd3d0 100644
--- a/impactutils/extern/openquake/point.py
+++ b/impactutils/extern/openquake/point.py
@@ -269,7 +269,7 @@ class Point(object):
         # avoid circular imports
         from openquake.hazardlib.geo.polygon import Polygon
         # get a projection that is centered in the point
-        proj = geo_utils.get_orthographic_projection(
+        proj = geo_utils.OrthographicProjection(
             self.longitude, self.longitude, self.latitude, self.latitude
         )
         # create a shapely object from a projected point coordinates,
-- 
2.43.0


From 63409857d88a8e0cf03791c47ff618b92a1445be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 96/98] fix: Point.from_vector called a conversion that takes a
 table of vectors with a single one

---
 impactutils/extern/openquake/point.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/extern/openquake/point.py b/impactutils/extern/openquake/point.py
index 7ddd3d0..d96f44c 100644
--- a/impactutils/extern/openquake/point.py
+++ b/impactutils/extern/openquake/point.py
@@ -312,4 +312,6 @@ class Point(object):
         :returns:
             A :class:`Point` object created from those coordinates.
         """
-        return cls(*geo_utils.cartesian_to_spherical(vector))
+        [lon], [lat], [depth] = geo_utils.cartesian_to_spherical(
+            numpy.array([vector], dtype=float))
+        return cls(lon, lat, depth)
-- 
2.43.0


From b1f39405e438a2a6ab89365dec6d044a5be9dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 97/98] fix: the vendored geometry helpers imported names that
 openquake no longer has

---
 impactutils/extern/openquake/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/impactutils/extern/openquake/utils.py b/impactutils/extern/openquake/utils.py
index ab9944b..8970f14 100644
--- a/impactutils/extern/openquake/utils.py
+++ b/impactutils/extern/openquake/utils.py
@@ -31,8 +31,7 @@ import shapely.geometry
 
 from openquake.hazardlib.geo import geodetic
 from openquake.hazardlib.geo.geodetic import (
-    EARTH_RADIUS, geodetic_distance, min_idx_dst)
-from openquake.baselib.slots import with_slots
+    EARTH_RADIUS, geodetic_distance)
 
 SphericalBB = collections.namedtuple('SphericalBB', 'west east north south')
 
@@ -77,8 +76,9 @@ class GeographicObjects(object):
             min_dist = geodetic_distance(
                 lon, lat, self.lons[idx], self.lats[idx])
         else:
-            zeros = numpy.zeros_like(self.lons)
-            idx, min_dist = min_idx_dst(self.lons, self.lats, zeros, lon, lat)
+            dists = geodetic_distance(self.lons, self.lats, lon, lat)
+            idx = dists.argmin()
+            min_dist = dists[idx]
         return self.objects[idx], min_dist
 
 
@@ -184,13 +184,12 @@ def get_spherical_bounding_box(lons, lats):
     return SphericalBB(west, east, north, south)
 
 
-@with_slots
 class OrthographicProjection(object):
     """
     Callable object to compute orthographic projections. See the docstring
     of get_orthographic_projection.
     """
-    _slots_ = ('west east north south lambda0 phi0 '
+    __slots__ = ('west east north south lambda0 phi0 '
                'cos_phi0 sin_phi0 sin_pi_over_4').split()
 
     @classmethod
-- 
2.43.0


From 726f20bfff22ddbf1c40c6795d218a7d80aa5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 98/98] fix: fix_bounding_box_idl swapped the sides of a box
 from west to east of the date line

---
 impactutils/extern/openquake/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/extern/openquake/utils.py b/impactutils/extern/openquake/utils.py
index 8970f14..778e676 100644
--- a/impactutils/extern/openquake/utils.py
+++ b/impactutils/extern/openquake/utils.py
@@ -509,6 +509,6 @@ def fix_bounding_box_idl(bb, fix_idl=False):
         elif min_lon > 0 and max_lon > 0:
             return min_lon, min_lat, max_lon, max_lat
         elif min_lon > 0 and max_lon < 0:
-            return max_lon + 360, min_lat, min_lon, max_lat
+            return min_lon, min_lat, max_lon + 360, max_lat
     else:
         return min_lon, min_lat, max_lon, max_lat
-- 
2.43.0

