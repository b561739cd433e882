From 5e3a20c6ab68c1d470da4175672b213115cbedf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:53 +0000
Subject: [PATCH 01/66] fix: sender file/property lists are its own and bad
 paths raise FileNotFoundError

addFiles and the directory error paths used undefined names (NameError), and
addFiles/addProperty changed the caller's list and dictionary, so senders
built from the same objects affected each other.
---
 impactutils/transfer/sender.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/sender.py b/impactutils/transfer/sender.py
index f402a13..b2095ef 100644
--- a/impactutils/transfer/sender.py
+++ b/impactutils/transfer/sender.py
@@ -48,7 +48,9 @@ class Sender(object):
                 cancel() actions, this allows the user to define what that
                 file is called.
         """
-        self._properties = properties
+        # keep our own copy, so that senders built from the same dictionary
+        # (and the caller) cannot affect each other
+        self._properties = None if properties is None else dict(properties)
         for prop in self._required_properties:
             if prop not in self._properties:
                 raise RequiredArgumentError(
@@ -65,9 +67,9 @@ class Sender(object):
         if local_directory is not None:
             if not os.path.isdir(local_directory):
                 raise FileNotFoundError(
-                    f'Input directory {directory} could not be found')
+                    f'Input directory {local_directory} could not be found')
         if local_files is not None:
-            self._local_files = local_files
+            self._local_files = list(local_files)
         else:
             self._local_files = []
 
@@ -82,7 +84,7 @@ class Sender(object):
         self._properties[key] = value
 
     def addFiles(self, local_files):
-        for f in files:
+        for f in local_files:
             if not os.path.isfile(f):
                 raise FileNotFoundError(f'Input file {f} could not be found')
         self._local_files += local_files
@@ -90,7 +92,7 @@ class Sender(object):
     def changeDirectory(self, local_directory, directory_alias=None):
         if not os.path.isdir(local_directory):
             raise FileNotFoundError(
-                f'Input directory {directory} could not be found')
+                f'Input directory {local_directory} could not be found')
         self._local_directory = local_directory
         self._directory_alias = directory_alias
 
-- 
2.43.0


From aa5a607b048be6b34f046ad860645f43aaf186a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:36 +0000
Subject: [PATCH 02/66] fix: an unreadable sub-directory is reported instead of
 silently not sent

---
 impactutils/transfer/sender.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/impactutils/transfer/sender.py b/impactutils/transfer/sender.py
index b2095ef..05d9872 100644
--- a/impactutils/transfer/sender.py
+++ b/impactutils/transfer/sender.py
@@ -107,7 +107,13 @@ class Sender(object):
         allfiles = []
         if not self._local_directory:
             return allfiles
-        for root, dirs, files in os.walk(self._local_directory):
+
+        def _raise(error):
+            raise error
+
+        # by default os.walk() silently skips directories it cannot read
+        for root, dirs, files in os.walk(self._local_directory,
+                                         onerror=_raise):
             for fname in files:
                 filename = os.path.join(root, fname)
                 allfiles.append(filename)
-- 
2.43.0


From c0095dee30cab043901a653e882cb5b95f63f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:36 +0000
Subject: [PATCH 03/66] fix: copy sender counts the files of a directory once

---
 impactutils/transfer/copysender.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/impactutils/transfer/copysender.py b/impactutils/transfer/copysender.py
index 891bd02..a73feec 100755
--- a/impactutils/transfer/copysender.py
+++ b/impactutils/transfer/copysender.py
@@ -76,9 +76,6 @@ class CopySender(Sender):
                     filename, remote_folder, local_folder=local_folder)
                 nfiles += 1
 
-            nfiles += sum([len(files)
-                           for r, d, files in os.walk(local_folder)])
-
         # copy files to remote location
         for filename in self._local_files:
             self._copy_file_with_path(filename, remote_folder)
-- 
2.43.0


From a33152fda5705965778fbc1cb97bb4648e75f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:36 +0000
Subject: [PATCH 04/66] fix: copy sender keeps relative paths for any directory
 spelling

Removing the folder name from the file name by string replacement broke when
it occurs more than once or is relative, and a relative remote_directory was
taken as absolute for directories.
---
 impactutils/transfer/copysender.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/copysender.py b/impactutils/transfer/copysender.py
index a73feec..2d09ee4 100755
--- a/impactutils/transfer/copysender.py
+++ b/impactutils/transfer/copysender.py
@@ -133,11 +133,8 @@ class CopySender(Sender):
                 name (not preserving path) into remote_folder.
         """
         if local_folder is not None:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
-            remote_parts = remote_folder.strip(os.path.sep).split(os.path.sep)
-            all_parts = [os.path.sep] + remote_parts + local_parts
-            remote_file = os.path.join(*all_parts)
+            remote_file = os.path.join(
+                remote_folder, os.path.relpath(local_file, local_folder))
             root, rfile = os.path.split(remote_file)
             if not os.path.isdir(root):
                 os.makedirs(root)
-- 
2.43.0


From d7869649f97db6e7442623e0e4fcc73d6c3bb417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:36 +0000
Subject: [PATCH 05/66] fix: concurrent copy senders do not share temporary
 files or race on directories

---
 impactutils/transfer/copysender.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/impactutils/transfer/copysender.py b/impactutils/transfer/copysender.py
index 2d09ee4..ce3437f 100755
--- a/impactutils/transfer/copysender.py
+++ b/impactutils/transfer/copysender.py
@@ -4,6 +4,7 @@
 import shutil
 import os.path
 import datetime
+import uuid
 
 # local imports
 from .sender import Sender
@@ -65,7 +66,7 @@ class CopySender(Sender):
 
         nfiles = 0
         if not os.path.isdir(remote_folder):
-            os.makedirs(remote_folder)
+            os.makedirs(remote_folder, exist_ok=True)
         if self._local_directory:
             local_folder = self._local_directory
             # recursively find all of the files locally, then
@@ -137,11 +138,13 @@ class CopySender(Sender):
                 remote_folder, os.path.relpath(local_file, local_folder))
             root, rfile = os.path.split(remote_file)
             if not os.path.isdir(root):
-                os.makedirs(root)
+                os.makedirs(root, exist_ok=True)
         else:
             root, tfile = os.path.split(local_file)
             remote_file = os.path.join(remote_folder, tfile)
+        # the name must be unique, other senders may be writing the same file
         remote_tmp_file = remote_file + '.tmp_' + \
-            datetime.datetime.utcnow().strftime('%Y%m%d%H%M%S')
+            datetime.datetime.utcnow().strftime('%Y%m%d%H%M%S') + \
+            '_' + uuid.uuid4().hex
         shutil.copyfile(local_file, remote_tmp_file)
         os.rename(remote_tmp_file, remote_file)
-- 
2.43.0


From c7e8948b6e447e19841651510203ef996d389fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:33 +0000
Subject: [PATCH 06/66] fix: copy senders racing to remove the same cancel file
 do not fail

---
 impactutils/transfer/copysender.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impactutils/transfer/copysender.py b/impactutils/transfer/copysender.py
index ce3437f..fa942de 100755
--- a/impactutils/transfer/copysender.py
+++ b/impactutils/transfer/copysender.py
@@ -62,7 +62,10 @@ class CopySender(Sender):
         # remove any previous cancel files sent to remote_folder
         cancelfile = os.path.join(remote_folder, self._cancelfile)
         if os.path.isfile(cancelfile):
-            os.remove(cancelfile)
+            try:
+                os.remove(cancelfile)
+            except FileNotFoundError:
+                pass  # another sender was faster
 
         nfiles = 0
         if not os.path.isdir(remote_folder):
-- 
2.43.0


From bc7f190858bd4bf9993a0402e5dab8cc449414e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:03 +0000
Subject: [PATCH 07/66] fix: FTP sender reports files of a directory that could
 not be uploaded

---
 impactutils/transfer/ftpsender.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index f736392..f0da8b6 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -83,19 +83,16 @@ class FTPSender(Sender):
                 local_directory = self._local_directory
                 allfiles = self.getAllLocalFiles()
                 for filename in allfiles:
-                    try:
-                        self._copy_file_with_path(
-                            ftp, filename, remote_folder,
-                            local_folder=local_directory)
-                        nfiles += 1
-                    except:
-                        x = 1
+                    self._copy_file_with_path(
+                        ftp, filename, remote_folder,
+                        local_folder=local_directory)
+                    nfiles += 1
 
             ftp.quit()
             return (nfiles, f'{int(nfiles):d} files were sent successfully to {remote_host} {remote_folder}')
         except Exception as obj:
             raise Exception(
-                f'Could not send to {host}.  Error "{str(obj)}"')
+                f'Could not send to {remote_host}.  Error "{str(obj)}"')
 
     def cancel(self):
         """
-- 
2.43.0


From 12e8de34e10a7ce02ed0d0584b157b20700d841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:03 +0000
Subject: [PATCH 08/66] fix: FTP sender keeps relative paths for any directory
 spelling

---
 impactutils/transfer/ftpsender.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index f0da8b6..d29ced0 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -223,10 +223,10 @@ class FTPSender(Sender):
         """
         if local_folder is None:
             ftp.cwd(remote_folder)
-            self.__sendfile(filename, ftp)
+            self.__sendfile(local_file, ftp)
         else:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
+            local_parts = os.path.relpath(
+                local_file, local_folder).split(os.path.sep)
             remote_parts = self._split(remote_folder)
             all_parts = remote_parts + local_parts
             remote_file = '/' + '/'.join(all_parts)
@@ -238,7 +238,8 @@ class FTPSender(Sender):
                 self._create_remote_directory(ftp, remfolder)
 
             self.__sendfile(local_file, ftp)
-            ftp.cwd(remote_folder)
+            # a relative remote folder is relative to the top level
+            ftp.cwd('/' + remote_folder.strip('/'))
 
     def __sendfile(self, filename, ftp):
         '''Internal function used to send a file using an FTP object.
-- 
2.43.0


From 899ebf561933304a329ab902263ccb5079a4b6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:03 +0000
Subject: [PATCH 09/66] fix: FTP sender uses a temporary name of its own for
 each transfer

---
 impactutils/transfer/ftpsender.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index d29ced0..1e58f8c 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -5,6 +5,7 @@ from ftplib import FTP, error_perm
 import os.path
 import shutil
 import tempfile
+import uuid
 
 # local
 from .sender import Sender
@@ -252,12 +253,15 @@ class FTPSender(Sender):
         # make a temporary file first, then rename it
         # so the poller doesn't grab it before its finished transferring.
         fbase, fpath = os.path.split(filename)  # this is a local file
-        tmpfile = fpath + '.tmp'
+        # The name is unique, so that it is neither another file we send nor
+        # the temporary file of another sender.
+        tmpfile = f'{fpath}.{uuid.uuid4().hex}.tmp'
         cmd = "STOR " + tmpfile
         # we don't tell the ftp server about the local path to the file
 
         # actually send the file
-        ftp.storbinary(cmd, open(filename, "rb"), 1024)
+        with open(filename, "rb") as fileobj:
+            ftp.storbinary(cmd, fileobj, 1024)
         # rename it to the desired destination
         ftp.rename(tmpfile, fpath)
 
-- 
2.43.0


From 9f6b13bc14bf47dd0a788367d9502071420257fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:03 +0000
Subject: [PATCH 10/66] fix: concurrent FTP senders may create the same
 directory

---
 impactutils/transfer/ftpsender.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index 1e58f8c..813f738 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -189,6 +189,10 @@ class FTPSender(Sender):
                 except error_perm as msg:
                     try:
                         ftp.mkd(directory)
+                    except error_perm as msg:
+                        # somebody else may just have created it
+                        pass
+                    try:
                         ftp.cwd(directory)
                     except error_perm as msg:
                         raise Exception(
-- 
2.43.0


From 0d8d19fddae7000959f3fe01a9c6fec31797e7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:03 +0000
Subject: [PATCH 11/66] fix: FTP cancel writes the given content and accepts a
 relative folder

---
 impactutils/transfer/ftpsender.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index 813f738..8aee584 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -95,7 +95,7 @@ class FTPSender(Sender):
             raise Exception(
                 f'Could not send to {remote_host}.  Error "{str(obj)}"')
 
-    def cancel(self):
+    def cancel(self, cancel_content=None):
         """
         Create a cancel file (named as indicated in constructor "cancelfile"
         parameter) in remote_directory on remote_host.
@@ -116,8 +116,9 @@ class FTPSender(Sender):
         try:
             tfile = os.path.join(tempdir, self._cancelfile)  # local file
             f = open(tfile, 'wt')
+            if cancel_content is not None:
+                f.write(cancel_content)
             f.close()
-            ftp.cwd(remote_folder)
             self.__sendfile(tfile, ftp)
         except Exception as e:
             raise Exception(
-- 
2.43.0


From 4449a6e349c91a9e74a5388b18df042c4c7baa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:52 +0000
Subject: [PATCH 12/66] fix: e-mail batches hold max_bcc recipients (max_bcc=1
 never ended)

---
 impactutils/transfer/emailsender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 35903be..8f82a72 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -287,7 +287,7 @@ def _split_addresses(recipients, max_bcc, primary_recipient):
     iend = max_bcc
     while istart < len(recipients):
         address = primary_recipient
-        iend = min(len(recipients), istart + (max_bcc - 1))
+        iend = min(len(recipients), istart + max_bcc)
         bcclist = recipients[istart:iend]
         tuples.append((address, bcclist))
         istart = iend
-- 
2.43.0


From 2126d26e48eafd4f600daa6c99c4b18614e28769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:52 +0000
Subject: [PATCH 13/66] fix: e-mail fails over for exactly the recipients not
 accepted yet

---
 impactutils/transfer/emailsender.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 8f82a72..7202dbb 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -309,6 +309,11 @@ def _send_email(sender, address, msgtxt, smtp_servers):
     """
     messageSent = False
     errormsg = []
+    # recipients that no server has accepted so far (the primary recipient
+    # may be empty)
+    if isinstance(address, str):
+        address = [address]
+    remaining = [recipient for recipient in address if recipient]
     # let's try all of the email servers we know about before
     # admitting defeat...
     servername = ''
@@ -317,10 +322,17 @@ def _send_email(sender, address, msgtxt, smtp_servers):
         try:
             session = smtplib.SMTP(server)
             resp, servername = session.helo()
-            session.sendmail(sender, address, msgtxt)
-            messageSent = True
-            session.quit()
-            break
+            refused = session.sendmail(sender, remaining, msgtxt)
+            # those who were accepted must not get the message again
+            remaining = [addr for addr in remaining if addr in refused]
+            try:
+                session.quit()
+            except Exception:
+                pass  # the message has been accepted
+            if not remaining:
+                messageSent = True
+                break
+            errormsg.append({server: f'Recipients refused: {remaining}'})
         except smtplib.SMTPRecipientsRefused:
             errormsg.append({server: 'Recipients refused'})
             continue
@@ -339,7 +351,7 @@ def _send_email(sender, address, msgtxt, smtp_servers):
                 {server: 'Connection to server failed (possible timeout)'})
 
     if not messageSent:
-        errstr = (f'The message to {address} was not sent. '
+        errstr = (f'The message to {remaining} was not sent. '
                   'The server error messages are below:')
         for errdict in errormsg:
             errstr = errstr + str(errdict)
-- 
2.43.0


From 583e4bb41feb7337505e9c44e593d62474dc261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:52 +0000
Subject: [PATCH 14/66] fix: e-mail does not disclose the Bcc recipients in a
 header

---
 impactutils/transfer/emailsender.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 7202dbb..9da26a4 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -187,9 +187,6 @@ class EmailSender(Sender):
                     msg['To'] = address
                     msg['Subject'] = subject
                     msg['Date'] = email.utils.formatdate()
-                    if bcc is not None:
-                        bccstr = ', '.join(bcc)
-                        msg['Bcc'] = bccstr
                     msgtxt = msg.as_string()
                 else:
                     msgtxt = _get_encoded_message(
@@ -258,8 +255,6 @@ class EmailSender(Sender):
             msg['To'] = address
             msg['Subject'] = subject
             msg['Date'] = email.utils.formatdate()
-            bccstr = ', '.join(bcc)
-            msg['Bcc'] = bccstr
             msgtxt = msg.as_string()
             all_addresses = [address] + bcc
             _send_email(sender, all_addresses, msgtxt, smtp_servers)
@@ -381,8 +376,8 @@ def _get_encoded_message(address, subject, text, sender, attachments,
     outer['To'] = address
     outer['From'] = sender
     outer['Date'] = email.utils.formatdate()
-    if bcc is not None:
-        outer['Bcc'] = ', '.join(bcc)
+    # the Bcc recipients are only in the envelope: a header would be seen by
+    # everybody
 
     # insert the text into the email as a MIMEText part...
     firstSubMsg = Message()
-- 
2.43.0


From 5dfd2152a139f21061b8008b36617b211c208888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:52 +0000
Subject: [PATCH 15/66] fix: e-mail of a directory without other files, and its
 file count

---
 impactutils/transfer/emailsender.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 9da26a4..d2622e4 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -149,10 +149,12 @@ class EmailSender(Sender):
         smtp_servers = self._properties['smtp_servers']
         # send email to all recipients, attaching files as necessary or zipping
         # into one file to be attached.
+        address = None
         try:
             address_tuples = _split_addresses(
                 self._properties['recipients'], max_bcc,
                 primary_recipient)
+            allfiles = self.getAllLocalFiles()
 
             for address, bcc in address_tuples:
                 attachments = []
@@ -166,7 +168,6 @@ class EmailSender(Sender):
                             root, arcname = os.path.split(filename)
                             myzip.write(filename, arcname)
                         if self._local_directory:
-                            allfiles = self.getAllLocalFiles()
                             for filename in allfiles:
                                 arcname = filename.replace(
                                     self._local_directory, '')
@@ -177,8 +178,7 @@ class EmailSender(Sender):
                         for filename in self._local_files:
                             attachments.append(filename)
 
-                            all_files = self.getAllLocalFiles()
-                        for filename in all_files:
+                        for filename in allfiles:
                             attachments.append(filename)
 
                 if not len(attachments):
@@ -201,10 +201,7 @@ class EmailSender(Sender):
                 f'Could not send mail to {address} with EmailSender. "{str(e)}"')
         finally:
             shutil.rmtree(tempdir)
-        nfiles = len(self._local_files)
-        if self._local_directory is not None:
-            nfiles += sum([len(files)
-                           for r, d, files in os.walk(self._local_directory)])
+        nfiles = len(self._local_files) + len(allfiles)
         num_files = int(nfiles)
         num_recipients = int(len(self._properties['recipients']))
         fmt = f'{num_files:d} files successfully sent to {num_recipients:d} recipients.'
-- 
2.43.0


From ff640b874c8dbbd7a6ad15fd1e7452ca6e8b27ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:52 +0000
Subject: [PATCH 16/66] fix: e-mailed zip files keep the relative paths

---
 impactutils/transfer/emailsender.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index d2622e4..6da5c04 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -169,8 +169,8 @@ class EmailSender(Sender):
                             myzip.write(filename, arcname)
                         if self._local_directory:
                             for filename in allfiles:
-                                arcname = filename.replace(
-                                    self._local_directory, '')
+                                arcname = os.path.relpath(
+                                    filename, self._local_directory)
                                 myzip.write(filename, arcname)
                         myzip.close()
                         attachments.append(zfilename)
-- 
2.43.0


From ca50942cff23d813e32502104550e60d6a6297c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:52 +0000
Subject: [PATCH 17/66] fix: e-mail texts and attachments of any type arrive
 unchanged

---
 impactutils/transfer/emailsender.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 6da5c04..43a7ee5 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -4,7 +4,6 @@ import shutil
 import smtplib
 import mimetypes
 from email import encoders
-from email.message import Message
 from email.mime.text import MIMEText
 from email.mime.audio import MIMEAudio
 from email.mime.base import MIMEBase
@@ -377,11 +376,7 @@ def _get_encoded_message(address, subject, text, sender, attachments,
     # everybody
 
     # insert the text into the email as a MIMEText part...
-    firstSubMsg = Message()
-    firstSubMsg["Content-type"] = "text/plain"
-    firstSubMsg["Content-transfer-encoding"] = "7bit"
-    firstSubMsg.set_payload(text)
-    outer.attach(firstSubMsg)
+    outer.attach(MIMEText(text))
 
     for attachment in attachments:
         ctype, encoding = mimetypes.guess_type(attachment)
@@ -391,12 +386,10 @@ def _get_encoded_message(address, subject, text, sender, attachments,
             # use a generic bag-of-bits type.
             ctype = 'application/octet-stream'
         maintype, subtype = ctype.split('/', 1)
-        if maintype == 'text':
-            fp = open(attachment)
-            # Note: we should handle calculating the charset
-            msg = MIMEText(fp.read(), _subtype=subtype)
-            fp.close()
-        elif maintype == 'image':
+        if maintype in ('message', 'multipart'):
+            # these would be taken apart by the reader
+            maintype, subtype = 'application', 'octet-stream'
+        if maintype == 'image':
             fp = open(attachment, 'rb')
             msg = MIMEImage(fp.read(), _subtype=subtype)
             fp.close()
-- 
2.43.0


From ab8bbbc821d6a7fdcef5852f7a787726469ab629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:01 +0000
Subject: [PATCH 18/66] fix: web-service errors are raised and unavailable
 services retried

---
 impactutils/comcat/query.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impactutils/comcat/query.py b/impactutils/comcat/query.py
index 98f7c3a..e0ba060 100644
--- a/impactutils/comcat/query.py
+++ b/impactutils/comcat/query.py
@@ -1,6 +1,7 @@
 # stdlib imports
 from datetime import datetime
 import json
+import time
 from urllib import request
 from urllib.error import HTTPError
 import warnings
@@ -32,6 +33,7 @@ def _get_url_data(url, timeout=TIMEOUT):
             except Exception as msg:
                 raise Exception(
                     f'Error downloading data from url {url}.  "{msg}".')
+        raise
 
 
 class GeoServe(object):
-- 
2.43.0


From bc25c82f04e4223730d154c3156e26f983272a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:01 +0000
Subject: [PATCH 19/66] fix: downloaded ShakeMap grid is written exactly as
 sent

---
 impactutils/comcat/query.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impactutils/comcat/query.py b/impactutils/comcat/query.py
index e0ba060..5d21333 100644
--- a/impactutils/comcat/query.py
+++ b/impactutils/comcat/query.py
@@ -240,7 +240,8 @@ class ComCatInfo(object):
             shake_url = self._jdict['properties']['products']['shakemap'][0]['contents']['download/grid.xml']['url']
             if local_file is not None:
                 data = _get_url_data(shake_url)
-                f = open(local_file, 'w')
+                # exactly what was sent: no newline or encoding conversion
+                f = open(local_file, 'w', encoding='utf-8', newline='')
                 f.write(data)
                 f.close()
                 return local_file
-- 
2.43.0


From 1504b79e31716586da3b79c6dbf24552c075a93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:01 +0000
Subject: [PATCH 20/66] fix: time zone download raises if the page has no link
 to the data

---
 impactutils/time/timeutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index bad0ff5..22a9172 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -43,9 +43,9 @@ def get_recent_timezone_data(outdir):
     link = None
     for anchor in soup.find_all('a'):
         if 'href' in anchor.attrs:
-            link = anchor.attrs['href']
-            if link.find('timezones.shapefile.zip') > -1:
-                link = parse.urljoin('https://github.com', link)
+            href = anchor.attrs['href']
+            if href.find('timezones.shapefile.zip') > -1:
+                link = parse.urljoin('https://github.com', href)
                 break
 
     if link is None:
-- 
2.43.0


From 93e0d26e8965889a23057e8017bde59f224e5ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:01 +0000
Subject: [PATCH 21/66] fix: time zone download leaves other files and folders
 alone

---
 impactutils/time/timeutils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index 22a9172..af942c1 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -62,16 +62,15 @@ def get_recent_timezone_data(outdir):
     shpfile = None
     for fpath in myzip.namelist():
         fbase, fname = os.path.split(fpath)
+        if fname in ('', os.curdir, os.pardir):
+            continue  # a directory
+        # write directly into outdir, other things in there are not ours
         outfile = os.path.join(outdir, fname)
-        actual_outfile = myzip.extract(fpath, path=outdir)
-        if actual_outfile != outfile:
-            shutil.move(actual_outfile, outfile)
+        with myzip.open(fpath) as src, open(outfile, 'wb') as dst:
+            shutil.copyfileobj(src, dst)
 
         if fname.endswith('.shp'):
             shpfile = outfile
-    tmpdir = os.path.join(outdir, fbase)
-    if os.path.isdir(tmpdir):
-        shutil.rmtree(tmpdir)
     myzip.close()
     return shpfile
 
-- 
2.43.0


From 9b00f0145038505ec9ebe80f2c59239e93c29723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:01 +0000
Subject: [PATCH 22/66] fix: city download removes its temporary folder when it
 fails

---
 impactutils/mapping/city.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 1c70718..2eee84d 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -5,6 +5,7 @@ import tempfile
 import sys
 import io
 import os.path
+import shutil
 
 from impactutils.extern.openquake.geodetic import geodetic_distance
 import pandas as pd
@@ -29,7 +30,11 @@ def _fetchGeoNames():
     f = io.BytesIO(data)
     myzip = zipfile.ZipFile(f)
     fdir = tempfile.mkdtemp()
-    myzip.extract('cities1000.txt', fdir)
+    try:
+        myzip.extract('cities1000.txt', fdir)
+    except BaseException:
+        shutil.rmtree(fdir)
+        raise
     myzip.close()
     return os.path.join(fdir, 'cities1000.txt')
 
@@ -115,10 +120,12 @@ class Cities(object):
         """
         CAPFLAG1 = 'PPLC'
         CAPFLAG2 = 'PPLA'
-        delete_folder = False
         if cityfile is None:
             cityfile = _fetchGeoNames()
-            delete_folder = True
+            try:
+                return cls.fromGeoNames(cityfile)
+            finally:
+                shutil.rmtree(os.path.dirname(cityfile))
 
         mydict = {'name': [],
                   'ccode': [],
@@ -144,10 +151,6 @@ class Cities(object):
             mydict['iscap'].append(iscap)
             mydict['pop'].append(int(parts[14].strip()))
         f.close()
-        if delete_folder:
-            fdir, bname = os.path.split(cityfile)
-            os.remove(cityfile)
-            os.rmdir(fdir)
         df = pd.DataFrame.from_dict(mydict)
         return cls(df)
 
-- 
2.43.0


From 20e7f74a6a8e8a31f2151c52dfcdb453c123dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:57 +0000
Subject: [PATCH 23/66] fix: SSH sender waits for its remote commands and
 reports a failed rename

---
 impactutils/transfer/securesender.py | 36 +++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index b6138fe..d151523 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -221,7 +221,25 @@ class SecureSender(Sender):
         print(f'Copying {local_file}...')
         scp.put(local_file, remote_tmp_file)
         rename_cmd = f'mv {remote_tmp_file} {remote_file}'
-        stdin, stdout, stderr = ssh.exec_command(rename_cmd)
+        status, out, err = self._run_command(ssh, rename_cmd)
+        if status != 0:
+            raise Exception(f'Could not rename {remote_tmp_file} to '
+                            f'{remote_file} on host {remote_host}: {err}')
+
+    def _run_command(self, ssh, command):
+        """Run a command on the remote system and wait until it has finished.
+
+        Args:
+            ssh: SSHClient instance.
+            command: Command line for the remote shell.
+
+        Returns:
+            Tuple of (exit status, standard output, standard error).
+        """
+        stdin, stdout, stderr = ssh.exec_command(command)
+        out = stdout.read().decode('utf-8', errors='replace').strip()
+        err = stderr.read().decode('utf-8', errors='replace').strip()
+        return (stdout.channel.recv_exit_status(), out, err)
 
     def _check_remote_folder(self, ssh, remote_folder):
         """Check to see if remote folder exists and is a directory.
@@ -235,11 +253,11 @@ class SecureSender(Sender):
             exist, is it a directory?)
         """
         chk_cmd1 = f'[ -e {remote_folder} ];echo $?'
-        stdin, stdout, stderr = ssh.exec_command(chk_cmd1)
-        exists = not int(stdout.read().decode('utf-8').strip())
+        status, out, err = self._run_command(ssh, chk_cmd1)
+        exists = not int(out)
         chk_cmd2 = f'[ -d {remote_folder} ];echo $?'
-        stdin, stdout, stderr = ssh.exec_command(chk_cmd2)
-        isdir = not int(stdout.read().decode('utf-8').strip())
+        status, out, err = self._run_command(ssh, chk_cmd2)
+        isdir = not int(out)
         return (exists, isdir)
 
     def _make_remote_folder(self, scp, ssh, remote_folder):
@@ -258,12 +276,12 @@ class SecureSender(Sender):
         if not isdir:
             if exists:
                 rm_cmd = f'rm {remote_folder}'
-                stdin, stdout, stderr = ssh.exec_command(rm_cmd)
-                stdin, stdout, stderr = ssh.exec_command(chk_cmd1)
-                exists = not int(stdout.read().decode('utf-8').strip())
+                self._run_command(ssh, rm_cmd)
+                status, out, err = self._run_command(ssh, chk_cmd1)
+                exists = not int(out)
             if not exists:
                 mk_cmd = f'mkdir -p {remote_folder}'
-                stdin, stdout, stderr = ssh.exec_command(mk_cmd)
+                self._run_command(ssh, mk_cmd)
                 exists, isdir = self._check_remote_folder(ssh, remote_folder)
                 if not isdir:
                     return False
-- 
2.43.0


From 30afb0da345aa6dd9b76fa396fbf7b0747f99e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:57 +0000
Subject: [PATCH 24/66] fix: SSH sender keeps relative paths and relative
 remote directories

---
 impactutils/transfer/securesender.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index d151523..f88567f 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -198,11 +198,8 @@ class SecureSender(Sender):
         """
         remote_host = self._properties['remote_host']
         if local_folder is not None:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
-            remote_parts = remote_folder.strip(os.path.sep).split(os.path.sep)
-            all_parts = [os.path.sep] + remote_parts + local_parts
-            remote_file = os.path.join(*all_parts)
+            remote_file = os.path.join(
+                remote_folder, os.path.relpath(local_file, local_folder))
             root, rfile = os.path.split(remote_file)
             exists, isdir = self._check_remote_folder(ssh, root)
             if not isdir:
-- 
2.43.0


From 6e022eb20b84598bc972b1847778525406a930b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:57 +0000
Subject: [PATCH 25/66] fix: SSH sender uses a temporary name of its own for
 each transfer

---
 impactutils/transfer/securesender.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index f88567f..f22d9ae 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -2,8 +2,8 @@
 
 # stdlib imports
 import os.path
-import datetime
 import getpass
+import uuid
 
 # depends on https://github.com/jbardin/scp.py
 # pip install git+git://github.com/jbardin/scp.py.git
@@ -213,8 +213,7 @@ class SecureSender(Sender):
         else:
             root, tfile = os.path.split(local_file)
             remote_file = os.path.join(remote_folder, tfile)
-        remote_tmp_file = remote_file + '.tmp_' + \
-            datetime.datetime.utcnow().strftime('%Y%m%d%H%M%S')
+        remote_tmp_file = f'{remote_file}.tmp_{uuid.uuid4().hex}'
         print(f'Copying {local_file}...')
         scp.put(local_file, remote_tmp_file)
         rename_cmd = f'mv {remote_tmp_file} {remote_file}'
-- 
2.43.0


From 3edd98d7ed85771325260ee4b21a714304df2cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:57 +0000
Subject: [PATCH 26/66] fix: SSH sender quotes file names for the remote shell

---
 impactutils/transfer/securesender.py | 37 ++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index f22d9ae..4645161 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -3,6 +3,7 @@
 # stdlib imports
 import os.path
 import getpass
+import shlex
 import uuid
 
 # depends on https://github.com/jbardin/scp.py
@@ -67,7 +68,7 @@ class SecureSender(Sender):
         nfiles = 0
         ssh = self._connect()
         # SCPCLient takes a paramiko transport as its only argument
-        scp = SCPClient(ssh.get_transport())
+        scp = SCPClient(ssh.get_transport(), sanitize=self._quote_bytes)
 
         # make sure the remote system has directory or it can be created.
         res = self._make_remote_folder(scp, ssh, remote_folder)
@@ -216,12 +217,32 @@ class SecureSender(Sender):
         remote_tmp_file = f'{remote_file}.tmp_{uuid.uuid4().hex}'
         print(f'Copying {local_file}...')
         scp.put(local_file, remote_tmp_file)
-        rename_cmd = f'mv {remote_tmp_file} {remote_file}'
+        rename_cmd = (f'mv -- {self._quote(remote_tmp_file)} '
+                      f'{self._quote(remote_file)}')
         status, out, err = self._run_command(ssh, rename_cmd)
         if status != 0:
             raise Exception(f'Could not rename {remote_tmp_file} to '
                             f'{remote_file} on host {remote_host}: {err}')
 
+    @staticmethod
+    def _quote(path):
+        """Quote a path for the remote shell (a leading ~ keeps its meaning).
+
+        Args:
+            path: Remote path.
+
+        Returns:
+            String with which the remote shell refers to exactly that path.
+        """
+        if path.startswith('~'):
+            home, sep, rest = path.partition('/')
+            return home + sep + (shlex.quote(rest) if rest else '')
+        return shlex.quote(path)
+
+    @classmethod
+    def _quote_bytes(cls, path):
+        return os.fsencode(cls._quote(os.fsdecode(path)))
+
     def _run_command(self, ssh, command):
         """Run a command on the remote system and wait until it has finished.
 
@@ -248,10 +269,11 @@ class SecureSender(Sender):
             Tuple with two booleans -- (does a file or directory of this name
             exist, is it a directory?)
         """
-        chk_cmd1 = f'[ -e {remote_folder} ];echo $?'
+        folder = self._quote(remote_folder)
+        chk_cmd1 = f'[ -e {folder} ];echo $?'
         status, out, err = self._run_command(ssh, chk_cmd1)
         exists = not int(out)
-        chk_cmd2 = f'[ -d {remote_folder} ];echo $?'
+        chk_cmd2 = f'[ -d {folder} ];echo $?'
         status, out, err = self._run_command(ssh, chk_cmd2)
         isdir = not int(out)
         return (exists, isdir)
@@ -268,15 +290,16 @@ class SecureSender(Sender):
             Boolean indicating success or failure.
         """
         exists, isdir = self._check_remote_folder(ssh, remote_folder)
-        chk_cmd1 = f'[ -d {remote_folder} ];echo $?'
+        folder = self._quote(remote_folder)
+        chk_cmd1 = f'[ -d {folder} ];echo $?'
         if not isdir:
             if exists:
-                rm_cmd = f'rm {remote_folder}'
+                rm_cmd = f'rm -- {folder}'
                 self._run_command(ssh, rm_cmd)
                 status, out, err = self._run_command(ssh, chk_cmd1)
                 exists = not int(out)
             if not exists:
-                mk_cmd = f'mkdir -p {remote_folder}'
+                mk_cmd = f'mkdir -p -- {folder}'
                 self._run_command(ssh, mk_cmd)
                 exists, isdir = self._check_remote_folder(ssh, remote_folder)
                 if not isdir:
-- 
2.43.0


From 2de7041d4523655922e7fa679786214a597a28ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:30 +0000
Subject: [PATCH 27/66] fix: SSH sender does not move a file into a directory
 of the same name

---
 impactutils/transfer/securesender.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index 4645161..d80e5f7 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -217,8 +217,10 @@ class SecureSender(Sender):
         remote_tmp_file = f'{remote_file}.tmp_{uuid.uuid4().hex}'
         print(f'Copying {local_file}...')
         scp.put(local_file, remote_tmp_file)
-        rename_cmd = (f'mv -- {self._quote(remote_tmp_file)} '
-                      f'{self._quote(remote_file)}')
+        # mv would put the file into an existing directory of that name
+        tmp_name = self._quote(remote_tmp_file)
+        new_name = self._quote(remote_file)
+        rename_cmd = f'[ ! -d {new_name} ] && mv -f -- {tmp_name} {new_name}'
         status, out, err = self._run_command(ssh, rename_cmd)
         if status != 0:
             raise Exception(f'Could not rename {remote_tmp_file} to '
-- 
2.43.0


From 0c82e0d77bd2ec18c006abf3a292a5d8f157436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:27 +0000
Subject: [PATCH 28/66] fix: SSH sender counts the files it has sent

---
 impactutils/transfer/securesender.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index d80e5f7..b96a046 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -79,15 +79,14 @@ class SecureSender(Sender):
 
         # do the copying
         try:
-            allfiles = []
             if len(self._local_files):
-                allfiles = self._local_files
-                for filename in allfiles:
+                for filename in self._local_files:
                     self._copy_file_with_path(
                         scp, ssh, filename, remote_folder)
 
             if self._local_directory is not None:
                 allfiles = self.getAllLocalFiles()
+                nfiles += len(allfiles)
                 for filename in allfiles:
                     self._copy_file_with_path(
                         scp, ssh, filename, remote_folder,
@@ -99,9 +98,6 @@ class SecureSender(Sender):
                 f'Could not send files to remote host {rhost}: "{str(obj)}"')
 
         nfiles += len(self._local_files)
-        if self._local_directory is not None:
-            nfiles += sum([len(files)
-                           for r, d, files in os.walk(self._local_directory)])
         scp.close()
         ssh.close()
         msg = f'{int(nfiles):d} files sent to remote host {remote_host}'
-- 
2.43.0


From 9f4c028745d458f66bbb977684722a926b490024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:27 +0000
Subject: [PATCH 29/66] fix: SSH cancel writes exactly the given content and
 reports failure

---
 impactutils/transfer/securesender.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index b96a046..693ba55 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -119,13 +119,13 @@ class SecureSender(Sender):
         remote_host = self._properties['remote_host']
         ssh = self._connect()
         cancelfile = os.path.join(remote_folder, self._cancelfile)
-        echo_cmd = f'echo {cancel_content} > {cancelfile}'
-        stdin, stdout, stderr1 = ssh.exec_command(echo_cmd)
-        chk_cmd = f'[ -e {cancelfile} ];echo $?'
-        stdin, stdout, stderr = ssh.exec_command(chk_cmd)
-        exists = not int(stdout.read().decode('utf-8').strip())
-        if not exists:
-            err = stderr1.read().decode('utf-8').strip()
+        if cancel_content is None:
+            cancel_content = ''
+        print_cmd = (f'printf %s {shlex.quote(cancel_content)} '
+                     f'> {self._quote(cancelfile)}')
+        status, out, err = self._run_command(ssh, print_cmd)
+        ssh.close()
+        if status != 0:
             fmt = (f'Could not create {cancelfile} file on '
                    f'remote_host {remote_host} due to error: {err}')
             raise Exception(fmt)
-- 
2.43.0


From 1c7c25a43d28d28bc49324d402affcc2957a5cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:33 +0000
Subject: [PATCH 30/66] fix: scp client is usable again after a failed transfer

---
 impactutils/extern/scp/scp.py | 47 +++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 88b1ddf..80d8339 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -140,21 +140,22 @@ class SCPClient(object):
         self.preserve_times = preserve_times
         self.channel = self._open()
         self._pushed = 0
-        self.channel.settimeout(self.socket_timeout)
-        scp_command = (b'scp -t ', b'scp -r -t ')[recursive]
-        self.channel.exec_command(scp_command +
-                                  self.sanitize(asbytes(remote_path)))
-        self._recv_confirm()
+        try:
+            self.channel.settimeout(self.socket_timeout)
+            scp_command = (b'scp -t ', b'scp -r -t ')[recursive]
+            self.channel.exec_command(scp_command +
+                                      self.sanitize(asbytes(remote_path)))
+            self._recv_confirm()
 
-        if not isinstance(files, (list, tuple)):
-            files = [files]
+            if not isinstance(files, (list, tuple)):
+                files = [files]
 
-        if recursive:
-            self._send_recursive(files)
-        else:
-            self._send_files(files)
-
-        self.close()
+            if recursive:
+                self._send_recursive(files)
+            else:
+                self._send_files(files)
+        finally:
+            self.close()
 
     def get(self, remote_path, local_path='',
             recursive=False, preserve_times=False):
@@ -187,14 +188,18 @@ class SCPClient(object):
         prsv = (b'', b' -p')[preserve_times]
         self.channel = self._open()
         self._pushed = 0
-        self.channel.settimeout(self.socket_timeout)
-        self.channel.exec_command(b"scp" +
-                                  rcsv +
-                                  prsv +
-                                  b" -f " +
-                                  b' '.join(remote_path))
-        self._recv_all()
-        self.close()
+        self._utime = None
+        self._dirtimes = {}
+        try:
+            self.channel.settimeout(self.socket_timeout)
+            self.channel.exec_command(b"scp" +
+                                      rcsv +
+                                      prsv +
+                                      b" -f " +
+                                      b' '.join(remote_path))
+            self._recv_all()
+        finally:
+            self.close()
 
     def _open(self):
         """
-- 
2.43.0


From 86a644d834262486581da98d162cc430902fed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:56 +0000
Subject: [PATCH 31/66] fix: scp upload of a file that changes size ends, and
 is exact or fails

---
 impactutils/extern/scp/scp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 80d8339..d9d7eb7 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -256,8 +256,14 @@ class SCPClient(object):
             buff_size = self.buff_size
             chan = self.channel
             while file_pos < size:
-                chan.sendall(file_hdl.read(buff_size))
-                file_pos = file_hdl.tell()
+                # send exactly the announced size, also if the file changes
+                data = file_hdl.read(min(buff_size, size - file_pos))
+                if not data:
+                    file_hdl.close()
+                    raise SCPException(
+                        f"File '{asunicode(name)}' became shorter while sent")
+                chan.sendall(data)
+                file_pos += len(data)
                 if self._progress:
                     self._progress(basename, size, file_pos)
             chan.sendall('\x00')
-- 
2.43.0


From 62ec95d57ff96317028b769aacd797d0246ec314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:56 +0000
Subject: [PATCH 32/66] fix: scp upload of several files fails if the target is
 not a directory

---
 impactutils/extern/scp/scp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index d9d7eb7..b019080 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -142,14 +142,17 @@ class SCPClient(object):
         self._pushed = 0
         try:
             self.channel.settimeout(self.socket_timeout)
+            if not isinstance(files, (list, tuple)):
+                files = [files]
+
             scp_command = (b'scp -t ', b'scp -r -t ')[recursive]
+            if len(files) > 1:
+                # several files need a directory, not one common target
+                scp_command = scp_command.replace(b'scp ', b'scp -d ')
             self.channel.exec_command(scp_command +
                                       self.sanitize(asbytes(remote_path)))
             self._recv_confirm()
 
-            if not isinstance(files, (list, tuple)):
-                files = [files]
-
             if recursive:
                 self._send_recursive(files)
             else:
-- 
2.43.0


From 4ad9f19a43255fe7cc0ef6c7ce721a83e3a249f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:56 +0000
Subject: [PATCH 33/66] fix: scp upload fails if a directory cannot be read

---
 impactutils/extern/scp/scp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index b019080..fcdeeb0 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -299,7 +299,7 @@ class SCPClient(object):
                 self._send_files([base])
                 continue
             last_dir = asbytes(base)
-            for root, dirs, fls in os.walk(base):
+            for root, dirs, fls in os.walk(base, onerror=self._walk_error):
                 self._chdir(last_dir, asbytes(root))
                 self._send_files([os.path.join(root, f) for f in fls])
                 last_dir = asbytes(root)
@@ -307,6 +307,10 @@ class SCPClient(object):
             while self._pushed > 0:
                 self._send_popd()
 
+    @staticmethod
+    def _walk_error(error):
+        raise error
+
     def _send_pushd(self, directory):
         (mode, size, mtime, atime) = self._read_stats(directory)
         basename = asbytes(os.path.basename(directory))
-- 
2.43.0


From ca6a9ab5399914b9279b45d821ac3c96ac4f6043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:56 +0000
Subject: [PATCH 34/66] fix: scp upload of a directory given with a trailing
 slash

---
 impactutils/extern/scp/scp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index fcdeeb0..0865eed 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -298,6 +298,7 @@ class SCPClient(object):
                 # filename mixed into the bunch
                 self._send_files([base])
                 continue
+            base = base.rstrip(asbytes('/') if isinstance(base, bytes) else '/')
             last_dir = asbytes(base)
             for root, dirs, fls in os.walk(base, onerror=self._walk_error):
                 self._chdir(last_dir, asbytes(root))
-- 
2.43.0


From 010b5756b48d2545c1c9f172fdc9f3593e7bf3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:56 +0000
Subject: [PATCH 35/66] fix: scp upload notices an error sent together with a
 confirmation

---
 impactutils/extern/scp/scp.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 0865eed..a97960b 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -335,10 +335,12 @@ class SCPClient(object):
         self._recv_confirm()
 
     def _recv_confirm(self):
-        # read scp response
+        # read one scp response: a byte, and a line of text if it is an error
         msg = b''
         try:
-            msg = self.channel.recv(512)
+            msg = self.channel.recv(1)
+            if msg and msg != b'\x00':
+                msg += self._recv_line()
         except SocketTimeout:
             raise SCPException('Timout waiting for scp response')
         # slice off the first byte, so this compare will work in py2 and py3
@@ -354,6 +356,16 @@ class SCPClient(object):
         else:
             raise SCPException('Invalid response from server', msg)
 
+    def _recv_line(self, limit=65536):
+        # read up to and including a line feed, or to the end of the stream
+        line = b''
+        while not line.endswith(b'\n') and len(line) < limit:
+            char = self.channel.recv(1)
+            if not char:
+                break
+            line += char
+        return line
+
     def _recv_all(self):
         # loop over scp commands, and receive as necessary
         command = {b'C': self._recv_file,
-- 
2.43.0


From 8ece1023139ac139e832e2d6839e9a26d3ab7173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:54 +0000
Subject: [PATCH 36/66] fix: scp download that breaks off is reported and ends

---
 impactutils/extern/scp/scp.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index a97960b..d24c1cf 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -372,19 +372,30 @@ class SCPClient(object):
                    b'T': self._set_time,
                    b'D': self._recv_pushd,
                    b'E': self._recv_popd}
-        while not self.channel.closed:
-            # wait for command as long as we're open
-            self.channel.sendall('\x00')
-            msg = self.channel.recv(1024)
+        while True:
+            # wait for commands until the other side has closed
+            if not self.channel.closed:
+                self.channel.sendall('\x00')
+            try:
+                msg = self._recv_line()
+            except SocketTimeout:
+                raise SCPException('Timeout waiting for scp command')
             if not msg:  # chan closed while recving
                 break
-            assert msg[-1:] == b'\n'
+            if msg[-1:] != b'\n':
+                raise SCPException('Incomplete scp command')
             msg = msg[:-1]
             code = msg[0:1]
             try:
                 command[code](msg[1:])
             except KeyError:
                 raise SCPException(asunicode(msg[1:]))
+        # the other side has to finish what it began, and successfully
+        if not self.channel.status_event.wait(self.socket_timeout):
+            raise SCPException('Timeout waiting for scp to finish')
+        status = self.channel.recv_exit_status()
+        if self._pushed or status != 0:
+            raise SCPException(f'scp ended early (exit status {status})')
         # directory times can't be set until we're done writing files
         self._set_dirtimes()
 
@@ -441,14 +452,18 @@ class SCPClient(object):
                 # we have to make sure we don't read the final byte
                 if size - pos <= buff_size:
                     buff_size = size - pos
-                file_hdl.write(chan.recv(buff_size))
+                data = chan.recv(buff_size)
+                if not data:
+                    raise SCPException('Connection closed while receiving')
+                file_hdl.write(data)
                 pos = file_hdl.tell()
                 if self._progress:
                     self._progress(path, size, pos)
 
-            msg = chan.recv(512)
-            if msg and msg[0:1] != b'\x00':
-                raise SCPException(asunicode(msg[1:]))
+            msg = chan.recv(1)
+            if msg != b'\x00':
+                raise SCPException(asunicode(self._recv_line()) or
+                                   'Connection closed while receiving')
         except SocketTimeout:
             chan.close()
             raise SCPException('Error receiving, socket.timeout')
@@ -489,12 +504,14 @@ class SCPClient(object):
             self._dirtimes[path] = (self._utime)
             self._utime = None
             self._recv_dir = path
+            self._pushed += 1
         except (OSError, SCPException) as e:
             self.channel.send(b'\x01' + asbytes(str(e)))
             raise
 
     def _recv_popd(self, *cmd):
         self._recv_dir = os.path.split(self._recv_dir)[0]
+        self._pushed -= 1
 
     def _set_dirtimes(self):
         try:
-- 
2.43.0


From 7f3de11644f16a98f4acfcc01e6006a28eca1288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:54 +0000
Subject: [PATCH 37/66] fix: scp download cannot be made to write outside the
 local path

---
 impactutils/extern/scp/scp.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index d24c1cf..c5fb672 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -191,6 +191,7 @@ class SCPClient(object):
         prsv = (b'', b' -p')[preserve_times]
         self.channel = self._open()
         self._pushed = 0
+        self._parents = []
         self._utime = None
         self._dirtimes = {}
         try:
@@ -412,11 +413,12 @@ class SCPClient(object):
 
     def _recv_file(self, cmd):
         chan = self.channel
-        parts = cmd.strip().split(b' ', 2)
+        parts = cmd.split(b' ', 2)
 
         try:
             mode = int(parts[0], 8)
             size = int(parts[1])
+            self._check_name(parts[2])
             if self._rename:
                 path = self._recv_dir
                 self._rename = False
@@ -482,6 +484,7 @@ class SCPClient(object):
         parts = cmd.split(b' ', 2)
         try:
             mode = int(parts[0], 8)
+            self._check_name(parts[2])
             if self._rename:
                 path = self._recv_dir
                 self._rename = False
@@ -503,14 +506,23 @@ class SCPClient(object):
                 raise SCPException(f'{path}: Not a directory')
             self._dirtimes[path] = (self._utime)
             self._utime = None
+            self._parents.append(self._recv_dir)
             self._recv_dir = path
             self._pushed += 1
         except (OSError, SCPException) as e:
             self.channel.send(b'\x01' + asbytes(str(e)))
             raise
 
+    @staticmethod
+    def _check_name(name):
+        # received files and directories must stay below the local path
+        if bytes_sep in name or name == b'..':
+            raise SCPException('Unexpected file name')
+
     def _recv_popd(self, *cmd):
-        self._recv_dir = os.path.split(self._recv_dir)[0]
+        if self._pushed == 0:
+            raise SCPException('End of a directory that was not begun')
+        self._recv_dir = self._parents.pop()
         self._pushed -= 1
 
     def _set_dirtimes(self):
-- 
2.43.0


From 8745be214479e2b2d12af731a2db82d1380af0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:42 +0000
Subject: [PATCH 38/66] fix: PDL sender passes every value to the client as one
 argument

---
 impactutils/transfer/pdlsender.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/impactutils/transfer/pdlsender.py b/impactutils/transfer/pdlsender.py
index 8732447..25006e9 100755
--- a/impactutils/transfer/pdlsender.py
+++ b/impactutils/transfer/pdlsender.py
@@ -3,6 +3,7 @@
 # stdlib imports
 import os.path
 import datetime
+import shlex
 
 # third party
 
@@ -16,6 +17,19 @@ from impactutils.exceptions import PDLError
 DATE_TIME_FMT = '%Y-%m-%dT%H:%M:%S.%f'
 
 
+def _quote(value):
+    # one shell word, in which a bracketed text is not taken for one of the
+    # placeholders of the command template (see _unmask)
+    value = str(value)
+    if '\0' in value:
+        raise PDLError('A PDL argument may not contain a null character.')
+    return shlex.quote(value).replace('[', '\0')
+
+
+def _unmask(cmd):
+    return cmd.replace('\0', '[')
+
+
 class PDLSender(Sender):
     """Class to invoke a PDL send command on a product.
 
@@ -97,7 +111,7 @@ class PDLSender(Sender):
 
     def _replace_required_properties(self, cmd):
         for propkey in self._required_properties:
-            propvalue = self._properties[propkey]
+            propvalue = _quote(self._properties[propkey])
             cmd = cmd.replace('[' + propkey.upper() + ']', propvalue)
         return cmd
 
@@ -115,23 +129,24 @@ class PDLSender(Sender):
                     prop_nuggets.append(
                         f'--property-{propkey}={propvalue.strftime(DATE_TIME_FMT)[0:23]}')
                 elif isinstance(propvalue, str):
-                    prop_nuggets.append(f'--property-{propkey}="{propvalue}"')
+                    prop_nuggets.append(f'--property-{propkey}={propvalue}')
                 else:
                     prop_nuggets.append(
                         f'--property-{propkey}={str(propvalue)}')
-            cmd = cmd.replace('[PRODUCT_PROPERTIES]', ' '.join(prop_nuggets))
+            cmd = cmd.replace('[PRODUCT_PROPERTIES]',
+                              ' '.join(_quote(p) for p in prop_nuggets))
         else:
             cmd = cmd.replace('[PRODUCT_PROPERTIES]', '')
         return cmd
 
     def _replace_files(self, cmd):
         if self._local_files:
-            cmd = cmd.replace('[FILE]', f'--file={self._local_files[0]}')
+            cmd = cmd.replace('[FILE]', _quote(f'--file={self._local_files[0]}'))
         else:
             cmd = cmd.replace('[FILE]', '')
         if self._local_directory:
             cmd = cmd.replace(
-                '[DIRECTORY]', f'--directory={self._local_directory}')
+                '[DIRECTORY]', _quote(f'--directory={self._local_directory}'))
         else:
             cmd = cmd.replace('[DIRECTORY]', '')
 
@@ -196,7 +211,7 @@ class PDLSender(Sender):
         cmd = self._replace_optional_properties(cmd)
 
         # call PDL on the command line
-        retcode, stdout, stderr = get_command_output(cmd)
+        retcode, stdout, stderr = get_command_output(_unmask(cmd))
         if not retcode:
             ptype = self._properties['type']
             fmt = f'Could not send product "{ptype}" due to error "{stdout + stderr}"'
@@ -244,7 +259,7 @@ class PDLSender(Sender):
         # fill in all the optional properties
         cmd = self._replace_optional_properties(cmd)
 
-        retcode, stdout, stderr = get_command_output(cmd)
+        retcode, stdout, stderr = get_command_output(_unmask(cmd))
         if not retcode:
             ptype = self._properties['type']
             fmt = (f'Could not delete product "{ptype}" due to error '
-- 
2.43.0


From 0a1f25d23117ff811fe6d3ab5364f8b3f5f30979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:42 +0000
Subject: [PATCH 39/66] fix: PDL send reports success whatever the encoding of
 the output

---
 impactutils/transfer/pdlsender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/pdlsender.py b/impactutils/transfer/pdlsender.py
index 25006e9..8140d61 100755
--- a/impactutils/transfer/pdlsender.py
+++ b/impactutils/transfer/pdlsender.py
@@ -225,7 +225,7 @@ class PDLSender(Sender):
             nfiles += sum([len(files)
                            for r, d, files in os.walk(self._local_directory)])
         numfiles = int(nfiles)
-        error_msg = stdout.decode('utf-8')
+        error_msg = stdout.decode('utf-8', errors='replace')
         msg = f'{numfiles:d} files sent successfully: resulting in output: "{error_msg}"'
         return (nfiles, msg)
 
-- 
2.43.0


From eb8fb04ae5deda2a2f407b64df8705767c4fa820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:41 +0000
Subject: [PATCH 40/66] fix: HDF container listings do not name emptied groups

---
 impactutils/io/smcontainers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index cff91ec..aeb9440 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -89,9 +89,9 @@ class HDFContainerBase(object):
         except Exception:
             return plist
         for kk in k:
-            paths = self._getGroupPaths(dd[kk])
-            if len(paths) > 0:
-                for path in paths:
+            item = dd[kk]
+            if isinstance(item, h5py.Group):
+                for path in self._getGroupPaths(item):
                     nn = kk + '/' + path
                     plist.append(nn)
             else:
@@ -728,7 +728,7 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
             return imts
 
         if component is None:
-            components = self._hdfobj['arrays']['imts'].keys()
+            components = self.getComponents()
             for comp in components:
                 imtlist = self._hdfobj['arrays']['imts'][comp].keys()
                 for imt in imtlist:
@@ -755,7 +755,8 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
            'imts' not in self._hdfobj['arrays']:
             return []
         if imt_name is None:
-            return list(self._hdfobj['arrays']['imts'].keys())
+            imts = self._hdfobj['arrays']['imts']
+            return [comp for comp in imts.keys() if len(imts[comp])]
         else:
             components = []
             for component in self.getComponents():
-- 
2.43.0


From 56bf4c16c0bc069df794b915716b0e1b1b1935e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:41 +0000
Subject: [PATCH 41/66] fix: HDF container keeps the old dictionary if the new
 one cannot be stored

---
 impactutils/io/smcontainers.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index aeb9440..0084b5c 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -136,12 +136,19 @@ class HDFContainerBase(object):
         Returns:
             nothing: Nothing.
         """
-        dict_group = self._makeGroup('dictionaries', groups)
         inbytes = json.dumps(dictionary).encode('utf-8')
+        dict_group = self._makeGroup('dictionaries', groups)
         dict_group.create_dataset(name, data=inbytes)
 
         return
 
+    def _replaceDictionary(self, name, dictionary):
+        # a dictionary that cannot be stored must not cost the old one
+        json.dumps(dictionary)
+        if name in self.getDictionaries():
+            self.dropDictionary([], name)
+        self.setDictionary([], name, dictionary)
+
     def dropDictionary(self, groups, name):
         """
         Delete dictionary from container.
@@ -344,9 +351,7 @@ class ShakeMapContainerBase(HDFContainerBase):
             config (dict--like): Dict--like object with configuration
                 information.
         """
-        if 'config' in self.getDictionaries():
-            self.dropDictionary([], 'config')
-        self.setDictionary([], 'config', config)
+        self._replaceDictionary('config', config)
 
     def getConfig(self):
         """
@@ -372,12 +377,10 @@ class ShakeMapContainerBase(HDFContainerBase):
             TypeError: If input object or dictionary does not
                 represent a Rupture object.
         """
-        if 'rupture' in self.getDictionaries():
-            self.dropDictionary([], 'rupture')
         if not isinstance(rupture, dict):
             fmt = 'Input dict does not represent a rupture object.'
             raise TypeError(fmt)
-        self.setDictionary([], 'rupture', rupture)
+        self._replaceDictionary('rupture', rupture)
 
     def getRuptureDict(self):
         """
@@ -406,9 +409,7 @@ class ShakeMapContainerBase(HDFContainerBase):
         if not isinstance(stationdict, dict):
             fmt = 'Input object is not a dictionary.'
             raise TypeError(fmt)
-        if 'stations_dict' in self.getDictionaries():
-            self.dropDictionary([], 'stations_dict')
-        self.setDictionary([], 'stations_dict', stationdict)
+        self._replaceDictionary('stations_dict', stationdict)
 
     def getStationDict(self):
         """
@@ -431,9 +432,7 @@ class ShakeMapContainerBase(HDFContainerBase):
         Args:
             history_dict (dict): Dictionary containing version history. ??
         """
-        if 'version_history' in self.getDictionaries():
-            self.dropDictionary([], 'version_history')
-        self.setDictionary([], 'version_history', history_dict)
+        self._replaceDictionary('version_history', history_dict)
         return
 
     def getVersionHistory(self):
@@ -519,9 +518,7 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
         Returns:
             nothing: Nothing.
         """
-        if 'info.json' in self.getDictionaries():
-            self.dropDictionary([], 'info.json')
-        self.setDictionary([], 'info.json', info)
+        self._replaceDictionary('info.json', info)
         return
 
     def getMetadata(self):
-- 
2.43.0


From ad90a16520898514f7eb2f2964afc6a7dfdff7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:41 +0000
Subject: [PATCH 42/66] fix: HDF container does not keep half of an object that
 cannot be stored

---
 impactutils/io/smcontainers.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index 0084b5c..dac9c8e 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -7,6 +7,21 @@ import h5py
 # local imports
 
 
+def _create_dataset(group, name, data, metadata=None, **kwargs):
+    # create a data set with its attributes, or nothing at all
+    exists = name in group
+    try:
+        dset = group.create_dataset(name, data=data, **kwargs)
+        if metadata:
+            for key, value in metadata.items():
+                dset.attrs[key] = value
+    except Exception:
+        if not exists and name in group:
+            del group[name]
+        raise
+    return dset
+
+
 class HDFContainerBase(object):
     def __init__(self, hdfobj):
         """
@@ -138,7 +153,7 @@ class HDFContainerBase(object):
         """
         inbytes = json.dumps(dictionary).encode('utf-8')
         dict_group = self._makeGroup('dictionaries', groups)
-        dict_group.create_dataset(name, data=inbytes)
+        _create_dataset(dict_group, name, inbytes)
 
         return
 
@@ -212,12 +227,8 @@ class HDFContainerBase(object):
             raise LookupError(
                 f'{name} already exists in {self._hdfobj.filename}')
 
-        dset = array_group.create_dataset(name, data=array,
-                                          compression=compression)
-        if metadata:
-            for key, value in metadata.items():
-                dset.attrs[key] = value
-        return dset
+        return _create_dataset(array_group, name, array, metadata,
+                               compression=compression)
 
     def getArray(self, groups, name):
         """
@@ -287,7 +298,7 @@ class HDFContainerBase(object):
         """
         string_group = self._makeGroup('strings', groups)
         inbytes = instring.encode('utf-8')
-        string_group.create_dataset(name, data=inbytes)
+        _create_dataset(string_group, name, inbytes)
         return
 
     def getString(self, groups, name):
-- 
2.43.0


From c9fccb13346df0bc73a91222e34f4d1de71aca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:41 +0000
Subject: [PATCH 43/66] fix: an IMT that cannot be stored does not change the
 ShakeMap container

---
 impactutils/io/smcontainers.py | 52 ++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index dac9c8e..227b5c9 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -542,6 +542,30 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
             raise LookupError(f'No metadata in {self.getFileName()}')
         return self.getDictionary([], 'info.json')
 
+    def _setIMT(self, datatype, component, imt_name, layers, compression):
+        # store all layers of an IMT, or nothing at all
+        sub_groups = ['imts', component, imt_name]
+        path = '/'.join(['arrays'] + sub_groups)
+        names = [layer[0] for layer in layers]
+        if any(f'{path}/{name}' in self._hdfobj for name in names):
+            raise LookupError(
+                f'{component}/{imt_name} already exists in {self.getFileName()}')
+        is_first = self.getDataType() is None
+        try:
+            self.setDataType(datatype)
+            for name, array, metadata in layers:
+                self.setArray(sub_groups, name, array, metadata=metadata,
+                              compression=compression)
+        except Exception:
+            for name in names:
+                if f'{path}/{name}' in self._hdfobj:
+                    del self._hdfobj[path][name]
+            if path in self._hdfobj and not len(self._hdfobj[path]):
+                del self._hdfobj[path]
+            if is_first and self.getDataType() is not None:
+                self.dropDictionary([], 'file_data_type')
+            raise
+
     def setIMTGrids(self, imt_name, imt_mean, mean_metadata,
                     imt_std, std_metadata, component,
                     compression=True):
@@ -567,11 +591,10 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
 
         if self.getDataType() == 'points':
             raise TypeError('Setting grid data in a file containing points')
-        self.setDataType('grid')
 
-        sub_groups = ['imts', component, imt_name]
-        self.setArray(sub_groups, 'mean', imt_mean, mean_metadata)
-        self.setArray(sub_groups, 'std', imt_std, std_metadata)
+        self._setIMT('grid', component, imt_name,
+                     [('mean', imt_mean, mean_metadata),
+                      ('std', imt_std, std_metadata)], True)
         return
 
     def getIMTGrids(self, imt_name, component):
@@ -643,7 +666,6 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
 
         if self.getDataType() == 'grid':
             raise TypeError('Setting point data in a file containing grids')
-        self.setDataType('points')
 
         #
         # Check that all of the arrays are the same
@@ -655,19 +677,13 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
            lons.shape != imt_std.shape:
             raise ValueError('All input arrays must be the same shape')
 
-        # set up the name of the group holding all the information for the IMT
-        sub_groups = ['imts', component, imt_name]
-
-        # create data sets containing the longitudes, latitudes, and ids
-
-        self.setArray(sub_groups, 'lons', lons, compression=compression)
-        self.setArray(sub_groups, 'lats', lats, compression=compression)
-        self.setArray(sub_groups, 'ids', ids, compression=compression)
-
-        self.setArray(sub_groups, 'mean', imt_mean, metadata=mean_metadata,
-                      compression=compression)
-        self.setArray(sub_groups, 'std', imt_std, metadata=std_metadata,
-                      compression=compression)
+        # create data sets containing the longitudes, latitudes, ids and values
+        self._setIMT('points', component, imt_name,
+                     [('lons', lons, None),
+                      ('lats', lats, None),
+                      ('ids', ids, None),
+                      ('mean', imt_mean, mean_metadata),
+                      ('std', imt_std, std_metadata)], compression)
         return
 
     def getIMTArrays(self, imt_name, component):
-- 
2.43.0


From 5b89a7da1f0276c62526775ef3ba6a85630afe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:41 +0000
Subject: [PATCH 44/66] fix: HDFContainer reads data frames with h5py 3

---
 impactutils/io/container.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index fa3cbcd..da86e2d 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -4,6 +4,7 @@
 from datetime import datetime
 import collections
 import copy
+import io
 import json
 import warnings
 
@@ -460,8 +461,11 @@ class HDFContainer(object):
         # date/time columns in an attribute.  Let's use that
         # now to make sure those are read back in with the appropriate
         # type
-        clist = json.loads(mdataset.attrs['time_columns'].decode('utf-8'))
-        dataframe = pd.read_json(outstring, convert_dates=clist)
+        clist = mdataset.attrs['time_columns']
+        if isinstance(clist, bytes):  # h5py before version 3
+            clist = clist.decode('utf-8')
+        dataframe = pd.read_json(io.StringIO(outstring),
+                                 convert_dates=json.loads(clist))
 
         return dataframe
 
-- 
2.43.0


From 6c29e7477fe3d1e582b69bad1efd6cc545357e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:11 +0000
Subject: [PATCH 45/66] fix: HDFContainer does not keep half of an object that
 cannot be stored

---
 impactutils/io/container.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index da86e2d..3feedf4 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -34,6 +34,21 @@ GROUPS = {'dict': 'dictionaries',
           'dataframe': 'dataframes'}
 
 
+def _create_dataset(group, name, data, metadata=None, **kwargs):
+    # create a data set with its attributes, or nothing at all
+    exists = name in group
+    try:
+        dset = group.create_dataset(name, data=data, **kwargs)
+        if metadata:
+            for key, value in metadata.items():
+                dset.attrs[key] = value
+    except Exception:
+        if not exists and name in group:
+            del group[name]
+        raise
+    return dset
+
+
 class HDFContainer(object):
     def __init__(self, hdfobj):
         """
@@ -139,7 +154,7 @@ class HDFContainer(object):
             dict_group = self._hdfobj[GROUPS['dict']]
 
         inbytes = json.dumps(dictionary).encode('utf-8')
-        mdataset = dict_group.create_dataset(dict_name, data=inbytes)
+        mdataset = _create_dataset(dict_group, dict_name, inbytes)
 
         return mdataset
 
@@ -197,7 +212,7 @@ class HDFContainer(object):
             list_group = self._hdfobj[GROUPS['list']]
 
         inbytes = json.dumps(inlist).encode('utf-8')
-        mdataset = list_group.create_dataset(list_name, data=inbytes)
+        mdataset = _create_dataset(list_group, list_name, inbytes)
 
         return mdataset
 
@@ -282,12 +297,8 @@ class HDFContainer(object):
         else:
             array_group = self._hdfobj[GROUPS['array']]
 
-        dset = array_group.create_dataset(
-            array_name, data=array, compression=compression)
-        if metadata:
-            for key, value in metadata.items():
-                dset.attrs[key] = value
-        return dset
+        return _create_dataset(array_group, array_name, array, metadata,
+                               compression=compression)
 
     def getArray(self, name):
         """
@@ -362,7 +373,7 @@ class HDFContainer(object):
             string_group = self._hdfobj[GROUPS['string']]
 
         inbytes = instring.encode('utf-8')
-        mdataset = string_group.create_dataset(string_name, data=inbytes)
+        mdataset = _create_dataset(string_group, string_name, inbytes)
 
         return mdataset
 
@@ -432,13 +443,12 @@ class HDFContainer(object):
             dataframe_group = self._hdfobj[GROUPS['dataframe']]
 
         inbytes = dataframe.to_json(date_format='iso').encode('utf-8')
-        mdataset = dataframe_group.create_dataset(dataframe_name, data=inbytes)
         # use attributes to store time columns?
         cidx = dataframe.select_dtypes(include=['datetime64[ns]']).columns
         clist = cidx.tolist()
         cstr = json.dumps(clist)
-        mdataset.attrs['time_columns'] = cstr.encode('utf-8')
-        return mdataset
+        return _create_dataset(dataframe_group, dataframe_name, inbytes,
+                               {'time_columns': cstr.encode('utf-8')})
 
     def getDataFrame(self, name):
         """Return a DataFrame stored in container.
-- 
2.43.0


From 8c3c1b0e0df526744317d9302d7a88909ff146c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:37 +0000
Subject: [PATCH 46/66] fix: HDFContainer keeps the order of the rows of a data
 frame

---
 impactutils/io/container.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index 3feedf4..a4b9c30 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -476,6 +476,8 @@ class HDFContainer(object):
             clist = clist.decode('utf-8')
         dataframe = pd.read_json(io.StringIO(outstring),
                                  convert_dates=json.loads(clist))
+        # the rows come back ordered by the text of their labels (0, 1, 10, 2)
+        dataframe = dataframe.sort_index()
 
         return dataframe
 
-- 
2.43.0


From 4377f1ab8776870fe24ccd612bbf3f820b155a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:44 +0000
Subject: [PATCH 47/66] fix: event file that could not be written to disk is
 reported

---
 impactutils/rupture/origin.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index ba3505c..d373f0c 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -249,8 +249,13 @@ def write_event_file(event, xmlfile):
         else:
             root.attrib['event_type'] = 'ACTUAL'
 
-        tree = etree.ElementTree(root)
-        tree.write(xmlfile, pretty_print=True)
+        data = etree.tostring(root, pretty_print=True)
+        if hasattr(xmlfile, 'write'):
+            xmlfile.write(data)
+        else:
+            # not with etree, which does not notice a full disk on closing
+            with open(xmlfile, 'wb') as f:
+                f.write(data)
     except Exception as e:
         return str(e)
 
-- 
2.43.0


From ba5901c995a21179ebaa0c446b9e7db53116d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:44 +0000
Subject: [PATCH 48/66] fix: saved cities read back as they were

---
 impactutils/mapping/city.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 2eee84d..13c072d 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -165,7 +165,8 @@ class Cities(object):
         Returns:
             Cities instance
         """
-        df = pd.read_csv(csvfile)
+        # texts like "NA" (Namibia) are not missing values
+        df = pd.read_csv(csvfile, converters={'name': str, 'ccode': str})
         return cls(df)
 
     def len(self):
@@ -185,7 +186,7 @@ class Cities(object):
         Returns:
             None
         """
-        self._dataframe.to_csv(filename)
+        self._dataframe.to_csv(filename, index=False)
 
     def sortByColumns(self, columns, ascending=True):
         """Sort list of cities by input column names.
-- 
2.43.0


From b48cb3b20a71595299c809c89fc86c7916392ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:33 +0000
Subject: [PATCH 49/66] fix: times before the year 1000 are written with a year
 of four digits

strptime, and so reading the written event file or rupture back, refuses
fewer digits.
---
 impactutils/time/ancient_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 5d852c7..60b9475 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -39,7 +39,7 @@ class HistoricTime(datetime):
         future_year = year + factor * 400
         assert future_year > 1900
 
-        format = Specifier('%Y').replace_in(format, year)
+        format = Specifier('%Y').replace_in(format, f'{year:04d}')
         result = self.replace(year=future_year).strftime(format)
         if any(f.ispresent_in(format) for f in map(Specifier, ['%c', '%x'])):
             msg = "'%c', '%x' produce unreliable results for year < 1900"
-- 
2.43.0


From 5af896598e5782e61f43d2ead6390cef42cb283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:51 +0000
Subject: [PATCH 50/66] fix: an edge rupture made from whole numbers can be
 saved

json does not write numpy integers, so writeGeoJson raised and left half a
file.
---
 impactutils/rupture/edge_rupture.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index b65a0ab..357d248 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -127,12 +127,12 @@ class EdgeRupture(Rupture):
             EdgeRupture instance.
 
         """
-        toplons = np.array(toplons)
-        toplats = np.array(toplats)
-        topdeps = np.array(topdeps)
-        botlons = np.array(botlons)
-        botlats = np.array(botlats)
-        botdeps = np.array(botdeps)
+        toplons = np.array(toplons, dtype='d')
+        toplats = np.array(toplats, dtype='d')
+        topdeps = np.array(topdeps, dtype='d')
+        botlons = np.array(botlons, dtype='d')
+        botlats = np.array(botlats, dtype='d')
+        botdeps = np.array(botdeps, dtype='d')
         if group_index is not None:
             group_index = np.array(group_index)
         else:
-- 
2.43.0


From 5d0a82dff4c0ff4a5534f96264e886b814f714cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:31 +0000
Subject: [PATCH 51/66] fix: reference in a rupture text file reads back as
 written

The file was written in the encoding of the locale and read as latin-1, so a
reference with an accent came back as other characters. Write it as utf-8 and
read utf-8, or latin-1 where the file is not.
---
 impactutils/rupture/factory.py      | 8 +++++++-
 impactutils/rupture/quad_rupture.py | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index ca57dd9..88d12e4 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -300,7 +300,13 @@ def text_to_json(file, new_format=True):
     if hasattr(file, 'read'):
         f = file
     else:
-        f = open(file, 'rt', encoding="latin-1")
+        try:
+            with open(file, 'rt', encoding='utf-8') as f:
+                f.read()
+            encoding = 'utf-8'
+        except UnicodeDecodeError:
+            encoding = 'latin-1'
+        f = open(file, 'rt', encoding=encoding)
         isfile = True
 
     reference = ''
diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index 7a5c52f..d30a57e 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -405,7 +405,7 @@ class QuadRupture(Rupture):
 
         """
         if not hasattr(rupturefile, 'read'):
-            f = open(rupturefile, 'wt')
+            f = open(rupturefile, 'wt', encoding='utf-8')
         else:
             f = rupturefile  # just a reference to the input file-like object
         f.write(f'#{self._reference}\n')
-- 
2.43.0


From ad84d1bcfec62d801b0f699aaaccb3c7f9ccef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:44 +0000
Subject: [PATCH 52/66] fix: get_distance does not change the mesh spacing of
 the rupture

Later and concurrent distance calculations with the same rupture used the
spacing of that call.
---
 impactutils/rupture/distance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impactutils/rupture/distance.py b/impactutils/rupture/distance.py
index 3684f23..a7fc962 100755
--- a/impactutils/rupture/distance.py
+++ b/impactutils/rupture/distance.py
@@ -168,6 +168,8 @@ def get_distance(methods, lat, lon, dep, rupture, dx=0.5):
     Returns:
        dict: dictionary of numpy arrays of distances, size of lon.shape.
     """
+    # the caller's rupture keeps its own spacing
+    rupture = copy.copy(rupture)
     rupture._mesh_dx = dx
 
     # Dictionary for holding/returning the requested distances
-- 
2.43.0


From b2ba1704a9ef9fbb3eb81fb42e5b40c317f576a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:26 +0000
Subject: [PATCH 53/66] fix: scp upload waits for the remote scp to end and
 reports its late errors

---
 impactutils/extern/scp/scp.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index c5fb672..1e18e5c 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -157,6 +157,7 @@ class SCPClient(object):
                 self._send_recursive(files)
             else:
                 self._send_files(files)
+            self._finish()
         finally:
             self.close()
 
@@ -357,6 +358,24 @@ class SCPClient(object):
         else:
             raise SCPException('Invalid response from server', msg)
 
+    def _finish(self):
+        # nothing more is sent: the other side has to end without an error
+        self.channel.shutdown_write()
+        try:
+            msg = self._recv_line()
+        except SocketTimeout:
+            raise SCPException('Timeout waiting for scp to finish')
+        if msg:
+            raise SCPException(asunicode(msg[1:]))
+        self._check_status()
+
+    def _check_status(self):
+        if not self.channel.status_event.wait(self.socket_timeout):
+            raise SCPException('Timeout waiting for scp to finish')
+        status = self.channel.recv_exit_status()
+        if self._pushed or status != 0:
+            raise SCPException(f'scp ended early (exit status {status})')
+
     def _recv_line(self, limit=65536):
         # read up to and including a line feed, or to the end of the stream
         line = b''
@@ -392,11 +411,7 @@ class SCPClient(object):
             except KeyError:
                 raise SCPException(asunicode(msg[1:]))
         # the other side has to finish what it began, and successfully
-        if not self.channel.status_event.wait(self.socket_timeout):
-            raise SCPException('Timeout waiting for scp to finish')
-        status = self.channel.recv_exit_status()
-        if self._pushed or status != 0:
-            raise SCPException(f'scp ended early (exit status {status})')
+        self._check_status()
         # directory times can't be set until we're done writing files
         self._set_dirtimes()
 
-- 
2.43.0


From 9ced747fde21ecfa47c497adaaccf88a04cfb108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:58 +0000
Subject: [PATCH 54/66] fix: data frames come back from the HDF container as
 stored

Texts that look like numbers or times became such, columns called "date" or
"..._at" were converted, labels changed type, times were cut to milliseconds
and rows came back sorted.
---
 impactutils/io/container.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index a4b9c30..8cf194f 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -442,13 +442,17 @@ class HDFContainer(object):
         else:
             dataframe_group = self._hdfobj[GROUPS['dataframe']]
 
-        inbytes = dataframe.to_json(date_format='iso').encode('utf-8')
+        inbytes = dataframe.to_json(orient='split', date_format='iso',
+                                    date_unit='ns').encode('utf-8')
         # use attributes to store time columns?
-        cidx = dataframe.select_dtypes(include=['datetime64[ns]']).columns
+        cidx = dataframe.select_dtypes(include=['datetime', 'datetimetz']).columns
         clist = cidx.tolist()
         cstr = json.dumps(clist)
+        time_index = isinstance(dataframe.index, pd.DatetimeIndex)
         return _create_dataset(dataframe_group, dataframe_name, inbytes,
-                               {'time_columns': cstr.encode('utf-8')})
+                               {'time_columns': cstr.encode('utf-8'),
+                                'time_index': time_index,
+                                'orient': 'split'})
 
     def getDataFrame(self, name):
         """Return a DataFrame stored in container.
@@ -474,10 +478,22 @@ class HDFContainer(object):
         clist = mdataset.attrs['time_columns']
         if isinstance(clist, bytes):  # h5py before version 3
             clist = clist.decode('utf-8')
-        dataframe = pd.read_json(io.StringIO(outstring),
-                                 convert_dates=json.loads(clist))
-        # the rows come back ordered by the text of their labels (0, 1, 10, 2)
-        dataframe = dataframe.sort_index()
+        clist = json.loads(clist)
+        if 'orient' in mdataset.attrs:
+            # rows in their order, and nothing guessed from texts or names
+            dataframe = pd.read_json(io.StringIO(outstring),
+                                     orient=mdataset.attrs['orient'],
+                                     dtype=False, convert_axes=False,
+                                     convert_dates=clist or False,
+                                     keep_default_dates=False)
+            if mdataset.attrs['time_index']:
+                dataframe.index = pd.to_datetime(dataframe.index)
+        else:
+            # stored by an earlier version: the rows come back ordered by
+            # the text of their labels (0, 1, 10, 2)
+            dataframe = pd.read_json(io.StringIO(outstring),
+                                     convert_dates=clist)
+            dataframe = dataframe.sort_index()
 
         return dataframe
 
-- 
2.43.0


From 14816c73a9a9a71a97b2083663dc7933fc8e87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:28 +0000
Subject: [PATCH 55/66] fix: numbers of data frames come back from the HDF
 container exactly

They were rounded to ten decimals, and infinite ones became missing.
---
 impactutils/io/container.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index 8cf194f..5d53052 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -442,8 +442,16 @@ class HDFContainer(object):
         else:
             dataframe_group = self._hdfobj[GROUPS['dataframe']]
 
-        inbytes = dataframe.to_json(orient='split', date_format='iso',
-                                    date_unit='ns').encode('utf-8')
+        content = json.loads(dataframe.to_json(orient='split',
+                                               date_format='iso',
+                                               date_unit='ns'))
+        # to_json() rounds numbers and loses infinite ones
+        for icol, dtype in enumerate(dataframe.dtypes):
+            if dtype in (np.float64, np.float32):
+                numbers = dataframe.iloc[:, icol].tolist()
+                for row, number in zip(content['data'], numbers):
+                    row[icol] = number
+        inbytes = json.dumps(content).encode('utf-8')
         # use attributes to store time columns?
         cidx = dataframe.select_dtypes(include=['datetime', 'datetimetz']).columns
         clist = cidx.tolist()
@@ -484,6 +492,7 @@ class HDFContainer(object):
             dataframe = pd.read_json(io.StringIO(outstring),
                                      orient=mdataset.attrs['orient'],
                                      dtype=False, convert_axes=False,
+                                     precise_float=True,
                                      convert_dates=clist or False,
                                      keep_default_dates=False)
             if mdataset.attrs['time_index']:
-- 
2.43.0


From d98ed845a230b128132b9fd38fcb458209e80c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:16 +0000
Subject: [PATCH 56/66] fix: PDL send with a directory that cannot be read
 reports a wrong count

---
 impactutils/transfer/pdlsender.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/impactutils/transfer/pdlsender.py b/impactutils/transfer/pdlsender.py
index 8140d61..db686aa 100755
--- a/impactutils/transfer/pdlsender.py
+++ b/impactutils/transfer/pdlsender.py
@@ -192,6 +192,13 @@ class PDLSender(Sender):
         if len(self._local_files) > 1:
             raise PDLError('For PDL, you may only send one file at a time.')
 
+        # count the files first, a directory that cannot be read would
+        # otherwise go unnoticed
+        try:
+            nfiles = len(self._local_files) + len(self.getAllLocalFiles())
+        except OSError as e:
+            raise PDLError(f'Could not read the files to be sent: {e}')
+
         # build pdl command line from properties
         cmd = self._pdlcmd
 
@@ -218,12 +225,6 @@ class PDLSender(Sender):
             raise PDLError(fmt)
 
         # return the number of files we just sent
-        nfiles = 0
-        if self._local_files:
-            nfiles += 1
-        if self._local_directory:
-            nfiles += sum([len(files)
-                           for r, d, files in os.walk(self._local_directory)])
         numfiles = int(nfiles)
         error_msg = stdout.decode('utf-8', errors='replace')
         msg = f'{numfiles:d} files sent successfully: resulting in output: "{error_msg}"'
-- 
2.43.0


From 50d656000cbdd458f3f167d843ed3ee9a552df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:43 +0000
Subject: [PATCH 57/66] fix: quadrilaterals of every segment of an edge
 rupture, not of the first one again

---
 impactutils/rupture/edge_rupture.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index 357d248..d668224 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -502,7 +502,8 @@ class EdgeRupture(Rupture):
         for i in range(ngroup):
             ind = np.where(self._group_index == ugroup[i])[0]
             nq = len(ind) - 1
-            for j in range(nq):
+            for k in range(nq):
+                j = ind[k]
                 P0 = Point(self._toplons[j],
                            self._toplats[j],
                            self._topdeps[j])
-- 
2.43.0


From 657be8b67d5fc605627a0668f0202290a0c73b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:43 +0000
Subject: [PATCH 58/66] fix: read a palette file once, not header and table
 from what may be two files

---
 impactutils/colors/cpalette.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/impactutils/colors/cpalette.py b/impactutils/colors/cpalette.py
index 89b6f85..a126cfc 100644
--- a/impactutils/colors/cpalette.py
+++ b/impactutils/colors/cpalette.py
@@ -1,3 +1,6 @@
+# stdlib imports
+import io
+
 # third party imports
 from matplotlib.colors import LinearSegmentedColormap
 import numpy as np
@@ -241,8 +244,10 @@ class ColorPalette(object):
         nan_color = (0, 0, 0, 0)
         name = 'generic'
         resolution = None
-        f = open(filename, 'rt')
-        for line in f.readlines():
+        # read the file once, it may be replaced by another one meanwhile
+        with open(filename, 'rt') as f:
+            text = f.read()
+        for line in io.StringIO(text):
             tline = line.strip()
             if tline.startswith('#$nan_color'):
                 parts = tline[2:].split(':')
@@ -255,8 +260,7 @@ class ColorPalette(object):
             elif tline.startswith('#$resolution'):
                 parts = tline[2:].split(':')
                 resolution = float(parts[1].strip())
-        f.close()
-        df = pd.read_csv(filename, comment='#', sep=r'\s+', header=0)
+        df = pd.read_csv(io.StringIO(text), comment='#', sep=r'\s+', header=0)
         rgb0 = list(zip(df.R0, df.G0, df.B0))
         rgb1 = list(zip(df.R1, df.G1, df.B1))
         return cls(name=name, z0=df.Z0, z1=df.Z1, rgb0=rgb0, rgb1=rgb1,
-- 
2.43.0


From 248ba32522a02d9c4382e594d40f3f396afb5369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:43 +0000
Subject: [PATCH 59/66] fix: palette names may contain a colon

---
 impactutils/colors/cpalette.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/colors/cpalette.py b/impactutils/colors/cpalette.py
index a126cfc..2353df9 100644
--- a/impactutils/colors/cpalette.py
+++ b/impactutils/colors/cpalette.py
@@ -255,7 +255,7 @@ class ColorPalette(object):
                 colortuple = tuple([int(xpi) for xpi in value])
                 nan_color = colortuple
             elif tline.startswith('#$name'):
-                parts = tline[2:].split(':')
+                parts = tline[2:].split(':', 1)
                 name = parts[1].strip()
             elif tline.startswith('#$resolution'):
                 parts = tline[2:].split(':')
-- 
2.43.0


From 145360b74938f746ae65b63ce134c8668ec56fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:43 +0000
Subject: [PATCH 60/66] fix: values in source files may contain an equals sign

---
 impactutils/rupture/origin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index d373f0c..ce59337 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -430,7 +430,7 @@ def read_source(sourcefile):
     for line in f.readlines():
         if line.startswith('#'):
             continue
-        parts = line.split('=')
+        parts = line.split('=', 1)
         key = parts[0].strip()
         value = parts[1].strip()
         # see if this is some sort of number
-- 
2.43.0


From bea164360a8a4b579aacdc775416f00417e16c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:43 +0000
Subject: [PATCH 61/66] fix: read a rupture file once, and GeoJSON as UTF-8

---
 impactutils/rupture/factory.py | 40 +++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index 88d12e4..a360478 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 
 # stdlib modules
+import io
 import json
 import logging
 import copy
@@ -55,13 +56,17 @@ def get_rupture(origin, file=None, mesh_dx=0.5, new_format=True):
         raise TypeError("An Origin is requred.")
 
     if file is not None:
+        source = file
         try:
             # -----------------------------------------------------------------
             # First, try to read as a json file
             # -----------------------------------------------------------------
             if isinstance(file, str):
-                with open(file, encoding="latin-1") as f:
-                    d = json.load(f)
+                # read the file once, it may be replaced by another one
+                # meanwhile
+                text = _read_text(file)
+                source = io.StringIO(text)
+                d = json.loads(text)
             else:
                 d = json.loads(str(file))
 
@@ -76,7 +81,7 @@ def get_rupture(origin, file=None, mesh_dx=0.5, new_format=True):
             # Reading as json failed, so hopefully it is a ShakeMap 3 text file
             # -----------------------------------------------------------------
             try:
-                d = text_to_json(file, new_format=new_format)
+                d = text_to_json(source, new_format=new_format)
                 rupt = rupture_from_dict_and_origin(d, origin, mesh_dx=mesh_dx)
             except ValueError as e:
                 logging.error(e)
@@ -261,6 +266,27 @@ def _check_polygon(p):
                 'Top points must be ordered before bottom points.')
 
 
+def _read_text(file):
+    """
+    Read a rupture file, which is in UTF-8, or else in Latin-1.
+
+    Args:
+        file (str):
+            Path to rupture file.
+
+    Returns:
+        str: The text in the file.
+
+    """
+    with open(file, 'rb') as f:
+        data = f.read()
+    try:
+        text = data.decode('utf-8')
+    except UnicodeDecodeError:
+        text = data.decode('latin-1')
+    return io.StringIO(text, newline=None).getvalue()
+
+
 def text_to_json(file, new_format=True):
     """
     Read in old or new ShakeMap 3 textfile rupture format and convert to
@@ -300,13 +326,7 @@ def text_to_json(file, new_format=True):
     if hasattr(file, 'read'):
         f = file
     else:
-        try:
-            with open(file, 'rt', encoding='utf-8') as f:
-                f.read()
-            encoding = 'utf-8'
-        except UnicodeDecodeError:
-            encoding = 'latin-1'
-        f = open(file, 'rt', encoding=encoding)
+        f = io.StringIO(_read_text(file))
         isfile = True
 
     reference = ''
-- 
2.43.0


From d00c3f0d2ca263303c27bef61961df4bd012fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:43 +0000
Subject: [PATCH 62/66] fix: read the time-zone raster once, not its header and
 data from what may be two files

---
 impactutils/time/timeutils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index af942c1..1d764a5 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -2,6 +2,7 @@
 from collections import OrderedDict
 from datetime import datetime, timedelta
 from functools import partial
+import io
 import json
 import os.path
 from urllib import parse, request
@@ -523,7 +524,9 @@ class TimeConversion(object):
         Returns:
             ndarray of the raster.
         """
-        image = Image.open(self._filepath)
+        # read the file once, it may be replaced by another one meanwhile
+        with open(self._filepath, 'rb') as f:
+            image = Image.open(io.BytesIO(f.read()))
         image_array = np.asarray(image)
         # Reshape to reflect dimensions of the map
         raster = image_array.reshape(self._shape)
-- 
2.43.0


From d3339b86bd5a5aa4fecb38755927f4a1e794d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:46 +0000
Subject: [PATCH 63/66] fix: dropping the name of a sub-group deleted every
 entry below it

---
 impactutils/io/smcontainers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index 227b5c9..e43724a 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -177,7 +177,7 @@ class HDFContainerBase(object):
             nothing: Nothing.
         """
         dict_group = self._getGroup('dictionaries', groups)
-        if name not in dict_group:
+        if not isinstance(dict_group.get(name), h5py.Dataset):
             raise LookupError(
                 f'dictionary {name} not in {self._hdfobj.filename}')
         del dict_group[name]
@@ -275,6 +275,8 @@ class HDFContainerBase(object):
 
         """
         array_group = self._getGroup('arrays', groups)
+        if not isinstance(array_group.get(name), h5py.Dataset):
+            raise LookupError(f'array {name} not in {self._hdfobj.filename}')
         del array_group[name]
 
     #
@@ -344,7 +346,7 @@ class HDFContainerBase(object):
             nothing: Nothing.
         """
         string_group = self._getGroup('strings', groups)
-        if name not in string_group:
+        if not isinstance(string_group.get(name), h5py.Dataset):
             raise LookupError(f'string {name} not in {self._hdfobj.filename}')
         del string_group[name]
 
-- 
2.43.0


From 9f8b0502f26535cfffdbabd623b02eef1df1d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:56 +0000
Subject: [PATCH 64/66] fix: changing the arrays got from Cities.getCities()
 changed the city table

---
 impactutils/mapping/city.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 13c072d..6e5775d 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -373,9 +373,9 @@ class Cities(object):
         Returns:
             tuple of (lat, lon, names) where each is a numpy array.
         """
-        lat = self._dataframe['lat'].values
-        lon = self._dataframe['lon'].values
-        names = self._dataframe['name'].values
+        lat = self._dataframe['lat'].values.copy()
+        lon = self._dataframe['lon'].values.copy()
+        names = self._dataframe['name'].values.copy()
         return (lat, lon, names)
 
     def project(self, mbasemap):
-- 
2.43.0


From 83a2a7b37dcdf5436e5208ecab1eb87f5c57ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:51 +0000
Subject: [PATCH 65/66] fix: number labels of data frame rows were rounded in
 the HDF container

Also numbers in columns which hold texts as well.
---
 impactutils/io/container.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index 5d53052..77a6232 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -447,10 +447,13 @@ class HDFContainer(object):
                                                date_unit='ns'))
         # to_json() rounds numbers and loses infinite ones
         for icol, dtype in enumerate(dataframe.dtypes):
-            if dtype in (np.float64, np.float32):
+            if dtype in (np.float64, np.float32, object):
                 numbers = dataframe.iloc[:, icol].tolist()
                 for row, number in zip(content['data'], numbers):
-                    row[icol] = number
+                    if isinstance(number, float):
+                        row[icol] = number
+        if dataframe.index.dtype in (np.float64, np.float32):
+            content['index'] = dataframe.index.tolist()
         inbytes = json.dumps(content).encode('utf-8')
         # use attributes to store time columns?
         cidx = dataframe.select_dtypes(include=['datetime', 'datetimetz']).columns
-- 
2.43.0


From 3d369b2ffb7e9c5891440d4fcbefbc583b96be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:43 +0000
Subject: [PATCH 66/66] fix: event files with the date and time in separate
 attributes can be read

---
 impactutils/rupture/origin.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index ce59337..5152330 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -386,13 +386,15 @@ def read_event_file(eventxml):
            'day' not in xmldict or 'hour' not in xmldict or \
            'minute' not in xmldict or 'second' not in xmldict:
             raise ValueError("Missing date/time elements in event file.")
-        eqdict['time'] = HistoricTime.datetime(
-            xmldict['year'],
-            xmldict['month'],
-            xmldict['day'],
-            xmldict['hour'],
-            xmldict['minute'],
-            xmldict['second'])
+        second = float(xmldict['second'])
+        eqdict['time'] = HistoricTime(
+            int(xmldict['year']),
+            int(xmldict['month']),
+            int(xmldict['day']),
+            int(xmldict['hour']),
+            int(xmldict['minute']),
+            int(second),
+            min(round(second % 1 * 1e6), 999999))
 
     eqdict['lat'] = float(xmldict['lat'])
     eqdict['lon'] = float(xmldict['lon'])
-- 
2.43.0

