From 23e7c1a4c8562e85a02017baccc1700f4964de6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 01/18] fix: report too new bmap versions with an Error, not a
 TypeError

---
 bmaptools/BmapCopy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index 9de7ef4..4ef5c8e 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -421,9 +421,9 @@ class BmapCopy(object):
         self.bmap_version_minor = int(self.bmap_version.split(".", 1)[1])
         if self.bmap_version_major > int(SUPPORTED_BMAP_VERSION.split(".", 1)[0]):
             raise Error(
-                "only bmap format version up to %d is supported, "
-                "version %d is not supported"
-                % (SUPPORTED_BMAP_VERSION, self.bmap_version_major)
+                "only bmap format version up to %s is supported, "
+                "version %s is not supported"
+                % (SUPPORTED_BMAP_VERSION, self.bmap_version)
             )
 
         # Fetch interesting data from the bmap XML file
-- 
2.43.0


From 7e175cb550da72f7d5ab9f051cb61909a6f32c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 02/18] fix: initialize _bmap_path so that a short bmap-less
 copy ends with an Error

---
 bmaptools/BmapCopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index 4ef5c8e..d7fba6d 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -247,7 +247,7 @@ class BmapCopy(object):
         self.mapped_percent = None
 
         self._f_bmap = None
-        self._f_bmap_path = None
+        self._bmap_path = None
 
         self._progress_started = None
         self._progress_index = None
-- 
2.43.0


From 8f2ecbd26ffe114a98e74d5af575aaea2b38112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 03/18] fix: copy images whose bmap block size is larger than
 the batch size

---
 bmaptools/BmapCopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index d7fba6d..5f76fee 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -295,7 +295,7 @@ class BmapCopy(object):
         if image_size:
             self._set_image_size(image_size)
 
-        self._batch_blocks = self._batch_bytes // self.block_size
+        self._batch_blocks = max(self._batch_bytes // self.block_size, 1)
 
     def set_psplash_pipe(self, path):
         """
-- 
2.43.0


From d6b04642490ef8eae9f31e5aa0f84065d4d3c5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 04/18] fix: flush buffered data before setting the final
 destination file size

---
 bmaptools/BmapCopy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index 5f76fee..8d72595 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -763,6 +763,11 @@ class BmapCopy(object):
                 )
             )
 
+        try:
+            self._f_dest.flush()
+        except IOError as err:
+            raise Error("cannot flush '%s': %s" % (self._dest_path, err))
+
         if self._dest_is_regfile:
             # Make sure the destination file has the same size as the image
             try:
@@ -770,11 +775,6 @@ class BmapCopy(object):
             except OSError as err:
                 raise Error("cannot truncate file '%s': %s" % (self._dest_path, err))
 
-        try:
-            self._f_dest.flush()
-        except IOError as err:
-            raise Error("cannot flush '%s': %s" % (self._dest_path, err))
-
         if sync:
             self.sync()
 
-- 
2.43.0


From 1fd6c7ccdec56990a391f63df6c037bb06b12a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 05/18] fix: fail if the image ends before the last mapped
 block of the bmap

---
 bmaptools/BmapCopy.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index 8d72595..e965eb7 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -641,6 +641,13 @@ class BmapCopy(object):
                         )
 
                     if not buf:
+                        if self._f_bmap:
+                            raise Error(
+                                "the image file '%s' ends before block %d which "
+                                "is mapped according to the bmap file '%s'"
+                                % (self._image_path, start, self._bmap_path)
+                            )
+
                         _log.debug(
                             "no more data to read from file '%s'", self._image_path
                         )
-- 
2.43.0


From 73bbdda725cdbbf36f8743437b87aa5ca16a64db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 06/18] fix: check that sshpass is available before running it

---
 bmaptools/TransRead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index 3d1dd9c..9d4c315 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -510,7 +510,7 @@ class TransRead(object):
             ]
 
             # Make sure the sshpass program is installed
-            if not BmapHelpers.program_is_available("ssh"):
+            if not BmapHelpers.program_is_available("sshpass"):
                 raise Error(
                     'the "sshpass" program is not available but it '
                     "is required for password-based SSH authentication"
-- 
2.43.0


From bfd84febfd42a0f9a37520aa0facb7e8586d3a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 07/18] fix: do not crash with a NameError on a malformed netrc
 file

---
 bmaptools/TransRead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index 9d4c315..d81dcc9 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -603,7 +603,7 @@ class TransRead(object):
                     password = auth[2]
             except FileNotFoundError:
                 pass
-            except netc.NetrcParseError as e:
+            except netrc.NetrcParseError as e:
                 _log.error(f"Error parsing line {e.lineno} of {e.filename}: {e.msg}")
 
         if username and password:
-- 
2.43.0


From a5826e0d950585431b716e283b26e7d460fb7254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 08/18] fix: exit with a failure status when out of memory

---
 bmaptools/CLI.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bmaptools/CLI.py b/bmaptools/CLI.py
index 82303b7..e653f18 100644
--- a/bmaptools/CLI.py
+++ b/bmaptools/CLI.py
@@ -792,6 +792,8 @@ def main():
             for line in file_obj:
                 print(line.strip())
 
+        return 1
+
 
 if __name__ == "__main__":
     sys.exit(main())
-- 
2.43.0


From cc4e47bd0d29fdf24198ad6e727402f67d38bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 09/18] fix: verify clearsign bmap files and use the signed
 bmap contents

---
 bmaptools/CLI.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/bmaptools/CLI.py b/bmaptools/CLI.py
index e653f18..4fe995d 100644
--- a/bmaptools/CLI.py
+++ b/bmaptools/CLI.py
@@ -259,16 +259,16 @@ def verify_clearsign_bmap_signature(args, bmap_obj):
     try:
         context = gpg.Context()
         signature = io.FileIO(bmap_obj.name)
-        plaintext = io.BytesIO()
-        sigs = context.verify(plaintext, signature, None)
+        plaintext, result = context.verify(signature)
+        sigs = result.signatures
     except gpg.errors.GPGMEError as err:
         error_out(
             "failure when trying to verify GPG signature: %s\n"
             "make sure the bmap file has proper GPG format",
-            err[2].lower(),
+            err.getstring(),
         )
     except gpg.errors.BadSignatures as err:
-        error_out("discovered a BAD GPG signature: %s\n", sig_path)
+        error_out("discovered a BAD GPG signature: %s\n", bmap_obj.name)
 
     if not args.no_sig_verify:
         if len(sigs) == 0:
@@ -280,11 +280,12 @@ def verify_clearsign_bmap_signature(args, bmap_obj):
             report_verification_results(context, sigs)
 
     try:
-        tmp_obj = tempfile.TemporaryFile("w+")
+        tmp_obj = tempfile.TemporaryFile("wb+")
     except IOError as err:
         error_out("cannot create a temporary file for bmap:\n%s", err)
 
-    tmp_obj.write(plaintext.getvalue())
+    tmp_obj.write(plaintext)
+    tmp_obj.flush()
     tmp_obj.seek(0)
     return tmp_obj
 
@@ -315,7 +316,7 @@ def verify_bmap_signature(args, bmap_obj, bmap_path):
     if not bmap_obj:
         return None
 
-    clearsign_marker = "-----BEGIN PGP SIGNED MESSAGE-----"
+    clearsign_marker = b"-----BEGIN PGP SIGNED MESSAGE-----"
     buf = bmap_obj.read(len(clearsign_marker))
     bmap_obj.seek(0)
 
-- 
2.43.0


From f0b8ab9273bc5613bc1017ec52a05b49d0fa86dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 10/18] fix: do not crash with an OverflowError when reading
 everything at once

---
 bmaptools/TransRead.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index d81dcc9..b02e5a9 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -669,8 +669,9 @@ class TransRead(object):
         """
 
         if size < 0:
-            size = 0xFFFFFFFFFFFFFFFF
-        buf = self._f_objs[-1].read(size)
+            buf = self._f_objs[-1].read()
+        else:
+            buf = self._f_objs[-1].read(size)
         self._pos += len(buf)
 
         return buf
-- 
2.43.0


From 91432a7423f593c767809d371d2a92322ac83338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:51 +0000
Subject: [PATCH 11/18] fix: fail if the decompressor or ssh process providing
 the data fails

---
 bmaptools/TransRead.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index b02e5a9..e5585cc 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -662,6 +662,23 @@ class TransRead(object):
         self.is_url = True
         self._f_objs.append(f_obj)
 
+    def _check_child_status(self):
+        """
+        This function is called when there is no more data to read. If the data
+        come from a child process (e.g., the decompressor), make sure the
+        process did not fail, because the data are incomplete in that case.
+        """
+
+        if not self._child_processes:
+            return
+
+        retcode = self._child_processes[-1].wait()
+        if retcode != 0:
+            raise Error(
+                "cannot read '%s': the program which provides its contents "
+                "failed with exit status %d" % (self.name, retcode)
+            )
+
     def read(self, size=-1):
         """
         Read the data from the file or URL and and uncompress it on-the-fly if
@@ -674,6 +691,9 @@ class TransRead(object):
             buf = self._f_objs[-1].read(size)
         self._pos += len(buf)
 
+        if size < 0 or len(buf) < size:
+            self._check_child_status()
+
         return buf
 
     def seek(self, offset, whence=os.SEEK_SET):
-- 
2.43.0


From af0e5041535df22d9223e73eccc03ba3413abbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 12/18] fix: do not skip the bmap checksum if the checksum type
 is blank

A bmap file with an empty <ChecksumType> element got its checksum type
parsed as an empty string, which was treated like a bmap without
checksums, so the checksum of the bmap file was not verified.
---
 bmaptools/BmapCopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index e965eb7..dae30f0 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -469,7 +469,7 @@ class BmapCopy(object):
             self._cs_attrib_name = "sha1"
             self._bmap_cs_attrib_name = "BmapFileSHA1"
 
-        if self._cs_type:
+        if self._cs_type is not None:
             try:
                 self._cs_len = len(hashlib.new(self._cs_type).hexdigest())
             except ValueError as err:
-- 
2.43.0


From 13202e5470c5e9c52d10ade6839a401367dd18ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:52 +0000
Subject: [PATCH 13/18] fix: make tell() work on streams which cannot seek

TransRead.tell() raised io.UnsupportedOperation for an uncompressed http
URL unless seek() had been called before.
---
 bmaptools/TransRead.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index e5585cc..d349896 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -714,7 +714,10 @@ class TransRead(object):
         if self._fake_seek or not hasattr(self._f_objs[-1], "tell"):
             return self._pos
         else:
-            return self._f_objs[-1].tell()
+            try:
+                return self._f_objs[-1].tell()
+            except io.UnsupportedOperation:
+                return self._pos
 
     def close(self):
         """Close the file-like object."""
-- 
2.43.0


From 43f0840e4f50e9d7bf32e6f61f73b187c14ee7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 14/18] fix: do not lose data if holes are smaller than the
 block size

---
 bmaptools/Filemap.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bmaptools/Filemap.py b/bmaptools/Filemap.py
index 6eb1213..aa7b974 100644
--- a/bmaptools/Filemap.py
+++ b/bmaptools/Filemap.py
@@ -295,8 +295,18 @@ class FilemapSeek(_FilemapBase):
             if end > limit:
                 end = limit
 
-            start_blk = start // self.block_size
+            # The file-system may report data and holes which are smaller than
+            # the block size (e.g., NFS). A block is mapped if any part of it
+            # is mapped.
+            if whence1 == _SEEK_DATA:
+                end = (end + self.block_size - 1) // self.block_size * self.block_size
+                start_blk = start // self.block_size
+            else:
+                start_blk = (start + self.block_size - 1) // self.block_size
             end_blk = end // self.block_size - 1
+            if start_blk > end_blk:
+                continue
+
             _log.debug("FilemapSeek: yielding range (%d, %d)" % (start_blk, end_blk))
             yield (start_blk, end_blk)
 
-- 
2.43.0


From f59720e22877645635ba1c00b5163a2598405fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 15/18] fix: recognize ZFS in the output of df

---
 bmaptools/BmapHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bmaptools/BmapHelpers.py b/bmaptools/BmapHelpers.py
index 0498995..b6fd882 100644
--- a/bmaptools/BmapHelpers.py
+++ b/bmaptools/BmapHelpers.py
@@ -116,7 +116,7 @@ def get_file_system_type(path):
         if len(lines) >= 2:
             fields = lines[1].split(None, 2)
             if len(fields) >= 2:
-                ftype = fields[1].lower()
+                ftype = fields[1].lower().decode("utf-8", "replace")
 
     if not ftype:
         raise Error(
-- 
2.43.0


From 792c29a7a189f1b66aecb3eddc27337d28f87745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 16/18] fix: do not fail if the psplash pipe vanishes

The pipe may be removed between the check whether it exists and the check
whether it is a pipe. Then, os.stat() raises an OSError which breaks the
copying, although the psplash progress is documented as best effort.
---
 bmaptools/BmapCopy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index dae30f0..9d3228a 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -313,7 +313,12 @@ class BmapCopy(object):
         a best effort.
         """
 
-        if os.path.exists(path) and stat.S_ISFIFO(os.stat(path).st_mode):
+        try:
+            is_pipe = stat.S_ISFIFO(os.stat(path).st_mode)
+        except OSError:
+            is_pipe = False
+
+        if is_pipe:
             self._psplash_pipe = path
         else:
             _log.warning(
-- 
2.43.0


From 91d823a51f77e402ed422e06b3f9a7609b7c59fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 17/18] fix: report malformed bmap files with an Error, not an
 internal exception

---
 bmaptools/BmapCopy.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index 9d3228a..d267c97 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -284,7 +284,16 @@ class BmapCopy(object):
         if bmap:
             self._f_bmap = bmap
             self._bmap_path = bmap.name
-            self._parse_bmap()
+            try:
+                self._parse_bmap()
+            except (
+                AttributeError,
+                IndexError,
+                TypeError,
+                ValueError,
+                ZeroDivisionError,
+            ) as err:
+                raise Error("bad bmap file '%s': %s" % (self._bmap_path, err))
         else:
             # There is no bmap. Initialize user-visible attributes to something
             # sensible with an assumption that we just have all blocks mapped.
@@ -380,7 +389,10 @@ class BmapCopy(object):
         mapped_bmap = mmap.mmap(self._f_bmap.fileno(), 0, access=mmap.ACCESS_COPY)
 
         chksum_pos = mapped_bmap.find(correct_chksum.encode())
-        assert chksum_pos != -1
+        if chksum_pos == -1:
+            raise Error(
+                "cannot find the checksum of bmap file '%s' in it" % self._bmap_path
+            )
 
         mapped_bmap[chksum_pos : chksum_pos + self._cs_len] = b"0" * self._cs_len
 
@@ -436,6 +448,8 @@ class BmapCopy(object):
         self.blocks_cnt = int(xml.find("BlocksCount").text.strip())
         self.mapped_cnt = int(xml.find("MappedBlocksCount").text.strip())
         self.image_size = int(xml.find("ImageSize").text.strip())
+        if self.block_size < 1 or self.mapped_cnt < 0 or self.image_size < 0:
+            raise Error("bad sizes in the bmap file '%s'" % self._bmap_path)
         self.image_size_human = human_size(self.image_size)
         self.mapped_size = self.mapped_cnt * self.block_size
         self.mapped_size_human = human_size(self.mapped_size)
@@ -571,21 +585,23 @@ class BmapCopy(object):
         # We have the bmap, just read it and yield block ranges
         xml = self._xml
         xml_bmap = xml.find("BlockMap")
+        if xml_bmap is None:
+            raise Error("no block map in the bmap file '%s'" % self._bmap_path)
 
         for xml_element in xml_bmap.findall("Range"):
-            blocks_range = xml_element.text.strip()
+            blocks_range = (xml_element.text or "").strip()
             # The range of blocks has the "X - Y" format, or it can be just "X"
             # in old bmap format versions. First, split the blocks range string
             # and strip white-spaces.
             split = [x.strip() for x in blocks_range.split("-", 1)]
 
-            first = int(split[0])
-            if len(split) > 1:
-                last = int(split[1])
-                if first > last:
-                    raise Error("bad range (first > last): '%s'" % blocks_range)
-            else:
-                last = first
+            try:
+                first = int(split[0])
+                last = int(split[-1])
+            except ValueError:
+                raise Error("bad range (not a number): '%s'" % blocks_range)
+            if first > last:
+                raise Error("bad range (first > last): '%s'" % blocks_range)
 
             if self._cs_attrib_name in xml_element.attrib:
                 chksum = xml_element.attrib[self._cs_attrib_name]
-- 
2.43.0


From 7f0e0c14a7cc2774d478618feec2c41a20aac030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 18/18] fix: do not take a failed transfer for the end of the
 data

---
 bmaptools/TransRead.py | 51 ++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index d349896..cd8a29f 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -174,6 +174,8 @@ class TransRead(object):
         self._child_processes = []
         # The reader thread
         self._rthread = None
+        # The exception which made the reader thread stop reading
+        self._transfer_error = None
         # This variable becomes 'True' when the instance of this class is not
         # usable any longer.
         self._done = False
@@ -235,7 +237,16 @@ class TransRead(object):
         chunk_size = 1024 * 1024
         try:
             while not self._done:
-                buf = f_from.read(chunk_size)
+                try:
+                    buf = f_from.read(chunk_size)
+                    if not buf:
+                        self._check_source(f_from)
+                except Exception as err:
+                    # The decompressor gets EOF and may well be happy with the
+                    # data it has got so far, so 'read()' has to report this.
+                    self._transfer_error = err
+                    break
+
                 if not buf:
                     break
 
@@ -662,21 +673,29 @@ class TransRead(object):
         self.is_url = True
         self._f_objs.append(f_obj)
 
-    def _check_child_status(self):
+    def _check_source(self, f_obj):
         """
-        This function is called when there is no more data to read. If the data
-        come from a child process (e.g., the decompressor), make sure the
-        process did not fail, because the data are incomplete in that case.
+        This function is called when there is no more data to read from
+        'f_obj'. If the data come from a child process (e.g., the decompressor
+        or ssh), make sure the process did not fail, because the data are
+        incomplete in that case. And if they come from an URL, make sure the
+        server did not close the connection too early.
         """
 
-        if not self._child_processes:
-            return
-
-        retcode = self._child_processes[-1].wait()
-        if retcode != 0:
+        for child in self._child_processes:
+            if child.stdout is f_obj:
+                retcode = child.wait()
+                if retcode != 0:
+                    raise Error(
+                        "cannot read '%s': the program which provides its contents "
+                        "failed with exit status %d" % (self.name, retcode)
+                    )
+
+        missing = getattr(f_obj, "length", None)
+        if missing:
             raise Error(
-                "cannot read '%s': the program which provides its contents "
-                "failed with exit status %d" % (self.name, retcode)
+                "cannot read '%s': the connection was closed too early, %d bytes "
+                "are missing" % (self.name, missing)
             )
 
     def read(self, size=-1):
@@ -691,8 +710,12 @@ class TransRead(object):
             buf = self._f_objs[-1].read(size)
         self._pos += len(buf)
 
-        if size < 0 or len(buf) < size:
-            self._check_child_status()
+        if (size < 0 or len(buf) < size) and (not buf or self._child_processes):
+            self._check_source(self._f_objs[-1])
+            if self._transfer_error:
+                raise Error(
+                    "the transfer of '%s' failed: %s" % (self.name, self._transfer_error)
+                )
 
         return buf
 
-- 
2.43.0

